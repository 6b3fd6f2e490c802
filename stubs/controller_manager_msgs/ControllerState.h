#pragma once
#include <controller_manager_msgs/HardwareInterfaceResources.h>
namespace controller_manager_msgs { struct ControllerState { std::string name, state, type; std::vector<HardwareInterfaceResources> claimed_resources; }; }
