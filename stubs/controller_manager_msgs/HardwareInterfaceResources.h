#pragma once
#include <string>
#include <vector>
namespace controller_manager_msgs { struct HardwareInterfaceResources { std::string hardware_interface; std::vector<std::string> resources; }; }
