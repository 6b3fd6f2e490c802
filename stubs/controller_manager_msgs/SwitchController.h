#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <controller_manager_msgs/ControllerState.h>
namespace controller_manager_msgs {
struct SwitchControllerRequest { std::vector<std::string> start_controllers, stop_controllers; int32_t strictness = 0; uint8_t start_asap = 0; double timeout = 0; enum { BEST_EFFORT = 1, STRICT = 2 }; };
struct SwitchControllerResponse { uint8_t ok = 0; };
struct SwitchController { typedef SwitchControllerRequest Request; typedef SwitchControllerResponse Response; Request request; Response response; };
}
