#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <controller_manager_msgs/ControllerState.h>
namespace controller_manager_msgs {
struct UnloadControllerRequest { std::string name;  };
struct UnloadControllerResponse { uint8_t ok = 0; };
struct UnloadController { typedef UnloadControllerRequest Request; typedef UnloadControllerResponse Response; Request request; Response response; };
}
