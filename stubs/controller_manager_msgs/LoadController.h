#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <controller_manager_msgs/ControllerState.h>
namespace controller_manager_msgs {
struct LoadControllerRequest { std::string name;  };
struct LoadControllerResponse { uint8_t ok = 0; };
struct LoadController { typedef LoadControllerRequest Request; typedef LoadControllerResponse Response; Request request; Response response; };
}
