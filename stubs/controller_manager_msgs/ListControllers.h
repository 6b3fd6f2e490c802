#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <controller_manager_msgs/ControllerState.h>
namespace controller_manager_msgs {
struct ListControllersRequest {   };
struct ListControllersResponse { std::vector<ControllerState> controller; };
struct ListControllers { typedef ListControllersRequest Request; typedef ListControllersResponse Response; Request request; Response response; };
}
