#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <controller_manager_msgs/ControllerState.h>
namespace controller_manager_msgs {
struct ListControllerTypesRequest {   };
struct ListControllerTypesResponse { std::vector<std::string> types, base_classes; };
struct ListControllerTypes { typedef ListControllerTypesRequest Request; typedef ListControllerTypesResponse Response; Request request; Response response; };
}
