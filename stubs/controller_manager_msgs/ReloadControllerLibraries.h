#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <controller_manager_msgs/ControllerState.h>
namespace controller_manager_msgs {
struct ReloadControllerLibrariesRequest { uint8_t force_kill = 0;  };
struct ReloadControllerLibrariesResponse { uint8_t ok = 0; };
struct ReloadControllerLibraries { typedef ReloadControllerLibrariesRequest Request; typedef ReloadControllerLibrariesResponse Response; Request request; Response response; };
}
