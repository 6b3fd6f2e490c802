#pragma once
// real ROS headers drag most of the standard library in; files in the repository rely on that
#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <unordered_map>
#include <utility>
#include <vector>
#define ROS_VERSION_MAJOR 1
#define ROS_VERSION_MINOR 15
#define ROS_VERSION_PATCH 0
#define ROS_VERSION_COMBINED(major, minor, patch) (((major) << 20) | ((minor) << 10) | (patch))
#define ROS_VERSION ROS_VERSION_COMBINED(ROS_VERSION_MAJOR, ROS_VERSION_MINOR, ROS_VERSION_PATCH)
#define ROS_VERSION_GE(a1,a2,a3,b1,b2,b3) (ROS_VERSION_COMBINED(a1,a2,a3) >= ROS_VERSION_COMBINED(b1,b2,b3))
#define ROS_VERSION_MINIMUM(a1,a2,a3) ROS_VERSION_GE(ROS_VERSION_MAJOR, ROS_VERSION_MINOR, ROS_VERSION_PATCH, a1, a2, a3)
#define ROS_DEPRECATED
