#pragma once
#include <ros/common.h>
#include <ros/console.h>
#include <ros/assert.h>
#include <ros/exception.h>
#include <ros/time.h>
#include <ros/node_handle.h>
namespace ros { 
bool isShuttingDown();
inline void init(int&, char**, const std::string&, uint32_t = 0) {}
inline void spinOnce() {} inline void spin() {} inline void requestShutdown() { shutdown(); } inline void waitForShutdown() {}
class AsyncSpinner { public: AsyncSpinner(uint32_t) {} void start() {} void stop() {} };
}
