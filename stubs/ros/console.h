#pragma once
#include <ros/common.h>
#include <cstdio>
#include <cstdarg>
#include <string>
#include <sstream>
#include <iomanip>
#include <iostream>
namespace ros { namespace stub { void log(int level, const std::string& msg);
inline void logf(int level, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
inline void logf(int level, const char* fmt, ...) {
  char buf[4096]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap); log(level, buf); }
inline std::string& lastname() { static std::string s; return s; }
} }
#define ROSSTUB_F(lvl, ...) do { ::ros::stub::logf(lvl, __VA_ARGS__); } while (0)
#define ROSSTUB_S(lvl, args) do { std::stringstream rosstub_ss_; rosstub_ss_ << args; ::ros::stub::log(lvl, rosstub_ss_.str()); } while (0)
#define ROSSTUB_N(name) do { std::stringstream rosstub_n_; rosstub_n_ << name; } while (0)
#define ROS_DEBUG(...) ROSSTUB_F(0, __VA_ARGS__)
#define ROS_INFO(...)  ROSSTUB_F(1, __VA_ARGS__)
#define ROS_WARN(...)  ROSSTUB_F(2, __VA_ARGS__)
#define ROS_ERROR(...) ROSSTUB_F(3, __VA_ARGS__)
#define ROS_FATAL(...) ROSSTUB_F(4, __VA_ARGS__)
#define ROS_DEBUG_STREAM(a) ROSSTUB_S(0, a)
#define ROS_INFO_STREAM(a)  ROSSTUB_S(1, a)
#define ROS_WARN_STREAM(a)  ROSSTUB_S(2, a)
#define ROS_ERROR_STREAM(a) ROSSTUB_S(3, a)
#define ROS_FATAL_STREAM(a) ROSSTUB_S(4, a)
#define ROS_DEBUG_NAMED(n, ...) do { ROSSTUB_N(n); ROSSTUB_F(0, __VA_ARGS__); } while (0)
#define ROS_INFO_NAMED(n, ...)  do { ROSSTUB_N(n); ROSSTUB_F(1, __VA_ARGS__); } while (0)
#define ROS_WARN_NAMED(n, ...)  do { ROSSTUB_N(n); ROSSTUB_F(2, __VA_ARGS__); } while (0)
#define ROS_ERROR_NAMED(n, ...) do { ROSSTUB_N(n); ROSSTUB_F(3, __VA_ARGS__); } while (0)
#define ROS_FATAL_NAMED(n, ...) do { ROSSTUB_N(n); ROSSTUB_F(4, __VA_ARGS__); } while (0)
#define ROS_DEBUG_STREAM_NAMED(n, a) do { ROSSTUB_N(n); ROSSTUB_S(0, a); } while (0)
#define ROS_INFO_STREAM_NAMED(n, a)  do { ROSSTUB_N(n); ROSSTUB_S(1, a); } while (0)
#define ROS_WARN_STREAM_NAMED(n, a)  do { ROSSTUB_N(n); ROSSTUB_S(2, a); } while (0)
#define ROS_ERROR_STREAM_NAMED(n, a) do { ROSSTUB_N(n); ROSSTUB_S(3, a); } while (0)
#define ROS_FATAL_STREAM_NAMED(n, a) do { ROSSTUB_N(n); ROSSTUB_S(4, a); } while (0)
#define ROSSTUB_IF(c, x) do { if (c) { x; } } while (0)
#define ROS_DEBUG_COND(c, ...) ROSSTUB_IF(c, ROS_DEBUG(__VA_ARGS__))
#define ROS_INFO_COND(c, ...)  ROSSTUB_IF(c, ROS_INFO(__VA_ARGS__))
#define ROS_WARN_COND(c, ...)  ROSSTUB_IF(c, ROS_WARN(__VA_ARGS__))
#define ROS_ERROR_COND(c, ...) ROSSTUB_IF(c, ROS_ERROR(__VA_ARGS__))
#define ROS_FATAL_COND(c, ...) ROSSTUB_IF(c, ROS_FATAL(__VA_ARGS__))
#define ROS_DEBUG_STREAM_COND(c, a) ROSSTUB_IF(c, ROS_DEBUG_STREAM(a))
#define ROS_INFO_STREAM_COND(c, a)  ROSSTUB_IF(c, ROS_INFO_STREAM(a))
#define ROS_WARN_STREAM_COND(c, a)  ROSSTUB_IF(c, ROS_WARN_STREAM(a))
#define ROS_ERROR_STREAM_COND(c, a) ROSSTUB_IF(c, ROS_ERROR_STREAM(a))
#define ROS_FATAL_STREAM_COND(c, a) ROSSTUB_IF(c, ROS_FATAL_STREAM(a))
#define ROS_DEBUG_ONCE(...) ROS_DEBUG(__VA_ARGS__)
#define ROS_INFO_ONCE(...)  ROS_INFO(__VA_ARGS__)
#define ROS_WARN_ONCE(...)  ROS_WARN(__VA_ARGS__)
#define ROS_ERROR_ONCE(...) ROS_ERROR(__VA_ARGS__)
#define ROS_FATAL_ONCE(...) ROS_FATAL(__VA_ARGS__)
#define ROS_DEBUG_STREAM_ONCE(a) ROS_DEBUG_STREAM(a)
#define ROS_INFO_STREAM_ONCE(a)  ROS_INFO_STREAM(a)
#define ROS_WARN_STREAM_ONCE(a)  ROS_WARN_STREAM(a)
#define ROS_ERROR_STREAM_ONCE(a) ROS_ERROR_STREAM(a)
#define ROS_DEBUG_THROTTLE(p, ...) ROS_DEBUG(__VA_ARGS__)
#define ROS_INFO_THROTTLE(p, ...)  ROS_INFO(__VA_ARGS__)
#define ROS_WARN_THROTTLE(p, ...)  ROS_WARN(__VA_ARGS__)
#define ROS_ERROR_THROTTLE(p, ...) ROS_ERROR(__VA_ARGS__)
#define ROS_DEBUG_STREAM_THROTTLE(p, a) ROS_DEBUG_STREAM(a)
#define ROS_INFO_STREAM_THROTTLE(p, a)  ROS_INFO_STREAM(a)
#define ROS_WARN_STREAM_THROTTLE(p, a)  ROS_WARN_STREAM(a)
#define ROS_ERROR_STREAM_THROTTLE(p, a) ROS_ERROR_STREAM(a)
#define ROS_WARN_COND_NAMED(c, n, ...) ROSSTUB_IF(c, ROS_WARN_NAMED(n, __VA_ARGS__))
#define ROS_ERROR_COND_NAMED(c, n, ...) ROSSTUB_IF(c, ROS_ERROR_NAMED(n, __VA_ARGS__))
#define ROS_ASSERT(c) do { if (!(c)) { ROS_FATAL("ASSERT %s", #c); __builtin_trap(); } } while (0)
#define ROS_ASSERT_MSG(c, ...) do { if (!(c)) { ROS_FATAL(__VA_ARGS__); __builtin_trap(); } } while (0)
#define ROS_BREAK() __builtin_trap()
#define ROSCONSOLE_DEFAULT_NAME "ros"
