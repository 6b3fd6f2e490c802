// Minimal stand-in for rostime's Duration (offline build of ros_control).
#pragma once
#include <ros/common.h>
#include <cstdint>
#include <cmath>
#include <stdexcept>
#include <ostream>
#include <climits>
#include <chrono>
#include <thread>
namespace ros {
class Duration {
public:
  int32_t sec, nsec;
  Duration() : sec(0), nsec(0) {}
  Duration(int32_t s, int32_t ns) { set(int64_t(s) * 1000000000LL + ns); }
  explicit Duration(double t) { fromSec(t); }
  Duration& fromSec(double t) {
    int64_t s = int64_t(std::floor(t));
    int64_t ns = int64_t(std::round((t - double(s)) * 1e9));
    set(s * 1000000000LL + ns); return *this; }
  Duration& fromNSec(int64_t t) { set(t); return *this; }
  double toSec() const { return double(sec) + 1e-9 * double(nsec); }
  int64_t toNSec() const { return int64_t(sec) * 1000000000LL + nsec; }
  bool isZero() const { return sec == 0 && nsec == 0; }
  bool sleep() const { if (toNSec() > 0) std::this_thread::sleep_for(std::chrono::nanoseconds(toNSec())); return true; }
  Duration operator+(const Duration& o) const { return mk(toNSec() + o.toNSec()); }
  Duration operator-(const Duration& o) const { return mk(toNSec() - o.toNSec()); }
  Duration operator-() const { return mk(-toNSec()); }
  Duration operator*(double s) const { return Duration(toSec() * s); }
  Duration& operator+=(const Duration& o) { *this = *this + o; return *this; }
  Duration& operator-=(const Duration& o) { *this = *this - o; return *this; }
  Duration& operator*=(double s) { *this = *this * s; return *this; }
  bool operator==(const Duration& o) const { return toNSec() == o.toNSec(); }
  bool operator!=(const Duration& o) const { return toNSec() != o.toNSec(); }
  bool operator<(const Duration& o) const { return toNSec() < o.toNSec(); }
  bool operator>(const Duration& o) const { return toNSec() > o.toNSec(); }
  bool operator<=(const Duration& o) const { return toNSec() <= o.toNSec(); }
  bool operator>=(const Duration& o) const { return toNSec() >= o.toNSec(); }
  static Duration mk(int64_t ns) { Duration d; d.set(ns); return d; }
private:
  void set(int64_t ns) {
    int64_t s = ns / 1000000000LL, r = ns % 1000000000LL;
    if (r < 0) { r += 1000000000LL; s -= 1; }
    sec = int32_t(s); nsec = int32_t(r); }
};
typedef Duration WallDuration;
inline std::ostream& operator<<(std::ostream& o, const Duration& d) { return o << d.toSec(); }
static const Duration DURATION_MAX(INT32_MAX, 999999999);
static const Duration DURATION_MIN(INT32_MIN, 0);
}
