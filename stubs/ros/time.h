#pragma once
#include <ros/duration.h>
namespace ros {
class Time {
public:
  uint32_t sec, nsec;
  Time() : sec(0), nsec(0) {}
  Time(uint32_t s, uint32_t ns) : sec(s + ns / 1000000000u), nsec(ns % 1000000000u) {}
  explicit Time(double t) { fromSec(t); }
  static Time now();
  static void init() {}
  static bool isValid() { return true; }
  static bool isSimTime() { return false; }
  static bool isSystemTime() { return true; }
  static bool waitForValid() { return true; }
  static bool sleepUntil(const Time&) { return true; }
  Time& fromSec(double t) {
    int64_t s = int64_t(std::floor(t));
    int64_t n = int64_t(std::round((t - double(s)) * 1e9));
    return fromNSec(uint64_t(s * 1000000000LL + n)); }
  Time& fromNSec(uint64_t t) { sec = uint32_t(t / 1000000000ULL); nsec = uint32_t(t % 1000000000ULL); return *this; }
  double toSec() const { return double(sec) + 1e-9 * double(nsec); }
  uint64_t toNSec() const { return uint64_t(sec) * 1000000000ULL + nsec; }
  bool isZero() const { return sec == 0 && nsec == 0; }
  bool is_zero() const { return isZero(); }
  Duration operator-(const Time& o) const { return Duration::mk(int64_t(toNSec()) - int64_t(o.toNSec())); }
  Time operator+(const Duration& d) const { Time t; t.fromNSec(uint64_t(int64_t(toNSec()) + d.toNSec())); return t; }
  Time operator-(const Duration& d) const { Time t; t.fromNSec(uint64_t(int64_t(toNSec()) - d.toNSec())); return t; }
  Time& operator+=(const Duration& d) { *this = *this + d; return *this; }
  Time& operator-=(const Duration& d) { *this = *this - d; return *this; }
  bool operator==(const Time& o) const { return toNSec() == o.toNSec(); }
  bool operator!=(const Time& o) const { return toNSec() != o.toNSec(); }
  bool operator<(const Time& o) const { return toNSec() < o.toNSec(); }
  bool operator>(const Time& o) const { return toNSec() > o.toNSec(); }
  bool operator<=(const Time& o) const { return toNSec() <= o.toNSec(); }
  bool operator>=(const Time& o) const { return toNSec() >= o.toNSec(); }
};
typedef Time WallTime;
inline std::ostream& operator<<(std::ostream& o, const Time& t) { return o << t.toSec(); }
static const Time TIME_MAX(UINT32_MAX, 999999999u);
static const Time TIME_MIN(0, 1);
class Rate { Duration d_; public: explicit Rate(double f) : d_(1.0 / f) {} explicit Rate(const Duration& d) : d_(d) {} bool sleep() { return d_.sleep(); } void reset() {} };
}
