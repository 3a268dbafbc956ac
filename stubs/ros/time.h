#pragma once
// Fake ROS time: same representation (sec/nsec, 1 ns resolution) and the same
// range behaviour as roscpp, but now() is a settable simulated clock.
#include <cmath>
#include <cstdint>
#include <iostream>
#include <stdexcept>
namespace ros {
class Duration {
 public:
  int32_t sec, nsec;
  Duration() : sec(0), nsec(0) {}
  Duration(int32_t s, int32_t n) : sec(s), nsec(n) {}
  explicit Duration(double d) { fromSec(d); }
  Duration& fromSec(double d) {
    sec = static_cast<int32_t>(std::floor(d));
    nsec = static_cast<int32_t>(std::floor((d - sec) * 1e9 + 0.5));
    if (nsec >= 1000000000) { nsec -= 1000000000; ++sec; }
    return *this;
  }
  double toSec() const { return static_cast<double>(sec) + 1e-9 * static_cast<double>(nsec); }
  int64_t toNSec() const { return static_cast<int64_t>(sec) * 1000000000ll + nsec; }
  static Duration ns_(int64_t n) { int64_t s = n / 1000000000ll, r = n % 1000000000ll; if (r < 0) { r += 1000000000ll; --s; } return Duration(static_cast<int32_t>(s), static_cast<int32_t>(r)); }
  bool isZero() const { return sec == 0 && nsec == 0; }
  Duration operator+(const Duration& o) const { return ns_(toNSec() + o.toNSec()); }
  Duration operator-(const Duration& o) const { return ns_(toNSec() - o.toNSec()); }
  Duration operator-() const { return ns_(-toNSec()); }
  Duration operator*(double k) const { return Duration(toSec() * k); }
  Duration& operator+=(const Duration& o) { return *this = *this + o; }
  Duration& operator-=(const Duration& o) { return *this = *this - o; }
  bool operator==(const Duration& o) const { return toNSec() == o.toNSec(); }
  bool operator!=(const Duration& o) const { return toNSec() != o.toNSec(); }
  bool operator<(const Duration& o) const { return toNSec() < o.toNSec(); }
  bool operator>(const Duration& o) const { return toNSec() > o.toNSec(); }
  bool operator<=(const Duration& o) const { return toNSec() <= o.toNSec(); }
  bool operator>=(const Duration& o) const { return toNSec() >= o.toNSec(); }
  bool sleep() const { return true; }
};
class Time {
 public:
  uint32_t sec, nsec;
  Time() : sec(0), nsec(0) {}
  Time(uint32_t s, uint32_t n) : sec(s), nsec(n) {}
  explicit Time(double t) { fromSec(t); }
  Time& fromSec(double t) {
    int64_t s64 = static_cast<int64_t>(std::floor(t));
    if (!(t >= 0) || s64 > static_cast<int64_t>(UINT32_MAX))
      throw std::runtime_error("Time is out of dual 32-bit range");
    sec = static_cast<uint32_t>(s64);
    int64_t n = static_cast<int64_t>(std::floor((t - sec) * 1e9 + 0.5));
    if (n >= 1000000000) { n -= 1000000000; ++sec; }
    nsec = static_cast<uint32_t>(n);
    return *this;
  }
  double toSec() const { return static_cast<double>(sec) + 1e-9 * static_cast<double>(nsec); }
  uint64_t toNSec() const { return static_cast<uint64_t>(sec) * 1000000000ull + nsec; }
  bool isZero() const { return sec == 0 && nsec == 0; }
  bool is_zero() const { return isZero(); }
  static double& clock_() { static double c = 1.0; return c; }
  static Time now() { return Time(clock_()); }
  static void setNow(const Time& t) { clock_() = t.toSec(); }
  static bool init() { return true; }
  bool operator==(const Time& o) const { return sec == o.sec && nsec == o.nsec; }
  bool operator!=(const Time& o) const { return !(*this == o); }
  bool operator<(const Time& o) const { return toNSec() < o.toNSec(); }
  bool operator>(const Time& o) const { return toNSec() > o.toNSec(); }
  bool operator<=(const Time& o) const { return toNSec() <= o.toNSec(); }
  bool operator>=(const Time& o) const { return toNSec() >= o.toNSec(); }
  Duration operator-(const Time& o) const { return Duration::ns_(static_cast<int64_t>(toNSec()) - static_cast<int64_t>(o.toNSec())); }
  static Time ns_(int64_t n) {
    if (n < 0 || n / 1000000000ll > static_cast<int64_t>(UINT32_MAX)) throw std::runtime_error("Time is out of dual 32-bit range");
    return Time(static_cast<uint32_t>(n / 1000000000ll), static_cast<uint32_t>(n % 1000000000ll));
  }
  Time operator+(const Duration& d) const { return ns_(static_cast<int64_t>(toNSec()) + d.toNSec()); }
  Time operator-(const Duration& d) const { return ns_(static_cast<int64_t>(toNSec()) - d.toNSec()); }
  Time& operator+=(const Duration& d) { return *this = *this + d; }
  Time& operator-=(const Duration& d) { return *this = *this - d; }
};
inline std::ostream& operator<<(std::ostream& o, const Time& t) { return o << t.toSec(); }
inline std::ostream& operator<<(std::ostream& o, const Duration& t) { return o << t.toSec(); }
typedef Time WallTime;
typedef Duration WallDuration;
}
