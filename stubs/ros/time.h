#pragma once
#include <cstdint>
namespace ros {
namespace stub { inline double& now() { static double t = 0; return t; } }
struct Duration { double d = 0; Duration() {} explicit Duration(double x) : d(x) {} double toSec() const { return d; } bool isZero() const { return d == 0; } Duration operator+(const Duration& o) const { return Duration(d + o.d); } Duration operator-(const Duration& o) const { return Duration(d - o.d); } Duration operator-() const { return Duration(-d); } Duration operator*(double k) const { return Duration(d * k); } bool operator<(const Duration& o) const { return d < o.d; } bool operator>(const Duration& o) const { return d > o.d; } bool operator<=(const Duration& o) const { return d <= o.d; } bool operator>=(const Duration& o) const { return d >= o.d; } bool operator==(const Duration& o) const { return d == o.d; } bool operator!=(const Duration& o) const { return d != o.d; } };
struct Time {
  double t = 0;
  Time() {}
  explicit Time(double x) : t(x) {}
  Time(uint32_t s, uint32_t ns) : t(s + 1e-9 * ns) {}
  double toSec() const { return t; }
  bool isZero() const { return t == 0; }
  static Time now() { return Time(stub::now()); }
  Duration operator-(const Time& o) const { return Duration(t - o.t); }
  Time operator+(const Duration& o) const { return Time(t + o.d); }
  Time operator-(const Duration& o) const { return Time(t - o.d); }
  Time& fromSec(double x) { t = x; return *this; }
  Time& operator+=(const Duration& o) { t = t + o.d; return *this; }
  Time& operator-=(const Duration& o) { t = t - o.d; return *this; }
  bool operator<=(const Time& o) const { return t <= o.t; }
  bool operator>=(const Time& o) const { return t >= o.t; }
  bool operator!=(const Time& o) const { return t != o.t; }
  bool operator<(const Time& o) const { return t < o.t; }
  bool operator>(const Time& o) const { return t > o.t; }
  bool operator==(const Time& o) const { return t == o.t; }
};
}
