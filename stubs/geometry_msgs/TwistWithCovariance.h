#pragma once
#include <std_msgs/Header.h>
#include <geometry_msgs/Twist.h>
namespace geometry_msgs {
struct TwistWithCovariance { typedef boost::array<double, 36> _covariance_type; Twist twist; _covariance_type covariance; TwistWithCovariance() { covariance.assign(0.0); } };
STUB_PTRS(TwistWithCovariance)
}
