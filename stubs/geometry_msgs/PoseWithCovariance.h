#pragma once
#include <std_msgs/Header.h>
#include <geometry_msgs/Pose.h>
namespace geometry_msgs {
struct PoseWithCovariance { typedef boost::array<double, 36> _covariance_type; Pose pose; _covariance_type covariance; PoseWithCovariance() { covariance.assign(0.0); } };
STUB_PTRS(PoseWithCovariance)
}
