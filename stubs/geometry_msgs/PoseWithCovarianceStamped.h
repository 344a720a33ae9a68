#pragma once
#include <std_msgs/Header.h>
#include <geometry_msgs/PoseWithCovariance.h>
namespace geometry_msgs {
struct PoseWithCovarianceStamped { std_msgs::Header header; PoseWithCovariance pose; };
STUB_PTRS(PoseWithCovarianceStamped)
}
