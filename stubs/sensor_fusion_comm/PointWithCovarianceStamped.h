#pragma once
#include <std_msgs/Header.h>
#include <geometry_msgs/Point.h>
namespace sensor_fusion_comm {
struct PointWithCovarianceStamped { std_msgs::Header header; geometry_msgs::Point point; boost::array<double, 9> covariance; PointWithCovarianceStamped() { covariance.assign(0.0); } };
STUB_PTRS(PointWithCovarianceStamped)
}
