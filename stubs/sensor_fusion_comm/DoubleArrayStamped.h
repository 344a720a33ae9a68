#pragma once
#include <std_msgs/Header.h>
namespace sensor_fusion_comm {
struct DoubleArrayStamped { std_msgs::Header header; std::vector<double> data; };
STUB_PTRS(DoubleArrayStamped)
}
