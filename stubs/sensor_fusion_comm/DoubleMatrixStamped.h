#pragma once
#include <std_msgs/Header.h>
namespace sensor_fusion_comm {
struct DoubleMatrixStamped { std_msgs::Header header; uint32_t rows = 0, cols = 0; std::vector<double> data; };
STUB_PTRS(DoubleMatrixStamped)
}
