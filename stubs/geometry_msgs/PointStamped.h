#pragma once
#include <std_msgs/Header.h>
#include <geometry_msgs/Point.h>
namespace geometry_msgs {
struct PointStamped { std_msgs::Header header; Point point; };
STUB_PTRS(PointStamped)
}
