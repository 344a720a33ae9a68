#pragma once
#include <std_msgs/Header.h>
#include <geometry_msgs/Pose.h>
#include <geometry_msgs/Vector3.h>
namespace sensor_fusion_comm {
struct ExtState { std_msgs::Header header; geometry_msgs::Pose pose; geometry_msgs::Vector3 velocity; };
STUB_PTRS(ExtState)
}
