#pragma once
#include <std_msgs/Header.h>
#include <geometry_msgs/Transform.h>
namespace geometry_msgs {
struct TransformStamped { std_msgs::Header header; std::string child_frame_id; Transform transform; };
STUB_PTRS(TransformStamped)
}
