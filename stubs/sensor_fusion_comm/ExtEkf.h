#pragma once
#include <std_msgs/Header.h>
#include <geometry_msgs/Vector3.h>
namespace sensor_fusion_comm {
struct ExtEkf { enum { ignore_state = 0, current_state = 1, initialization = 2, state_correction = 3 }; std_msgs::Header header; geometry_msgs::Vector3 angular_velocity, linear_acceleration; std::vector<float> state; uint32_t flag = 0; };
STUB_PTRS(ExtEkf)
}
