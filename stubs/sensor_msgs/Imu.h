#pragma once
#include <std_msgs/Header.h>
#include <geometry_msgs/Vector3.h>
#include <geometry_msgs/Quaternion.h>
namespace sensor_msgs {
struct Imu { std_msgs::Header header; geometry_msgs::Quaternion orientation; geometry_msgs::Vector3 angular_velocity, linear_acceleration; boost::array<double, 9> orientation_covariance, angular_velocity_covariance, linear_acceleration_covariance; Imu() { orientation_covariance.assign(0.0); angular_velocity_covariance.assign(0.0); linear_acceleration_covariance.assign(0.0); } };
STUB_PTRS(Imu)
}
