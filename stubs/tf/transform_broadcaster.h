#pragma once
#include <std_msgs/Header.h>
#include <ros/ros.h>
namespace tf {
struct Vector3 { double v[3] = {0, 0, 0}; double x() const { return v[0]; } double y() const { return v[1]; } double z() const { return v[2]; } void setX(double a) { v[0] = a; } void setY(double a) { v[1] = a; } void setZ(double a) { v[2] = a; } void setValue(double a, double b, double c) { v[0] = a; v[1] = b; v[2] = c; } Vector3() {} Vector3(double x, double y, double z) { v[0] = x; v[1] = y; v[2] = z; } };
struct Quaternion { double q[4] = {0, 0, 0, 1}; double x() const { return q[0]; } double y() const { return q[1]; } double z() const { return q[2]; } double w() const { return q[3]; } Quaternion() {} Quaternion(double x, double y, double z, double w) { q[0] = x; q[1] = y; q[2] = z; q[3] = w; } };
struct Transform { Vector3 o; Quaternion r; Transform() {} explicit Transform(const Quaternion& b, const Vector3& a = Vector3()) : o(a), r(b) {} const Vector3& getOrigin() const { return o; } const Quaternion& getRotation() const { return r; } void setOrigin(const Vector3& a) { o = a; } void setRotation(const Quaternion& b) { r = b; } };
struct StampedTransform { Transform t; ros::Time stamp; std::string frame_id_, child_frame_id_; StampedTransform() {} StampedTransform(const Transform& a, const ros::Time& s, const std::string& f, const std::string& c) : t(a), stamp(s), frame_id_(f), child_frame_id_(c) {} };
struct TransformBroadcaster { void sendTransform(const StampedTransform& t) const { ros::stub::Last<StampedTransform>::msg() = t; ros::stub::Last<StampedTransform>::count()++; } };
}
