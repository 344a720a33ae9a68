#pragma once
#include <std_msgs/Header.h>
#include <ros/ros.h>
namespace dynamic_reconfigure {
template <class C> struct Server {
  typedef boost::function<void(C&, uint32_t)> CallbackType;
  CallbackType cb;
  static Server*& last() { static Server* s = 0; return s; } // the server created last for this configuration
  Server() { last() = this; }
  explicit Server(const ros::NodeHandle&) { last() = this; }
  void setCallback(const CallbackType& f) { cb = f; C c; cb(c, ~0u); }
  void updateConfig(const C&) {}
};
}
