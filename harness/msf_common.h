// Common set-up: library headers first, then the real msf headers with access to members opened for observation.
#pragma once
#ifndef ROS_PACKAGE_NAME
#define ROS_PACKAGE_NAME "verif"
#endif
#include "sym.h"
#include <algorithm>
#include <cassert>
#include <chrono>
#include <deque>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <mutex>
#include <numeric>
#include <queue>
#include <random>
#include <sstream>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <vector>
#include <unistd.h>
#include <Eigen/Dense>
#include <Eigen/Eigen>
#include <Eigen/Geometry>
#ifndef FUSION_MAX_VECTOR_SIZE
#define FUSION_MAX_VECTOR_SIZE 15
#endif
#include <boost/fusion/algorithm.hpp>
#include <boost/fusion/container.hpp>
#include <boost/fusion/include/for_each.hpp>
#include <boost/fusion/sequence.hpp>
#include <boost/lexical_cast.hpp>
#include <boost/mpl/eval_if.hpp>
#include <boost/mpl/if.hpp>
#include <boost/preprocessor/punctuation/comma.hpp>
#include <boost/shared_ptr.hpp>
#include <boost/static_assert.hpp>
#include <boost/thread.hpp>
#include <boost/type_traits.hpp>
#include <boost/typeof/typeof.hpp>
#include <glog/logging.h>
#include <ros/ros.h>
#include <dynamic_reconfigure/server.h>
#include <nav_msgs/Odometry.h>
#include <sensor_msgs/Imu.h>
#include <sensor_msgs/NavSatFix.h>
#include <geometry_msgs/PoseStamped.h>
#include <geometry_msgs/PointStamped.h>
#include <geometry_msgs/PoseWithCovarianceStamped.h>
#include <geometry_msgs/TransformStamped.h>
#include <tf/transform_broadcaster.h>
#include <sensor_fusion_comm/ExtEkf.h>
#include <sensor_fusion_comm/ExtState.h>
#include <sensor_fusion_comm/DoubleArrayStamped.h>
#include <sensor_fusion_comm/DoubleMatrixStamped.h>
#include <sensor_fusion_comm/PointWithCovarianceStamped.h>
#include <sensor_fusion_comm/InitScale.h>
#include <sensor_fusion_comm/InitHeight.h>
// string formatting in the code under test never feeds back into its results
#ifndef SYM_NATIVE
namespace std { struct msf_null_ss { msf_null_ss() {} template <class T> msf_null_ss(const T&) {} template <class T> msf_null_ss& operator<<(const T&) { return *this; } msf_null_ss& operator<<(std::ostream& (*)(std::ostream&)) { return *this; } msf_null_ss& operator<<(std::ios_base& (*)(std::ios_base&)) { return *this; } std::string str() const { return std::string(); } void str(const std::string&) {} }; }
#define stringstream msf_null_ss
#endif
#define private public
#define protected public
#include <msf_core/msf_types.h>
#include <msf_core/msf_macros.h>
