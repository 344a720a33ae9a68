#pragma once
#include <iostream>
#include <string>
#include <vector>
#include <boost/shared_ptr.hpp>
#include <boost/array.hpp>
#include <ros/time.h>
namespace std_msgs { struct Header { uint32_t seq = 0; ros::Time stamp; std::string frame_id; }; }
#define STUB_PTRS(T) typedef boost::shared_ptr<T> T##Ptr; typedef boost::shared_ptr<T const> T##ConstPtr;
