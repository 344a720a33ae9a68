#pragma once
#include <std_msgs/Header.h>
namespace sensor_fusion_comm { struct InitHeight { struct Request { double height = 1; }; struct Response { std::string result; }; }; }
