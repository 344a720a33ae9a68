#pragma once
#include <std_msgs/Header.h>
namespace sensor_fusion_comm { struct InitScale { struct Request { double scale = 1; }; struct Response { std::string result; }; }; }
