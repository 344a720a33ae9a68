#pragma once
#include <std_msgs/Header.h>
namespace geometry_msgs {
struct Quaternion { double x = 0, y = 0, z = 0, w = 0; };
STUB_PTRS(Quaternion)
}
