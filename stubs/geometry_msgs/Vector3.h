#pragma once
#include <std_msgs/Header.h>
namespace geometry_msgs {
struct Vector3 { double x = 0, y = 0, z = 0; };
STUB_PTRS(Vector3)
}
