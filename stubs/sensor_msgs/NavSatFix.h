#pragma once
#include <std_msgs/Header.h>
namespace sensor_msgs {
struct NavSatStatus { int8_t status = 0; uint16_t service = 1; static const int8_t STATUS_NO_FIX = -1, STATUS_FIX = 0, STATUS_SBAS_FIX = 1, STATUS_GBAS_FIX = 2; };
struct NavSatFix { NavSatStatus status; std_msgs::Header header; double latitude = 0, longitude = 0, altitude = 0; boost::array<double, 9> position_covariance; uint8_t position_covariance_type = 0; static const uint8_t COVARIANCE_TYPE_UNKNOWN = 0, COVARIANCE_TYPE_APPROXIMATED = 1, COVARIANCE_TYPE_DIAGONAL_KNOWN = 2, COVARIANCE_TYPE_KNOWN = 3; NavSatFix() { position_covariance.assign(0.0); } };
STUB_PTRS(NavSatFix)
}
