#ifndef VC_SENSOR_NAVSAT
#define VC_SENSOR_NAVSAT
#include <geometry_msgs/all.h>
namespace sensor_msgs {
struct NavSatStatus { signed char status; unsigned short service; NavSatStatus() : status(0), service(0) {} enum { STATUS_NO_FIX = -1, STATUS_FIX = 0, STATUS_SBAS_FIX = 1, STATUS_GBAS_FIX = 2 }; };
struct NavSatFix { std_msgs::Header header; NavSatStatus status; double latitude, longitude, altitude; boost::array<double, 9> position_covariance; unsigned char position_covariance_type;
  enum { COVARIANCE_TYPE_UNKNOWN = 0, COVARIANCE_TYPE_APPROXIMATED = 1, COVARIANCE_TYPE_DIAGONAL_KNOWN = 2, COVARIANCE_TYPE_KNOWN = 3 };
  NavSatFix() : latitude(0), longitude(0), altitude(0), position_covariance_type(0) { position_covariance.assign(0); } };
VC_PTRS(NavSatFix) }
#endif
