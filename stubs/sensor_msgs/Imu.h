#ifndef VC_SENSOR_IMU
#define VC_SENSOR_IMU
#include <geometry_msgs/all.h>
namespace sensor_msgs { struct Imu { std_msgs::Header header; geometry_msgs::Quaternion orientation; geometry_msgs::Vector3 angular_velocity, linear_acceleration; }; VC_PTRS(Imu) }
#endif
