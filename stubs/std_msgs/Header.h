#ifndef VC_STD_HEADER
#define VC_STD_HEADER
#include <ros/ros.h>
namespace std_msgs { struct Header { unsigned seq; ros::Time stamp; std::string frame_id; Header() : seq(0) {} }; }
#endif
