#ifndef VC_DYNREC
#define VC_DYNREC
#include <ros/ros.h>
namespace dynamic_reconfigure {
// Unlike the real server, setCallback does not call back immediately; harnesses call Config themselves.
template <class C> struct Server { typedef boost::function<void(C&, uint32_t)> CallbackType; CallbackType cb; Server() {} Server(const ros::NodeHandle&) {} void setCallback(const CallbackType& f) { cb = f; } void updateConfig(const C&) {} };
}
#endif
