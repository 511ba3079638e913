// Stub: logging is dropped (arguments are not evaluated).
#ifndef VC_ROS_CONSOLE
#define VC_ROS_CONSOLE
#define VC_DROP do {} while (0)
#define ROS_INFO(...) VC_DROP
#define ROS_WARN(...) VC_DROP
#define ROS_ERROR(...) VC_DROP
#define ROS_DEBUG(...) VC_DROP
#define ROS_FATAL(...) VC_DROP
#define ROS_INFO_ONCE(...) VC_DROP
#define ROS_WARN_ONCE(...) VC_DROP
#define ROS_ERROR_ONCE(...) VC_DROP
#define ROS_INFO_THROTTLE(...) VC_DROP
#define ROS_WARN_THROTTLE(...) VC_DROP
#define ROS_ERROR_THROTTLE(...) VC_DROP
#define ROS_INFO_STREAM(x) VC_DROP
#define ROS_WARN_STREAM(x) VC_DROP
#define ROS_ERROR_STREAM(x) VC_DROP
#define ROS_DEBUG_STREAM(x) VC_DROP
#define ROS_FATAL_STREAM(x) VC_DROP
#define ROS_INFO_STREAM_ONCE(x) VC_DROP
#define ROS_WARN_STREAM_ONCE(x) VC_DROP
#define ROS_ERROR_STREAM_ONCE(x) VC_DROP
#define ROS_LOG_STREAM_THROTTLE(r, x) VC_DROP
#define ROS_INFO_STREAM_THROTTLE(r, x) VC_DROP
#define ROS_WARN_STREAM_THROTTLE(r, x) VC_DROP
#define ROS_ERROR_STREAM_THROTTLE(r, x) VC_DROP
#define ROS_INFO_STREAM_COND(c, x) VC_DROP
#define ROS_WARN_STREAM_COND(c, x) VC_DROP
#define ROS_ERROR_STREAM_COND(c, x) VC_DROP
#define ROS_DEBUG_ONCE(...) VC_DROP
#define ROS_DEBUG_COND(...) VC_DROP
#define ROS_DEBUG_THROTTLE(...) VC_DROP
#define ROS_DEBUG_NAMED(...) VC_DROP
#define ROS_DEBUG_DELAYED_THROTTLE(...) VC_DROP
#define ROS_DEBUG_FILTER(...) VC_DROP
#define ROS_DEBUG_STREAM_ONCE(...) VC_DROP
#define ROS_DEBUG_STREAM_COND(...) VC_DROP
#define ROS_DEBUG_STREAM_THROTTLE(...) VC_DROP
#define ROS_DEBUG_STREAM_NAMED(...) VC_DROP
#define ROS_DEBUG_STREAM_DELAYED_THROTTLE(...) VC_DROP
#define ROS_DEBUG_STREAM_FILTER(...) VC_DROP
#define ROS_INFO_COND(...) VC_DROP
#define ROS_INFO_NAMED(...) VC_DROP
#define ROS_INFO_DELAYED_THROTTLE(...) VC_DROP
#define ROS_INFO_FILTER(...) VC_DROP
#define ROS_INFO_STREAM_NAMED(...) VC_DROP
#define ROS_INFO_STREAM_DELAYED_THROTTLE(...) VC_DROP
#define ROS_INFO_STREAM_FILTER(...) VC_DROP
#define ROS_WARN_COND(...) VC_DROP
#define ROS_WARN_NAMED(...) VC_DROP
#define ROS_WARN_DELAYED_THROTTLE(...) VC_DROP
#define ROS_WARN_FILTER(...) VC_DROP
#define ROS_WARN_STREAM_NAMED(...) VC_DROP
#define ROS_WARN_STREAM_DELAYED_THROTTLE(...) VC_DROP
#define ROS_WARN_STREAM_FILTER(...) VC_DROP
#define ROS_ERROR_COND(...) VC_DROP
#define ROS_ERROR_NAMED(...) VC_DROP
#define ROS_ERROR_DELAYED_THROTTLE(...) VC_DROP
#define ROS_ERROR_FILTER(...) VC_DROP
#define ROS_ERROR_STREAM_NAMED(...) VC_DROP
#define ROS_ERROR_STREAM_DELAYED_THROTTLE(...) VC_DROP
#define ROS_ERROR_STREAM_FILTER(...) VC_DROP
#define ROS_FATAL_ONCE(...) VC_DROP
#define ROS_FATAL_COND(...) VC_DROP
#define ROS_FATAL_THROTTLE(...) VC_DROP
#define ROS_FATAL_NAMED(...) VC_DROP
#define ROS_FATAL_DELAYED_THROTTLE(...) VC_DROP
#define ROS_FATAL_FILTER(...) VC_DROP
#define ROS_FATAL_STREAM_ONCE(...) VC_DROP
#define ROS_FATAL_STREAM_COND(...) VC_DROP
#define ROS_FATAL_STREAM_THROTTLE(...) VC_DROP
#define ROS_FATAL_STREAM_NAMED(...) VC_DROP
#define ROS_FATAL_STREAM_DELAYED_THROTTLE(...) VC_DROP
#define ROS_FATAL_STREAM_FILTER(...) VC_DROP
#endif
