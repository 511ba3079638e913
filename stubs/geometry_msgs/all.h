#ifndef VC_GEOMETRY_MSGS
#define VC_GEOMETRY_MSGS
#include <std_msgs/Header.h>
#define VC_PTRS(T) typedef boost::shared_ptr<T> T##Ptr; typedef boost::shared_ptr<const T> T##ConstPtr;
namespace geometry_msgs {
struct Point { double x, y, z; Point() : x(0), y(0), z(0) {} };
struct Vector3 { double x, y, z; Vector3() : x(0), y(0), z(0) {} };
struct Quaternion { double x, y, z, w; Quaternion() : x(0), y(0), z(0), w(0) {} };
struct Pose { Point position; Quaternion orientation; };
struct Transform { Vector3 translation; Quaternion rotation; };
struct Twist { Vector3 linear, angular; };
struct PoseWithCovariance { typedef boost::array<double, 36> _covariance_type; Pose pose; _covariance_type covariance; PoseWithCovariance() { covariance.assign(0); } };
struct TwistWithCovariance { typedef boost::array<double, 36> _covariance_type; Twist twist; _covariance_type covariance; TwistWithCovariance() { covariance.assign(0); } };
struct PointStamped { std_msgs::Header header; Point point; };
struct PoseStamped { std_msgs::Header header; Pose pose; };
struct TransformStamped { std_msgs::Header header; std::string child_frame_id; Transform transform; };
struct PoseWithCovarianceStamped { std_msgs::Header header; PoseWithCovariance pose; };
VC_PTRS(Point) VC_PTRS(Vector3) VC_PTRS(Quaternion) VC_PTRS(Pose) VC_PTRS(Transform) VC_PTRS(Twist) VC_PTRS(PoseWithCovariance) VC_PTRS(TwistWithCovariance)
VC_PTRS(PointStamped) VC_PTRS(PoseStamped) VC_PTRS(TransformStamped) VC_PTRS(PoseWithCovarianceStamped)
}
#endif
