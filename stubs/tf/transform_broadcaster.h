#ifndef VC_TF
#define VC_TF
#include <geometry_msgs/all.h>
namespace tf {
struct Vector3 { double x, y, z; Vector3(double x = 0, double y = 0, double z = 0) : x(x), y(y), z(z) {} };
struct Quaternion { double x, y, z, w; Quaternion(double x = 0, double y = 0, double z = 0, double w = 1) : x(x), y(y), z(z), w(w) {} };
struct Transform { Vector3 o; Quaternion q; void setOrigin(const Vector3& v) { o = v; } void setRotation(const Quaternion& r) { q = r; } };
struct StampedTransform : Transform { ros::Time stamp; std::string frame, child; StampedTransform() {} StampedTransform(const Transform& t, const ros::Time& s, const std::string& f, const std::string& c) : Transform(t), stamp(s), frame(f), child(c) {} };
struct TransformBroadcaster { void sendTransform(const StampedTransform& t) const { vcros::log().published["tf"]++; vcros::log().last["tf"] = boost::shared_ptr<void>(boost::shared_ptr<StampedTransform>(new StampedTransform(t))); } };
}
#endif
