#ifndef VC_SFC
#define VC_SFC
#include <geometry_msgs/all.h>
namespace sensor_fusion_comm {
struct DoubleArrayStamped { std_msgs::Header header; std::vector<double> data; };
struct DoubleMatrixStamped { std_msgs::Header header; int rows, cols; std::vector<double> data; DoubleMatrixStamped() : rows(0), cols(0) {} };
struct ExtEkf { std_msgs::Header header; geometry_msgs::Vector3 angular_velocity, linear_acceleration; std::vector<float> state; int flag; ExtEkf() : flag(0) {}
  enum { ignore_state = 0u, current_state = 1u, initialization = 2u, state_correction = 3u }; };
struct ExtState { std_msgs::Header header; geometry_msgs::Pose pose; geometry_msgs::Vector3 velocity; };
struct PointWithCovarianceStamped { std_msgs::Header header; geometry_msgs::Point point; boost::array<double, 9> covariance; PointWithCovarianceStamped() { covariance.assign(0); } };
struct InitHeight { struct Request { float height; }; struct Response { std::string result; }; };
struct InitScale { struct Request { float scale; }; struct Response { std::string result; }; };
VC_PTRS(DoubleArrayStamped) VC_PTRS(DoubleMatrixStamped) VC_PTRS(ExtEkf) VC_PTRS(ExtState) VC_PTRS(PointWithCovarianceStamped)
}
#endif
