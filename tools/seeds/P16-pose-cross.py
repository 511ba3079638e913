prop="P16"
edits=[("msf_core/include/msf_core/implementation/msf_state_inl.h","covariance_map.block<3,3>(3,0) = P.template block<3,3>(idxstartcorr_q, idxstartcorr_p);","covariance_map.block<3,3>(3,0) = P.template block<3,3>(idxstartcorr_p, idxstartcorr_q);")]
needs="a cross covariance between position and attitude that is not symmetric as a block"
breaks="The published pose covariance carries the position-attitude block in both places, so the matrix is not symmetric."
files=["vc.h","shadow.h","core_env.h"]
demo=r'''
#include "core_env.h"
using namespace env;
int main() {
  State s; Eigen::Matrix<double, NE, NE> A; for (int i = 0; i < NE; ++i) for (int j = 0; j < NE; ++j) A(i, j) = std::sin(i * 7.3 + j * 1.7); s.P = A * A.transpose();
  geometry_msgs::PoseWithCovarianceStamped m; s.ToPoseMsg(m); double d = 0;
  for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) { int a = i < 3 ? i : 3 + i, b = j < 3 ? j : 3 + j; d = std::max(d, std::fabs(m.pose.covariance[i * 6 + j] - s.P(a, b))); }
  printf("largest deviation of the published covariance %g\n", d); return d < 1e-12 ? 0 : 1; }
'''
