prop="P19"
edits=[("msf_updates/src/msf_distort/PoseDistorter.cc","attdrift_ *= deltaquat;","attdrift_ = deltaquat * attdrift_;")]
needs="at least two distortions whose attitude increments have different axes"
breaks="Attitude drift increments accumulate in reversed order."
demo=r'''
#include "prelude.h"
#define ROS_PACKAGE_NAME "demo"
#define private public
#define protected public
#include <msf_updates/src/msf_distort/PoseDistorter.cc>
int main() {
  Eigen::Vector3d z(0, 0, 0), m(0.3, 0, 0);
  msf_updates::PoseDistorter d(z, z, m, z, 0, 0);
  Eigen::Quaterniond a(1, 0, 0, 0), b(1, 0, 0, 0);
  d.Distort(a, 1.0);
  d.d_att_[0] = msf_updates::PoseDistorter::distribution_t(0, 0); d.d_att_[1] = msf_updates::PoseDistorter::distribution_t(0.4, 0);
  d.Distort(b, 1.0);
  Eigen::Quaterniond e = QuaternionFromSmallAngle(Eigen::Vector3d(0.3, 0, 0)) * QuaternionFromSmallAngle(Eigen::Vector3d(0, 0.4, 0));
  double err = (e.coeffs() - b.coeffs()).norm(); printf("deviation %g\n", err); return err < 1e-9 ? 0 : 1; }
'''
