prop="P17"
edits=[("msf_core/src/similaritytransform.cc","    Eigen::Quaterniond q(q1.inverse() * q2);","    Eigen::Quaterniond q(q1.inverse() * q2);\n    if (q.w() < 0)\n      continue;  // Same hemisphere only.")]
needs="a pair whose relative quaternion has a negative scalar part"
breaks="Pairs whose relative quaternion happens to have a negative scalar part are left out, and their rows of the normal equations hold no measurement."
demo=r'''
#include "prelude.h"
#include <msf_core/similaritytransform.h>
#include <msf_core/src/similaritytransform.cc>
#include <cstdlib>
int main() {
  msf_core::similarity_transform::From6DoF t; Eigen::Quaterniond R(Eigen::AngleAxisd(0.4, Eigen::Vector3d(1, 2, 3).normalized()));
  for (int i = 0; i < 5; ++i) {
    msf_core::similarity_transform::Pose a, b; Eigen::Quaterniond q1(Eigen::AngleAxisd(0.3 * i, Eigen::Vector3d(0, 1, i).normalized())), q2(q1 * R); q2.coeffs() *= -1;
    a.pose.orientation.w = q1.w(); a.pose.orientation.x = q1.x(); a.pose.orientation.y = q1.y(); a.pose.orientation.z = q1.z();
    b.pose.orientation.w = q2.w(); b.pose.orientation.x = q2.x(); b.pose.orientation.y = q2.y(); b.pose.orientation.z = q2.z();
    Eigen::Vector3d t2(i, i * i, 1 - i), t1 = 2 * t2 - q1 * Eigen::Vector3d(1, 2, 3);
    a.pose.position.x = t1[0]; a.pose.position.y = t1[1]; a.pose.position.z = t1[2]; b.pose.position.x = t2[0]; b.pose.position.y = t2[1]; b.pose.position.z = t2[2];
    t.AddMeasurement(a, b); }
  msf_core::similarity_transform::Pose p; double s = 0; t.Compute(p, &s); Eigen::Quaterniond q(p.pose.orientation.w, p.pose.orientation.x, p.pose.orientation.y, p.pose.orientation.z);
  printf("scale %g position %g %g %g rotation error %g\n", s, p.pose.position.x, p.pose.position.y, p.pose.position.z, q.angularDistance(R));
  return std::fabs(s - 2) < 1e-9 && q.angularDistance(R) < 1e-6 ? 0 : 1; }
'''
