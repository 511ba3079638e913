#include "vc.h"
#include "shadow.h"
#include <msf_core/eigen_utils.h>
using namespace vc;

// Skew(a) b == a x b, antisymmetric
VC_CASE(skew) {
  RV3 a = vec3("a"), b = vec3("b");
  RM3 S = Skew(a);
  RV3 c; c << a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0];
  ensure_meq("Skew(a)*b", S * b, c);
  ensure_meq("Skew.antisymmetric", S.transpose(), -S);
}
static Eigen::Matrix<double, 4, 1> xyzw(const RQuat& q) { Eigen::Matrix<double, 4, 1> r; r << q.x(), q.y(), q.z(), q.w(); return r; }
// q^* (x) (0,w) and (0,w)... : quaternion derivative matrices
VC_CASE(omega_hamilton) {
  RV3 w = vec3("w"); RQuat q = rawquat("q"); RQuat om; om.w() = 0; om.vec() = w;
  // q' = 1/2 q (x) (0,w)  [coefficients x y z w]
  Eigen::Matrix<double, 4, 1> got = OmegaMatJPL(w) * xyzw(q);
  ensure_meq("OmegaMatJPL", got, xyzw(rqmul(q, om)));
  Eigen::Matrix<double, 4, 1> got2 = OmegaMatHamilton(w) * xyzw(q);
  ensure_meq("OmegaMatHamilton", got2, xyzw(rqmul(om, q)));
}
VC_CASE(xi) {
  Eigen::Matrix<double, 4, 1> q; fill(q, "q");
  Eigen::Matrix<double, 4, 3> X = XiMat(q), E; E.setZero();
  E.block<3, 3>(0, 0) = rskew(q.head<3>()) + q[3] * RM3::Identity();
  for (int j = 0; j < 3; ++j) E(3, j) = -q[j];
  ensure_meq("XiMat", X, E);
}
VC_CASE(small_angle) {
  RV3 t = vec3("theta");
  RQuat q = QuaternionFromSmallAngle(t);
  double n = q.w() * q.w() + q.x() * q.x() + q.y() * q.y() + q.z() * q.z();
  ensure_eq("unit norm", n, 1);
  ob_pos("w non-negative", q.w(), false);
  // parallel to theta and same orientation
  ensure_meq("axis", rskew(t) * q.vec(), RV3::Zero());
  double q2 = t.squaredNorm() / 4.0;
  if (q2 < 1) { ensure_meq("vec = theta/2", q.vec(), t * 0.5); cover("small"); }
  else { ensure_meq("vec = w theta/2", q.vec(), q.w() * 0.5 * t); cover("large"); }
}
VC_CASE(check_for_numeric) {
  Eigen::Matrix<double, 3, 2> m; fill(m, "m");
  ensure("finite accepted", CheckForNumeric(m, "m"));
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 2; ++j) {
    Eigen::Matrix<double, 3, 2> b = m; b(i, j) = std::numeric_limits<double>::quiet_NaN();
    ensure("nan rejected", !CheckForNumeric(b, "m"));
    b(i, j) = std::numeric_limits<double>::infinity();
    ensure("inf rejected", !CheckForNumeric(b, "m"));
    b(i, j) = -std::numeric_limits<double>::infinity();
    ensure("-inf rejected", !CheckForNumeric(b, "m"));
  }
}
VC_MAIN
