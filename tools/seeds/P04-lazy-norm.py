prop="P04"
edits=[("msf_core/include/msf_core/msf_tmp.h","    t.state_ = t.state_ * qbuff_q;\n    t.state_.normalize();","    t.state_ = t.state_ * qbuff_q;\n    if (std::fabs(t.state_.squaredNorm() - 1.) > 1e-3)\n      t.state_.normalize();")]
needs="an attitude whose norm has drifted by less than 0.0005 before the correction"
breaks="A corrected quaternion is renormalised only once its drift is large, so it no longer has unit norm."
files=["vc.h","shadow.h","core_env.h"]
demo=r'''
#include "core_env.h"
using namespace env;
int main() {
  State s; s.Get<SD::q>() = Eigen::Quaterniond(1 + 2e-4, 0, 0, 0); Eigen::Matrix<double, NE, 1> c; c.setZero(); c[6] = 0.01; s.Correct(c);
  double d = std::fabs(s.Get<SD::q>().norm() - 1); printf("deviation from unit norm %g\n", d); return d < 1e-12 ? 0 : 1; }
'''
