prop="P03"
edits=[("msf_core/include/msf_core/implementation/msf_measurement_inl.h","P = KH * P * KH.transpose() + K * R_delayed * K.transpose();","P = KH * P * KH.transpose() + K * S * K.transpose();",1)]
needs="a measurement whose size is only known at run time (the fixed-size variant is untouched)"
breaks="Measurements of run-time size put the innovation covariance into the Joseph form, so the covariance grows instead of shrinking."
files=["vc.h","shadow.h","core_env.h"]
demo=r'''
#include "core_env.h"
using namespace env;
struct M : msf_core::MSF_MeasurementBase<State> { M() : msf_core::MSF_MeasurementBase<State>(true, 0, false, 0) {} void Apply(SP, msf_core::MSF_Core<State>&) {} std::string Type() { return "m"; } };
int main() {
  Mgr mgr; mgr.fuzzy = 100; msf_core::MSF_Core<State> core(mgr); core.initialized_ = core.predictionMade_ = true;
  SP a(new State), b(new State); a->P.setIdentity(); b->P.setIdentity(); a->time = b->time = 1; M m;
  Eigen::Matrix<double, 3, NE> H; H.setZero(); H.block<3, 3>(0, 0).setIdentity(); Eigen::Matrix<double, 3, 1> r(.1, .2, .3); Eigen::Matrix3d R = Eigen::Matrix3d::Identity();
  m.CalculateAndApplyCorrection(a, core, H, r, R);
  m.CalculateAndApplyCorrection(b, core, Eigen::MatrixXd(H), Eigen::MatrixXd(r), Eigen::MatrixXd(R));
  double d = (a->P - b->P).cwiseAbs().maxCoeff(); printf("fixed and run-time size differ by %g\n", d); return d < 1e-12 ? 0 : 1; }
'''
