prop="P15"
edits=[("msf_core/include/msf_core/implementation/msf_measurement_inl.h","P_SC.template block<Pdim, Pdim>(0, Pdim) = state_old->P * F_accum.transpose();","P_SC.template block<Pdim, Pdim>(0, Pdim) = state_old->P * F_accum;")]
needs="a relative measurement between two states with a state transition that is not symmetric"
breaks="The joint covariance of a relative measurement is not symmetric: one cross block uses the transition untransposed."
files=["vc.h","shadow.h","core_env.h"]
demo=r'''
#include "core_env.h"
using namespace env;
struct M : msf_core::MSF_MeasurementBase<State> { M() : msf_core::MSF_MeasurementBase<State>(false, 0, false, 0) {} void Apply(SP, msf_core::MSF_Core<State>&) {} std::string Type() { return "m"; } };
int main() {
  Mgr mgr; mgr.fuzzy = 100; msf_core::MSF_Core<State> core(mgr); core.initialized_ = core.predictionMade_ = true;
  SP a(new State), b(new State); a->time = 1; b->time = 1.1; a->P.setIdentity(); a->Fd.setIdentity(); a->Fd.block<3, 3>(0, 3) = Eigen::Matrix3d::Identity() * .5; b->P = a->Fd * a->P * a->Fd.transpose();
  core.stateBuffer_.Insert(a); core.stateBuffer_.Insert(b);
  Eigen::Matrix<double, 3, NE> Hn, Ho; Hn.setZero(); Ho.setZero(); Hn.block<3, 3>(0, 0).setIdentity(); Hn.block<3, 3>(0, 3).setIdentity(); Ho.block<3, 3>(0, 0) = -Eigen::Matrix3d::Identity(); Eigen::Matrix<double, 3, 1> r(1, 0, 0); Eigen::Matrix3d R = Eigen::Matrix3d::Identity();
  RPM J; Eigen::Matrix<double, 2 * NE, 2 * NE> P; P << a->P, a->P * a->Fd.transpose(), a->Fd * a->P, b->P;
  Eigen::Matrix<double, 3, 2 * NE> H; H << Ho, Hn; Eigen::Matrix3d S = H * P * H.transpose() + R; Eigen::Matrix<double, 2 * NE, 2 * NE> Pn = P - P * H.transpose() * S.inverse() * H * P;
  M m; m.CalculateAndApplyCorrectionRelative(a, b, core, Ho, Hn, r, R);
  double d = (b->P - Pn.block<NE, NE>(NE, NE)).cwiseAbs().maxCoeff(); printf("deviation from the joint update %g\n", d); return d < 1e-12 ? 0 : 1; }
'''
