prop="P02"
edits=[("msf_core/include/msf_core/implementation/msf_core_inl.h","usercalc_.CalculateQAuxiliaryStates(*state_new, dt);","usercalc_.CalculateQAuxiliaryStates(*state_old, dt);")]
needs="a calibration state with process noise, and a step length that differs from the previous one"
breaks="The noise of the auxiliary states is written into the old state after which the blocks of the new state are used, so the covariance lacks that noise (or uses another step's)."
files=["vc.h","shadow.h","core_env.h"]
demo=r'''
#include "core_env.h"
using namespace env;
int main() {
  Mgr mgr; msf_core::MSF_Core<State> core(mgr);
  mgr.auxq = [](State& s, const double& dt) { s.GetQBlock<SD::p_ic>() = Eigen::Matrix3d::Identity() * 0.01 * dt; };
  SP a(new State), b(new State), c(new State); a->time = 1; b->time = 1.01; c->time = 1.05; a->P.setZero();
  core.PredictProcessCovariance(a, b); core.PredictProcessCovariance(b, c);
  int i = msf_tmp::GetStartIndexInCorrection<State::StateSequence_T, SD::p_ic>::value;
  double got = c->P(i, i), want = 0.01 * 0.05; printf("variance %g expected %g\n", got, want); return std::fabs(got - want) < 1e-12 ? 0 : 1; }
'''
