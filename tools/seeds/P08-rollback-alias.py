prop="P08"
edits=[("msf_core/include/msf_core/implementation/msf_core_inl.h","  EKFState_T buffstate = *delaystate;\n","  shared_ptr<EKFState_T> kept = delaystate;  // Keep the old values.\n  EKFState_T& buffstate = *kept;\n")]
needs="an update that is recognised as fuzzy after the median window has been filled"
breaks="The state kept for the roll-back is the state being corrected, so a fuzzy update is reported but nothing is undone."
files=["vc.h","shadow.h","core_env.h"]
demo=r'''
#include "core_env.h"
using namespace env;
int main() {
  Mgr mgr; msf_core::MSF_Core<State> core(mgr); core.initialized_ = core.predictionMade_ = true;
  SP s(new State); s->time = 1; Err zero; zero.setZero();
  for (int i = 0; i < 40; ++i) { Err c = zero; core.ApplyCorrection(s, c, 0.1); }
  State old = *s; Err jump = zero; int i = msf_tmp::GetStartIndexInCorrection<State::StateSequence_T, SD::q_wv>::value; jump(i + 2) = 0.8; jump(i + 3) = 0.1;
  core.ApplyCorrection(s, jump, 0.1);
  double d = static_cast<const State&>(*s).Get<SD::q_wv>().angularDistance(static_cast<const State&>(old).Get<SD::q_wv>());
  printf("fuzzy %d, remaining effect %g\n", (int)core.isfuzzyState_, d); return core.isfuzzyState_ && d < 1e-12 ? 0 : 1; }
'''
