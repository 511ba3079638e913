prop="P07"
edits=[("msf_core/include/msf_core/implementation/msf_core_inl.h","  time_P_propagated = delaystate->time;\n\n  return 1;","  if (!isfuzzyState_)\n    time_P_propagated = delaystate->time;\n\n  return 1;")]
needs="a correction applied while the estimate is flagged as fuzzy, by this or by an earlier measurement of the same update"
breaks="After a correction flagged as fuzzy the covariance of the later states is not recomputed from the corrected state on."
files=["vc.h","shadow.h","core_env.h"]
demo=r'''
#include "core_env.h"
using namespace env;
int main() {
  Mgr mgr; mgr.fuzzy = 100; msf_core::MSF_Core<State> core(mgr); core.initialized_ = core.predictionMade_ = true; core.isfuzzyState_ = true; core.time_P_propagated = 5;
  SP a(new State); a->time = 2; msf_core::MSF_Core<State>::ErrorState c; c.setZero(); core.ApplyCorrection(a, c, 100);
  printf("recompute from %g\n", core.time_P_propagated); return core.time_P_propagated == 2 ? 0 : 1; }
'''
