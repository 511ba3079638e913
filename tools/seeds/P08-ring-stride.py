prop="P08"
edits=[("msf_core/include/msf_core/msf_checkFuzzyTracking.h","nontemporaldrifting_inittimer_ = (nontemporaldrifting_inittimer_) % nBuff_ + nBuff_ + 1;","nontemporaldrifting_inittimer_ = (nontemporaldrifting_inittimer_ + 1) % nBuff_ + nBuff_ + 1;")]
needs="more than one and a half windows of accepted updates with a slowly moving value, then an update close to the recent ones"
breaks="Once the window is full only every second slot is renewed, so the running median keeps the values of the start for ever and good updates are rolled back."
files=["vc.h","shadow.h","core_env.h"]
demo=r'''
#include "core_env.h"
#include <msf_core/msf_checkFuzzyTracking.h>
using namespace env;
static Eigen::Quaterniond yaw(double a) { return Eigen::Quaterniond(std::cos(a / 2), 0, 0, std::sin(a / 2)); }
int main() {
  Mgr mgr; msf_core::MSF_Core<State> core(mgr); core.initialized_ = core.predictionMade_ = true; int fuzzy = 0;
  SP s(new State); s->time = 1; State before = *s;
  for (int i = 0; i < 30; ++i) { s->Set<SD::q_wv>(yaw(0)); fuzzy += core.fuzzyTracker_.Check(s, before, 0.1); }
  for (int dir = -1; dir <= 1; dir += 2) for (int i = 0; i < 300; ++i) { s->Set<SD::q_wv>(yaw(dir * 0.0008 * i + (dir > 0 ? -0.0008 * 300 : 0))); fuzzy += core.fuzzyTracker_.Check(s, before, 0.1); }
  printf("good updates rolled back: %d\n", fuzzy); return fuzzy ? 1 : 0; }
'''
