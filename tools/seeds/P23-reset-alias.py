prop="P23"
edits=[("msf_timing/src/Timer.cc","size_t handle = Instance().timers_.size();","size_t handle = Instance().tagMap_.size();")]
needs="a Reset() of the registry followed by a new timer: before any reset the two sizes agree"
breaks="After Reset the handle of a new name aliases the record of an old timer, so its count, total and extremes include samples that were never added to it."
stubs=False
demo=r'''
#include <msf_timing/Timer.h>
#include <msf_timing/src/Timer.cc>
#include <cstdio>
using namespace msf_timing;
int main() {
  { Timer a("first"); a.Stop(); } { Timer b("second"); b.Stop(); }
  Timing::Reset();
  { Timer c("third"); c.Stop(); }
  size_t n = Timing::GetNumSamples("third"); printf("samples of the new timer: %zu\n", n);
  return n == 1 ? 0 : 1; }
'''
