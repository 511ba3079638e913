// Measurements while old ones are being cleaned up; the map's own contract reports a use of an erased element.
#include "vc.h"
#include "absmap.h"
#include "p06.h"
// readings every 0.7 s, a measurement with every one of them; the clean-up falls on a call that re-applies old measurements
// (delivered first: two steps back in the past, then one on the second-to-last, then one next to the first)
static void run(int before, int back) { Run r; int n = 0; std::string name = std::to_string(before) + " then " + std::to_string(back) + " back: ";
  for (int k = 1; n < before; ++k) { r.imu(k < 4 ? 10000 * k : 700000 * k); if (k > 4) { r.meas(700000 * k, k % 3 == 0); ++n; } } int last = r.k; ensure(name + "none waits", r.c.queueFutureMeasurements_.empty());
  for (int j = 0; j < 3; ++j) { int us = 700000 * (last - back) - 50000; if (j == 1) us = 700000 * (last - 1) + 50400; if (j == 2) us = 700000 * (last - back) + 51500; bool old = sec(us) < r.c.stateBuffer_.GetFirst()->time; r.meas(sec(us), false, !old); }
  r.imu(700000 * (last + 1)); r.meas(700000 * (last + 1), false); r.check(name); }
VC_CASE_BOUNDED(clean_up) { static const int back[] = {1, 5, 80, 88}; int b = choose_n("back", 4); run(92 + choose_n("before", 12), back[b]); }
VC_MAIN
