prop="P23"
edits=[("msf_timing/include/msf_timing/Timer.h","""    if (sample < min_) {""","""    else if (sample < min_) {""")]
needs="a strictly increasing sequence of samples from the very first one on"
breaks="The first sample updates the maximum only; when no later sample falls below the minimum's start value the reported minimum is the initial sentinel."
stubs=False
demo=r'''
#include <msf_timing/Timer.h>
#include <cstdio>
int main() { msf_timing::Accumulator<double, double, 4> a; a.Add(1); a.Add(2); a.Add(3); printf("min %g\n", a.Min()); return a.Min() == 1 ? 0 : 1; }
'''
