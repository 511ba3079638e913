prop="P21"
edits=[("msf_core/include/msf_core/msf_tools.h","std::nth_element(begin, middle, end);","std::nth_element(begin, middle, end - 1);")]
needs="a sample whose last element belongs into the lower part"
breaks="The last element of the sample is left out of the ordering, so the median depends on the order of the sample."
demo=r'''
#include "prelude.h"
#include <Eigen/Dense>
#include <cmath>
#include <cstdio>
#include <msf_core/msf_tools.h>
int main() { Eigen::Matrix<double, 5, 1> a; a << 5, 4, 3, 2, 1; double m = msf_core::GetMedian(a); printf("median %g\n", m); return m == 3 ? 0 : 1; }
'''
