prop="P20"
edits=[("msf_core/include/msf_core/eigen_utils.h","const Scalar f = w * 0.5;","const Scalar f = w * w * 0.5;")]
needs="an angle vector whose norm is at least two (the branch ordinary corrections never take)"
breaks="The quaternion of a large angle vector no longer has unit norm."
stubs=False
demo=r'''
#include <msf_core/eigen_utils.h>
#include <cstdio>
int main() { Eigen::Vector3d t(3, 1, -2); double n = QuaternionFromSmallAngle(t).norm(); printf("norm %g\n", n); return std::fabs(n - 1) < 1e-9 ? 0 : 1; }
'''
