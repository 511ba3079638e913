prop="P01"
edits=[("msf_core/include/msf_core/implementation/msf_core_inl.h","1.0 / 48.0 * (Omega * OmegaOld - OmegaOld * Omega) * dt * dt;","1.0 / 48.0 * (OmegaOld * Omega - Omega * OmegaOld) * dt * dt;")]
needs="a rotation rate whose direction changes between two readings (coning motion); with a constant axis the term vanishes"
breaks="The coning term of the attitude prediction has the wrong sign, so the attitude drifts under coning motion."
files=["vc.h","shadow.h","core_env.h"]
demo=r'''
#include "core_env.h"
using namespace env;
int main() {
  Mgr mgr; msf_core::MSF_Core<State> core(mgr);
  SP a(new State), b(new State); a->time = 1; b->time = 1.1;
  a->w_m << 1.2, -0.4, 0.3; b->w_m << -0.5, 0.9, 1.1; a->a_m << 0, 0, 9.81; b->a_m = a->a_m;
  a->Set<SD::q>(Eigen::Quaterniond(0.5, 0.5, -0.5, 0.5));
  core.PropagateState(a, b);
  // reference: the rate varies linearly, integrated with 20000 small steps
  Eigen::Quaterniond q(0.5, 0.5, -0.5, 0.5); int n = 20000;
  for (int i = 0; i < n; ++i) { Eigen::Vector3d w = a->w_m + (b->w_m - a->w_m) * (i + 0.5) / n, d = w * 0.1 / n;
    q = q * Eigen::Quaterniond(Eigen::AngleAxisd(d.norm(), d.normalized())); }
  double err = q.angularDistance(b->Get<SD::q>()); printf("attitude error %g\n", err); return err < 1e-4 ? 0 : 1; }
'''
