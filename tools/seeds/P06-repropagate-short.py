prop="P06"
edits=[("msf_core/include/msf_core/implementation/msf_core_inl.h","it_end = stateBuffer_.GetIteratorClosestAfter(it_nextmeas->second->time);","it_end = stateBuffer_.GetIteratorClosestBefore(it_nextmeas->second->time);")]
needs="a late measurement followed by another one at least two states later, between two states, so that the states next to it are needed for the interpolation"
breaks="After a late measurement the states are predicted again only up to the one before the next measurement, so a later measurement is applied to (or interpolated from) a state that does not know of the late one."
files=["vc.h","shadow.h","core_env.h"]
demo=r'''
#include "core_env.h"
#include <msf_timing/src/Timer.cc>
using namespace env;
struct M : msf_core::MSF_MeasurementBase<State> { double z; M(double t, double zz) : msf_core::MSF_MeasurementBase<State>(true, 0, false, 0), z(zz) { time = t; }
  void Apply(SP s, msf_core::MSF_Core<State>& core) { Eigen::Matrix<double, 3, NE> H; H.setZero(); H.block<3, 3>(0, 0).setIdentity(); Eigen::Matrix<double, 3, 1> r = Eigen::Vector3d::Constant(z) - static_cast<const State&>(*s).Get<SD::p>();
    CalculateAndApplyCorrection(s, core, H, r, Eigen::Matrix3d(Eigen::Matrix3d::Identity() * 0.01)); } std::string Type() { return "m"; } };
typedef msf_core::MSF_Core<State> CoreT;
static Eigen::Matrix<double, 16, 1> go(bool late, double t1, double t2) {
  Mgr mgr; mgr.na = mgr.nba = mgr.nw = mgr.nbw = 0.01; mgr.fuzzy = 100; CoreT core(mgr);
  shared_ptr<msf_core::MSF_InitMeasurement<State> > in(new msf_core::MSF_InitMeasurement<State>(true)); in->time = 1; core.Init(in);
  for (int i = 1; i <= 12; ++i) core.ProcessIMU(msf_core::Vector3(.3 * i, -.2, 9.8 + .1 * i), msf_core::Vector3(.1, .05 * i, -.3), 1 + .01 * i, i);
  shared_ptr<msf_core::MSF_MeasurementBase<State> > a(new M(t1, .5)), b(new M(t2, -.4));
  if (late) { core.AddMeasurement(b); core.AddMeasurement(a); } else { core.AddMeasurement(a); core.AddMeasurement(b); }
  return core.stateBuffer_.GetLast()->ToEigenVector(); }
int main() { double worst = 0;
  for (double t2 : {1.07, 1.08, 1.09, 1.1}) worst = std::max(worst, (go(false, 1.04, t2) - go(true, 1.04, t2)).cwiseAbs().maxCoeff());
  printf("late and timely delivery differ by %g\n", worst); return worst < 1e-9 ? 0 : 1; }
'''
