prop="P13"
edits=[("msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h","      if (r_old(1, 0) < -M_PI) {","      if (r_old(1, 0) + z_spherical(1, 0) < -M_PI) {")]
needs="an azimuth reading on the other side of the branch cut: reading negative, prediction positive, more than half a turn apart"
breaks="The azimuth residual is off by a full turn when the antenna crosses the negative x axis in one direction."
files=["vc.h","shadow.h","core_env.h","meas_env.h"]
demo=r'''
#define VC_PREFIX "spherical."
#define VC_STATEDEF <msf_updates/src/spherical_msf/msf_statedef.hpp>
#define VC_NS msf_updates
#include "meas_env.h"
#include <geometry_msgs/PointStamped.h>
namespace msf_updates { using VC_NS::EKFState; }
#include <msf_updates/spherical_position_sensor/spherical_measurement.h>
using namespace env;
int main() {
  Mgr mgr; SP s(new State); s->time = 2; s->Get<SD::p>() << -3, 0.1, 1; s->P.setIdentity();
  msf_spherical_position::AngleMeasurement* m = new msf_spherical_position::AngleMeasurement(0.1, true, true, 3, 0, false, 3); m->time = 2; m->R_.setIdentity();
  Eigen::Vector3d z(-3, -0.1, 1); m->z_a_ << acos(z[2] / z.norm()), atan2(z[1], z[0]);
  boost::shared_ptr<msf_core::MSF_MeasurementBase<State> > keep(m); m->Apply(s, *mgr.msf_core_);
  double r = applied().empty() ? 99 : applied()[0].r(1, 0); printf("azimuth residual %g\n", r); return std::fabs(r) < 0.1 ? 0 : 1; }
'''
