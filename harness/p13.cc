// Spherical position sensor: predicted angles and range of the antenna, residual, Jacobian, fixed lever arm, noise
#define VC_PREFIX "spherical."
#define VC_STATEDEF <msf_updates/src/spherical_msf/msf_statedef.hpp>
#define VC_NS msf_updates
#include "meas_env.h"
#include "dual.h"
#include <geometry_msgs/PointStamped.h>
namespace msf_updates { using VC_NS::EKFState; }
#include <msf_updates/spherical_position_sensor/spherical_measurement.h>
using namespace env;
typedef msf_spherical_position::AngleMeasurement Angle; typedef msf_spherical_position::DistanceMeasurement Range;
static int group_of(int col) { const std::vector<int>& a = starts(); int g = 0; for (int i = 0; i < (int)a.size(); ++i) if (a[i] <= col) g = i; return g; }
static SP arbitrary(const std::string& n, const Real& t) { SP s = new_state(n, t); RPM P; fill_sym(P, n + "P"); s->P = P; return s; }
// the antenna: position of the body plus the rotated lever arm
static RV3 antenna(const State& s) { RM3 C = rrot(s.Get<SD::q>()); RV3 c; for (int i = 0; i < 3; ++i) c[i] = s.Get<SD::p>()[i] + C(i, 0) * s.Get<SD::p_ip>()[0] + C(i, 1) * s.Get<SD::p_ip>()[1] + C(i, 2) * s.Get<SD::p_ip>()[2]; return c; }
static Vec antenna(const State& s, int dir) { const std::vector<int>& a = starts(); return dvec(s.Get<SD::p>(), a[SD::p], dir) + rot(dquat(s.Get<SD::q>(), a[SD::q], dir), dvec(s.Get<SD::p_ip>(), a[SD::p_ip], dir)); }
template <class T> static T* make(int fixed, bool absolute = true) { T* m = new T(pos_var("n"), choose("fixedcov"), absolute, 3, fixed, choose("gate"), Real(3)); m->time = Real(2); RMX R(m->R_.rows(), m->R_.rows()); fill_sym(R, "R"); m->R_ = R; applied().clear(); return m; }
static void reading(Angle& m) { m.z_a_ << var("za"), var("ze"); } static void reading(Range& m) { m.z_d_ << var("zd"); }
static Real range_of(const RV3& c) { return sqrt(c[0] * c[0] + c[1] * c[1] + c[2] * c[2]); }
static Real inclination_of(const RV3& c) { return acos(c[2] / range_of(c)); }
static Real wrapped(const Real& d) { Real pi(M_PI); return d > pi ? d - 2 * pi : d < -pi ? d + 2 * pi : d; }
template <class T> static bool apply(T* me, const SP& s, int n) { Mgr m; State b(*s); RMX R = me->R_; me->Apply(s, *m.msf_core_); ensure_eq("one update", (int)applied().size(), 1); if (applied().size() != 1) return false; const Applied& a = applied()[0]; ensure("of the given state", a.state == s); ensure("absolute", !a.relative); ensure_eq("size", (int)a.r.rows(), n); ensure_meq("noise is the measurement's", a.R, R); ensure_states_equal("state untouched", *s, b); return (int)a.r.rows() == n; }
VC_CASE(angle_residual) { SP s = arbitrary("s", Real(2)); RPM P = s->P; Angle* me = make<Angle>(0); RV3 c = antenna(*s); reading(*me); Real z0 = me->z_a_(0, 0), z1 = me->z_a_(1, 0), az = wrapped(z1 - atan2(c[1], c[0])); Cuts cut; if (!apply(me, s, 2)) return; for (int i = 0; i < 3; ++i) cut.sweep(c[i], "antenna" + std::to_string(i)); for (int i = 0; i < 3; ++i) c[i] = cut(c[i]);
  ensure_eq("inclination", cut(applied()[0].r(0, 0)), z0 - inclination_of(c)); ensure_eq("azimuth, in every quadrant", cut(applied()[0].r(1, 0)), cut(az)); ensure_meq("covariance untouched", s->P, P); }
VC_CASE(angle_truth) { SP s = arbitrary("s", Real(2)); Angle* me = make<Angle>(0); RV3 c = antenna(*s); Real az = atan2(c[1], c[0]); me->z_a_ << inclination_of(c), az; if (!apply(me, s, 2)) return; ensure_eq("inclination", applied()[0].r(0, 0), Real(0)); ensure_eq("azimuth", applied()[0].r(1, 0), Real(0)); cover(c[0] < Real(0) ? "behind" : "in front"); }
VC_CASE(range_residual) { SP s = arbitrary("s", Real(2)); RPM P = s->P; Range* me = make<Range>(0); RV3 c = antenna(*s); reading(*me); Real z = me->z_d_(0, 0); if (!apply(me, s, 1)) return; Cuts cut; for (int i = 0; i < 3; ++i) cut.sweep(c[i], "antenna" + std::to_string(i)); for (int i = 0; i < 3; ++i) c[i] = cut(c[i]); ensure_eq("range", cut(applied()[0].r(0, 0)), z - range_of(c)); ensure_meq("covariance untouched", s->P, P); }
VC_CASE(range_truth) { SP s = arbitrary("s", Real(2)); Range* me = make<Range>(0); me->z_d_ << range_of(antenna(*s)); if (apply(me, s, 1)) ensure_eq("range", applied()[0].r(0, 0), Real(0)); }
// chain rule: derivative of the prediction with respect to the antenna times the derivative of the antenna
VC_CASE(antenna_lemma) { SP s = arbitrary("s", Real(2)); const std::vector<int>& a = starts(); RM3 C = rrot(s->Get<SD::q>()); RV3 l = s->Get<SD::p_ip>(); for (int k = 0; k < NE; ++k) { Vec y = antenna(*s, k); for (int i = 0; i < 3; ++i) { Real e(0); int g = group_of(k), j = k - a[g]; if (g == SD::p) e = Real(i == j); if (g == SD::p_ip) e = C(i, j); if (g == SD::q) { int u = (j + 1) % 3, v = (j + 2) % 3; e = -(C(i, u) * l[v] - C(i, v) * l[u]); } ensure_eq("derivative [" + std::to_string(i) + "," + std::to_string(k) + "]", y[i].d, e); ensure_eq("value " + std::to_string(i), y[i].v, antenna(*s)[i]); } } }
template <class T> static void jacobian(int n) { int bits = choose_n("fixed", 4), fixed = (bits & 1 ? 1 << SD::p_ip : 0) | (bits & 2 ? 1 << SD::b_w : 0); SP s = arbitrary("s", Real(2)); RPM P = s->P; State b(*s); T* me = make<T>(fixed); reading(*me); RV3 c = antenna(b); RM3 C = rrot(b.Get<SD::q>()); RV3 l = b.Get<SD::p_ip>(); if (!apply(me, s, n)) return; const RMX& H = applied()[0].H; const std::vector<int>& a = starts();
  for (int i = 0; i < NE; ++i) for (int j = 0; j < NE; ++j) { bool z = (bits & 1) && ((group_of(i) == SD::p_ip) != (group_of(j) == SD::p_ip)); ensure_eq("covariance [" + std::to_string(i) + "," + std::to_string(j) + "]", s->P(i, j), z ? Real(0) : P(i, j)); }
  Cuts cut; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) cut.sweep(C(i, j), "C" + std::to_string(i) + std::to_string(j)); for (int i = 0; i < 3; ++i) cut.sweep(c[i], "antenna" + std::to_string(i)); for (int i = 0; i < 3; ++i) c[i] = cut(c[i]); C = RM3(cut.mat(RMX(C)));
  Real rho2 = c[0] * c[0] + c[1] * c[1], r2 = rho2 + c[2] * c[2], rho = sqrt(rho2), r = sqrt(r2); RMX D(n, 3);
  if (n == 1) { for (int i = 0; i < 3; ++i) D(0, i) = c[i] / r; } else { D(0, 0) = c[0] * c[2] / (rho * r2); D(0, 1) = c[1] * c[2] / (rho * r2); D(0, 2) = -rho / r2; D(1, 0) = -c[1] / rho2; D(1, 1) = c[0] / rho2; D(1, 2) = Real(0); }
  for (int k = 0; k < NE; ++k) { int g = group_of(k), j = k - a[g]; for (int i = 0; i < n; ++i) { Real e(0); for (int m = 0; m < 3; ++m) { Real d(0); if (g == SD::p) d = Real(m == j); if (g == SD::p_ip && !(bits & 1)) d = C(m, j); if (g == SD::q) { int u = (j + 1) % 3, v = (j + 2) % 3; d = -(C(m, u) * l[v] - C(m, v) * l[u]); } e = e + D(i, m) * d; } ensure_eq("H[" + std::to_string(i) + "," + std::to_string(k) + "]", cut(H(i, k)), e); } } }
VC_CASE(angle_jacobian) { jacobian<Angle>(2); }
VC_CASE(range_jacobian) { jacobian<Range>(1); }
template <class T> static void relative() { Mgr m; SP s = arbitrary("s", Real(2)); State b(*s); T* me = make<T>(0, false); reading(*me); me->Apply(s, *m.msf_core_); ensure_eq("no update", (int)applied().size(), 0); ensure_states_equal("state untouched", *s, b); ensure_meq("covariance untouched", s->P, b.P); }
VC_CASE(relative_not_applied) { if (choose("angle")) relative<Angle>(); else relative<Range>(); }
VC_CASE(from_message) { boost::shared_ptr<geometry_msgs::PointStamped> msg(new geometry_msgs::PointStamped); msg->point.x = var("x"); msg->point.y = var("y"); msg->point.z = var("z");
  if (choose("angle")) { Angle* me = make<Angle>(0); Real n = me->n_za_; me->MakeFromSensorReading(msg, pos_var("t")); ensure_eq("inclination", me->z_a_(0, 0), msg->point.x); ensure_eq("azimuth", me->z_a_(1, 0), msg->point.y); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) ensure_eq("noise [" + std::to_string(i) + "," + std::to_string(j) + "]", me->R_(i, j), i == j ? n * n : Real(0)); cover("angle"); }
  else { Range* me = make<Range>(0); Real n = me->n_zd_; me->MakeFromSensorReading(msg, pos_var("t")); ensure_eq("range", me->z_d_(0, 0), msg->point.z); ensure_eq("noise", me->R_(0, 0), n * n); cover("range"); } }
VC_MAIN
