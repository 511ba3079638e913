// Pose distorter: random walk of position, scale and attitude.
#define ROS_PACKAGE_NAME "vc"
#include "vc.h"
#include <random>
namespace vc { struct Draw { Real mean, sd, z; }; inline std::vector<Draw>& draws() { static std::vector<Draw> d; return d; } static vc::Forget forget_draws([] { draws().clear(); }); }
namespace std {
// Contract of the library distribution: some real number mean + sd * z.
template <class T = double> struct vc_normal {
  typedef vc::Real result_type; vc::Real m, s;
  vc_normal() : m(0), s(1) {} vc_normal(const vc::Real& a, const vc::Real& b) : m(a), s(b) {}
  vc::Real mean() const { return m; } vc::Real stddev() const { return s; }
  template <class G> vc::Real operator()(G&) { vc::Real z = vc::var("z" + std::to_string(vc::draws().size())); vc::draws().push_back({m, s, z}); return m + s * z; } }; }
#include "shadow.h"
#define normal_distribution vc_normal
#include <msf_updates/src/msf_distort/PoseDistorter.cc>
#undef normal_distribution
using namespace vc;
using msf_updates::PoseDistorter;
struct Cfg { RV3 mp, sp, ma, sa; Real ms, ss; Cfg() { mp = vec3("mp"); sp = vec3("sp", 0.05, 2); ma = vec3("ma"); sa = vec3("sa", 0.05, 2); ms = var("ms"); ss = var("ss", 0.05, 2); } };
// the single draw, among those made from index k on, that belongs to (mean, sd)
static bool take(size_t k, size_t e, const Real& m, const Real& s, Real* v) { int n = 0; for (size_t i = k; i < e; ++i) if (same(draws()[i].mean, m) && same(draws()[i].sd, s)) { *v = m + s * draws()[i].z; ++n; } return n == 1; }
static RQuat small(const RV3& t) { return QuaternionFromSmallAngle(t); }   // contract proved for P20
static double nrm2(const RQuat& q) { return q.w() * q.w() + q.x() * q.x() + q.y() * q.y() + q.z() * q.z(); }
struct Model { RV3 pd; Real sc; RQuat ad; Model() { pd.setZero(); sc = Real(1); ad.setIdentity(); } };
static void pos_spec(Model& m, const Cfg& c, size_t k, size_t e, const Real& dt, RV3& p) {
  for (int i = 0; i < 3; ++i) { Real v; ensure("one draw per axis", take(k, e, c.mp[i], c.sp[i], &v)); m.pd[i] = m.pd[i] + v * dt; }
  Real v; ensure("one scale draw", take(k, e, c.ms, c.ss, &v)); m.sc = m.sc + v * dt;
  p = (p + m.pd) * m.sc; }
static RQuat att_step(const Cfg& c, size_t k, size_t e, const Real& dt) {
  RV3 r; for (int i = 0; i < 3; ++i) { Real v; ensure("one draw per angle", take(k, e, c.ma[i], c.sa[i], &v)); r[i] = v * dt; } return small(r); }
#define HASM(NAME) template <class T> auto has_##NAME(T* t, int) -> decltype((void)t->NAME, true) { return true; } template <class T> bool has_##NAME(T*, long) { return false; }
HASM(posdrift_) HASM(scaledrift_) HASM(attdrift_)
template <class T> auto setpos(T& t, const Model& m, int) -> decltype((void)t.posdrift_, (void)t.scaledrift_, true) { t.posdrift_ = m.pd; t.scaledrift_ = m.sc; return true; }
template <class T> bool setpos(T&, const Model&, long) { return false; }
template <class T> auto setatt(T& t, const Model& m, int) -> decltype((void)t.attdrift_, true) { t.attdrift_ = m.ad; return true; }
template <class T> bool setatt(T&, const Model&, long) { return false; }
template <class T> auto getatt(T& t, RQuat* q, int) -> decltype((void)t.attdrift_, true) { *q = t.attdrift_; return true; }
template <class T> bool getatt(T&, RQuat*, long) { return false; }

VC_CASE(initial) {   // fresh distorter, first call
  Cfg c; PoseDistorter d(c.mp, c.sp, c.ma, c.sa, c.ms, c.ss); Model m; Real dt = var("dt", 0, 1);
  RV3 p = vec3("p"), q = p; d.Distort(p, dt); pos_spec(m, c, 0, draws().size(), dt, q);
  ensure_meq("distorted position", p, q);
}
VC_CASE(step_position) {   // any accumulated drift, one more call (induction step)
  Cfg c; PoseDistorter d(c.mp, c.sp, c.ma, c.sa, c.ms, c.ss); Model m; m.pd = vec3("pd"); m.sc = var("sc"); RQuat a0 = uquat("ad"); m.ad = a0;
  if (!setpos(d, m, 0) || !setatt(d, m, 0)) { m = Model(); }
  for (int n = 0; n < 2; ++n) { std::string s = std::to_string(n); Real dt = var("dt" + s, 0, 1); size_t k = draws().size();
    RV3 p = vec3("p" + s), q = p; d.Distort(p, dt); pos_spec(m, c, k, draws().size(), dt, q); ensure_meq("distorted position", p, q); }
}
VC_CASE(step_attitude) {
  Cfg c; PoseDistorter d(c.mp, c.sp, c.ma, c.sa, c.ms, c.ss); Model m; m.pd = vec3("pd"); m.sc = var("sc"); m.ad = uquat("ad");
  if (!setpos(d, m, 0) || !setatt(d, m, 0)) m = Model();
  Real dt = var("dt", 0, 1); RQuat a = uquat("att"), a0 = a; d.Distort(a, dt);
  RQuat dq = att_step(c, 0, draws().size(), dt); m.ad = rqmul(m.ad, dq);
  ensure_qeq("distorted attitude", a, rqmul(a0, m.ad));
  RQuat g; if (getatt(d, &g, 0)) ensure_qeq("accumulated attitude drift", g, m.ad);
  RV3 p = vec3("p"); RV3 q = p; size_t k = draws().size(); d.Distort(p, dt); pos_spec(m, c, k, draws().size(), dt, q); ensure_meq("position drift untouched by attitude", p, q);
}
VC_CASE(unit_norm) {
  Cfg c; PoseDistorter d(c.mp, c.sp, c.ma, c.sa, c.ms, c.ss); Model m; m.pd.setZero(); m.sc = Real(1); m.ad = uquat("ad");
  setpos(d, m, 0); setatt(d, m, 0);
  Real dt = var("dt", 0, 1); RQuat a = uquat("att"); d.Distort(a, dt);
  RQuat g; if (getatt(d, &g, 0)) ensure_eq("drift has unit norm", nrm2(g), 1);
}
VC_CASE(joint) {   // the joint call is the two separate ones
  Cfg c; PoseDistorter d(c.mp, c.sp, c.ma, c.sa, c.ms, c.ss); Model m; m.pd = vec3("pd"); m.sc = var("sc"); m.ad = uquat("ad");
  if (!setpos(d, m, 0) || !setatt(d, m, 0)) m = Model();
  Real dt = var("dt", 0, 1); RV3 p = vec3("p"), q = p; RQuat a = uquat("att"), b = a; d.Distort(p, a, dt); size_t e = draws().size();
  pos_spec(m, c, 0, e, dt, q); ensure_meq("position", p, q);
  RQuat dq = att_step(c, 0, e, dt); ensure_qeq("attitude", a, rqmul(b, rqmul(m.ad, dq)));
  ensure_eq("draws", (int)e, 7);
}
VC_CASE(identity) {   // zero drift, zero noise: the pose is returned as it was
  RV3 z = RV3::Zero(); PoseDistorter d(z, z, z, z, Real(0), Real(0));
  for (int n = 0; n < 3; ++n) { std::string s = std::to_string(n); Real dt = var("dt" + s, 0, 1); RV3 p = vec3("p" + s), p0 = p; RQuat a = uquat("a" + s), a0 = a; d.Distort(p, a, dt); ensure_meq("position", p, p0); ensure_qeq("attitude", a, a0); }
}
VC_CASE(zero_step) {   // no time, no change of the accumulated drift
  Cfg c; PoseDistorter d(c.mp, c.sp, c.ma, c.sa, c.ms, c.ss); RV3 p = vec3("p"), p0 = p; RQuat a = uquat("a"), a0 = a; d.Distort(p, a, Real(0)); ensure_meq("position", p, p0); ensure_qeq("attitude", a, a0);
}
VC_MAIN
