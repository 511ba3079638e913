// State prediction: strap-down mechanisation
#include "core_env.h"
using namespace env;
struct Setup { Mgr m; SP so, sn; Real dt; RV3 w0, w1, a0, a1; State before; };
static void setup(Setup& s, bool zero_dt = false) {
  s.so = new_state("old", Real(0)); s.sn = SP(new State);
  Real t0 = var("t0", 1, 2); s.dt = zero_dt ? Real(0) : var("dt", 0.001, 0.2);
  s.so->time = t0; s.sn->time = t0 + s.dt;
  // the readings are written as bias plus true rate/acceleration: no restriction
  s.w0 = vec3("w_old"); s.w1 = vec3("w_new"); s.a0 = vec3("a_old"); s.a1 = vec3("a_new");
  s.so->w_m = s.w0 + s.so->Get<SD::b_w>(); s.so->a_m = s.a0 + s.so->Get<SD::b_a>();
  FreshState f{*s.sn, "junk"}; each_state(f);   // the target may hold anything
  s.sn->w_m = s.w1 + s.so->Get<SD::b_w>(); s.sn->a_m = s.a1 + s.so->Get<SD::b_a>();
  s.before = *s.so; }
static RQuat scaled(const RQuat& q, const Real& f) { RQuat r; r.w() = q.w() * f; r.x() = q.x() * f; r.y() = q.y() * f; r.z() = q.z() * f; return r; }
static RQuat sum(const RQuat& a, const RQuat& b) { RQuat r; r.w() = a.w() + b.w(); r.x() = a.x() + b.x(); r.y() = a.y() + b.y(); r.z() = a.z() + b.z(); return r; }
static RQuat pure(const RV3& v) { RQuat r; r.w() = Real(0); r.x() = v[0]; r.y() = v[1]; r.z() = v[2]; return r; }
// fourth order exponential of half the mean rotation vector, plus the first-order coning term
static RQuat increment(const Setup& s) {
  RQuat h = scaled(pure(s.w0 + s.w1), s.dt * Real(0.25)), e, pw; e.w() = Real(1); e.x() = e.y() = e.z() = Real(0); pw = e; Real fact = 1;
  for (int k = 1; k <= 4; ++k) { pw = rqmul(pw, h); fact = fact * Real(k); e = sum(e, scaled(pw, Real(1) / fact)); }
  RV3 c = s.w0.cross(s.w1) * (s.dt * s.dt / Real(24));
  return sum(e, pure(c)); }
VC_CASE(attitude) {
  Setup s; setup(s); s.m.msf_core_->PropagateState(s.so, s.sn);
  RQuat inc = increment(s); Real nn = inc.w() * inc.w() + inc.x() * inc.x() + inc.y() * inc.y() + inc.z() * inc.z();
  assume_sign(nn, 4);   // the increment never vanishes (case increment_nonzero)
  RQuat u = rqmul(s.so->Get<SD::q>(), inc), got = s.sn->Get<SD::q>();
  ensure_eq("unit norm", got.w() * got.w() + got.x() * got.x() + got.y() * got.y() + got.z() * got.z(), Real(1));
  Real n = sqrt(nn); ensure_qeq("attitude", scaled(got, n), u);
}
VC_CASE(increment_nonzero) {   // lemma: |increment|^2 = c(y)^2 + y s(y)^2 + |coning|^2 with y = |h|^2, and the first part never vanishes
  Setup s; setup(s); RQuat inc = increment(s); RV3 h = (s.w0 + s.w1) * (s.dt * Real(0.25)), c = s.w0.cross(s.w1) * (s.dt * s.dt / Real(24));
  Real y = h.dot(h), cw = Real(1) - y / Real(2) + y * y / Real(24), sv = Real(1) - y / Real(6);
  ensure_eq("squared norm", inc.w() * inc.w() + inc.x() * inc.x() + inc.y() * inc.y() + inc.z() * inc.z(), cw * cw + y * sv * sv + c.dot(c));
  Real x = nonneg_var("y"), cx = Real(1) - x / Real(2) + x * x / Real(24), sx = Real(1) - x / Real(6);
  ob_pos("never zero", cx * cx + x * sx * sx, true);
}
VC_CASE(velocity_position) {
  Setup s; setup(s); norms_nonzero() = true; s.m.msf_core_->PropagateState(s.so, s.sn);
  Cuts c; c.add_unit_proved(s.sn->Get<SD::q>(), "new attitude");
  RQuat q1 = c.quat(s.sn->Get<SD::q>()); RV3 v1 = c.mat(s.sn->Get<SD::v>()), p1 = c.mat(s.sn->Get<SD::p>());
  RV3 g; g << Real(0), Real(0), Real(9.80834);
  RV3 v = s.before.Get<SD::v>() + ((rrot(q1) * s.a1 + rrot(s.before.Get<SD::q>()) * s.a0) / Real(2) - g) * s.dt;
  ensure_meq("velocity", v1, v);
  RV3 p = s.before.Get<SD::p>() + (v1 + RV3(s.before.Get<SD::v>())) / Real(2) * s.dt;
  ensure_meq("position", p1, p);
}
VC_CASE(carried_over) {
  Setup s; setup(s); norms_nonzero() = true; s.m.msf_core_->PropagateState(s.so, s.sn);
  ensure_states_equal("carried over", *s.sn, s.before, 3);
  ensure_states_equal("source state unchanged", *s.so, s.before);
  ensure_eq("source time unchanged", s.so->time, s.before.time); ensure_meq("source gyro unchanged", s.so->w_m, s.before.w_m); ensure_meq("source acc unchanged", s.so->a_m, s.before.a_m);
  ensure_meq("new gyro kept", s.sn->w_m, s.w1 + RV3(s.before.Get<SD::b_w>())); ensure_meq("new acc kept", s.sn->a_m, s.a1 + RV3(s.before.Get<SD::b_a>()));
  ensure_eq("new time kept", s.sn->time, s.before.time + s.dt);
}
VC_CASE(zero_step) {
  Setup s; setup(s, true); s.m.msf_core_->PropagateState(s.so, s.sn);
  ensure_states_equal("zero step", *s.sn, s.before);
}
VC_MAIN
