// Pose measurement: prediction, residual, Jacobian, fixed states (one state definition per including file)
#include "meas_env.h"
#include "dual.h"
static env::SP the_old, asked_state; static env::Real asked_prev, asked_state_time; static int asked_sensor, n_prev, n_state; static boost::shared_ptr<env::Base> the_prev;
namespace msf_core {
template <> shared_ptr<env::Base> MSF_Core<env::State>::GetPreviousMeasurement(double t, int sensor) { ++n_prev; asked_prev = t; asked_sensor = sensor; return the_prev; }
template <> shared_ptr<env::State> MSF_Core<env::State>::GetClosestState(double t) { ++n_state; asked_state_time = t; return the_old; }
}
#include <geometry_msgs/PoseWithCovarianceStamped.h>
namespace msf_updates { using VC_NS::EKFState; }
#include "distorter_contract.h"
#include <msf_updates/pose_sensor_handler/pose_measurement.h>
using namespace env;
typedef msf_updates::pose_measurement::PoseMeasurement<> Pose;
enum { M = 7 };
static const int aux[5] = {SD::L, SD::q_wv, SD::p_wv, SD::q_ic, SD::p_ic};
struct Pred { Vec p; Qua q; };
static Pred predict(const State& s, int dir = -1) { const std::vector<int>& a = starts(); Pred r; Qua qwv = dquat(s.Get<SD::q_wv>(), a[SD::q_wv], dir), q = dquat(s.Get<SD::q>(), a[SD::q], dir), qic = dquat(s.Get<SD::q_ic>(), a[SD::q_ic], dir);
  Vec p = dvec(s.Get<SD::p>(), a[SD::p], dir), pwv = dvec(s.Get<SD::p_wv>(), a[SD::p_wv], dir), pic = dvec(s.Get<SD::p_ic>(), a[SD::p_ic], dir); Dual L = dscal(s.Get<SD::L>()[0], a[SD::L], dir);
  r.p = rot(qwv, p - pwv + rot(q, pic)) * L; r.q = qwv * q * qic; return r; }
static void set_truth(Pose& m, const State& s) { Pred y = predict(s); for (int i = 0; i < 3; ++i) m.z_p_[i] = y.p[i].v; m.z_q_.w() = y.q.w.v; m.z_q_.x() = y.q.x.v; m.z_q_.y() = y.q.y.v; m.z_q_.z() = y.q.z.v; }
static int group_of(int col) { const std::vector<int>& a = starts(); int g = 0; for (int i = 0; i < (int)a.size(); ++i) if (a[i] <= col) g = i; return g; }
static SP arbitrary(const std::string& n, const Real& t) { SP s = new_state(n, t); RPM P; fill_sym(P, n + "P"); s->P = P; return s; }
static void clear_check(const std::string& n, const State& s, const RPM& before, int fixed) { bool ok = true, okz = true; for (int i = 0; i < NE; ++i) for (int j = 0; j < NE; ++j) { int a = group_of(i), b = group_of(j); bool z = a != b && ((fixed >> a & 1) || (fixed >> b & 1)); if (z) { if (!same(s.P(i, j), Real(0))) okz = false; } else if (!identical(s.P(i, j), before(i, j)) && !same(s.P(i, j), before(i, j))) ok = false; }
  ensure(n + ": cross covariances of fixed states cleared", okz); ensure(n + ": covariance otherwise kept", ok); }
static Pose* make(int fixed, bool absolute = true, const Real& t = Real(2)) { Pose* m = new Pose(Real(1), Real(1), true, true, absolute, 3, choose("gate"), Real(3), fixed); m->time = t; RMX R(M, M); fill_sym(R, "R"); m->R_ = R; return m; }
static int some_fixed(const std::string& n) { int f = 0; for (int i = 0; i < 5; ++i) if (choose(n + std::to_string(i))) f |= 1 << aux[i]; return f; }
// prediction error for every reading: position difference, twice the vector part over the scalar part of the attitude error
VC_CASE(residual) { Mgr m; SP s = arbitrary("s", Real(2)); State b(*s); Pose* me = make(0); me->z_p_ = vec3("z"); me->z_q_ = uquat("zq"); applied().clear(); me->Apply(s, *m.msf_core_); ensure_eq("one update", (int)applied().size(), 1); if (applied().size() != 1) return; const Applied& a = applied()[0];
  ensure("of the given state", a.state == s); ensure("absolute", !a.relative); ensure_eq("size", (int)a.r.rows(), M); Pred y = predict(b); Qua z = cquat(me->z_q_); Vec e = err_of(conj(y.q) * z);
  for (int i = 0; i < 3; ++i) { ensure_eq("position " + std::to_string(i), a.r(i, 0), me->z_p_[i] - y.p[i].v); ensure_eq("attitude " + std::to_string(i), a.r(3 + i, 0), e[i].v); }
  ensure_eq("no further residual", a.r(6, 0), Real(0)); ensure_meq("noise is the measurement's", a.R, RMX(me->R_)); ensure_states_equal("state untouched", *s, b); ensure_meq("covariance untouched", s->P, b.P); }
VC_CASE(truth) { Mgr m; SP s = arbitrary("s", Real(2)); Pose* me = make(0); set_truth(*me, *s); applied().clear(); me->Apply(s, *m.msf_core_); ensure_eq("one update", (int)applied().size(), 1); if (applied().size() != 1) return; for (int i = 0; i < M; ++i) ensure_eq("residual " + std::to_string(i), applied()[0].r(i, 0), Real(0)); }
static void jacobian(const std::string& n, const RMX& H, const State& s, int fixed, const Real& sign) { for (int c = 0; c < NE; ++c) { Pred y = predict(s, c), y0 = predict(s); bool fx = fixed >> group_of(c) & 1; y0.q.w.d = y0.q.x.d = y0.q.y.d = y0.q.z.d = Real(0); Vec e = err_of(conj(y0.q) * y.q);
    for (int i = 0; i < 3; ++i) { std::string k = "," + std::to_string(c) + "]"; ensure_eq(n + "[" + std::to_string(i) + k, H(i, c), fx ? Real(0) : sign * y.p[i].d); ensure_eq(n + "[" + std::to_string(3 + i) + k, H(3 + i, c), fx ? Real(0) : sign * e[i].d); }
    ensure_eq(n + "[6," + std::to_string(c) + "]", H(6, c), Real(0)); } }
static void with_fixed(int fixed) { Mgr m; SP s = arbitrary("s", Real(2)); RPM P = s->P; State b(*s); Pose* me = make(fixed); me->z_p_ = vec3("z"); me->z_q_ = uquat("zq"); applied().clear(); me->Apply(s, *m.msf_core_); if (applied().size() != 1) { ensure("one update", false); return; } jacobian("H", applied()[0].H, b, fixed, Real(1)); clear_check("state", *s, P, fixed); ensure_states_equal("state untouched", *s, b); }
VC_CASE(jacobian) { with_fixed(0); }
VC_CASE(fixed_states) { with_fixed(some_fixed("fixed")); }
#ifdef VC_RELATIVE
struct Other : Base { Other() : Base(true, 3, false, 0.0) { time = 1; } void Apply(SP, Core&) {} std::string Type() { return "o"; } };
// ---- relative: difference of two readings against the difference of the predictions
struct Rel { Mgr m; SP o, s; State bo, bs; Pose* prev; Pose* me; Rel(int fixed) : o(arbitrary("o", Real(1))), s(arbitrary("s", Real(2))), bo(*o), bs(*s), prev(make(fixed, false, Real(1))), me(make(fixed, false)) { the_prev.reset(prev); the_old = o; n_prev = n_state = 0; prev->time = pos_var("tprev"); applied().clear(); }
  bool go() { me->Apply(s, *m.msf_core_); ensure_eq("one lookup of the previous reading", n_prev, 1); ensure_eq("of this sensor", asked_sensor, 3); ensure_eq("before this time", asked_prev, me->time); ensure_eq("one lookup of the state there", n_state, 1); ensure_eq("at the previous reading's time", asked_state_time, prev->time);
    ensure_eq("one update", (int)applied().size(), 1); if (applied().size() != 1) return false; const Applied& a = applied()[0]; ensure("relative", a.relative); ensure("state at the previous reading", a.old_state == o); ensure("state at this reading", a.state == s); ensure_meq("noise is the measurement's", a.R, RMX(me->R_)); ensure_states_equal("state untouched", *s, bs); ensure_states_equal("older state untouched", *o, bo); return true; } };
static RQuat value(const Qua& q) { RQuat r; r.w() = q.w.v; r.x() = q.x.v; r.y() = q.y.v; r.z() = q.z.v; return r; }
VC_CASE(predicted_attitude_is_unit) { SP s = arbitrary("s", Real(2)); RQuat q = value(predict(*s).q); ensure_eq("norm", q.w() * q.w() + q.x() * q.x() + q.y() * q.y() + q.z() * q.z(), Real(1)); }
VC_CASE(relative_truth) { Rel r(0); set_truth(*r.prev, *r.o); set_truth(*r.me, *r.s); Pred yo = predict(*r.o), yn = predict(*r.s); if (!r.go()) return; Cuts c; c.sweep_unit(value(yo.q), "old"); c.sweep_unit(value(yn.q), "new"); for (int i = 0; i < M; ++i) ensure_eq("residual " + std::to_string(i), c(applied()[0].r(i, 0)), Real(0)); }
VC_CASE(relative_residual) { Rel r(0); r.prev->z_p_ = vec3("zo"); r.me->z_p_ = vec3("zn"); r.prev->z_q_ = uquat("zqo"); r.me->z_q_ = uquat("zqn"); if (!r.go()) return; const Applied& a = applied()[0]; Pred yo = predict(r.bo), yn = predict(r.bs);
  for (int i = 0; i < 3; ++i) ensure_eq("position " + std::to_string(i), a.r(i, 0), (r.me->z_p_[i] - r.prev->z_p_[i]) - (yn.p[i].v - yo.p[i].v)); ensure_eq("no further residual", a.r(6, 0), Real(0));
  Cuts c; auto cut = [&](Qua& q, const std::string& n) { Dual* x[4] = {&q.w, &q.x, &q.y, &q.z}; for (int i = 0; i < 4; ++i) c.sweep(x[i]->v, n); for (int i = 0; i < 4; ++i) x[i]->v = c(x[i]->v); }; cut(yo.q, "old"); cut(yn.q, "new");
  Qua pd = conj(yo.q) * yn.q, zd = conj(cquat(r.prev->z_q_)) * cquat(r.me->z_q_), e = conj(pd) * zd; for (int i = 0; i < 3; ++i) { const Dual* x[3] = {&e.x, &e.y, &e.z}; ensure_eq("attitude " + std::to_string(i), c(a.r(3 + i, 0)) * e.w.v, Real(2) * x[i]->v); } }
// how the predicted attitude turns with each error state
static RMX turned(const State& s) { const std::vector<int>& a = starts(); RMX J = RMX::Zero(3, NE); RM3 Ci = rrot(rqconj(s.Get<SD::q_ic>())), Cq = rrot(rqconj(s.Get<SD::q>())), CC; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) CC(i, j) = Ci(i, 0) * Cq(0, j) + Ci(i, 1) * Cq(1, j) + Ci(i, 2) * Cq(2, j);
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { J(i, a[SD::q] + j) = Ci(i, j); J(i, a[SD::q_wv] + j) = CC(i, j); J(i, a[SD::q_ic] + j) = Real(i == j); } return J; }
VC_CASE(turned_lemma) { SP s = arbitrary("s", Real(2)); RMX J = turned(*s); for (int k = 0; k < NE; ++k) { Pred y = predict(*s, k), y0 = predict(*s); Vec e = err_of(conj(y0.q) * y.q); for (int i = 0; i < 3; ++i) ensure_eq("derivative [" + std::to_string(i) + "," + std::to_string(k) + "]", e[i].d, J(i, k)); } }
static void relative_jacobian(bool old, int fixed) { Rel r(fixed); set_truth(*r.prev, *r.o); set_truth(*r.me, *r.s); RPM Po = r.o->P, Ps = r.s->P; if (!r.go()) return; const Applied& a = applied()[0]; const State& at = old ? r.bo : r.bs; Pred yo = predict(r.bo), yn = predict(r.bs); const RMX& H = old ? a.H_old : a.H; std::string n = old ? "H_old" : "H_new";
  clear_check("older state", *r.o, Po, fixed); clear_check("newer state", *r.s, Ps, fixed);
  // moving the older state by e turns the residual's error by -R(new* old) e (adjoint action), moving the newer one by e
  RMX Ja = turned(at); Cuts cut; cut.sweep_unit(value(yo.q), "old"); cut.sweep_unit(value(yn.q), "new"); RM3 Rr = rrot(rqmul(rqconj(cut.quat(value(yn.q))), cut.quat(value(yo.q))));
  for (int c = 0; c < NE; ++c) { Pred y = predict(at, c); bool fx = fixed >> group_of(c) & 1; Real e[3]; for (int i = 0; i < 3; ++i) { e[i] = Ja(i, c); if (old) { e[i] = 0; for (int k = 0; k < 3; ++k) e[i] = e[i] - Rr(i, k) * Ja(k, c); } }
    for (int i = 0; i < 3; ++i) { std::string k = "," + std::to_string(c) + "]"; ensure_eq(n + "[" + std::to_string(i) + k, H(i, c), fx ? Real(0) : old ? -y.p[i].d : y.p[i].d); ensure_eq(n + "[" + std::to_string(3 + i) + k, cut(H(3 + i, c)), fx ? Real(0) : e[i]); } ensure_eq(n + "[6," + std::to_string(c) + "]", H(6, c), Real(0)); } }
VC_CASE(relative_jacobian_new) { relative_jacobian(false, 0); }
VC_CASE(relative_jacobian_old) { relative_jacobian(true, 0); }
VC_CASE(relative_fixed) { int k = choose_n("fixed", 6); relative_jacobian(choose("old"), k == 5 ? (1 << SD::L | 1 << SD::p_ic) : 1 << aux[k]); }
VC_CASE(relative_without_previous) { Rel r(0); set_truth(*r.prev, *r.o); set_truth(*r.me, *r.s); int how = choose_n("missing", 3); if (how == 0) { r.prev->time = Real(msf_core::constants::INVALID_TIME); } else if (how == 1) the_prev.reset(new Other); else r.o->time = Real(msf_core::constants::INVALID_TIME);
  r.me->Apply(r.s, *r.m.msf_core_); ensure_eq("no update", (int)applied().size(), 0); ensure_states_equal("state untouched", *r.s, r.bs); ensure_meq("covariance untouched", r.s->P, r.bs.P); }
#endif
VC_MAIN
