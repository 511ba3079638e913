// Correcting a state (included once per state definition).
#include "core_env.h"
using namespace env;
// independent layout: running sums of the lengths, quaternions count three
struct Layout { std::vector<int> start, len; std::vector<bool> quat; template <int I> void operator()() { typedef typename Var<I>::T T; bool q = std::is_same<T, RQuat>::value; int l = q ? 3 : comps(T()); start.push_back(start.empty() ? 0 : start.back() + len.back()); len.push_back(l); quat.push_back(q); } };
inline RQuat small_quat(const Real& x, const Real& y, const Real& z) { RQuat r; Real t = (x * x + y * y + z * z) / Real(4);
  if (t < Real(1)) { r.w() = sqrt(Real(1) - t); r.x() = x / Real(2); r.y() = y / Real(2); r.z() = z / Real(2); }
  else { Real w = Real(1) / sqrt(Real(1) + t), f = w / Real(2); r.w() = w; r.x() = x * f; r.y() = y * f; r.z() = z * f; } return r; }
struct Corrected { const State& b; const State& a; const Err& c; const Layout& l; bool mult; int only;
  template <int I> void operator()() { if (only >= 0 && only != I) return; typedef typename Var<I>::T T; std::string n = sn(I); int s = l.start[I];
    if constexpr (std::is_same<T, RQuat>::value) { const RQuat& q = a.template Get<I>(); RQuat e = rqmul(b.template Get<I>(), small_quat(c[s], c[s + 1], c[s + 2]));
      ensure_qeq(n, q, e); ensure_eq(n + " has unit norm", q.w() * q.w() + q.x() * q.x() + q.y() * q.y() + q.z() * q.z(), Real(1)); }
    else for (int i = 0; i < l.len[I]; ++i) ensure_eq(n + "[" + std::to_string(i) + "]", a.template Get<I>()[i], (Var<I>::V::options_ & msf_core::correctionMultiplicative) ? b.template Get<I>()[i] * c[s + i] : b.template Get<I>()[i] + c[s + i]); } };
struct ZeroBut { State& s; int only; template <int I> void operator()() { } };
static void check_rest(const State& s, const State& b) {
  ensure_eq("time", s.time, b.time); ensure_meq("gyro", s.w_m, b.w_m); ensure_meq("acc", s.a_m, b.a_m); ensure_meq("covariance", s.P, b.P); ensure_meq("transition", s.Fd, b.Fd); ensure_meq("noise", s.Qd, b.Qd); ensure_meq("gyro noise", s.noise_gyr, b.noise_gyr); ensure_meq("acc noise", s.noise_acc, b.noise_acc); }
static SP arbitrary() { SP s = new_state("s", var("time")); RPM P; fill_sym(P, "P"); s->P = P; fill(s->Fd, "Fd"); fill(s->Qd, "Qd"); return s; }
VC_CASE(layout) { Layout l; each_state(l); int sum = l.start.back() + l.len.back(); ensure_eq("slices tile the correction vector", sum, (int)NE); ensure_eq("one slice per state", (int)l.start.size(), (int)State::nStateVarsAtCompileTime); }
// every component of the correction is arbitrary except that at most one quaternion is turned (the quaternions'
// small-angle branches would multiply); the other quaternions must stay as they are
struct QIdx { std::vector<int> v; template <int I> void operator()() { if (std::is_same<typename Var<I>::T, RQuat>::value) v.push_back(I); } };
VC_CASE(one_attitude_turned) {
  Layout l; each_state(l); QIdx q; each_state(q); SP s = arbitrary(); State before(*s); Err c; fill(c, "c");
  int k = q.v[choose_n("attitude", q.v.size())]; for (int i : q.v) if (i != k) for (int d = 0; d < 3; ++d) c[l.start[i] + d] = 0;
  Err c0 = c; s->Correct(c); ensure_meq("correction itself", c, c0);
  Corrected r{before, *s, c0, l, false, -1}; each_state(r); check_rest(*s, before); }
// the attitude need not be of unit norm before: afterwards it is, and it points where the turned one does
struct Drifted { State& s; int k; const std::vector<Real>& v; template <int I> void operator()() { if constexpr (std::is_same<typename Var<I>::T, RQuat>::value) if (I == k) { RQuat& q = s.template Get<I>(); q.w() = v[0]; q.x() = v[1]; q.y() = v[2]; q.z() = v[3]; } } };
struct Unit { const State& a; const State& b; const Err& c; const Layout& l; int k; template <int I> void operator()() { if constexpr (std::is_same<typename Var<I>::T, RQuat>::value) if (I == k) { int s = l.start[I]; const RQuat& q = a.template Get<I>(); const RQuat& o = b.template Get<I>();
  RQuat e = rqmul(o, small_quat(c[s], c[s + 1], c[s + 2])); Real n = sqrt(e.w() * e.w() + e.x() * e.x() + e.y() * e.y() + e.z() * e.z());
  ensure_eq("unit norm whatever it was before", q.w() * q.w() + q.x() * q.x() + q.y() * q.y() + q.z() * q.z(), Real(1)); ensure_eq("direction w", q.w() * n, e.w()); ensure_eq("direction x", q.x() * n, e.x()); ensure_eq("direction y", q.y() * n, e.y()); ensure_eq("direction z", q.z() * n, e.z()); } } };
VC_CASE(drifted_attitude) { Layout l; each_state(l); QIdx q; each_state(q); SP s = arbitrary(); int k = q.v[choose_n("attitude", q.v.size())];
  std::vector<Real> v = {pos_var("dw"), var("dx"), var("dy"), var("dz")}; Drifted d{*s, k, v}; each_state(d); State before(*s); Err c = Err::Zero(); for (int i = 0; i < 3; ++i) c[l.start[k] + i] = var("c" + std::to_string(i), -0.5, 0.5);
  s->Correct(c); Unit u{*s, before, c, l, k}; each_state(u); }
VC_CASE(all_at_once) { Layout l; each_state(l); SP s = arbitrary(); State before(*s); Err c; fill(c, "c", -0.5, 0.5); Err c0 = c; s->Correct(c); ensure_meq("correction itself", c, c0);
  Corrected r{before, *s, c0, l, false, -1}; each_state(r); check_rest(*s, before); }
VC_CASE(zero) { Layout l; each_state(l); SP s = arbitrary(); State before(*s); Err c = Err::Zero(); bool mult = false;
  s->Correct(c); Corrected r{before, *s, c, l, false, -1}; each_state(r); check_rest(*s, before);
#ifndef VC_MULT
  ensure_states_equal("unchanged", *s, before);
#endif
  (void)mult; }
VC_MAIN
