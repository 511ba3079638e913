// Out-of-order and delayed measurements: the newest state equals that of the time-ordered run.
// The state prediction (P01), the covariance prediction (P02), the application of a correction (P07)
// and the update of a measurement (P03) stand under contracts: each is an arbitrary function of what it may depend on.
#define VC_STATEDEF <msf_updates/src/position_msf/msf_statedef.hpp>
#define VC_NS msf_updates
#include "core_env.h"
using namespace env;
static Real mix(const std::string& f, const std::vector<Real>& v) {   // an arbitrary function: equal for provably equal arguments
#ifdef VC_SYM
  static std::map<std::string, Real> seen; std::string k = f; for (auto& x : v) k += "," + key_of(x); auto i = seen.find(k); if (i == seen.end()) i = seen.insert(std::make_pair(k, var(f + std::to_string(seen.size())))).first; return i->second;
#else
  Real r = v[0]; for (size_t i = 1; i < v.size(); ++i) r = fun(f + std::to_string(i), r, v[i]); return v.size() == 1 ? fun(f + "1", r) : r;
#endif
}
struct X { Real p, b, P; };   // a propagated state, a carried-over state and the covariance, one number each
static X get(const State& s) { return X{s.Get<SD::p>()[0], s.Get<SD::b_w>()[0], s.P(0, 0)}; }
static void put(State& s, const X& x) { s.Get<SD::p>()[0] = x.p; s.Get<SD::b_w>()[0] = x.b; s.P(0, 0) = x.P; }
static Real prop(const X& o, const Real& a0, const Real& w0, const Real& a1, const Real& w1, const Real& dt) { return mix("prop", {o.p, o.b, a0, w0, a1, w1, dt}); }
static Real propP(const Real& P, const X& n, const Real& a, const Real& w, const Real& dt) { return mix("cov", {P, n.p, n.b, a, w, dt}); }
static X update(const X& o, const Real& z) { return X{mix("up", {o.p, o.b, o.P, z}), mix("ub", {o.p, o.b, o.P, z}), mix("uP", {o.p, o.b, o.P, z})}; }
namespace msf_core {
template <> void MSF_Core<State>::PropagateState(shared_ptr<State>& o, shared_ptr<State>& n) { X x = get(*o); Real P = n->P(0, 0); Real p = prop(x, o->a_m[0], o->w_m[0], n->a_m[0], n->w_m[0], n->time - o->time); put(*n, X{p, x.b, P}); }
template <> void MSF_Core<State>::PredictProcessCovariance(shared_ptr<State>& o, shared_ptr<State>& n) { Real dt = n->time - o->time; if (dt <= 0) return; n->P(0, 0) = propP(o->P(0, 0), get(*n), n->a_m[0], n->w_m[0], dt); time_P_propagated = n->time; }
template <> bool MSF_Core<State>::ApplyCorrection(shared_ptr<State>& s, ErrorState&, double) { if (!initialized_ || !predictionMade_) return false; time_P_propagated = s->time; return true; }
}
struct Meas : msf_core::MSF_MeasurementBase<State> { Real z; bool rejected; int applied = 0; Meas(const Real& t, const Real& z, bool r) : msf_core::MSF_MeasurementBase<State>(true, 0, false, 0.0), z(z), rejected(r) { time = t; }
  std::string Type() { return "harness"; }
  void Apply(shared_ptr<State> s, Core& c) { applied++; if (rejected) return; X x = update(get(*s), z); put(*s, x); Core::ErrorState e; e.setZero(); c.ApplyCorrection(s, e, 0.1); } };
typedef shared_ptr<Meas> MP;
// the independent time-ordered run
struct In { Real t, a, w; };
struct Ref { Real t, z; bool rejected; };
static Real sec(int us) { return Real(10) + Real(us) / Real(1000000); }
static Real apart(const Real& a, const Real& b) { return a < b ? b - a : a - b; }
static size_t closest(const std::vector<In>& in, const Real& t) { size_t best = 0; for (size_t i = 1; i < in.size(); ++i) if (apart(in[i].t, t) < apart(in[best].t, t)) best = i; return best; }
// a state is interpolated where a measurement, when delivered, finds none within one millisecond; it and all later ones belong to the state closest to them.
// The measurements then count in order of time. (One that would have to be undone on the oldest state is dropped.)
static X batch(const X& x0, std::vector<In> in, std::vector<Ref> ms) {
  const Real near = Real(1) / Real(1000), far = Real(1) / Real(10); std::vector<Ref> got; std::vector<Real> on;   // in order of time, with the times of the states they belong to
  for (auto& m : ms) { size_t n = 0; while (n < got.size() && got[n].t <= m.t) ++n; size_t i = closest(in, m.t); Real d = apart(in[i].t, m.t); bool drop = false; if (i == 0 && d <= far) for (size_t j = n; j < got.size(); ++j) if (on[j] == in[0].t) drop = true; if (drop) continue;
    got.insert(got.begin() + n, m); on.insert(on.begin() + n, Real(-1)); if (d <= far && d > near) { size_t k = 0; while (in[k].t < m.t) ++k; In q; q.t = m.t; Real f = (m.t - in[k - 1].t) / (in[k].t - in[k - 1].t); q.a = in[k - 1].a + (in[k].a - in[k - 1].a) * f; q.w = in[k - 1].w + (in[k].w - in[k - 1].w) * f; in.insert(in.begin() + k, q); }
    if (d <= far) for (size_t j = n; j < got.size(); ++j) { i = closest(in, got[j].t); if (apart(in[i].t, got[j].t) <= far) on[j] = in[i].t; } }
  std::vector<std::vector<Ref> > at(in.size()); for (size_t j = 0; j < got.size(); ++j) for (size_t i = 0; i < in.size(); ++i) if (on[j] == in[i].t) at[i].push_back(got[j]);
  X x = x0; for (size_t i = 0; i < in.size(); ++i) { if (i) { Real dt = in[i].t - in[i - 1].t; X n; n.p = prop(x, in[i - 1].a, in[i - 1].w, in[i].a, in[i].w, dt); n.b = x.b; n.P = propP(x.P, n, in[i].a, in[i].w, dt); x = n; } for (auto& m : at[i]) if (!m.rejected) x = update(x, m.z); }
  return x; }
// ---- histories: readings every 10 ms, measurements delivered after any of them
struct Run { Mgr m; Core& c; X x0; std::vector<In> in; std::vector<Ref> all; int k = 0;
  Run() : c(*m.msf_core_) { SP s(new State); x0 = X{var("p0"), var("b0"), var("P0")}; s->P.setZero(); put(*s, x0); s->time = sec(0); s->a_m.setZero(); s->w_m.setZero(); c.initialized_ = true; c.predictionMade_ = false; c.it_last_IMU = c.stateBuffer_.Insert(s); c.time_P_propagated = s->time; in.push_back(In{sec(0), Real(0), Real(0)}); }
  void imu(const Real& t) { ++k; In i{t, Real(k) / Real(4), Real(3 * k)}; RV3 a = RV3::Zero(), w = RV3::Zero(); a[0] = i.a; w[0] = i.w; c.ProcessIMU(a, w, t, k); in.push_back(i); }
  void meas(const Real& t, bool rejected, bool counts = true) { int j = all.size(); Real z = var("z" + std::to_string(j)); MP p(new Meas(t, z, rejected)); if (counts) all.push_back(Ref{t, z, rejected}); c.AddMeasurement(p); }
  void imu(int us) { imu(sec(us)); }
  void meas(int us, bool rejected) { meas(sec(us), rejected, us >= 0); }
  void check(const std::string& n) { X x = get(*c.stateBuffer_.GetLast()), w = batch(x0, in, all); ensure_eq(n + "newest time", c.stateBuffer_.GetLast()->time, in.back().t); ensure_eq(n + "newest state", x.p, w.p); ensure_eq(n + "newest carried-over state", x.b, w.b); ensure_eq(n + "newest covariance", x.P, w.P); ensure(n + "nothing waits", c.queueFutureMeasurements_.empty()); } };
