// IMU readings and externally propagated states: one state per message, spikes, gaps, reordering.
// The state buffer has any size and content (engine/absmap.h); the last IMU state and the state up to
// which the covariance was propagated are arbitrary elements of it.
#include "vc.h"
#include "absmap.h"
#include "core_env.h"
using namespace env;
typedef std::shared_ptr<State> Copy;
static std::vector<std::pair<SP, Copy> > made;
static SP make_elem(const Real& k) { SP s = new_state("e" + std::to_string(made.size()), k); fill_sym(s->P, "P" + std::to_string(made.size())); made.push_back(std::make_pair(s, Copy(new State(*s)))); return s; }
#ifdef VC_SYM
namespace vc { template <> SP map_element<SP>(const Sym& k) { return make_elem(k); } }
#endif
typedef Core::StateBuffer_T Buf; typedef Buf::iterator_T It;
static bool same_all(const RPM& a, const RPM& b) { for (int i = 0; i < NE; ++i) for (int j = 0; j < NE; ++j) if (!identical(a(i, j), b(i, j)) && !same(a(i, j), b(i, j))) return false; return true; }
static bool same_state(const State& a, const State& b) { SameState x{a, b}; each_state(x); return x.r && same_mat(a.w_m, b.w_m) && same_mat(a.a_m, b.a_m) && same(a.time, b.time); }
// a filter that has been running for any time
struct Run {
  Mgr m, m2; Core& c; bool was; It last, upto;
  explicit Run(int predicted) : c(*m.msf_core_), was(predicted == 2 ? choose("predicted") : predicted) {
    m2.na = m.na; m2.nba = m.nba; m2.nw = m.nw; m2.nbw = m.nbw; norms_nonzero() = true; c.initialized_ = true; c.predictionMade_ = was;
    bool few = !was;   // until the first prediction there are at most three states
#ifdef VC_SYM
    if (!few) { auto g = std::make_shared<Gap<SP> >(); g->haslo = true; g->lo = Real(0); Buf* b = &c.stateBuffer_; b->stateList.t.push_back({nullptr, g}); }
#else
    few = true;
#endif
    if (few) { int n = 1 + choose_n("elements", was ? 6 : 3); Real t = 0; for (int i = 0; i < n; ++i) { t += pos_var("dt" + std::to_string(i), 0.02, 0.2); c.stateBuffer_.Insert(make_elem(t)); } }
    if (few) last = nth("last"); else { last = c.stateBuffer_.stateList.lower_bound(var("some time", 0, 0.6)); assume(last != c.stateBuffer_.GetIteratorEnd()); } c.it_last_IMU = last;
    if (choose("covariance is up to date")) { upto = c.stateBuffer_.GetIteratorEnd(); --upto; } else if (few) upto = nth("upto"); else { upto = c.stateBuffer_.stateList.lower_bound(var("covariance time", 0, 0.6)); assume(upto != c.stateBuffer_.GetIteratorEnd()); }
    c.time_P_propagated = upto->first; }
  It nth(const std::string& n) { int k = choose_n(n, (int)c.stateBuffer_.Size()); It i = c.stateBuffer_.GetIteratorBegin(); while (k--) ++i; return i; }
  void unchanged(const std::string& n, const State* but = nullptr, const State* butq = nullptr) { bool ok = true, okP = true; for (auto& x : made) { if (!same_state(*x.first, *x.second)) ok = false; if (x.first.get() == but) continue; if (!same_all(x.first->P, x.second->P)) okP = false;
      if (x.first.get() == butq) continue; if (!same_all(x.first->Fd, x.second->Fd) || !same_all(x.first->Qd, x.second->Qd)) okP = false; }
    ensure(n + ": other states untouched", ok); ensure(n + ": other covariances untouched", okP); }
  bool has(const Real& t, SP* s) { It i = c.stateBuffer_.stateList.find(t); if (i == c.stateBuffer_.GetIteratorEnd()) return false; *s = i->second; return true; }
  size_t count() { size_t n = 0; for (It i = c.stateBuffer_.GetIteratorBegin(); i != c.stateBuffer_.GetIteratorEnd() && n < 5; ++i) ++n; return n; }
};
// the state the prediction of P01 yields from `from`
static Copy predicted(Run& r, const State& from, const RV3& a, const RV3& w, const Real& t) { SP o(new State(from)), n(new State); n->time = t; n->a_m = a; n->w_m = w; r.m2.msf_core_->PropagateState(o, n); return Copy(new State(*n)); }
static void inputs(const std::string& n, Run& r, const State& s, const RV3& a, const RV3& w, const Real& t) { ensure_eq(n + " time", s.time, t); ensure_meq(n + " acceleration", s.a_m, a); ensure_meq(n + " rate", s.w_m, w);
  for (int i = 0; i < 3; ++i) { ensure_eq(n + " gyro noise", s.noise_gyr[i], r.m.nw); ensure_eq(n + " acc noise", s.noise_acc[i], r.m.na); } }
static RV3 calm(const std::string& n) { RV3 a = vec3(n); assume(a.squaredNorm() <= Real(2500)); return a; }
static RV3 spike(const std::string& n) { RV3 a = vec3(n, 30, 90); assume(a.squaredNorm() > Real(2500)); return a; }
// one state was added and published, one covariance step was made
static void added(Run& r, const Copy& want, const RV3& a, const RV3& w, const Real& t, bool dup, SP stored, const State& lastBefore) {
  SP at; ensure("a state at the message's time is stored", r.has(t, &at));
  ensure_eq("published once", (int)r.m.pub.size(), 1); if (r.m.pub.size() != 1) return; ensure_eq("published as a propagation", r.m.pub[0].what, std::string("propagation"));
  SP pub = r.m.pub[0].state; if (dup) { ensure("the state stored at that time stays", at == stored); cover("same time"); } else { ensure("the stored state is the published one", at == pub); cover("new time"); }
  inputs("published", r, *pub, a, w, t); ensure_states_equal("predicted", *pub, *want); (void)lastBefore;
  ensure("the next reading continues from it", r.c.it_last_IMU->second == at); }
static void covariance_step(Run& r, const SP& fresh) { It n = r.c.stateBuffer_.stateList.find(r.upto->first); It o = n; ++n; const State* next = nullptr;
  if (n != r.c.stateBuffer_.GetIteratorEnd()) { next = n->second.get(); SP oc, nc; for (auto& x : made) { if (x.first == o->second) oc.reset(new State(*x.second)); if (x.first == n->second) nc.reset(new State(*x.second)); } if (!nc) { nc.reset(new State(*n->second)); nc->P.setZero(); ensure("only the new state may be unknown", n->second == fresh); }
    r.m2.msf_core_->time_P_propagated = 0; r.m2.msf_core_->PredictProcessCovariance(oc, nc); ensure("covariance predicted one state further", same_all(n->second->P, nc->P)); ensure("transition recorded", same_all(o->second->Fd, oc->Fd) && same_all(o->second->Qd, oc->Qd)); ensure_eq("and remembered", r.c.time_P_propagated, n->first); cover("one step"); }
  else { ensure_eq("covariance time kept", r.c.time_P_propagated, r.upto->first); cover("up to date"); }
  r.unchanged("step", next, o->second.get()); }
VC_CASE(uninitialized) { Mgr m; Core& c = *m.msf_core_; c.initialized_ = false; c.predictionMade_ = choose("predicted"); bool ext = choose("external"); SP s = new_state("s", Real(1)); State b(*s); c.stateBuffer_.Insert(s); bool p = c.predictionMade_;
  if (ext) c.ProcessExternallyPropagatedState(vec3("a"), vec3("w"), vec3("p"), vec3("v"), uquat("q"), choose("propagated"), pos_var("t"), 1); else c.ProcessIMU(vec3("a"), vec3("w"), pos_var("t"), 1);
  ensure_eq("buffer", (int)c.stateBuffer_.Size(), 1); ensure("state", same_state(*s, b)); ensure_eq("published", (int)m.pub.size(), 0); ensure("flags", !c.initialized_ && c.predictionMade_ == p); }
static void imu(int predicted_, bool gap) { Run r(predicted_); Core& c = r.c; RV3 a = calm("a"), w = vec3("w"); Real t = pos_var("t", 0.01, 1.2), tl = r.last->first, d = t - tl; SP last = r.last->second; Copy lb(new State(*last));
  bool late = r.was && d < Real(Eigen::Matrix<Real, 1, 1>::Constant(-1)(0) / Real(100)); bool hole = !r.was && (d > Real(1) / Real(10) || -d > Real(1) / Real(10)); if (late || hole) { if (!gap) assume(false); } else if (gap) assume(false);
  SP stored; bool dup = r.has(t, &stored); SP atP = r.upto->second; Real tP = r.upto->first; size_t n0 = r.count(); (void)n0;
  c.ProcessIMU(a, w, t, 1);
  if (late) { cover("reordered"); ensure("filter reset", !c.initialized_ && !c.predictionMade_); ensure_eq("nothing published", (int)r.m.pub.size(), 0); r.unchanged("reset"); SP x; ensure("no state is added", r.has(t, &x) == dup); return; }
  ensure("running", c.initialized_);
  if (hole) { cover("gap"); ensure_eq("nothing published", (int)r.m.pub.size(), 0); ensure("not predicted", !c.predictionMade_); SP x; ensure("a state is at the message's time", r.has(t, &x)); ensure_eq("covariance from there on", c.time_P_propagated, t);
    if (dup) { ensure("the stored one stays", x == stored); } else { ensure("the last state is re-timed", x == last); ensure_eq("its time", x->time, t); }
    ensure("not at the old time", !r.has(tl, &x)); Real dt = pos_var("dt", 0.01, 0.09); assume(dt * Real(10) <= Real(1)); Real tt = t + dt; State from(dup ? *stored : *last); SP other; assume(!r.has(tt, &other)); RV3 w2 = vec3("w2"), a2 = calm("a2");
    c.ProcessIMU(a2, w2, tt, 2); Copy want = predicted(r, from, a2, w2, tt); ensure_eq("then one is published", (int)r.m.pub.size(), 1); if (r.m.pub.size() == 1) ensure_states_equal("integrated from the re-timed state", *r.m.pub[0].state, *want); return; }
  Copy want = predicted(r, *lb, a, w, t); added(r, want, a, w, t, dup, stored, *lb); covariance_step(r, r.m.pub.empty() ? SP() : r.m.pub[0].state); ensure("measurements are accepted once there are four states", c.predictionMade_ == (r.was || r.count() > 3)); if (c.predictionMade_) cover("accepting"); else cover("too few states"); (void)atP; (void)tP; }
VC_CASE(imu_first) { imu(0, false); }
VC_CASE(imu_running) { imu(1, false); }
VC_CASE(imu_gap) { imu(0, true); }
VC_CASE(imu_reordered) { imu(1, true); }
// any sequence of three readings, each within or beyond the limit: what is integrated is the last accepted one
static void spikes(bool ext) { norms_nonzero() = true; Mgr m, m2; Core& c = *m.msf_core_; c.initialized_ = true; c.predictionMade_ = choose("predicted"); SP s = new_state("s", Real(1)); c.it_last_IMU = c.stateBuffer_.Insert(s); c.time_P_propagated = Real(1); RV3 keep = RV3::Zero(); SP from(new State(*s));
  for (int k = 0; k < 3; ++k) { std::string n = std::to_string(k); bool sp = choose("spike " + n); RV3 a = sp ? spike("a" + n) : calm("a" + n), w = vec3("w" + n); Real t = Real(1) + Real(k + 1) / Real(100); if (!sp) keep = a; else cover(k == 0 ? "spike at first" : "spike");
    size_t n0 = m.pub.size(); if (ext) c.ProcessExternallyPropagatedState(a, w, vec3("p"), vec3("v"), uquat("q"), false, t, k); else c.ProcessIMU(a, w, t, k);
    ensure("every reading yields a state", m.pub.size() == n0 + 1); if (m.pub.size() != n0 + 1) return; SP p = m.pub.back().state; ensure_meq("acceleration of reading " + n, p->a_m, keep); ensure_meq("rate of reading " + n, p->w_m, w);
    SP nw(new State); nw->time = t; nw->a_m = keep; nw->w_m = w; m2.msf_core_->PropagateState(from, nw); ensure("integrated from the state before, reading " + n, same_state(*p, *nw)); from = SP(new State(*p)); } }
VC_CASE_COLD(spikes_imu) { spikes(false); }
VC_CASE_COLD(spikes_external) { spikes(true); }
struct Later : msf_core::MSF_MeasurementBase<State> { Later() : msf_core::MSF_MeasurementBase<State>(true, 3, false, 0.0) { time = 1000000; } void Apply(SP, Core&) { ensure("a measurement of the future is not applied", false); } std::string Type() { return "m"; } };
static void external(int predicted_) { Run r(predicted_); Core& c = r.c; RV3 a = calm("a"), w = vec3("w"), p = vec3("p"), v = vec3("v"); RQuat q = uquat("q"); bool done = choose("propagated"), nan = done && choose("not numeric"); if (nan) p[1] = nan_sym(); Real t = pos_var("t", 0.01, 8);
  assume(t <= Real(1000)); It li = c.stateBuffer_.GetIteratorEnd(); --li; Real tl = li->first; assume(tl <= Real(1000)); SP last = li->second; Copy lb(new State(*last)); Real d = t - tl; bool hole = !r.was && (d > Real(5) || -d > Real(5)); SP stored; bool dup = r.has(t, &stored);
  if (!r.was) { shared_ptr<msf_core::MSF_MeasurementBase<State> > me(new Later); c.queueFutureMeasurements_.push(me); c.MeasurementBuffer_.Insert(me); }
  c.ProcessExternallyPropagatedState(a, w, p, v, q, done, t, 1); ensure("running", c.initialized_);
  if (hole) { cover("gap"); ensure_eq("nothing published", (int)r.m.pub.size(), 0); ensure("not predicted", !c.predictionMade_); SP x; ensure("a state is at the message's time", r.has(t, &x)); if (dup) ensure("the stored one stays", x == stored); else { ensure("the last state is re-timed", x == last); ensure_eq("its time", x->time, t); } ensure("not at the old time", !r.has(tl, &x)); r.c.predictionMade_ = false;
    State from(dup ? *stored : *last); RV3 w2 = vec3("w2"), a2 = calm("a2"); Real dt = pos_var("dt", 0.01, 0.09); assume(dt * Real(10) <= Real(1)); Real tt = t + dt; SP o; assume(!r.has(tt, &o));   // an IMU reading may follow
    c.ProcessIMU(a2, w2, tt, 2); Copy want = predicted(r, from, a2, w2, tt); ensure_eq("then one is published", (int)r.m.pub.size(), 1); if (r.m.pub.size() == 1) ensure_states_equal("integrated from the re-timed state", *r.m.pub[0].state, *want); return; }
  Copy want = predicted(r, *lb, a, w, t); if (done && !nan) { cover("taken over"); *want = *lb; want->Get<SD::p>() = p; want->Get<SD::v>() = v; want->Get<SD::q>() = q; } else cover(nan ? "not numeric" : "predicted");
  ensure("measurements are accepted", c.predictionMade_);
  if (!r.was) { dup = false; stored.reset(); SP at; ensure_eq("it is the only state", (int)c.stateBuffer_.Size(), 1); ensure("no measurements are left", c.queueFutureMeasurements_.empty() && c.MeasurementBuffer_.Size() == 0); added(r, want, a, w, t, false, stored, *lb); if (r.m.pub.empty()) return; ensure("it keeps the covariance", same_all(r.m.pub[0].state->P, lb->P)); ensure_eq("covariance time", c.time_P_propagated, t); cover("restarted"); }
  else { added(r, want, a, w, t, dup, stored, *lb); covariance_step(r, r.m.pub.empty() ? SP() : r.m.pub[0].state); }
  if (!r.was) { SP at; if (!r.has(t, &at)) return; Copy from(new State(*at)); Real tt = t + pos_var("dt", 0.01, 0.09); RV3 w2 = vec3("w2"), a2 = calm("a2"); r.m.pub.clear(); c.ProcessIMU(a2, w2, tt, 2); Copy want2 = predicted(r, *from, a2, w2, tt); ensure_eq("one is published", (int)r.m.pub.size(), 1); if (r.m.pub.size() == 1) ensure_states_equal("integrated from the external state", *r.m.pub[0].state, *want2); cover("followed by IMU"); } }
VC_CASE(external_first) { external(0); }
VC_CASE(external_running) { external(1); }
VC_MAIN
