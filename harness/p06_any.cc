// Steps of the re-application on buffers of any size and content (engine/absmap.h):
// the state a measurement is applied to, the catching up of the covariance, and the measurements that must not touch anything.
#include "vc.h"
#include "absmap.h"
#define VC_STATEDEF <msf_updates/src/position_msf/msf_statedef.hpp>
#define VC_NS msf_updates
#include "core_env.h"
using namespace env;
typedef Core::StateBuffer_T Buf; typedef Buf::iterator_T It; typedef msf_core::MSF_MeasurementBase<State> MB; typedef shared_ptr<MB> MP;
#ifdef VC_SYM
#define CUT end_path("cut")
#else
#define CUT (void)0
#endif
struct Step { const State* o; const State* n; Real upto; };
static std::vector<Step>& moved() { static std::vector<Step> v; return v; }     // states predicted
static std::vector<Step>& covs() { static std::vector<Step> v; return v; }      // covariances predicted
static std::function<void(Core&, const SP&, const SP&)>& on_cov() { static std::function<void(Core&, const SP&, const SP&)> f; return f; }
static bool& catching_up() { static bool b = false; return b; }
static std::vector<Step>& caught() { static std::vector<Step> v; return v; }    // states the covariance was brought up to
namespace msf_core {
template <> void MSF_Core<State>::PropagateState(shared_ptr<State>& o, shared_ptr<State>& n) { moved().push_back(Step{o.get(), n.get(), time_P_propagated}); n->Get<SD::p>() = o->Get<SD::p>(); n->Get<SD::p>()[0] = fun("propagated", o->Get<SD::p>()[0], n->time); n->Get<SD::v>() = o->Get<SD::v>(); n->Get<SD::q>() = o->Get<SD::q>(); n->Get<SD::b_w>() = o->Get<SD::b_w>(); n->Get<SD::b_a>() = o->Get<SD::b_a>(); n->Get<SD::p_ip>() = o->Get<SD::p_ip>(); }
template <> void MSF_Core<State>::PredictProcessCovariance(shared_ptr<State>& o, shared_ptr<State>& n) { covs().push_back(Step{o.get(), n.get(), time_P_propagated}); if (on_cov()) on_cov()(*this, o, n); time_P_propagated = n->time; }
}
typedef std::shared_ptr<State> Copy;
static std::vector<std::pair<SP, Copy> > made;
static SP make_elem(const Real& k) { SP s = new_state("e" + std::to_string(made.size()), k); made.push_back(std::make_pair(s, Copy(new State(*s)))); return s; }
struct M : MB { int* applied; M(const Real& t, int* a) : MB(true, 0, false, 0.0), applied(a) { time = t; } std::string Type() { return "m"; } void Apply(SP, Core&) { ++*applied; } };
static int touched = 0;
#ifdef VC_SYM
namespace vc { template <> SP map_element<SP>(const Sym& k) { return make_elem(k); } template <> MP map_element<MP>(const Sym& k) { return MP(new M(k, &touched)); } }
#endif
static bool same_state(const State& a, const State& b) { SameState x{a, b}; each_state(x); bool r = x.r && same_mat(a.w_m, b.w_m) && same_mat(a.a_m, b.a_m) && same(a.time, b.time); for (int i = 0; i < NE; ++i) for (int j = 0; j < NE; ++j) if (!identical(a.P(i, j), b.P(i, j))) r = false; return r; }
struct Any { Mgr m; Core& c; It upto;
  Any() : c(*m.msf_core_) { norms_nonzero() = true; c.initialized_ = true; c.predictionMade_ = true;
#ifdef VC_SYM
    auto g = std::make_shared<Gap<SP> >(); g->haslo = true; g->lo = Real(1); Buf* b = &c.stateBuffer_; b->stateList.t.push_back({nullptr, g});
    auto h = std::make_shared<Gap<MP> >(); h->haslo = true; h->lo = Real(0); c.MeasurementBuffer_.stateList.t.push_back({nullptr, h});
#else
    Real t = 1; int n = 2 + choose_n("elements", 5); for (int i = 0; i < n; ++i) { t += pos_var("dt" + std::to_string(i), 0.0005, 0.2); c.stateBuffer_.Insert(make_elem(t)); }
#endif
    moved().clear(); covs().clear(); }
  void unchanged(const std::string& n) { bool ok = true; for (auto& x : made) if (!same_state(*x.first, *x.second)) ok = false; ensure(n + "no state of the buffer is changed", ok); } };
// the state a measurement at time t is applied to, its covariance caught up
VC_CASE(closest_state) { Any x; Core& c = x.c; Real t = var("t", 1.0, 1.6); It lb = c.stateBuffer_.stateList.lower_bound(t); assume(lb != c.stateBuffer_.GetIteratorEnd()); bool exact = !(t < lb->first); It before = lb; SP prev, next = lb->second; if (!exact) { assume(lb != c.stateBuffer_.GetIteratorBegin()); --before; prev = before->second; }
  // the covariance was propagated up to the state before, the one after it, or any other
  int where = choose_n("covariance", 3); It u = where == 0 ? (exact ? lb : before) : where == 1 ? lb : c.stateBuffer_.stateList.lower_bound(var("tP", 1, 1.6)); assume(u != c.stateBuffer_.GetIteratorEnd()); Real tP = u->first; c.time_P_propagated = tP;
  // (catching up is the contract of catch_up below: here only the first step is looked at)
  Real lo, hi = next->time - t; if (!exact) lo = t - prev->time; Real d = exact ? Real(0) : (hi < lo ? hi : lo); SP near = exact ? next : (hi < lo ? next : prev);
  bool none = d > Real(1) / Real(10), own = d <= Real(1) / Real(1000), any = true; SP got; Real want = none ? tP : own ? tP : (tP > prev->time ? prev->time : tP);
  struct Done {}; on_cov() = [&](Core& cc, const SP& o, const SP& n) { if (covs().size() > 1) { ensure("catching up goes on from there", o.get() == covs()[covs().size() - 2].n); cover("catches up"); CUT; } (void)cc; ensure_eq("catching up starts where the covariance is valid", o->time, want); cover("one step"); It a = c.stateBuffer_.stateList.find(o->time); ensure("from a state of the buffer", a != c.stateBuffer_.GetIteratorEnd() && a->second == o); ++a; ensure("to the next one", a != c.stateBuffer_.GetIteratorEnd() && a->second == n); ensure("not beyond the state asked for", !none && n->time <= (own ? near->time : t)); };
  got = c.GetClosestState(t); on_cov() = nullptr; (void)any;
  if (none) { cover("none"); ensure("no state within a tenth of a second: invalid", got == c.stateBuffer_.GetInvalid()); ensure("and nothing is done", moved().empty() && covs().empty()); ensure_eq("covariance time kept", c.time_P_propagated, tP); x.unchanged("none: "); return; }
  if (own) { cover("within a millisecond"); ensure("the state within a millisecond", got == near); ensure("nothing is predicted", moved().empty()); x.unchanged("own: "); }
  else { cover("interpolated"); ensure_eq("a state at the time of the measurement", got->time, t); It at = c.stateBuffer_.stateList.find(t); ensure("is in the buffer", at != c.stateBuffer_.GetIteratorEnd() && at->second == got); ensure("predicted from the one before it", moved().size() == 1 && moved()[0].o == prev.get() && moved()[0].n == got.get()); Real f = (t - prev->time) / (next->time - prev->time);
    for (int i = 0; i < 3; ++i) { ensure_eq("interpolated acceleration", got->a_m[i], prev->a_m[i] + (next->a_m[i] - prev->a_m[i]) * f); ensure_eq("interpolated rate", got->w_m[i], prev->w_m[i] + (next->w_m[i] - prev->w_m[i]) * f); ensure_eq("gyro noise", got->noise_gyr[i], x.m.nw); ensure_eq("acc noise", got->noise_acc[i], x.m.na); }
    ensure_eq("its position is the prediction's", got->Get<SD::p>()[0], fun("propagated", prev->Get<SD::p>()[0], t)); x.unchanged("interpolated: "); }
  It g = c.stateBuffer_.stateList.find(got->time), e = c.stateBuffer_.stateList.find(c.time_P_propagated); ensure("the covariance is up to date there", c.time_P_propagated >= got->time); (void)g; (void)e; }
// the covariance is predicted from state to state, in order, up to the given one: every step from the state the covariance is valid for to the next
VC_CASE(catch_up) { Any x; Core& c = x.c; It u = c.stateBuffer_.stateList.lower_bound(var("tP", 1, 1.6)); assume(u != c.stateBuffer_.GetIteratorEnd()); It s = c.stateBuffer_.stateList.lower_bound(var("t", 1, 1.6)); assume(s != c.stateBuffer_.GetIteratorEnd()); SP st = s->second; Real tP = u->first; c.time_P_propagated = tP;
  auto step = [&](const SP& o, const SP& n, const Real& from) { ensure_eq("from the state the covariance is valid for", o->time, from); It a = c.stateBuffer_.stateList.find(from); ensure("which is in the buffer", a != c.stateBuffer_.GetIteratorEnd() && a->second == o); ++a; ensure("to the next state", a != c.stateBuffer_.GetIteratorEnd() && a->second == n); ensure("not beyond the given one", n->time <= st->time); };
  on_cov() = [&](Core&, const SP& o, const SP& n) { step(o, n, covs().back().upto); if (covs().size() == 2) { cover("goes on"); CUT; } };   // loop invariant: (previous, this) are (the state the covariance is valid for, the next)
  c.PropPToState(st); on_cov() = nullptr; cover("stops"); It a = c.stateBuffer_.stateList.find(c.time_P_propagated); ensure("ends on a state of the buffer", a != c.stateBuffer_.GetIteratorEnd()); ++a; ensure("the given state is reached", c.time_P_propagated >= st->time); ensure("and no step is left out", a == c.stateBuffer_.GetIteratorEnd() || a->first > st->time); x.unchanged(""); ensure("no state is predicted", moved().empty()); }
// not ready, ahead of the readings, or older than every state: nothing is touched
VC_CASE(untouched) { Any x; Core& c = x.c; touched = 0; It first = c.stateBuffer_.GetIteratorBegin(); assume(first != c.stateBuffer_.GetIteratorEnd()); It last = c.stateBuffer_.GetIteratorEnd(); --last; Real tl = last->first, tf = first->first, tP = tl; c.time_P_propagated = tP; int why = choose_n("reason", 3), mine = 0; Real t = var("t", 0.5, 2.5); MP m(new M(t, &mine)); bool fuzzy = choose("fuzzy"); c.isfuzzyState_ = fuzzy;
  if (why == 0) { int f = choose_n("flags", 3); c.initialized_ = f & 1; c.predictionMade_ = f >> 1 & 1; } else if (why == 1) assume(t > tl); else assume(t < tf);
  int waiting = choose_n("waiting", 3); for (int i = 0; i < waiting; ++i) c.queueFutureMeasurements_.push(MP(new M(t, &touched)));
  bool had = c.MeasurementBuffer_.stateList.find(t) != c.MeasurementBuffer_.GetIteratorEnd();
  c.AddMeasurement(m);
  ensure("it is not applied", mine == 0 && touched == 0); ensure_eq("its time is kept", m->time, t); x.unchanged(""); ensure("no prediction", moved().empty() && covs().empty()); ensure_eq("covariance time", c.time_P_propagated, tP); ensure("nothing is published", x.m.pub.empty()); ensure("fuzzy flag", c.isfuzzyState_ == fuzzy);
  auto at = c.MeasurementBuffer_.stateList.find(t); ensure("it is not stored", (at != c.MeasurementBuffer_.GetIteratorEnd()) == had && !(had && at->second == m));
  ensure_eq("it waits exactly when it is ahead", (int)c.queueFutureMeasurements_.size(), waiting + (why == 1)); if (why == 1) ensure("at the end of the queue", c.queueFutureMeasurements_.back() == m); cover(why == 0 ? "not ready" : why == 1 ? "ahead" : "too old"); }
// with every reading one waiting measurement is tried, the oldest of the queue
VC_CASE(pending) { Any x; Core& c = x.c; int n = choose_n("waiting", 4), a = 0; It last = c.stateBuffer_.GetIteratorEnd(); assume(c.stateBuffer_.GetIteratorBegin() != last); --last; Real tl = last->first; c.time_P_propagated = tl; std::vector<MP> q; for (int i = 0; i < n; ++i) { Real t = var("t" + std::to_string(i), 2, 3); assume(t > tl); q.push_back(MP(new M(t, &a))); c.queueFutureMeasurements_.push(q.back()); }
  c.HandlePendingMeasurements(); ensure_eq("none is lost", (int)c.queueFutureMeasurements_.size(), n); for (int i = 0; i < n; ++i) { ensure("order of the queue", c.queueFutureMeasurements_.front() == q[(i + 1) % n]); c.queueFutureMeasurements_.pop(); } ensure("not applied", a == 0); x.unchanged(""); cover(n ? "waiting" : "none"); }
VC_MAIN
