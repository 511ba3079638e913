// Applying a correction: readiness, frozen parts, sanity hook, bookkeeping
#include "nth_contract.h"
#include "core_env.h"
using namespace env;
static Err arbitrary(const std::string& n) { Err e; fill(e, n); return e; }
// attitudes are turned by P04's contract: the corrected state is State::Correct of the vector that must be applied
struct Bookkeeping { static void same(const State& s, const State& b, const std::string& n) { ensure_eq(n + " time", s.time, b.time); ensure_meq(n + " gyro", s.w_m, b.w_m); ensure_meq(n + " acc", s.a_m, b.a_m); ensure_meq(n + " covariance", s.P, b.P); ensure_meq(n + " transition", s.Fd, b.Fd); ensure_meq(n + " noise", s.Qd, b.Qd); } };
static SP arbitrary_state(const std::string& n, const Real& t) { SP s = new_state(n, t); RPM P; fill_sym(P, n + "P"); s->P = P; fill(s->Fd, n + "Fd"); fill(s->Qd, n + "Qd"); return s; }
VC_CASE(not_ready) {
  Mgr m; Core& c = *m.msf_core_; int k = choose_n("ready", 3); c.initialized_ = k == 1; c.predictionMade_ = k == 2; Real tp = var("tp"); c.time_P_propagated = tp; bool fz = choose("fuzzy"); c.isfuzzyState_ = fz; m.fixed_bias = choose("fixed");
  SP s = arbitrary_state("s", var("t")); State b(*s); Err e = arbitrary("e"), e0 = e; State* at = s.get();
  bool r = c.ApplyCorrection(s, e);
  ensure("caller is told", !r); ensure_states_equal("state", *s, b); Bookkeeping::same(*s, b, "state"); ensure_meq("correction", e, e0); ensure_eq("covariance bookkeeping", c.time_P_propagated, tp);
  ensure_eq("hooks not called", m.aug_calls + m.sanity_calls, 0); ensure_eq("fuzzy flag", (bool)c.isfuzzyState_, fz); ensure("same state", s.get() == at); ensure("flags", c.initialized_ == (k == 1) && c.predictionMade_ == (k == 2)); }
// every component arbitrary; at most one attitude is turned so that the small-angle branches do not multiply
VC_CASE(applied) {
  Mgr m; Core& c = *m.msf_core_; c.initialized_ = c.predictionMade_ = true; c.time_P_propagated = var("tp"); m.fixed_bias = choose("fixed"); bool was = choose("already fuzzy"); c.isfuzzyState_ = was;
  SP s = arbitrary_state("s", var("t")); State b(*s); Err e = arbitrary("e"), e0 = e, asked = arbitrary("asked"); int turned = choose_n("attitude", 3); const int qi[3] = {6, 16, 22};
  for (int k = 0; k < 3; ++k) if (k != turned) for (int d = 0; d < 3; ++d) asked[qi[k] + d] = 0;
  bool freeze = choose("user replaces the correction"); if (!freeze) for (int k = 0; k < 3; ++k) if (k != turned) for (int d = 0; d < 3; ++d) e[qi[k] + d] = e0[qi[k] + d] = 0;
  Err given = Err::Zero(); m.augment = [&](Err& x) { given = x; if (freeze) x = asked; };
  bool clamp = choose("user limits the state"); Real lim = var("limit"); SP after(new State), before(new State); Err shown = Err::Zero();
  m.sanity = [&](State& d, const State& bs, Err& x) { *after = d; *before = bs; shown = x; if (clamp) d.Get<SD::L>()[0] = lim; };
  bool r = c.ApplyCorrection(s, e);
  Err want = freeze ? asked : e0; if (m.fixed_bias) for (int i = 9; i < 15; ++i) want[i] = 0;
  State x(b); x.Correct(want); if (m.fixed_bias) cover("fixed"); else cover("free");
  ensure("caller is told", r); ensure_meq("user sees the computed correction", given, e0); ensure_eq("asked once", m.aug_calls, 1); ensure_eq("limits asked once", m.sanity_calls, 1);
  ensure_meq("correction that was applied", e, want); ensure_meq("limits see the applied correction", shown, want);
  ensure_states_equal("limits see the corrected state", *after, x); ensure_states_equal("limits see the state before", *before, b);
  if (clamp) x.Get<SD::L>()[0] = lim; ensure_states_equal("state", *s, x); Bookkeeping::same(*s, b, "state");
  ensure_eq("covariance recomputed from this state on", c.time_P_propagated, b.time); ensure_eq("fuzzy flag kept before the window is full", (bool)c.isfuzzyState_, was); ensure("still running", c.initialized_ && c.predictionMade_);
  ensure_eq("nothing published", (int)m.pub.size(), 0); ensure_eq("no prediction", m.q_calls, 0); }
static int predicted; static std::vector<std::pair<Real, Real>> steps;
VC_CASE_BOUNDED(later_covariances) {   // three later states; the prediction itself is P02
  Mgr m; Core& c = *m.msf_core_; c.initialized_ = c.predictionMade_ = true; std::vector<SP> st; for (int i = 0; i < 5; ++i) { SP s = new_state("s" + std::to_string(i), Real(i)); RPM P = RPM::Zero(); for (int j = 0; j < NE; ++j) P(j, j) = var("P" + std::to_string(i) + "_" + std::to_string(j)); s->P = P; st.push_back(s); c.stateBuffer_.Insert(s); }
  int k = choose_n("corrected", 4), n = choose_n("target", 5); c.time_P_propagated = Real(4); Err e = Err::Zero(); e[0] = var("dp"); e[13] = var("db"); c.ApplyCorrection(st[k], e);
  std::vector<SP> ref; for (auto& s : st) ref.push_back(SP(new State(*s)));
  c.PropPToState(st[n]); Mgr m2; m2.na = m.na; m2.nba = m.nba; m2.nw = m.nw; m2.nbw = m.nbw; for (int i = k; i < n; ++i) m2.msf_core_->PredictProcessCovariance(ref[i], ref[i + 1]);
  for (int i = 0; i < 5; ++i) { std::string q = "state " + std::to_string(i); if (!kSymbolic) { ensure_meq(q + " covariance", st[i]->P, ref[i]->P); continue; } bool eq = true; for (int a = 0; a < NE; ++a) for (int b2 = 0; b2 < NE; ++b2) if (!identical(st[i]->P(a, b2), ref[i]->P(a, b2))) eq = eq && same(st[i]->P(a, b2), ref[i]->P(a, b2)); ensure(q + " covariance", eq); ensure_states_equal(q, *st[i], *ref[i]); } }
VC_MAIN
