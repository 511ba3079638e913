// Fuzzy-tracking watchdog: public interface only; a full window of any content at any ring position
// is produced by accepted readings.
#include "nth_contract.h"
#include "core_env.h"
using namespace env;
typedef msf_core::CheckFuzzyTracking<State, typename msf_tmp::GetEnumStateType<Seq, msf_tmp::IndexOfBestNonTemporalDriftingState<Seq>::value>::value> Tracker;
enum { W = 30, QWV = State::StateDefinition_T::q_wv };
struct Model { std::vector<RQuat> win; int next = 0; int count = 0;
  void add(const RQuat& q) { if ((int)win.size() < W) win.push_back(q); else { win[next] = q; next = (next + 1) % W; } }
  RQuat median() const { Real c[4]; for (int k = 0; k < 4; ++k) { std::vector<Real> v; for (auto& q : win) v.push_back(comp(q, k)); c[k] = kth(v, W / 2); } RQuat r; r.w() = c[0]; r.x() = c[1]; r.y() = c[2]; r.z() = c[3]; return r; } };
struct NonPropagated { State& s; const State& from; template <int I> void operator()() { if (static_cast<int>(Var<I>::V::statetype_) != static_cast<int>(msf_core::CoreStateWithPropagation)) s.template Get<I>() = from.template Get<I>(); } };
static RQuat attitude(const std::string& n) { return uquat(n); }
static SP state_with(const std::string& n, const RQuat& q) { SP s(new State); s->Get<QWV>() = q; (void)n; return s; }
static void feed(Tracker& t, Model& m, int n, const std::string& tag) { State buf; abs_term() = true; for (int i = 0; i < n; ++i) { RQuat q = attitude(tag + std::to_string(i)); SP s = state_with("", q); State b(*s);
    bool f = t.Check(s, buf, inf_sym()); if (f) ensure("no rollback under an infinite threshold", false); ensure_states_equal("accepted state kept", *s, b); m.add(q); } }
// one checked step against the window of the model; returns whether it was rolled back
static bool step(Tracker& t, Model& m, const std::string& tag, const Real& thr) {
  abs_term() = true; SP s = new_state(tag, Real(7)); State buf; fill_state(buf, tag + "buf"); buf.time = 3; State b(*s), bb(buf); RQuat q = s->Get<QWV>();
  bool f = t.Check(s, buf, thr);
  ensure_states_equal("reference state untouched", buf, bb); ensure_eq("time kept", s->time, b.time);
  if ((int)m.win.size() < W) { ensure("nothing rolled back before the window is full", !f); ensure_states_equal("state kept", *s, b); m.add(q); return false; }
  RQuat e = rqmul(rqconj(q), m.median()); Real hi = max_of(max_of(e.x(), e.y()), e.z()), lo = -min_of(min_of(e.x(), e.y()), e.z()); Real jump = max_of(hi, lo); Real w = max_of(e.w(), -e.w()); Real d = jump / w * Real(2) - thr;
  if (f) { cover("rolled back"); ob_pos("rolled back: further than the threshold", d, true); NonPropagated np{b, bb}; each_state(np); ensure_states_equal("every non-propagated state restored, nothing else", *s, b); }
  else { cover("kept"); ob_pos("kept: within the threshold", -d, false); ensure_states_equal("state kept", *s, b); m.add(q); }
  return f; }
VC_CASE(window_filling) { Tracker t; Model m; Real thr = pos_var("thr"); for (int i = 0; i < W; ++i) step(t, m, "f" + std::to_string(i), thr); }
static void at_position(int j) { Tracker t; Model m; feed(t, m, W, "w"); feed(t, m, j, "v"); Real thr = pos_var("thr"); step(t, m, "s", thr); }
VC_CASE(full_window_0) { at_position(0); }
VC_CASE(full_window_1_10) { at_position(1 + choose_n("position", 10)); }
VC_CASE(full_window_11_20) { at_position(11 + choose_n("position", 10)); }
VC_CASE(full_window_21_30) { at_position(21 + choose_n("position", 10)); }
VC_CASE(two_steps) { Tracker t; Model m; int j = choose_n("position", 4); feed(t, m, W, "w"); feed(t, m, j == 0 ? 0 : j == 1 ? 1 : j == 2 ? 28 : 29, "v"); Real thr = pos_var("thr"); step(t, m, "s", thr); step(t, m, "u", pos_var("thr2")); }
VC_CASE(after_reset) { Tracker t; Model m; int j = choose_n("history", 3); feed(t, m, j == 0 ? 5 : j == 1 ? W : W + 7, "h"); t.Reset(); Model n; Real thr = pos_var("thr"); for (int i = 0; i < W; ++i) step(t, n, "f" + std::to_string(i), thr); step(t, n, "s", thr); }
// the correction is undone and reported, directly and through a measurement update (whose threshold is the configured one)
typedef msf_core::MSF_MeasurementBase<State> Base;
struct Meas : Base { Meas() : Base(true, 3, false, 0.0) { time = 1; } void Apply(SP, Core&) {} std::string Type() { return "m"; } };
static void reported(int how) {
  abs_term() = true; Mgr m; Core& c = *m.msf_core_; c.initialized_ = c.predictionMade_ = true; bool was = choose("already fuzzy"); c.isfuzzyState_ = was;
  for (int i = 0; i < W; ++i) { SP s(new State); s->Get<QWV>() = attitude("w"); Err z = Err::Zero(); c.ApplyCorrection(s, z); }
  ensure_eq("not fuzzy while filling", (bool)c.isfuzzyState_, was);
  SP s = new_state("s", Real(2)); State before(*s); RQuat jumped = attitude("jump"); Err corr; for (int i = 0; i < NE; ++i) corr[i] = 0; corr[0] = var("dp"); corr[9] = var("db");
  m.sanity = [&](State& d, const State&, Err&) { d.Get<QWV>() = jumped; }; Real thr = pos_var("thr"); 
  if (how == 0) c.ApplyCorrection(s, corr, thr);
  else { m.fuzzy = thr; m.augment = [&](Err& x) { x = corr; }; Meas me; me.time = s->time; s->P = RPM::Identity();
    if (how == 1) { Eigen::Matrix<Real, 1, NE> H; for (int i = 0; i < NE; ++i) H(0, i) = 0; Eigen::Matrix<Real, 1, 1> r, R; r(0, 0) = 1; R(0, 0) = 1; me.CalculateAndApplyCorrection(s, c, H, r, R); }
    else { RMX H(1, NE), r(1, 1), R(1, 1); for (int i = 0; i < NE; ++i) H(0, i) = 0; r(0, 0) = 1; R(0, 0) = 1; me.CalculateAndApplyCorrection(s, c, H, r, R); } }
  RQuat e = rqmul(rqconj(jumped), attitude("w")); Real hi = max_of(max_of(e.x(), e.y()), e.z()), lo = -min_of(min_of(e.x(), e.y()), e.z()), jump = max_of(hi, lo), w = max_of(e.w(), -e.w()); bool fuzzy = jump / w * Real(2) > thr;
  ensure_eq("reported as fuzzy exactly then", (bool)c.isfuzzyState_, was || fuzzy);
  State ex(before); ex.Get<State::StateDefinition_T::p>()[0] = before.Get<State::StateDefinition_T::p>()[0] + corr[0];
  if (!fuzzy) { ex.Get<State::StateDefinition_T::b_w>()[0] = before.Get<State::StateDefinition_T::b_w>()[0] + corr[9]; ex.Get<QWV>() = jumped; cover("kept"); } else cover("rolled back");
  ensure_states_equal("state", *s, ex); }
VC_CASE(reported) { reported(0); }
VC_CASE(configured_fixed_size) { reported(1); }
VC_CASE(configured_run_time_size) { reported(2); }
VC_MAIN
