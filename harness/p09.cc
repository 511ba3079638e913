// Initialising the filter: one state, documented prior, nothing left of the past. Prior buffers have any size and content.
#include "vc.h"
#include "absmap.h"
#include "core_env.h"
using namespace env;
typedef msf_core::MSF_MeasurementBase<State> Base; typedef msf_core::MSF_InitMeasurement<State> InitM; typedef boost::shared_ptr<Base> MP;
struct Meas : Base { Meas() : Base(true, 3, false, 0.0) { time = 1; } void Apply(SP, Core&) { ensure("earlier measurements are not applied", false); } std::string Type() { return "m"; } };
#ifdef VC_SYM
namespace vc { template <> SP map_element<SP>(const Sym& k) { return new_state("e", k); } template <> MP map_element<MP>(const Sym& k) { MP m(new Meas); m->time = k; return m; } }
#endif
// printing the timers (P21) has no effect on the filter
#include <msf_timing/Timer.h>
namespace msf_timing { void Timing::Print(std::ostream&) {} }
// the simulated covariance of the core states (symmetrised by the filter)
static const double core_block[225] = {
  0.0166,0.0122,-0.0015,0.0211,0.0074,0,0.0012,-0.0012,0.0001,0,0,0,-0.0003,-0.0002,0,
  0.0129,0.0508,-0.002,0.0179,0.0432,0.0006,0.002,0.0004,-0.0002,0,0,0,0.0003,-0.0002,0,
  -0.0013,-0.0009,0.0142,-0.0027,0.0057,0.0079,0.0007,0.0007,0,0,0,0,-0.0001,-0.0004,-0.0001,
  0.021,0.0162,-0.0026,0.0437,0.0083,-0.0017,0.0016,-0.0021,-0.0014,0,0,0,0.0003,-0.0001,0,
  0.0093,0.0461,0.0036,0.0153,0.065,-0.0016,0.0025,0.0013,0,0,0,0,0.0003,0.0002,0,
  0,0.0005,0.008,-0.0019,-0.0021,0.013,0.0001,0.0001,0,0,0,0,-0.0003,0.0001,-0.0001,
  0.0012,0.0024,0.0006,0.0017,0.0037,0.0001,0.0005,0,0.0001,0,0,0,0,-0.0001,0,
  -0.0011,0.0008,0.0007,-0.0023,0.0019,0.0001,0,0.0005,-0.0001,0,0,0,0.0001,-0.0001,0,
  0.0001,-0.0002,0,-0.0014,0.0001,0,0,-0.0001,0.0006,0,0,0,0,0,0,
  0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
  0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
  0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
  -0.0003,0.0003,-0.0001,0.0003,0.0003,-0.0003,0,0.0001,0,0,0,0,0.001,0,0,
  -0.0002,-0.0002,-0.0004,-0.0001,0.0003,0.0001,-0.0001,0,0,0,0,0,0,0.001,0,
  0,0,-0.0001,0,0,-0.0001,0,0,0,0,0,0,0,0,0.0001};
static Real prior(int i, int j) { if (i < 15 && j < 15) return (Real(core_block[15 * i + j]) + Real(core_block[15 * j + i])) / Real(2); return i == j ? Real(0.0001) : Real(0); }
template <int N> static void ensure_psd(const std::string& n, Eigen::Matrix<Real, N, N> A) { for (int k = 0; k < N; ++k) { ob_pos(n + ": pivot " + std::to_string(k), A(k, k), false); if (same(A(k, k), Real(0))) { for (int i = k + 1; i < N; ++i) ensure_eq(n + ": zero column below a zero pivot", A(i, k), Real(0)); continue; } for (int i = k + 1; i < N; ++i) { Real f = A(i, k) / A(k, k); for (int j = k + 1; j < N; ++j) A(i, j) = A(i, j) - f * A(k, j); } } }
static void near(const std::string& n, const Real& a, const Real& b) { ob_pos(n + " (from below)", a - b + Real(1e-12), true); ob_pos(n + " (from above)", b - a + Real(1e-12), true); }
VC_CASE(prior_covariance) { Mgr m; PM P; fill(P, "before"); m.msf_core_->SetPCore(P); PM S = P; for (int i = 0; i < NE; ++i) for (int j = 0; j < NE; ++j) { std::string k = "[" + std::to_string(i) + "," + std::to_string(j) + "]"; near("documented value " + k, P(i, j), prior(i, j)); ensure_eq("symmetric " + k, P(i, j), P(j, i)); } ensure_psd<NE>("positive semi-definite", S); }
struct Given { State& s; InitM& m; int which; template <int I> void operator()() { if (which >> I & 1) { m.template SetStateInitValue<I>(s.template Get<I>()); } else { typename Var<I>::T z; zero(z); s.template Get<I>() = z; } } static void zero(RQuat& q) { q.w() = Real(1); q.x() = q.y() = q.z() = Real(0); } template <int N> static void zero(Eigen::Matrix<Real, N, 1>& v) { v.setZero(); } };
struct CheckQ { State& s; template <int I> void operator()() { auto& Q = s.GetStateVariable<I>().Q; for (int i = 0; i < Q.rows(); ++i) for (int j = 0; j < Q.cols(); ++j) ensure_eq("no process noise yet", Q(i, j), Real(0)); } };
// a filter with any past
static void any_past(Core& c) { c.initialized_ = c.predictionMade_ = c.isfuzzyState_ = choose("running before"); c.time_P_propagated = var("tP");
#ifdef VC_SYM
  { auto g = std::make_shared<Gap<SP> >(); c.stateBuffer_.stateList.t.push_back({nullptr, g}); } { auto g = std::make_shared<Gap<MP> >(); c.MeasurementBuffer_.stateList.t.push_back({nullptr, g}); }
#else
  for (int i = 0, n = choose_n("known states", 3); i < n; ++i) c.stateBuffer_.Insert(new_state("k" + std::to_string(i), pos_var("tk" + std::to_string(i)))); for (int i = 0, n = choose_n("known measurements", 2); i < n; ++i) { MP x(new Meas); x->time = pos_var("tm" + std::to_string(i)); c.MeasurementBuffer_.Insert(x); }
#endif
  for (int i = 0, n = choose_n("pending", 4); i < n; ++i) { MP x(new Meas); x->time = Real(50 + i); c.queueFutureMeasurements_.push(x); } }
static int user_cov(InitM& m, int how, RPM& P) { P.setZero(); if (how == 1) { for (int i = 0; i < NE; ++i) for (int j = 0; j < NE; ++j) P(i, j) = pos_var("U" + std::to_string(i) + "," + std::to_string(j)); } if (how == 2) { static const int w[6][2] = {{0, 0}, {14, 14}, {NE - 1, NE - 1}, {3, 7}, {NE - 1, 2}, {20, 20}}; int k = choose_n("entry", 6); Real x = var("u"); assume(x > Real(0) || x < Real(0)); P(w[k][0], w[k][1]) = x; } m.GetStateCovariance() = P; return how; }
static void init(int which, int how, bool past) { Mgr m; Core& c = *m.msf_core_; if (past) any_past(c); bool readings = choose("readings"); vcros::log().now = pos_var("now"); boost::shared_ptr<InitM> im(new InitM(readings)); ensure_eq("default time", im->time, vcros::log().now); State want; fill_state(want, "i"); Given g{want, *im, which}; each_state(g); im->Getw_m() = want.w_m; im->Geta_m() = want.a_m; Real t = im->time = pos_var("t"); RPM U; user_cov(*im, how, U); m.on_publish = [&](const std::string&) { ensure("published before it counts as initialised", !c.initialized_); };
  c.Init(im); ensure("initialised", (bool)c.initialized_); ensure("no prediction yet", !c.predictionMade_); auto b = c.stateBuffer_.GetIteratorBegin(); ensure("a state", b != c.stateBuffer_.GetIteratorEnd()); if (b == c.stateBuffer_.GetIteratorEnd()) return; auto e = b; ++e; ensure("exactly one state", e == c.stateBuffer_.GetIteratorEnd()); SP s = b->second; ensure_eq("stored at its time", b->first, t); ensure_eq("time", s->time, t); ensure("the next reading continues from it", c.it_last_IMU == b); ensure_eq("covariance is of that time", c.time_P_propagated, t);
  ensure("no earlier measurements", c.MeasurementBuffer_.GetIteratorBegin() == c.MeasurementBuffer_.GetIteratorEnd()); ensure_eq("nothing pending", (int)c.queueFutureMeasurements_.size(), 0);
  ensure_states_equal("given values", *s, want); RV3 z = RV3::Zero(); ensure_meq("rate", s->w_m, readings ? RV3(want.w_m) : z); ensure_meq("acceleration", s->a_m, readings ? RV3(want.a_m) : z); CheckQ q{*s}; each_state(q);
  ensure_eq("published once", (int)m.pub.size(), 1); if (m.pub.size() == 1) { ensure_eq("as initial", m.pub[0].what, std::string("initial")); ensure("that state", m.pub[0].state == s); }
  for (int i = 0; i < NE; ++i) for (int j = 0; j < NE; ++j) { std::string k = "[" + std::to_string(i) + "," + std::to_string(j) + "]"; if (how) ensure_eq("the user's covariance " + k, s->P(i, j), U(i, j)); else near("documented covariance " + k, s->P(i, j), prior(i, j)); } }
VC_CASE(after_any_past) { init(-1, 0, true); }
VC_CASE(user_covariance) { generic_equalities() = true; init(-1, 1, false); }
VC_CASE(user_covariance_entry) { init(-1, 2, false); }
VC_CASE(some_values) { int k = choose_n("not given", State::nStateVarsAtCompileTime + 1); init(k == State::nStateVarsAtCompileTime ? 0 : ~(1 << k), 0, false); }
// the watchdog starts over: whatever it had seen, nothing is rolled back while its window fills again
VC_CASE(watchdog) { enum { QWV = SD::q_wv }; Mgr m; Core& c = *m.msf_core_; State buf; int n = choose_n("history", 3) * 20; for (int i = 0; i < n; ++i) { SP s(new State); c.fuzzyTracker_.Check(s, buf, Real(1000)); } boost::shared_ptr<InitM> im(new InitM(true)); im->time = Real(5); c.Init(im); for (int i = 0; i < 30; ++i) { SP s(new State); RQuat q; q.w() = Real(0.6); q.x() = Real(i % 2 ? 0.8 : -0.8); q.y() = q.z() = Real(0); s->Get<QWV>() = q; bool r = c.fuzzyTracker_.Check(s, buf, Real(0.001)); ensure("nothing rolled back", !r); ensure_qeq("kept", s->Get<QWV>(), q); } SP s(new State); ensure("and the window holds the new readings only", c.fuzzyTracker_.Check(s, buf, Real(0.001))); }
VC_MAIN
