// Relative updates: accumulated transition, joint update of two states, previous measurement
#include "core_env.h"
using namespace env;
static Eigen::Matrix<Real, NE, NE> the_F; static int asked_F; static SP asked_old, asked_new; static bool stand_in;
#ifdef VC_JOINT
namespace msf_core { template <> void MSF_Core<State>::GetAccumulatedStateTransitionStochasticCloning(const shared_ptr<State>& o, const shared_ptr<State>& n, Eigen::Matrix<double, NE, NE>& F) { ++asked_F; asked_old = o; asked_new = n; F = the_F; } }
#endif
typedef msf_core::MSF_MeasurementBase<State> Base;
struct Meas : Base { int no; explicit Meas(int sensor = 3, bool abs = false) : Base(abs, sensor, false, 0.0) { time = 2; no = 0; } void Apply(SP, Core&) {} std::string Type() { return "m"; } };
template <class A, class B> static RMX mul(const A& a, const B& b) { RMX r(a.rows(), b.cols()); for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < b.cols(); ++j) { Real x = 0; for (int k = 0; k < a.cols(); ++k) x = x + Real(a(i, k)) * Real(b(k, j)); r(i, j) = x; } return r; }
template <class A> static RMX tr(const A& a) { RMX r(a.cols(), a.rows()); for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) r(j, i) = a(i, j); return r; }
template <class A, class B> static RMX sum(const A& a, const B& b) { RMX r(a.rows(), a.cols()); for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) r(i, j) = Real(a(i, j)) + Real(b(i, j)); return r; }
#ifndef VC_JOINT
// ---- accumulated transition: later steps multiply from the left
VC_CASE_BOUNDED(accumulated_transition) { Mgr m; Core& c = *m.msf_core_; int n = 5; std::vector<SP> st; for (int i = 0; i < n; ++i) { SP s(new State); s->time = Real(i + 1); fill(s->Fd, "F" + std::to_string(i)); st.push_back(s); c.stateBuffer_.Insert(s); }
  int o = choose_n("old", 3), steps = choose_n("steps", 3); Eigen::Matrix<Real, NE, NE> F; fill(F, "before"); c.GetAccumulatedStateTransitionStochasticCloning(st[o], st[o + steps], F);
  RMX want = RMX::Identity(NE, NE); if (steps) want = st[o]->Fd; for (int i = o + 1; i < o + steps; ++i) want = mul(st[i]->Fd, want);
  ensure_meq("product of the steps in order", F, want); for (int i = 0; i < n; ++i) ensure_eq("states untouched", st[i]->time, Real(i + 1)); }
// more steps, non-commuting 2x2 blocks in arbitrary places
VC_CASE_BOUNDED(accumulated_transition_sparse) { Mgr m; Core& c = *m.msf_core_; int n = 7; int a = 3, b = 6 + choose_n("column", 3); std::vector<SP> st; for (int i = 0; i < n; ++i) { SP s(new State); s->time = Real(i + 1); std::string k = std::to_string(i); s->Fd.setIdentity(); s->Fd(a, a) = var("x" + k); s->Fd(a, b) = var("y" + k); s->Fd(b, a) = var("z" + k); s->Fd(b, b) = var("w" + k); st.push_back(s); c.stateBuffer_.Insert(s); }
  int o = choose_n("old", n), steps = choose_n("steps", n); assume(o + steps < n); Eigen::Matrix<Real, NE, NE> F; c.GetAccumulatedStateTransitionStochasticCloning(st[o], st[o + steps], F);
  RMX want = RMX::Identity(NE, NE); for (int i = o; i < o + steps; ++i) want = mul(st[i]->Fd, want); ensure_meq("product of the steps in order", F, want); }
// ---- latest earlier measurement of the sensor
VC_CASE_BOUNDED(previous_measurement) { Mgr m; Core& c = *m.msf_core_; int n = choose_n("measurements", 5); std::vector<shared_ptr<Base> > ms; Real t = 0; for (int i = 0; i < n; ++i) { Meas* x = new Meas(choose("own " + std::to_string(i)) ? 3 : choose("second " + std::to_string(i)) ? 4 : -1); t += pos_var("dt" + std::to_string(i)); x->time = t; ms.push_back(shared_ptr<Base>(x)); }
  for (int i = n; i-- > 0;) c.MeasurementBuffer_.Insert(ms[i]);
  int at = choose_n("of", n + 1); Real q = pos_var("time", 0.1, 8); if (at < n) q = ms[at]->time; else for (auto& x : ms) assume(!(x->time == q));
  shared_ptr<Base> r = c.GetPreviousMeasurement(q, 3); shared_ptr<Base> want; if (at < n) for (int i = 0; i < at; ++i) if (ms[i]->sensorID_ == 3) want = ms[i];
  if (want) { cover("found"); ensure("the latest earlier one of the sensor", r == want); } else { cover("none"); ensure_eq("reported as invalid", r->time, Real(msf_core::constants::INVALID_TIME)); for (auto& x : ms) ensure("not one of the stored ones", r != x); }
  ensure_eq("buffer kept", (int)c.MeasurementBuffer_.Size(), n); }
#else
// ---- joint update of two states (the accumulated transition is arbitrary)
static RMX inverse_of(const RMX& S, const RMX& shown) {
#ifdef VC_SYM
  const InvList l = inverse_records(); const int n = S.rows(); (void)shown;
  ensure_eq("one inversion", (int)l.size(), 1); if (l.empty()) return S;
  RMX X(n, n), T(n, n); ensure_eq("size of the inverted matrix", l[0].n, n); if (l[0].n != n) return S;
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { X(i, j) = l[0].x[j * n + i]; T(i, j) = l[0].s[j * n + i]; }
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) ob_zero("inverted matrix is H P H' + R [" + std::to_string(i) + "," + std::to_string(j) + "]", T(i, j), S(i, j)); return X;
#else
  (void)shown; return S.inverse();
#endif
}
template <int M> static void joint() {
  Mgr m; Core& c = *m.msf_core_; c.initialized_ = c.predictionMade_ = true; SP o = new_state("o", Real(1)), s = new_state("s", Real(2)); RPM Po = RPM::Zero(), Pn = RPM::Zero(); fill_sym(Po, "Po"); fill_sym(Pn, "Pn");
  Eigen::Matrix<Real, M, NE> Ho, Hn; fill(Ho, "Ho"); fill(Hn, "Hn"); Eigen::Matrix<Real, M, 1> r; fill(r, "r"); Eigen::Matrix<Real, M, M> R; fill_sym(R, "R"); fill(the_F, "F");
  if (!kSymbolic) { Po = Po * Po.transpose() * Real(0.1) + RPM::Identity(); the_F = RPM::Identity() + the_F * Real(0.1); Pn = the_F * Po * the_F.transpose() + RPM::Identity(); Pn = RPM((Pn + Pn.transpose()) * Real(0.5)); R = Eigen::Matrix<Real, M, M>(R * R.transpose()) + Eigen::Matrix<Real, M, M>::Identity(); }
  o->P = Po; s->P = Pn; Err seen = Err::Zero(); m.augment = [&](Err& x) { seen = x; x = Err::Zero(); }; State bo(*o), bs(*s); asked_F = 0; Meas me;
  me.CalculateAndApplyCorrectionRelative(o, s, c, Ho, Hn, r, R);
  ensure_eq("transition asked once", asked_F, 1); ensure("from the older state", asked_old == o); ensure("to the newer one", asked_new == s);
  ensure_eq("corrected once", m.aug_calls, 1); ensure_eq("limits once", m.sanity_calls, 1);
  // cross covariance, innovation and gain by their definitions
  RMX C = mul(the_F, Po), Ct = tr(C);   // cov(new, old) = F P_old
  RMX top = sum(mul(Po, tr(Ho)), mul(Ct, tr(Hn))), low = sum(mul(C, tr(Ho)), mul(Pn, tr(Hn)));
  Cuts cc; cc.sweep_all(C, "C"); RMX S = sum(sum(mul(Ho, top), mul(Hn, low)), R), X = inverse_of(S, S); RMX K = mul(low, X);
  Cuts cut; cut.sweep_all(K, "K"); RMX Kc = cut.mat(K), corr = mul(Kc, r); for (int i = 0; i < NE; ++i) ob_zero("correction is K r [" + std::to_string(i) + "]", cut(seen[i]), corr(i, 0));
#ifdef VC_SYM
  { const InvList l = inverse_records(); for (int i = 0; i < M; ++i) for (int j = 0; j < M; ++j) { S(i, j) = l[0].s[j * M + i]; cut.sweep(S(i, j), "S"); } }
#endif
  RMX Sc = cut.mat(S), KSK = mul(mul(Kc, Sc), tr(Kc)), got = cut.mat(s->P); Real half = Real(1) / Real(2);
  for (int i = 0; i < NE; ++i) for (int j = 0; j <= i; ++j) { std::string q = " [" + std::to_string(i) + "," + std::to_string(j) + "]"; ob_zero("lower right block of the joint update" + q, got(i, j), half * (Pn(i, j) - KSK(i, j) + Pn(j, i) - KSK(j, i))); ob_bool("exactly symmetric" + q, identical(s->P(i, j), s->P(j, i)), "different expressions"); }
  bool kept = true; for (int i = 0; i < NE; ++i) for (int j = 0; j < NE; ++j) if (!identical(o->P(i, j), Po(i, j))) kept = false; ensure("older covariance kept", kept); ensure_states_equal("older state kept", *o, bo); ensure_states_equal("nothing else corrected", *s, bs); ensure_eq("time kept", s->time, bs.time);
  ensure_eq("later covariances from the newer state on", c.time_P_propagated, s->time); }
VC_CASE(joint_update_1) { joint<1>(); }
VC_CASE(joint_update_3) { joint<3>(); }
VC_CASE(joint_update_7) { joint<7>(); }
#endif
VC_MAIN
