// Measurement update
#include "core_env.h"
using namespace env;
typedef msf_core::MSF_MeasurementBase<State> Base;
struct Meas : Base { Meas(bool en, const Real& thr) : Base(true, 3, en, thr) { time = 1; } void Apply(SP, Core&) {} std::string Type() { return "m"; } };
template <class A, class B> static RMX mul(const A& a, const B& b) { RMX r(a.rows(), b.cols()); for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < b.cols(); ++j) { Real x = 0; for (int k = 0; k < a.cols(); ++k) x = x + Real(a(i, k)) * Real(b(k, j)); r(i, j) = x; } return r; }
template <class A> static RMX tr(const A& a) { RMX r(a.cols(), a.rows()); for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) r(j, i) = a(i, j); return r; }
static RMX inverse_of(const RMX& S) {
#ifdef VC_SYM
  const InvList l = inverse_records(); const int n = S.rows();
  ensure_eq("one inversion", (int)l.size(), 1); if (l.empty()) return S;
  RMX X(n, n), T(n, n); ensure_eq("size of the inverted matrix", l[0].n, n); if (l[0].n != n) return S;
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { X(i, j) = l[0].x[j * n + i]; T(i, j) = l[0].s[j * n + i]; }
  ensure_meq("inverted matrix is H P H' + R", T, S); return X;
#else
  return S.inverse();
#endif
}
template <int M, bool FIXED> static void update(bool sparse) {
  Mgr m; m.msf_core_->initialized_ = m.msf_core_->predictionMade_ = true;
  SP s = new_state("s", Real(1)); RPM P = RPM::Zero(); fill_sym(P, "P"); s->P = P;
  Eigen::Matrix<Real, M, NE> H; fill(H, "H"); Eigen::Matrix<Real, M, 1> r; fill(r, "r");
  Eigen::Matrix<Real, M, M> R; fill_sym(R, "R");
  if (!kSymbolic) { P = P * P.transpose() * Real(0.1) + RPM::Identity(); s->P = P; R = Eigen::Matrix<Real, M, M>(R * R.transpose()) + Eigen::Matrix<Real, M, M>::Identity(); }
  bool gate = choose("outlier rejection"); Real thr = pos_var("threshold"); Err seen = Err::Zero();
  m.augment = [&](Err& c) { seen = c; c = Err::Zero(); };   // record what is applied; the application itself is P04/P07
  Meas me(gate, thr); State before = *s;
  if (FIXED) me.CalculateAndApplyCorrection(s, *m.msf_core_, H, r, R);
  else { RMX h = H, rr = r, R2 = R; me.CalculateAndApplyCorrection(s, *m.msf_core_, h, rr, R2); }
  RMX Ht = tr(H), HP = mul(H, P), S0 = mul(HP, Ht), S(M, M); for (int i = 0; i < M; ++i) for (int j = 0; j < M; ++j) S(i, j) = S0(i, j) + R(i, j);
  RMX X = inverse_of(S); Real d2 = mul(mul(tr(r), X), r)(0, 0);
  if (m.aug_calls == 0) { cover("rejected");
    ensure("only rejected when enabled", gate); ob_pos("distance above threshold", sqrt(d2) - thr, true);
    ensure_meq("covariance kept", s->P, P); ensure_states_equal("state kept", *s, before); ensure_eq("time kept", s->time, before.time); return; }
  cover("accepted"); ensure_eq("corrected once", m.aug_calls, 1); ensure_eq("sanity check once", m.sanity_calls, 1);
  if (gate) ob_pos("distance within threshold", thr - sqrt(d2), false);
  RMX K = mul(mul(P, Ht), X); RMX c = mul(K, r);
  Cuts cut; cut.sweep_all(K, "K"); RMX Kc = cut.mat(K), cc = mul(Kc, r);
  for (int i = 0; i < NE; ++i) ob_zero("correction is K r [" + std::to_string(i) + "]", cut(seen[i]), cc(i, 0));
  RMX G(NE, NE), G0 = mul(K, H); for (int i = 0; i < NE; ++i) for (int j = 0; j < NE; ++j) { G0(i, j) = Real(i == j) - G0(i, j); cut.sweep(G0(i, j), "G"); G(i, j) = cut(G0(i, j)); }
  RMX GP = mul(G, P), KR = mul(Kc, R), Pn = mul(GP, tr(G)), KK = mul(KR, tr(Kc)), got = cut.mat(s->P);
  for (int i = 0; i < NE; ++i) for (int j = 0; j <= i; ++j) { ob_zero("Joseph form [" + std::to_string(i) + "," + std::to_string(j) + "]", got(i, j), Pn(i, j) + KK(i, j));
    ob_bool("exactly symmetric [" + std::to_string(i) + "," + std::to_string(j) + "]", identical(s->P(i, j), s->P(j, i)), "different expressions"); }
  ensure_eq("time kept", s->time, before.time); ensure_meq("gyro kept", s->w_m, before.w_m); ensure_meq("acc kept", s->a_m, before.a_m);
  ensure_states_equal("nothing else corrected", *s, before);
}
VC_CASE(fixed_size_1) { update<1, true>(false); }
VC_CASE(fixed_size_2) { update<2, true>(false); }
VC_CASE(fixed_size_3) { update<3, true>(false); }
VC_CASE(fixed_size_6) { update<6, true>(false); }
VC_CASE(fixed_size_7) { update<7, true>(false); }
VC_CASE(run_time_size_2) { update<2, false>(false); }
VC_CASE(run_time_size_7) { update<7, false>(false); }
VC_CASE(run_time_size_1) { update<1, false>(false); }
VC_CASE(run_time_size_3) { update<3, false>(false); }
VC_MAIN
