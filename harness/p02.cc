// Covariance prediction
#include "core_env.h"
#include <msf_core/implementation/calcQCore.h>
using namespace env;
enum { P0 = 0, V0 = 3, Q0 = 6, W0 = 9, A0 = 12 };
static RM3 I3() { RM3 m; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m(i, j) = Real(i == j); return m; }
// sum over j = 0..2 of (-W)^j t^(j+k) / (j+k)!
static RM3 series(const RM3& W, const Real& t, int k) {
  RM3 r = RM3::Zero(), pw = I3(); for (int j = 0; j <= 2; ++j) { Real c = 1; for (int i = 1; i <= j + k; ++i) c = c * t / Real(i); r += pw * c; pw = pw * (-W); } return r; }
// transition of the five core blocks over a time t
struct Trans { RM3 pq, pw, pa, vq, vw, va, qq, qw; };
static Trans transition(const RM3& C, const RV3& ea, const RV3& ew, const Real& t) {
  RM3 W = rskew(ew), CA = C * rskew(ea); Trans r;
  r.qq = series(W, t, 0); r.qw = -series(W, t, 1); r.vq = -(CA * series(W, t, 1)); r.vw = CA * series(W, t, 2); r.va = -C * t;
  r.pq = -(CA * series(W, t, 2)); r.pw = CA * series(W, t, 3); r.pa = -C * (t * t / Real(2)); return r; }
struct Setup { Mgr m; SP so, sn; Real dt; RV3 w, a; RPM P, F0, Q0m; State before; };
static bool core_block(int i, int j) { return i < 15 && j < 15; }
static bool assigned_F(int i, int j) { if (!core_block(i, j)) return false; int a = i / 3, b = j / 3; return (a == 0 && b >= 1) || (a == 1 && b >= 2) || (a == 2 && (b == 2 || b == 3)); }
static bool quat_block(int i, int j) { return i < 15 && j < 15; }
static void setup(Setup& s) {
  s.so = new_state("old", Real(0)); s.sn = new_state("new", Real(0)); Real t0 = var("t0", 1, 2); s.dt = pos_var("dt", 0.001, 0.3);
  s.so->time = t0; s.sn->time = t0 + s.dt; s.w = vec3("w"); s.a = vec3("a");
  s.sn->w_m = s.w + RV3(s.sn->Get<SD::b_w>()); s.sn->a_m = s.a + RV3(s.sn->Get<SD::b_a>());
  s.P = RPM::Zero(); fill(s.P, "P"); s.so->P = s.P; fill(s.sn->P, "junkP");
  // whatever an earlier propagation from this state left behind
  for (int i = 0; i < NE; ++i) for (int j = 0; j < NE; ++j) { if (assigned_F(i, j)) s.so->Fd(i, j) = var("junkF" + std::to_string(i * NE + j)); }
  s.F0 = s.so->Fd; s.before = *s.sn; }
struct FillAux { State& s; template <int I> void operator()() { if constexpr (I >= 5) fill(s.GetQBlock<I>(), "auxQ" + sn(I)); } };
struct Blk { RPM& q; int& at; template <int I> void operator()() { if constexpr (I >= 5) { enum { n = Var<I>::V::sizeInCorrection_ }; Eigen::Matrix<Real, n, n> b; fill(b, "auxQ" + sn(I)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) q(at + i, at + j) = b(i, j); at += n; } } };
VC_CASE(transition_matrix) {
  Setup s; setup(s); State old = *s.so; s.m.msf_core_->PredictProcessCovariance(s.so, s.sn);
  RPM F = RPM::Identity(); Trans t = transition(rrot(s.before.Get<SD::q>()), s.a, s.w, s.dt);
  F.block<3, 3>(P0, V0) = I3() * s.dt; F.block<3, 3>(P0, Q0) = t.pq; F.block<3, 3>(P0, W0) = t.pw; F.block<3, 3>(P0, A0) = t.pa;
  F.block<3, 3>(V0, Q0) = t.vq; F.block<3, 3>(V0, W0) = t.vw; F.block<3, 3>(V0, A0) = t.va;
  F.block<3, 3>(Q0, Q0) = t.qq; F.block<3, 3>(Q0, W0) = t.qw;
  ensure_meq("Fd", s.so->Fd, F);
}
VC_CASE(propagation_formula) {
  Setup s; setup(s); s.m.auxq = [](State& st, const Real&) { FillAux f{st}; each_state(f); };
  State old = *s.so; s.m.msf_core_->PredictProcessCovariance(s.so, s.sn);
  Cuts c; c.add_all(s.so->Fd, "F"); c.add_all(s.so->Qd, "Q");
  RPM F = c.mat(s.so->Fd), Q = c.mat(s.so->Qd), P = c.mat(s.sn->P), FP = RPM::Zero(), X = RPM::Zero();
  for (int i = 0; i < NE; ++i) for (int j = 0; j < NE; ++j) { Real a = 0; for (int k = 0; k < NE; ++k) a = a + F(i, k) * s.P(k, j); FP(i, j) = a; }
  for (int i = 0; i < NE; ++i) for (int j = 0; j < NE; ++j) { Real a = Q(i, j); for (int k = 0; k < NE; ++k) a = a + FP(i, k) * F(j, k); X(i, j) = a; }
  ensure_meq("P", P, X);
  // auxiliary process noise: each state's own block, nothing else outside the core block
  RPM QA = RPM::Zero(); int at = 15;
  Blk blk{QA, at};
  each_state(blk);
  for (int i = 0; i < NE; ++i) for (int j = 0; j < NE; ++j) if (!core_block(i, j)) ob_zero("Qd outside the core [" + std::to_string(i) + "," + std::to_string(j) + "]", s.so->Qd(i, j), QA(i, j));
  ensure_eq("auxiliary noise asked once", s.m.q_calls, 1); ensure_eq("with the time step", s.m.q_dt, s.dt); ensure("for the new state", s.m.q_state == s.sn.get());
  ensure_eq("bookkeeping", s.m.msf_core_->time_P_propagated, s.sn->time);
  ensure_states_equal("new state untouched", *s.sn, s.before); ensure_states_equal("old state untouched", *s.so, old);
  ensure_meq("old covariance untouched", s.so->P, old.P); ensure_eq("old time untouched", s.so->time, old.time); ensure_eq("new time untouched", s.sn->time, s.before.time);
  ensure_meq("w_m untouched", s.sn->w_m, s.before.w_m); ensure_meq("a_m untouched", s.sn->a_m, s.before.a_m);
}
VC_CASE(symmetric_result) {   // F P F^T + Q is symmetric whenever P and Q are
  Setup s; setup(s); fill_sym(s.P, "Ps"); s.so->P = s.P; s.m.msf_core_->PredictProcessCovariance(s.so, s.sn);
  Cuts c; c.add_all(s.so->Fd, "F"); c.add_all(s.so->Qd, "Q"); RPM P = c.mat(s.sn->P), Q = c.mat(s.so->Qd);
  for (int i = 0; i < NE; ++i) for (int j = 0; j < i; ++j) ob_zero("symmetric up to Q [" + std::to_string(i) + "," + std::to_string(j) + "]", P(i, j) - Q(i, j), P(j, i) - Q(j, i));
}
VC_CASE(never_back_in_time) {
  Setup s; setup(s); Real d = nonneg_var("back"); s.sn->time = s.so->time - d; RPM P = s.sn->P, F = s.so->Fd, Q = s.so->Qd; State old = *s.so;
  Real tp = var("tp"); s.m.msf_core_->time_P_propagated = tp; s.m.msf_core_->PredictProcessCovariance(s.so, s.sn);
  ensure_meq("P unchanged", s.sn->P, P); ensure_meq("F unchanged", s.so->Fd, F); ensure_meq("Q unchanged", s.so->Qd, Q); ensure_eq("bookkeeping unchanged", s.m.msf_core_->time_P_propagated, tp);
  ensure_meq("old P unchanged", s.so->P, old.P); ensure_states_equal("new state", *s.sn, s.before); ensure_states_equal("old state", *s.so, old);
}
// ------------------------------------------------------------------ Qd: integral of F(t) G Qc G^T F(t)^T, terms up to dt^3
struct TPoly { RM3 c[4]; TPoly() { for (auto& m : c) m = RM3::Zero(); } };   // matrix polynomial in t, degree <= 3 kept
static TPoly coeffs(const RM3& L, const RM3& W, int k) { TPoly r; RM3 pw = I3(); for (int j = 0; j <= 2; ++j) { if (j + k <= 3) { Real f = 1; for (int i = 1; i <= j + k; ++i) f = f / Real(i); r.c[j + k] = L * pw * f; } pw = pw * (-W); } return r; }
static RM3 integral(const TPoly& a, const RV3& n, const TPoly& b, const Real& dt) {
  RM3 N = RM3::Zero(); for (int i = 0; i < 3; ++i) N(i, i) = n[i] * n[i]; RM3 r = RM3::Zero();
  for (int i = 0; i <= 3; ++i) for (int j = 0; j <= 3; ++j) if (i + j + 1 <= 3) { Real f = Real(1) / Real(i + j + 1); for (int k = 0; k < i + j + 1; ++k) f = f * dt; r += a.c[i] * N * b.c[j].transpose() * f; }
  return r; }
typedef Eigen::Matrix<Real, 15, 15> M15;
struct QSetup { RQuat q; RV3 w, a, na, nba, nw, nbw; Real dt; RPM Qd; };
static void qsetup(QSetup& s, int which) {
  s.q = uquat("q"); s.w = vec3("w"); s.a = vec3("a"); s.dt = var("dt", 0.001, 0.3); s.na = s.nba = s.nw = s.nbw = RV3::Zero();
  if (which & 1) s.na = vec3("n_a"); if (which & 2) s.nba = vec3("n_ba"); if (which & 4) s.nw = vec3("n_w"); if (which & 8) s.nbw = vec3("n_bw");
  s.Qd = RPM::Zero(); CalcQCore<Seq, SD>(s.dt, s.q, s.w, s.a, s.na, s.nba, s.nw, s.nbw, s.Qd); }
static M15 expected(const QSetup& s, int which) {
  RM3 C = rrot(s.q), W = rskew(s.w), CA = C * rskew(s.a), Z = RM3::Zero(); TPoly b[5];
  RV3 n; 
  if (which == 1) { n = s.na; b[0] = coeffs(-C, Z, 1); b[1] = coeffs(-C, Z, 0); }          // p, v, q, b_w, b_a
  if (which == 2) { n = s.nba; b[0] = coeffs(-C, Z, 2); b[1] = coeffs(-C, Z, 1); b[4] = coeffs(I3(), Z, 0); }
  if (which == 4) { n = s.nw; b[0] = coeffs(CA, W, 2); b[1] = coeffs(CA, W, 1); b[2] = coeffs(-I3(), W, 0); }
  if (which == 8) { n = s.nbw; b[0] = coeffs(CA, W, 3); b[1] = coeffs(CA, W, 2); b[2] = coeffs(-I3(), W, 1); b[3] = coeffs(I3(), Z, 0); }
  M15 r; for (int i = 0; i < 5; ++i) for (int j = 0; j < 5; ++j) r.block<3, 3>(3 * i, 3 * j) = integral(b[i], n, b[j], s.dt); return r; }
static void qcase(int which) { QSetup s; qsetup(s, which); M15 x = expected(s, which);
  for (int i = 0; i < NE; ++i) for (int j = 0; j < NE; ++j) { std::string n = "Qd(" + std::to_string(i) + "," + std::to_string(j) + ")"; if (core_block(i, j)) ensure_eq_fp(n, s.Qd(i, j), x(i, j)); else ob_zero(n, s.Qd(i, j), Real(0)); } }
VC_CASE(noise_acc) { qcase(1); }
VC_CASE(noise_accbias) { qcase(2); }
VC_CASE(noise_gyr) { qcase(4); }
VC_CASE(noise_gyrbias) { qcase(8); }
VC_CASE(noise_superposition) {   // the four sources add up, and do not depend on what Qd held
  QSetup s; qsetup(s, 15); RPM sum = RPM::Zero(); for (int k = 0; k < 4; ++k) { QSetup t; qsetup(t, 1 << k); sum += t.Qd; }
  for (int i = 0; i < 15; ++i) for (int j = 0; j < 15; ++j) ob_zero("sum of sources (" + std::to_string(i) + "," + std::to_string(j) + ")", s.Qd(i, j), sum(i, j)); }
VC_CASE(noise_parameters) {   // the core's Qd is CalcQCore of the configured densities, the time step, and the new state's attitude and corrected readings
  Setup s; setup(s); s.m.msf_core_->PredictProcessCovariance(s.so, s.sn); RPM X = RPM::Zero();
  RV3 na = RV3::Constant(s.m.na), nba = RV3::Constant(s.m.nba), nw = RV3::Constant(s.m.nw), nbw = RV3::Constant(s.m.nbw);
  CalcQCore<Seq, SD>(s.dt, s.before.Get<SD::q>(), s.w, s.a, na, nba, nw, nbw, X);
  for (int i = 0; i < 15; ++i) for (int j = 0; j < 15; ++j) ob_zero("Qd(" + std::to_string(i) + "," + std::to_string(j) + ")", s.so->Qd(i, j), X(i, j)); }
VC_MAIN
