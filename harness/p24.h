// Layout of the state and access by index (included once per state definition).
#include "core_env.h"
using namespace env;
// independent layout from the value types and kinds alone
struct Layout { std::vector<int> full, err, nfull, nerr, kind; std::vector<bool> quat; int F = 0, E = 0, cf = 0, ce = 0, pf = 0, pe = 0; template <int I> void operator()() { typedef typename Var<I>::T T; bool q = std::is_same<T, RQuat>::value; int f = comps(T()), e = q ? 3 : f, k = (int)Var<I>::V::statetype_; full.push_back(F); err.push_back(E); nfull.push_back(f); nerr.push_back(e); quat.push_back(q); kind.push_back(k); F += f; E += e;
    bool prop = k == (int)msf_core::CoreStateWithPropagation, core = prop || k == (int)msf_core::CoreStateWithoutPropagation; if (core) { cf += f; ce += e; } if (prop) { pf += f; pe += e; } } };
static Layout layout() { Layout l; each_state(l); return l; }
struct CheckIndex { const Layout& l; const State& s; template <int I> void operator()() { typedef typename Var<I>::V V; std::string n = " of state " + std::to_string(I); int a;
    a = msf_tmp::GetStateIndexInState<Seq, I>::value; ensure_eq("start in the state vector" + n, a, l.full[I]); a = msf_tmp::GetStateIndexInErrorState<Seq, I>::value; ensure_eq("start in the error state" + n, a, l.err[I]); a = msf_tmp::GetStartIndexInCorrection<Seq, I>::value; ensure_eq("start in the correction" + n, a, l.err[I]);
    a = msf_tmp::GetStartIndex<Seq, V, msf_tmp::StateLengthForType>::value; ensure_eq("start by type" + n, a, l.full[I]); a = msf_tmp::GetStartIndex<Seq, V, msf_tmp::CorrectionStateLengthForType>::value; ensure_eq("start in the correction by type" + n, a, l.err[I]);
    a = V::sizeInState_; ensure_eq("length" + n, a, l.nfull[I]); a = V::sizeInCorrection_; ensure_eq("length in the correction" + n, a, l.nerr[I]); a = V::name_; ensure_eq("name" + n, a, I); a = msf_tmp::GetEnumStateName<V>::value; ensure_eq("name by type" + n, a, I); a = V::Q_T::RowsAtCompileTime; ensure_eq("noise rows" + n, a, l.nerr[I]); a = V::Q_T::ColsAtCompileTime; ensure_eq("noise columns" + n, a, l.nerr[I]);
    bool b = msf_tmp::IsQuaternionType<V>::value; ensure_eq("is a quaternion" + n, b, (bool)l.quat[I]); bool same_type = std::is_same<typename msf_tmp::StripConstReference<typename msf_tmp::GetEnumStateType<Seq, I>::value>::result_t, V>::value; ensure("type by name" + n, same_type); ensure("variable by index" + n, &s.GetStateVariable<I>().state_ == &s.Get<I>()); } };
VC_CASE(indices) { Layout l = layout(); State s; CheckIndex c{l, s}; each_state(c); int a; a = State::nStateVarsAtCompileTime; ensure_eq("states", a, (int)l.full.size()); a = NE; ensure_eq("error states", a, l.E); a = NS; ensure_eq("components", a, l.F); a = State::nCoreStatesAtCompileTime; ensure_eq("core components", a, l.cf); a = State::nCoreErrorStatesAtCompileTime; ensure_eq("core error states", a, l.ce); a = State::nPropagatedCoreStatesAtCompileTime; ensure_eq("propagated components", a, l.pf); a = State::nPropagatedCoreErrorStatesAtCompileTime; ensure_eq("propagated error states", a, l.pe);
  std::vector<std::tuple<int, int, int> > v; s.CalculateIndicesInErrorState(v); ensure_eq("listed", v.size(), l.err.size()); for (size_t i = 0; i < v.size() && i < l.err.size(); ++i) { std::string n = " of state " + std::to_string(i); ensure_eq("listed name" + n, std::get<0>(v[i]), (int)i); ensure_eq("listed start" + n, std::get<1>(v[i]), l.err[i]); ensure_eq("listed length" + n, std::get<2>(v[i]), l.nerr[i]); }
  int best = -1; for (size_t i = 0; i < l.kind.size(); ++i) if (l.kind[i] == (int)msf_core::AuxiliaryNonTemporalDrifting && (best < 0 || (l.quat[i] && !l.quat[best]))) best = i; a = msf_tmp::IndexOfBestNonTemporalDriftingState<Seq>::value; ensure_eq("watched state", a, best); }
struct FillQ { State& s; template <int I> void operator()() { auto& Q = s.GetStateVariable<I>().Q; for (int i = 0; i < Q.rows(); ++i) for (int j = 0; j < Q.cols(); ++j) Q(i, j) = var("Q" + std::to_string(I) + "." + std::to_string(i) + std::to_string(j)); s.GetStateVariable<I>().hasResetValue = I % 2; } };
struct SameQ { State& s; State& b; int but; template <int I> void operator()() { auto& Q = s.GetStateVariable<I>().Q; auto& B = b.GetStateVariable<I>().Q; if (I != but) for (int i = 0; i < Q.rows(); ++i) for (int j = 0; j < Q.cols(); ++j) ensure_eq("noise of state " + std::to_string(I) + " kept", Q(i, j), B(i, j)); ensure_eq("reset flag of state " + std::to_string(I), (bool)s.GetStateVariable<I>().hasResetValue, (bool)b.GetStateVariable<I>().hasResetValue); } };
static SP arbitrary(const std::string& n) { SP s = new_state(n, var(n + "time")); RPM P; fill(P, n + "P"); s->P = P; fill(s->Fd, n + "Fd"); fill(s->Qd, n + "Qd"); FillQ f{*s}; each_state(f); return s; }
enum { kInputs = 1, kP = 2, kTime = 4 };
static void rest(State& s, State& b, int but = 0, int butq = -1) { if (!(but & kTime)) ensure_eq("time", s.time, b.time); if (!(but & kInputs)) { ensure_meq("gyro", s.w_m, b.w_m); ensure_meq("acc", s.a_m, b.a_m); } if (!(but & kP)) ensure_meq("covariance", s.P, b.P); ensure_meq("transition", s.Fd, b.Fd); ensure_meq("propagation noise", s.Qd, b.Qd); ensure_meq("gyro noise", s.noise_gyr, b.noise_gyr); ensure_meq("acc noise", s.noise_acc, b.noise_acc); SameQ q{s, b, butq}; each_state(q); }
template <class T> static void zero(T& v) { v.setZero(); } static void zero(RQuat& q) { q.w() = Real(1); q.x() = q.y() = q.z() = Real(0); }
// ---- one state at a time
struct SetOne { int only; template <int I> void operator()() { if (I != only) return; typedef typename Var<I>::T T; SP s = arbitrary("s"); State b(*s); T v; fresh(v, "new"); s->Set<I>(v); ensure_states_equal("states before", *s, b, 0, I); ensure_states_equal("states after", *s, b, I + 1); rest(*s, b); const State& cs = *s; for (int k = 0; k < comps(v); ++k) { ensure_eq("set value", comp(cs.Get<I>(), k), comp(v, k)); ensure_eq("read back", comp(s->Get<I>(), k), comp(v, k)); ensure_eq("read through the variable", comp(cs.GetStateVariable<I>().state_, k), comp(v, k)); } } };
VC_CASE(set) { SetOne o{choose_n("state", State::nStateVarsAtCompileTime)}; each_state(o); }
struct NoiseOne { int only; template <int I> void operator()() { if (I != only) return; SP s = arbitrary("s"); State b(*s); typename Var<I>::V::Q_T Q; for (int i = 0; i < Q.rows(); ++i) for (int j = 0; j < Q.cols(); ++j) Q(i, j) = var("newQ" + std::to_string(i) + std::to_string(j)); s->GetQBlock<I>() = Q; ensure_states_equal("values", *s, b); rest(*s, b, 0, I); const State& cs = *s; for (int i = 0; i < Q.rows(); ++i) for (int j = 0; j < Q.cols(); ++j) { ensure_eq("noise stored", s->GetStateVariable<I>().Q(i, j), Q(i, j)); ensure_eq("noise read back", cs.GetQBlock<I>()(i, j), Q(i, j)); } } };
VC_CASE(noise_block) { NoiseOne o{choose_n("state", State::nStateVarsAtCompileTime)}; each_state(o); }
struct ClearOne { int only; const Layout& l; template <int I> void operator()() { if (I != only) return; SP s = arbitrary("s"); State b(*s); s->ClearCrossCov<I>(); ensure_states_equal("values", *s, b); rest(*s, b, kP); for (int i = 0; i < NE; ++i) for (int j = 0; j < NE; ++j) { bool a = i >= l.err[I] && i < l.err[I] + l.nerr[I], c = j >= l.err[I] && j < l.err[I] + l.nerr[I]; ensure_eq("covariance [" + std::to_string(i) + "," + std::to_string(j) + "]", s->P(i, j), a != c ? Real(0) : Real(b.P(i, j))); } } };
VC_CASE(clear_cross_covariance) { Layout l = layout(); ClearOne o{choose_n("state", State::nStateVarsAtCompileTime), l}; each_state(o); }
// ---- all states at once
struct Zero { State& s; template <int I> void operator()() { zero(s.Get<I>()); } };
struct Visitor : msf_core::StateVisitor<State> { State* got = nullptr; int n = 0; void ResetState(State& s) const { const_cast<Visitor*>(this)->got = &s; const_cast<Visitor*>(this)->n++; } };
VC_CASE(reset) { SP s = arbitrary("s"); State b(*s); Visitor v; bool user = choose("user"); if (user) s->Reset(&v); else s->Reset(); Zero z{b}; each_state(z); b.P.setZero(); b.w_m.setZero(); b.a_m.setZero(); b.time = 0; ensure_states_equal("values", *s, b); rest(*s, b); ensure_eq("user function", v.n, user ? 1 : 0); if (user) ensure("of this state", v.got == s.get()); }
struct NonPropagated { State& s; State& from; template <int I> void operator()() { if ((int)Var<I>::V::statetype_ != (int)msf_core::CoreStateWithPropagation) s.GetStateVariable<I>() = from.GetStateVariable<I>(); } };
struct OtherQ { State& s; template <int I> void operator()() { auto& Q = s.GetStateVariable<I>().Q; for (int i = 0; i < Q.rows(); ++i) for (int j = 0; j < Q.cols(); ++j) Q(i, j) = var("O" + std::to_string(I) + "." + std::to_string(i) + std::to_string(j)); s.GetStateVariable<I>().hasResetValue = !(I % 2); } };
VC_CASE(copy_carried_over) { SP s = arbitrary("s"), f = arbitrary("f"); OtherQ o{*f}; each_state(o); State b(*s), bf(*f); boost::fusion::for_each(s->statevars, msf_tmp::CopyNonPropagationStates<State>(*f)); NonPropagated n{b, bf}; each_state(n); ensure_states_equal("values", *s, b); rest(*s, b); ensure_states_equal("source", *f, bf); rest(*f, bf); }
struct InitSome { State& s; State& from; template <int I> void operator()() { if (from.GetStateVariable<I>().hasResetValue) s.GetStateVariable<I>() = from.GetStateVariable<I>(); } };
VC_CASE(copy_initial) { SP s = arbitrary("s"), f = arbitrary("f"); OtherQ o{*f}; each_state(o); State b(*s), bf(*f); boost::fusion::for_each(s->statevars, msf_tmp::CopyInitStates<State>(*f)); InitSome n{b, bf}; each_state(n); ensure_states_equal("values", *s, b); rest(*s, b); ensure_states_equal("source", *f, bf); rest(*f, bf); }
struct Blocks { State& s; const Layout& l; RPM& Q; template <int I> void operator()() { bool core = l.kind[I] == (int)msf_core::CoreStateWithPropagation || l.kind[I] == (int)msf_core::CoreStateWithoutPropagation; if (!core) for (int i = 0; i < l.nerr[I]; ++i) for (int j = 0; j < l.nerr[I]; ++j) Q(l.err[I] + i, l.err[I] + j) = s.GetStateVariable<I>().Q(i, j); } };
VC_CASE(assemble_noise) { Layout l = layout(); SP s = arbitrary("s"); State b(*s); State::Q_type Q; fill(Q, "before"); RPM want = Q; boost::fusion::for_each(s->statevars, msf_tmp::CopyQBlocksFromAuxiliaryStatesToQ<Seq>(Q)); Blocks k{b, l, want}; each_state(k); ensure_meq("noise", Q, want); ensure_states_equal("values", *s, b); rest(*s, b); }
struct Put { const State& s; const Layout& l; std::vector<Real>& v; bool core_only; template <int I> void operator()() { bool core = l.kind[I] == (int)msf_core::CoreStateWithPropagation || l.kind[I] == (int)msf_core::CoreStateWithoutPropagation; if (core || !core_only) for (int i = 0; i < l.nfull[I]; ++i) v[l.full[I] + i] = comp(s.Get<I>(), i); } };
VC_CASE(vectors) { Layout l = layout(); SP s = arbitrary("s"); State b(*s); sensor_fusion_comm::DoubleArrayStamped a, c; a.data.resize(choose("dirty") ? 50 : 0, Real(9)); c.data = a.data; s->ToFullStateMsg(a); s->ToCoreStateMsg(c); auto e = s->ToEigenVector(); std::vector<Real> w(l.F), wc(l.cf); Put p{b, l, w, false}; each_state(p); Put pc{b, l, wc, true}; each_state(pc); ensure_eq("components", (int)a.data.size(), l.F); ensure_eq("core components", (int)c.data.size(), l.cf); ensure_eq("vector", (int)e.rows(), l.cf); for (int i = 0; i < l.F && i < (int)a.data.size(); ++i) ensure_eq("component " + std::to_string(i), a.data[i], w[i]); for (int i = 0; i < l.cf && i < (int)c.data.size(); ++i) { ensure_eq("core component " + std::to_string(i), c.data[i], wc[i]); ensure_eq("vector component " + std::to_string(i), e[i], wc[i]); } ensure_states_equal("values", *s, b); rest(*s, b); }
// a state with a component that is not a number is reported
struct Spoil { State& s; int only, k; Real bad; template <int I> void operator()() { if (I == only) set(s.Get<I>()); } void set(RQuat& q) { Real* c[4] = {&q.w(), &q.x(), &q.y(), &q.z()}; *c[k % 4] = bad; } template <int N> void set(Eigen::Matrix<Real, N, 1>& v) { v[k % N] = bad; } };
VC_CASE(numeric_check) { SP s = arbitrary("s"); int k = choose_n("state", 6); if (k < 5) { Spoil p{*s, k, choose_n("component", 4), choose("infinite") ? inf_sym() : nan_sym()}; each_state(p); } ensure_eq("is numeric", (bool)s->CheckStateForNumeric(), k == 5); }
// ---- initial values
typedef msf_core::MSF_InitMeasurement<State> InitM;
struct InitOne { int only; template <int I> void operator()() { if (I != only) return; typedef typename Var<I>::T T; InitM m(true); State b(m.InitState); T v; fresh(v, "new"); m.template SetStateInitValue<I>(v); const InitM& cm = m; for (int k = 0; k < comps(v); ++k) ensure_eq("read back", comp(cm.template GetStateInitValue<I>(), k), comp(v, k)); ensure_states_equal("states before", m.InitState, b, 0, I); ensure_states_equal("states after", m.InitState, b, I + 1); State t(*arbitrary("t")), tb(t); boost::fusion::for_each(t.statevars, msf_tmp::CopyInitStates<State>(m.InitState)); for (int k = 0; k < comps(v); ++k) ensure_eq("applied", comp(t.Get<I>(), k), comp(v, k)); ensure_states_equal("others not applied", t, tb, 0, I); ensure_states_equal("others not applied", t, tb, I + 1);
    m.template ResetStateInitValue<I>(); State u(tb); boost::fusion::for_each(u.statevars, msf_tmp::CopyInitStates<State>(m.InitState)); ensure_states_equal("withdrawn", u, tb); } };
VC_CASE(initial_value) { InitOne o{choose_n("state", State::nStateVarsAtCompileTime)}; each_state(o); }
VC_MAIN
