// A concrete sensor manager whose answers are arbitrary, the pose filter's state
// definition, and helpers to build arbitrary filter states.
#ifndef VC_CORE_ENV_H
#define VC_CORE_ENV_H
#define ROS_PACKAGE_NAME "vc"
#include "vc.h"
#include "shadow.h"
#include <ros/ros.h>
#define usleep(x) ((void)(x))
#include <msf_core/msf_core.h>
#include <msf_core/msf_measurement.h>
#include <msf_core/msf_sensormanager.h>
#ifndef VC_STATEDEF
#define VC_STATEDEF <msf_updates/src/pose_msf/msf_statedef.hpp>
#define VC_NS msf_updates
#endif
#include VC_STATEDEF
namespace env {
using namespace vc;
static vc::Forget forget_log([] { vcros::log() = vcros::Log(); });
typedef VC_NS::EKFState State; typedef shared_ptr<State> SP; typedef msf_core::MSF_Core<State> Core;
typedef State::StateDefinition_T SD; typedef State::StateSequence_T Seq; typedef State::P_type PM;
enum { NE = State::nErrorStatesAtCompileTime, NS = State::nStatesAtCompileTime };
typedef Eigen::Matrix<Real, NE, 1> Err; typedef Eigen::Matrix<Real, NE, NE> RPM;
template <int I> struct Var { typedef typename msf_tmp::StripReference<typename boost::fusion::result_of::at_c<Seq, I>::type>::result_t V; typedef typename V::value_t T; };
template <class F, int I = 0> void each_state(F& f) { if constexpr (I < State::nStateVarsAtCompileTime) { f.template operator()<I>(); each_state<F, I + 1>(f); } }
// components of one state variable, quaternions as w x y z
template <int N> inline int comps(const Eigen::Matrix<Real, N, 1>&) { return N; }
inline int comps(const RQuat&) { return 4; }
template <int N> inline Real comp(const Eigen::Matrix<Real, N, 1>& v, int i) { return v[i]; }
inline Real comp(const RQuat& q, int i) { return i == 0 ? q.w() : i == 1 ? q.x() : i == 2 ? q.y() : q.z(); }
template <int N> inline void fresh(Eigen::Matrix<Real, N, 1>& v, const std::string& n) { for (int i = 0; i < N; ++i) v[i] = var(n + "." + std::to_string(i)); }
inline void fresh(RQuat& q, const std::string& n) { q = uquat(n); }
inline std::string sn(int i) { static const char* s[] = {"p", "v", "q", "b_w", "b_a", "s5", "s6", "s7", "s8", "s9", "s10", "s11", "s12", "s13", "s14"}; return s[i]; }
struct FreshState { State& s; std::string n; template <int I> void operator()() { fresh(s.template Get<I>(), n + "." + sn(I)); } };
struct EqState { const State& a; const State& b; std::string n; int lo, hi; template <int I> void operator()() { if (I < lo || I >= hi) return;
  for (int i = 0; i < comps(a.template Get<I>()); ++i) ob_zero(n + "." + sn(I) + "[" + std::to_string(i) + "]", comp(a.template Get<I>(), i), comp(b.template Get<I>(), i)); } };
struct SameState { const State& a; const State& b; bool r = true; template <int I> void operator()() { for (int i = 0; i < comps(a.template Get<I>()); ++i) if (!same(comp(a.template Get<I>(), i), comp(b.template Get<I>(), i))) r = false; } };
inline void ensure_states_equal(const std::string& n, const State& a, const State& b, int lo = 0, int hi = 100) { EqState e{a, b, n, lo, hi}; each_state(e); }
inline void fill_state(State& s, const std::string& n) { FreshState f{s, n}; each_state(f); fresh(s.w_m, n + ".w_m"); fresh(s.a_m, n + ".a_m"); fresh(s.noise_gyr, n + ".ng"); fresh(s.noise_acc, n + ".na"); }
inline RQuat rq(const RQuat& q) { return q; }
struct Published { std::string what; SP state; Real time; };
class Mgr : public msf_core::MSF_SensorManager<State> {
 public:
  bool fixed_bias = false; Real na = pos_var("noise_acc"), nba = pos_var("noise_accbias"), nw = pos_var("noise_gyr"), nbw = pos_var("noise_gyrbias"), fuzzy = pos_var("fuzzythres");
  mutable std::vector<Published> pub; mutable int q_calls = 0, aug_calls = 0, sanity_calls = 0; mutable Real q_dt = 0; mutable State* q_state = nullptr;
  std::function<void(Err&)> augment; std::function<void(State&, const State&, Err&)> sanity; std::function<void(State&, const Real&)> auxq;
  std::function<void(const std::string&)> on_publish;
  void Init(double) const {}
  void InitState(State&) const {}
  void CalculateQAuxiliaryStates(State& s, double dt) const { q_calls++; q_dt = dt; q_state = &s; if (auxq) auxq(s, dt); }
  void SetStateCovariance(Eigen::Matrix<double, NE, NE>&) const {}
  void AugmentCorrectionVector(Err& c) const { aug_calls++; if (augment) augment(c); }
  void SanityCheckCorrection(State& d, const State& b, Err& c) const { sanity_calls++; if (sanity) sanity(d, b, c); }
  bool GetParamFixedBias() const { return fixed_bias; }
  double GetParamNoiseAcc() const { return na; }
  double GetParamNoiseAccbias() const { return nba; }
  double GetParamNoiseGyr() const { return nw; }
  double GetParamNoiseGyrbias() const { return nbw; }
  double GetParamFuzzyTrackingThreshold() const { return fuzzy; }
  void rec(const char* w, const SP& s) const { pub.push_back(Published{w, s, s->time}); if (on_publish) on_publish(w); }
  void PublishStateInitial(const SP& s) const { rec("initial", s); }
  void PublishStateAfterPropagation(const SP& s) const { rec("propagation", s); }
  void PublishStateAfterUpdate(const SP& s) const { rec("update", s); }
  void ResetState(State&) const {}
};
inline SP new_state(const std::string& n, const Real& time) { SP s(new State); fill_state(*s, n); s->time = time; return s; }
}  // namespace env
#endif
