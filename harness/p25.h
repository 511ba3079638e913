// Sensor managers (one per including file): calibration noise, frozen states, sanity clamp, reconfiguration (P25)
// and the values handed to the core to initialise the filter (P09). MSF_Core::Init and AddMeasurement stand under
// contracts (recorders).
#include "p14.h"
namespace env { typedef msf_core::MSF_InitMeasurement<State> InitM; inline std::vector<boost::shared_ptr<InitM> >& inits() { static std::vector<boost::shared_ptr<InitM> > v; return v; } static vc::Forget forget_inits([] { inits().clear(); }); }
namespace msf_core { template <> void MSF_Core<env::State>::Init(shared_ptr<MSF_MeasurementBase<env::State> > m) { env::inits().push_back(boost::dynamic_pointer_cast<env::InitM>(m)); } }
namespace msf_updates { using VC_NS::EKFState; }
#if defined(VC_POSE)
#include <geometry_msgs/PoseWithCovarianceStamped.h>
#include "distorter_contract.h"
#endif
#if defined(VC_POSITION)
#include <sensor_fusion_comm/PointWithCovarianceStamped.h>
#include <msf_core/gps_conversion.h>
namespace msf_core {
GPSConversion::GPSConversion() { }
GPSConversion::~GPSConversion() { }
void GPSConversion::InitReference(const double, const double, const double) { }
Vector3 GPSConversion::WGS84ToENU(const double, const double, const double) const { return Vector3::Zero(); }
Vector3 GPSConversion::WGS84ToECEF(const double, const double, const double) const { return Vector3::Zero(); }
Vector3 GPSConversion::ECEFToENU(const Vector3&) const { return Vector3::Zero(); }
void GPSConversion::AdjustReference(const double) { }
}
#endif
#include VC_MANAGERFILE
using namespace env;
typedef VC_MANAGER Manager;
static Real density(const VC_CFG& c, int state);
static void symbols(VC_CFG& c);
static std::string part(int i) { return "state " + std::to_string(i); }
static void start() { params_clear(); inits().clear(); vcros::log().bparams["pose_use_fixed_covariance"] = true; vcros::log().bparams["position_use_fixed_covariance"] = true; vcros::log().bparams["use_fixed_covariance"] = true; norms_nonzero() = true; }
struct FillQ { State& s; template <int I> void operator()() { auto& Q = s.GetStateVariable<I>().Q; for (int i = 0; i < Q.rows(); ++i) for (int j = 0; j < Q.cols(); ++j) Q(i, j) = var("Q" + std::to_string(I) + "." + std::to_string(i) + std::to_string(j)); } };
struct CheckQ { State& s; State& b; const VC_CFG& c; Real dt; template <int I> void operator()() { auto& Q = s.GetStateVariable<I>().Q; auto& B = b.GetStateVariable<I>().Q; for (int i = 0; i < Q.rows(); ++i) for (int j = 0; j < Q.cols(); ++j) { std::string n = " of " + part(I) + " [" + std::to_string(i) + "," + std::to_string(j) + "]"; if (I < 5) ensure_eq("untouched noise" + n, Q(i, j), B(i, j)); else { Real d = density(c, I); ensure_eq("noise" + n, Q(i, j), i == j ? dt * (d * d) : Real(0)); } } } };
struct SameQ { State& s; State& b; template <int I> void operator()() { auto& Q = s.GetStateVariable<I>().Q; auto& B = b.GetStateVariable<I>().Q; for (int i = 0; i < Q.rows(); ++i) for (int j = 0; j < Q.cols(); ++j) ensure_eq("noise of " + part(I), Q(i, j), B(i, j)); } };
static SP arbitrary(const std::string& n) { SP s = new_state(n, var(n + "time")); RPM P; fill_sym(P, n + "P"); s->P = P; fill(s->Fd, n + "Fd"); fill(s->Qd, n + "Qd"); FillQ f{*s}; each_state(f); return s; }
static void check_rest(const std::string& n, State& s, State& b) { ensure_eq(n + "time", s.time, b.time); ensure_meq(n + "gyro", s.w_m, b.w_m); ensure_meq(n + "acc", s.a_m, b.a_m); ensure_meq(n + "covariance", s.P, b.P); ensure_meq(n + "transition", s.Fd, b.Fd); ensure_meq(n + "propagation noise", s.Qd, b.Qd); ensure_meq(n + "gyro noise", s.noise_gyr, b.noise_gyr); ensure_meq(n + "acc noise", s.noise_acc, b.noise_acc); }
static void untouched(const std::string& n, State& s, State& b) { ensure_states_equal(n + "values", s, b); check_rest(n, s, b); SameQ q{s, b}; each_state(q); }
VC_CASE(process_noise) { start(); Manager m; symbols(m.config_); VC_CFG c = m.config_; SP s = arbitrary("s"); State b(*s); Real dt = var("dt"); m.CalculateQAuxiliaryStates(*s, dt); CheckQ q{*s, b, c, dt}; each_state(q); ensure_states_equal("values", *s, b); check_rest("", *s, b); }
VC_CASE(sanity_check) { start(); Manager m; symbols(m.config_); SP s = arbitrary("s"), d = arbitrary("d"); State bs(*s), bd(*d); Err c; fill(c, "c"); Err c0 = c; m.SanityCheckCorrection(*d, *s, c); ensure_meq("correction", c, c0); untouched("buffered state ", *s, bs);
#ifdef VC_SCALE
  Real L = bd.Get<SD::L>()[0]; Eigen::Matrix<Real, 1, 1> e; e[0] = L < Real(0) ? Real(0.1) : L; bd.Set<SD::L>(e); ensure("never negative", !(d->Get<SD::L>()[0] < Real(0)));
#endif
  untouched("corrected state ", *d, bd); }
VC_CASE(no_further_influence) { start(); Manager m; symbols(m.config_); SP s = arbitrary("s"); State b(*s); m.InitState(*s); untouched("state ", *s, b); Err c; fill(c, "c"); Err c0 = c; m.AugmentCorrectionVector(c); ensure_meq("correction", c, c0); PM P; fill(P, "P"); PM P0 = P; m.SetStateCovariance(P); ensure_meq("covariance", P, P0);
#ifdef VC_SCALE
  Eigen::Matrix<Real, 1, 1> e; e[0] = Real(1); b.Set<SD::L>(e);
#endif
  m.ResetState(*s); untouched("reset state ", *s, b); ensure_eq("initialisations", (int)inits().size(), 0); ensure_eq("measurements", (int)added().size(), 0); }
// ---- initialisation
struct Given { State s; const InitM& m; template <int I> void operator()() { auto& v = const_cast<InitM&>(m).InitState.GetStateVariable<I>(); if (v.hasResetValue) s.GetStateVariable<I>().state_ = v.state_; } };
// the state the core starts from: reset, then the given values
static State started(const Manager& m, const InitM& im) { Given g{State(), im}; (void)m; each_state(g); g.s.a_m = const_cast<InitM&>(im).Geta_m(); g.s.w_m = const_cast<InitM&>(im).Getw_m(); return g.s; }
static RV3 turn(const RQuat& q, const RV3& v) { RM3 C = rrot(q); RV3 r; for (int i = 0; i < 3; ++i) r[i] = C(i, 0) * v[0] + C(i, 1) * v[1] + C(i, 2) * v[2]; return r; }
static RQuat yaw(const Real& degrees) { Real a = degrees / Real(180) * Real(M_PI) / Real(2); RQuat q; q.w() = cos(a); q.x() = q.y() = Real(0); q.z() = sin(a); return q; }
static void common(const State& s, InitM& m) { RV3 z = RV3::Zero(); ensure_meq("velocity", s.Get<SD::v>(), z); ensure_meq("gyro bias", s.Get<SD::b_w>(), z); ensure_meq("acc bias", s.Get<SD::b_a>(), z); ensure_meq("rotation rate", s.w_m, z); RV3 g = z; g[2] = Real(9.81); ensure_meq("acceleration is gravity as sensed", s.a_m, turn(rqconj(s.Get<SD::q>()), g)); ensure("with sensor readings", m.ContainsInitialSensorReadings_); ensure_eq("time", m.time, vcros::log().now); PM P = PM::Zero(); ensure_meq("default covariance", m.GetStateCovariance(), P); }
static RV3 lever(const std::string& n) { RV3 r = RV3::Zero(); static const char* a[3] = {"x", "y", "z"}; if (choose(n)) for (int i = 0; i < 3; ++i) vcros::log().dparams[n + "/" + a[i]] = r[i] = var(n + a[i]); return r; }
static InitM* only() { ensure_eq("one initialisation", (int)inits().size(), 1); return inits().size() == 1 ? inits()[0].get() : 0; }
