// Sensor handlers: which measurement reaches the core (AddMeasurement stands under the contract of P06)
#ifndef VC_P14_H
#define VC_P14_H
#include "meas_env.h"
namespace env { typedef boost::shared_ptr<Base> MP; inline std::vector<MP>& added() { static std::vector<MP> a; return a; } static vc::Forget forget_added([] { added().clear(); }); }
namespace msf_core { template <> void MSF_Core<env::State>::AddMeasurement(shared_ptr<MSF_MeasurementBase<env::State> > m) { env::added().push_back(m); } }
#ifdef VC_SYM
// the determinant is only used for a warning: any value
namespace Eigen { namespace internal {
template <> struct determinant_impl<Matrix<vc::Sym, 6, 6>, 6> { static vc::Sym run(const Matrix<vc::Sym, 6, 6>&) { return vc::var("determinant"); } };
template <> struct determinant_impl<Block<Matrix<vc::Sym, 7, 7>, 6, 6, false>, 6> { static vc::Sym run(const Block<Matrix<vc::Sym, 7, 7>, 6, 6, false>&) { return vc::var("determinant"); } };
} }
#endif
namespace env {
template <class C> struct HMgr : Mgr { C cfg; C& Getcfg() { return cfg; } };
inline void params_clear() { vcros::log().bparams.clear(); vcros::log().dparams.clear(); vcros::log().deliver.clear(); added().clear(); }
// a parameter that may be set to anything or left out
inline bool bparam(const std::string& n, bool dflt) { int k = choose_n(n, 3); if (k < 2) vcros::log().bparams[n] = k; return k == 2 ? dflt : k; }
inline Real dparam(const std::string& n, const Real& dflt) { if (!choose(n + " set")) return dflt; Real v = var(n); vcros::log().dparams[n] = v; return v; }
inline void header(std_msgs::Header& h, const Real& t, int seq) { h.stamp = ros::Time(t); h.seq = seq; }
template <class V> inline void put3(V& p, const RV3& v) { p.x = v[0]; p.y = v[1]; p.z = v[2]; }
template <class V> inline void put4(V& p, const RQuat& q) { p.w = q.w(); p.x = q.x(); p.y = q.y(); p.z = q.z(); }
inline void ensure_quat(const std::string& n, const RQuat& a, const RQuat& b) { ensure_eq(n + " w", a.w(), b.w()); ensure_eq(n + " x", a.x(), b.x()); ensure_eq(n + " y", a.y(), b.y()); ensure_eq(n + " z", a.z(), b.z()); }
}
#endif
