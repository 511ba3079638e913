// Sensor measurements: the update routines of the base class stand under the contracts of P03/P15
// (they are replaced by recorders), the rest of the measurement classes is the real code.
#ifndef VC_MEAS_ENV_H
#define VC_MEAS_ENV_H
#include "core_env.h"
namespace env {
typedef msf_core::MSF_MeasurementBase<State> Base;
struct Applied { bool relative; SP old_state, state; RMX H_old, H, r, R; RPM P; };
inline std::vector<Applied>& applied() { static std::vector<Applied> a; return a; } static vc::Forget forget_applied([] { applied().clear(); });
template <class H, class E, class R> void record(const SP& o, const SP& s, bool rel, const H& ho, const H& h, const E& r, const R& rr) { Applied a; a.relative = rel; a.old_state = o; a.state = s; a.H_old = ho; a.H = h; a.r = r; a.R = rr; a.P = s->P; applied().push_back(a); }
template <int M> using HM = Eigen::Matrix<Real, M, NE>; template <int M> using RM = Eigen::Matrix<Real, M, 1>; template <int M> using RR = Eigen::Matrix<Real, M, M>;
}
namespace msf_core {
#define VC_CORRECTION(M) \
template <> template <> void MSF_MeasurementBase<env::State>::CalculateAndApplyCorrection<env::HM<M>, env::RM<M>, env::RR<M> >(shared_ptr<env::State> s, MSF_Core<env::State>&, const Eigen::MatrixBase<env::HM<M> >& H, const Eigen::MatrixBase<env::RM<M> >& r, const Eigen::MatrixBase<env::RR<M> >& R) { env::record(env::SP(), s, false, H.derived(), H.derived(), r, R); } \
template <> template <> void MSF_MeasurementBase<env::State>::CalculateAndApplyCorrectionRelative<env::HM<M>, env::RM<M>, env::RR<M> >(shared_ptr<env::State> o, shared_ptr<env::State> s, MSF_Core<env::State>&, const Eigen::MatrixBase<env::HM<M> >& Ho, const Eigen::MatrixBase<env::HM<M> >& H, const Eigen::MatrixBase<env::RM<M> >& r, const Eigen::MatrixBase<env::RR<M> >& R) { env::record(o, s, true, Ho.derived(), H.derived(), r, R); }
VC_CORRECTION(1) VC_CORRECTION(2) VC_CORRECTION(3) VC_CORRECTION(6) VC_CORRECTION(7)
template <> void MSF_MeasurementBase<env::State>::CalculateAndApplyCorrection(shared_ptr<env::State> s, MSF_Core<env::State>&, const Eigen::MatrixXd& H, const Eigen::MatrixXd& r, const Eigen::MatrixXd& R) { env::record(env::SP(), s, false, H, H, r, R); }
}
#endif
