// PoseDistorter stands under the contract of P19: an arbitrary change of position and attitude.
#ifndef VC_DISTORTER_CONTRACT_H
#define VC_DISTORTER_CONTRACT_H
#include <msf_updates/PoseDistorter.h>
namespace env {
struct Distortion { RV3 p0, p; RQuat q0, q; Real dt; const void* by; };
inline std::vector<Distortion>& distortions() { static std::vector<Distortion> d; return d; } static vc::Forget forget_distortions([] { distortions().clear(); });
struct DistorterMade { RV3 mp, sp, ma, sa; Real ms, ss; };
inline std::vector<DistorterMade>& distorters() { static std::vector<DistorterMade> d; return d; } static vc::Forget forget_distorters([] { distorters().clear(); });
}
namespace msf_updates {
inline PoseDistorter::PoseDistorter(const Eigen::Vector3d& a, const Eigen::Vector3d& b, const Eigen::Vector3d& c, const Eigen::Vector3d& d, const double e, const double f) { env::distorters().push_back(env::DistorterMade{a, b, c, d, e, f}); }
inline PoseDistorter::~PoseDistorter() {}
inline void PoseDistorter::Distort(Eigen::Vector3d& p, Eigen::Quaterniond& q, double dt) { env::Distortion r; r.p0 = p; r.q0 = q; r.dt = dt; r.by = this; std::string n = "distorted" + std::to_string(env::distortions().size()); p = vc::vec3(n + ".p"); q = vc::uquat(n + ".q"); r.p = p; r.q = q; env::distortions().push_back(r); }
inline void PoseDistorter::Distort(Eigen::Vector3d& p, double dt) { env::Distortion r; r.p0 = p; r.dt = dt; r.by = this; p = vc::vec3("distorted" + std::to_string(env::distortions().size()) + ".p"); r.p = p; env::distortions().push_back(r); }
inline void PoseDistorter::Distort(Eigen::Quaterniond& q, double dt) { env::Distortion r; r.q0 = q; r.dt = dt; r.by = this; q = vc::uquat("distorted" + std::to_string(env::distortions().size()) + ".q"); r.q = q; env::distortions().push_back(r); }
}
#endif
