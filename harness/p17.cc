// Similarity transform from pose pairs; conversion of covariance blocks between message and filter order.
// Eigen's solvers stand under contracts: eigenvectors of k c c^T (largest last), and A = U diag(s) V^T with orthogonal U, V and descending s
// (U = V for the symmetric, positive semidefinite matrix of the normal equations).
#define ROS_PACKAGE_NAME "vc"
#include "vc.h"
#include "shadow.h"
#include <Eigen/Eigenvalues>
#include <Eigen/SVD>
#include <geometry_msgs/PoseWithCovariance.h>
using namespace vc;
typedef Eigen::Matrix<Real, 4, 4> M4; typedef Eigen::Matrix<Real, 4, 1> V4;
struct Lin { bool used = false; M4 A, U, V; V4 s; };
static std::vector<Lin>& svds() { static std::vector<Lin> l; return l; }
static V4& truth() { static V4 c; return c; }      // x y z w of the rotation all pairs agree on
static int& eigs() { static int n = 0; return n; }
#ifdef VC_SYM
namespace Eigen {
template <> class SelfAdjointEigenSolver<M4> { public: M4 vec; V4 val;
  explicit SelfAdjointEigenSolver(const M4& m, int = ComputeEigenvectors) { compute(m); }
  SelfAdjointEigenSolver() {}
  SelfAdjointEigenSolver& compute(const M4& m, int = ComputeEigenvectors) { ++eigs(); std::string n = "eig" + std::to_string(eigs()); fill(vec, n); for (int i = 0; i < 4; ++i) val[i] = var(n + "." + std::to_string(i)); Real k = m.trace(); const V4& c = truth(); bool is = true; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) if (!same(m(i, j), k * c[i] * c[j])) is = false;
    if (is && k > Real(0)) { cover("one rotation"); bool neg = choose("sign of the eigenvector"); for (int i = 0; i < 4; ++i) vec(i, 3) = neg ? -c[i] : c[i]; val[3] = k; for (int i = 0; i < 3; ++i) val[i] = Real(0); } return *this; }
  const M4& eigenvectors() const { return vec; } const V4& eigenvalues() const { return val; } ComputationInfo info() const { return Success; } };
#define SVD_CONTRACT { public: Lin l; Real eps = 0; \
  explicit SVD_NAME(const M4& m, unsigned = 0) { compute(m); } SVD_NAME() {} \
  SVD_NAME& compute(const M4& m, unsigned = 0) { std::string n = "svd" + std::to_string(svds().size()); l.used = true; l.A = m; fill(l.V, n + "V"); bool sy = true; for (int i = 0; i < 4; ++i) for (int j = 0; j < i; ++j) if (!same(m(i, j), m(j, i))) sy = false; if (sy) l.U = l.V; else fill(l.U, n + "U"); for (int i = 0; i < 4; ++i) l.s[i] = nonneg_var(n + "s" + std::to_string(i)); for (int i = 0; i < 3; ++i) assume(l.s[i] >= l.s[i + 1]); svds().push_back(l); return *this; } \
  const V4& singularValues() const { return l.s; } const M4& matrixU() const { return l.U; } const M4& matrixV() const { return l.V; } };
#define SVD_NAME JacobiSVD
template <> class JacobiSVD<M4, ColPivHouseholderQRPreconditioner> SVD_CONTRACT
#undef SVD_NAME
#define SVD_NAME BDCSVD
template <> class BDCSVD<M4> SVD_CONTRACT
}
#endif
#include <msf_core/src/similaritytransform.cc>
using namespace msf_core;
using similarity_transform::From6DoF; typedef similarity_transform::Pose Pose;
static void put(Pose& p, const RQuat& q, const RV3& t) { p.pose.orientation.w = q.w(); p.pose.orientation.x = q.x(); p.pose.orientation.y = q.y(); p.pose.orientation.z = q.z(); p.pose.position.x = t[0]; p.pose.position.y = t[1]; p.pose.position.z = t[2]; for (int i = 0; i < 36; ++i) p.covariance[i] = Real(i); }
static RQuat conj(const RQuat& q) { RQuat r; r.w() = q.w(); r.x() = -q.x(); r.y() = -q.y(); r.z() = -q.z(); return r; }
static RV3 turn(const RQuat& q, const RV3& v) { RV3 u; u << q.x(), q.y(), q.z(); RV3 c = u.cross(v); return v + Real(2) * (q.w() * c + u.cross(c)); }
static RQuat mul(const RQuat& a, const RQuat& b) { RQuat r; r.w() = a.w() * b.w() - a.x() * b.x() - a.y() * b.y() - a.z() * b.z(); r.x() = a.w() * b.x() + a.x() * b.w() + a.y() * b.z() - a.z() * b.y(); r.y() = a.w() * b.y() - a.x() * b.z() + a.y() * b.w() + a.z() * b.x(); r.z() = a.w() * b.z() + a.x() * b.y() - a.y() * b.x() + a.z() * b.w(); return r; }
struct Pairs { RQuat q; RV3 t; Real s; std::vector<Pose> a, b;
  explicit Pairs(int m) : q(uquat("q")), t(vec3("t")), s(pos_var("scale", 0.5, 2)) { norms_nonzero() = true; truth() << q.x(), q.y(), q.z(), q.w(); svds().clear(); eigs() = 0;
    for (int i = 0; i < m; ++i) { std::string n = std::to_string(i); RQuat q1 = uquat("q1_" + n); RV3 r = vec3("r" + n); Pose x, y; put(y, mul(q1, q), turn(q1, r)); put(x, q1, turn(q1, s * r - t)); a.push_back(x); b.push_back(y); } } };   // in the frame of the first pose: t1 = s t2 - t, and q2 = q1 q
static bool small(const Real& s, const Real& eps) { return s < eps; }
// all pairs related by one rotation, translation and scale: these are returned
static void consistent(int m) { Pairs p(m); From6DoF f; for (int i = 0; i < m; ++i) { if (i & 1) f.AddMeasurement(std::make_pair(p.a[i], p.b[i])); else f.AddMeasurement(p.a[i], p.b[i]); }
  Pose r; put(r, uquat("old q"), vec3("old t")); Real sc = var("old scale"), co = var("old cond"); bool ws = choose("scale wanted"), wc = choose("condition wanted"); Real eps = Real(1) / Real(1000000000);
  bool ok = f.Compute(r, ws ? &sc : nullptr, wc ? &co : nullptr, eps); ensure("accepted", ok); if (!ok) return;
  RV4 got; got << r.pose.orientation.x, r.pose.orientation.y, r.pose.orientation.z, r.pose.orientation.w; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) ensure_eq("rotation of the pairs (up to the sign of the quaternion)", got[i] * got[j], truth()[i] * truth()[j]);
  V4 x0; x0 << p.t, p.s; V4 x; x << r.pose.position.x, r.pose.position.y, r.pose.position.z, ws ? sc : p.s; int n = ws ? 4 : 3;
  if (!ws) ensure_eq("scale not wanted: untouched", sc, var("old scale")); if (!wc) ensure_eq("condition not wanted: untouched", co, var("old cond"));
  bool cov = true; for (int i = 0; i < 36; ++i) if (!same(r.covariance[i], Real(i))) cov = false; ensure("covariance of the result is untouched", cov);
#ifdef VC_SYM
  ensure_eq("one decomposition", (int)svds().size(), 1); if (svds().size() != 1) return; const Lin& l = svds()[0]; if (wc) ensure_eq("condition number", co, l.s[0] / l.s[3]);
  bool keep[4], all = true; for (int i = 0; i < 4; ++i) { keep[i] = !small(l.s[i], eps); all = all && keep[i]; }
  M4 G = l.U.transpose() * l.A, I; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { G(i, j) -= l.s[i] * l.V(j, i); Real v = i == j ? -1 : 0; for (int k = 0; k < 4; ++k) v += l.V(i, k) * l.V(j, k); I(i, j) = v; }   // both vanish by the contract
  for (int k = 0; k < n; ++k) { Real zero = 0, want = 0; for (int i = 0; i < 4; ++i) if (keep[i]) for (int j = 0; j < 4; ++j) { zero += l.V(k, i) / l.s[i] * x0[j] * G(i, j); want += l.V(k, i) * l.V(j, i) * x0[j]; }
    if (all) { want = x0[k]; for (int j = 0; j < 4; ++j) zero += x0[j] * I(k, j); cover("well posed"); } else cover("badly posed");
    ensure_eq(std::string(all ? "" : "badly posed: the part of the ") + (k == 3 ? "scale" : "translation ") + (k < 3 ? std::to_string(k) : ""), x[k] - zero, want); }
#else
  if (wc) { M4 N = M4::Zero(); for (int i = 0; i < m; ++i) { RQuat q1; q1.coeffs() << p.a[i].pose.orientation.x, p.a[i].pose.orientation.y, p.a[i].pose.orientation.z, p.a[i].pose.orientation.w; RV3 t2; t2 << p.b[i].pose.position.x, p.b[i].pose.position.y, p.b[i].pose.position.z; Eigen::Matrix<Real, 3, 4> J; J << -RM3::Identity(), turn(conj(q1), t2); N += J.transpose() * J; }
    V4 e = Eigen::SelfAdjointEigenSolver<M4>(N).eigenvalues(); ensure("condition number", std::fabs(co * e[0] / e[3] - 1) < 1e-6); }
  for (int k = 0; k < n; ++k) ensure_eq(k == 3 ? std::string("scale") : "translation " + std::to_string(k), x[k], x0[k]);
#endif
}
VC_CASE_BOUNDED(two_pairs) { consistent(2); }
VC_CASE_BOUNDED(three_pairs) { consistent(3); }
VC_CASE_BOUNDED(four_pairs) { consistent(4); }
VC_CASE(too_few) { int m = choose_n("pairs", 2); Pairs p(m); From6DoF f; for (int i = 0; i < m; ++i) f.AddMeasurement(p.a[i], p.b[i]); Pose r; RQuat oq = uquat("old q"); RV3 ot = vec3("old t"); put(r, oq, ot); Real sc = var("old scale"), co = var("old cond");
  ensure("refused", !f.Compute(r, &sc, &co)); ensure_eq("scale", sc, var("old scale")); ensure_eq("cond", co, var("old cond")); bool same_ = identical(r.pose.orientation.w, oq.w()) && identical(r.pose.orientation.x, oq.x()) && identical(r.pose.orientation.y, oq.y()) && identical(r.pose.orientation.z, oq.z()) && identical(r.pose.position.x, ot[0]) && identical(r.pose.position.y, ot[1]) && identical(r.pose.position.z, ot[2]); for (int i = 0; i < 36; ++i) same_ = same_ && identical(r.covariance[i], Real(i)); ensure("the result is untouched", same_); cover(m ? "one pair" : "none"); }
// messages store symmetric covariances row by row: x y z, then rotation
VC_CASE(covariance_blocks) { Eigen::Matrix<Real, 6, 6> S; fill_sym(S, "S"); geometry_msgs::PoseWithCovariance::_covariance_type c; for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) c[i * 6 + j] = S(i, j); int a = 3 * choose_n("row", 2), b = 3 * choose_n("column", 2);
  ensure_eq("position first", (int)geometry_msgs::cov::p, 0); ensure_eq("rotation second", (int)geometry_msgs::cov::q, 3);
  RM3 B = GeometryMsgsCovBlockToEigen(c, a, b); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) ensure_eq("block read", B(i, j), S(a + i, b + j));
  RM3 N; if (a == b) fill_sym(N, "N"); else fill(N, "N"); EigenCovBlockToGeometryMsgs(c, N, a, b); Eigen::Matrix<Real, 6, 6> W = S; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { W(a + i, b + j) = N(i, j); W(b + j, a + i) = N(i, j); }
  for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) ensure_eq("covariance after writing a block and its transpose", c[i * 6 + j], W(i, j)); cover(a == b ? "diagonal" : "cross"); }
VC_CASE(points) { RV3 v = vec3("v"); geometry_msgs::Point p = EigenToGeometryMsgs(v); ensure_eq("x", p.x, v[0]); ensure_eq("y", p.y, v[1]); ensure_eq("z", p.z, v[2]); ensure_meq("back", GeometryMsgsToEigen(p), v); RQuat q = rawquat("q"); geometry_msgs::Quaternion g = EigenToGeometryMsgs(q); ensure_eq("qw", g.w, q.w()); ensure_eq("qx", g.x, q.x()); ensure_eq("qy", g.y, q.y()); ensure_eq("qz", g.z, q.z()); RQuat k = GeometryMsgsToEigen(g); ensure_eq("bw", k.w(), q.w()); ensure_eq("bx", k.x(), q.x()); ensure_eq("by", k.y(), q.y()); ensure_eq("bz", k.z(), q.z()); }
VC_MAIN
