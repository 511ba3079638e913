// Eigen support for the shadow scalar.
#ifndef VC_SYM_EIGEN_H
#define VC_SYM_EIGEN_H
#include <Eigen/Dense>
#include <Eigen/Geometry>
#include "sym.h"
namespace Eigen {
template <> struct NumTraits<vc::Sym> : GenericNumTraits<vc::Sym> {
  typedef vc::Sym Real; typedef vc::Sym NonInteger; typedef vc::Sym Nested; typedef vc::Sym Literal;
  enum { IsComplex = 0, IsInteger = 0, IsSigned = 1, RequireInitialization = 1,
         ReadCost = 1, AddCost = 1, MulCost = 1 };
  static inline vc::Sym epsilon() { return std::numeric_limits<double>::epsilon(); }
  static inline vc::Sym dummy_precision() { return 1e-12; }
  static inline vc::Sym highest() { return (std::numeric_limits<double>::max)(); }
  static inline vc::Sym lowest() { return (std::numeric_limits<double>::lowest)(); }
  static inline int digits10() { return 15; }
};
typedef Matrix<vc::Sym, 2, 1> SymVector2; typedef Matrix<vc::Sym, 3, 1> SymVector3;
typedef Matrix<vc::Sym, 4, 1> SymVector4; typedef Matrix<vc::Sym, Dynamic, 1> SymVectorX;
typedef Matrix<vc::Sym, 2, 2> SymMatrix2; typedef Matrix<vc::Sym, 3, 3> SymMatrix3;
typedef Matrix<vc::Sym, 4, 4> SymMatrix4; typedef Matrix<vc::Sym, Dynamic, Dynamic> SymMatrixX;
typedef Matrix<vc::Sym, 1, Dynamic> SymRowVectorX; typedef Matrix<vc::Sym, 1, 3> SymRowVector3;
typedef Quaternion<vc::Sym> SymQuaternion; typedef AngleAxis<vc::Sym> SymAngleAxis;
typedef Transform<vc::Sym, 3, Isometry> SymIsometry3; typedef Transform<vc::Sym, 3, Affine> SymAffine3;
typedef Translation<vc::Sym, 3> SymTranslation3;

// trusted contracts for Eigen's inverse: a fresh matrix X standing for S^-1
// (recorded together with S so that contracts can talk about it).
namespace internal {
void vc_record_inverse(int n, const vc::Sym* s, vc::Sym* x);   // column major
template <class M, class R> void vc_inverse_contract(const M& m, R& r) {
  const int n = m.rows();
  std::vector<vc::Sym> s(n * n, vc::Sym(0)), x(n * n, vc::Sym(0));
  for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) s[j * n + i] = m(i, j);
  vc_record_inverse(n, s.data(), x.data());
  Matrix<vc::Sym, Dynamic, Dynamic> t(n, n);
  for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) t(i, j) = x[j * n + i];
  r = t;
}
#define VC_INV(N) \
template <int O, int MR, int MC, class Res> struct compute_inverse<Matrix<vc::Sym, N, N, O, MR, MC>, Res, N> { \
  static void run(const Matrix<vc::Sym, N, N, O, MR, MC>& m, Res& r) { vc_inverse_contract(m, r); } };
VC_INV(1) VC_INV(2) VC_INV(3) VC_INV(4) VC_INV(5) VC_INV(6) VC_INV(7) VC_INV(8) VC_INV(9) VC_INV(Dynamic)
#undef VC_INV
// minCoeff/maxCoeff build min/max terms instead of case splits
template <int NaNP> struct scalar_min_op<vc::Sym, vc::Sym, NaNP> : binary_op_base<vc::Sym, vc::Sym> {
  typedef vc::Sym result_type;
  vc::Sym operator()(const vc::Sym& a, const vc::Sym& b) const { return vc::min_node(a, b); }
};
template <int NaNP> struct scalar_max_op<vc::Sym, vc::Sym, NaNP> : binary_op_base<vc::Sym, vc::Sym> {
  typedef vc::Sym result_type;
  vc::Sym operator()(const vc::Sym& a, const vc::Sym& b) const { return vc::max_node(a, b); }
};
template <int NaNP> struct functor_traits<scalar_min_op<vc::Sym, vc::Sym, NaNP> > { enum { Cost = 1, PacketAccess = 0 }; };
template <int NaNP> struct functor_traits<scalar_max_op<vc::Sym, vc::Sym, NaNP> > { enum { Cost = 1, PacketAccess = 0 }; };
}
}  // namespace Eigen
#endif
