// Forward-mode first-order terms over Real: exact derivatives of the reference predictions.
#ifndef VC_DUAL_H
#define VC_DUAL_H
namespace env {
struct Dual { Real v, d; Dual() : v(0), d(0) {} Dual(const Real& x) : v(x), d(0) {} Dual(const Real& x, const Real& y) : v(x), d(y) {} };
inline Dual operator+(const Dual& a, const Dual& b) { return Dual(a.v + b.v, a.d + b.d); }
inline Dual operator-(const Dual& a, const Dual& b) { return Dual(a.v - b.v, a.d - b.d); }
inline Dual operator-(const Dual& a) { return Dual(-a.v, -a.d); }
inline Dual operator*(const Dual& a, const Dual& b) { return Dual(a.v * b.v, a.v * b.d + a.d * b.v); }
inline Dual operator/(const Dual& a, const Dual& b) { return Dual(a.v / b.v, (a.d * b.v - a.v * b.d) / (b.v * b.v)); }
typedef Dual DV[3]; typedef Dual DQ[4];
struct Vec { Dual x[3]; Dual& operator[](int i) { return x[i]; } const Dual& operator[](int i) const { return x[i]; } };
struct Qua { Dual w, x, y, z; };
inline Vec operator+(const Vec& a, const Vec& b) { Vec r; for (int i = 0; i < 3; ++i) r[i] = a[i] + b[i]; return r; }
inline Vec operator-(const Vec& a, const Vec& b) { Vec r; for (int i = 0; i < 3; ++i) r[i] = a[i] - b[i]; return r; }
inline Vec operator*(const Vec& a, const Dual& s) { Vec r; for (int i = 0; i < 3; ++i) r[i] = a[i] * s; return r; }
inline Qua operator*(const Qua& a, const Qua& b) { Qua r; r.w = a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z; r.x = a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y; r.y = a.w * b.y - a.x * b.z + a.y * b.w + a.z * b.x; r.z = a.w * b.z + a.x * b.y - a.y * b.x + a.z * b.w; return r; }
inline Qua conj(const Qua& a) { Qua r; r.w = a.w; r.x = -a.x; r.y = -a.y; r.z = -a.z; return r; }
inline Vec rot(const Qua& q, const Vec& v) { Qua p; p.x = v[0]; p.y = v[1]; p.z = v[2]; Qua r = q * p * conj(q); Vec o; o[0] = r.x; o[1] = r.y; o[2] = r.z; return o; }   // q v q*
inline Vec err_of(const Qua& e) { Vec r; Dual two = Dual(Real(2)); r[0] = two * e.x / e.w; r[1] = two * e.y / e.w; r[2] = two * e.z / e.w; return r; }
// first index of every state in the error vector, independently of the code
struct Starts { std::vector<int> at; int n = 0; template <int I> void operator()() { typedef typename Var<I>::T T; at.push_back(n); n += std::is_same<T, RQuat>::value ? 3 : comps(T()); } };
inline const std::vector<int>& starts() { static Starts s; if (s.at.empty()) each_state(s); return s.at; }
// a state moved by a first-order error in direction `dir` of the error vector
inline Vec dvec(const RV3& v, int start, int dir) { Vec r; for (int i = 0; i < 3; ++i) r[i] = Dual(v[i], Real(start + i == dir)); return r; }
inline Dual dscal(const Real& v, int start, int dir) { return Dual(v, Real(start == dir)); }
inline Qua dquat(const RQuat& q, int start, int dir) { Qua a, e; a.w = q.w(); a.x = q.x(); a.y = q.y(); a.z = q.z(); e.w = Dual(Real(1)); Real h = Real(1) / Real(2); e.x = Dual(Real(0), start == dir ? h : Real(0)); e.y = Dual(Real(0), start + 1 == dir ? h : Real(0)); e.z = Dual(Real(0), start + 2 == dir ? h : Real(0)); return a * e; }
inline Qua cquat(const RQuat& q) { Qua a; a.w = q.w(); a.x = q.x(); a.y = q.y(); a.z = q.z(); return a; }
inline Vec cvec(const RV3& v) { Vec r; for (int i = 0; i < 3; ++i) r[i] = Dual(v[i]); return r; }
}
#endif
