// Harness API.  The same harness is compiled twice:
//   -DVC_SYM       every `double` of /repo's code is the shadow scalar vc::Sym
//   (nothing)      genuine doubles; inputs come from a table or a seed (replay)
#ifndef VC_VC_H
#define VC_VC_H
#include "prelude.h"
#ifdef VC_SYM
#include "sym.h"
#include "sym_eigen.h"
#include "vc_api.h"
#include <fcntl.h>
#include <sys/wait.h>
namespace vc { typedef Sym Real; static const bool kSymbolic = true; typedef SymF RealF; }
#else
namespace vc {
typedef double Real; typedef float RealF;
static const bool kSymbolic = false;
inline double nan_sym() { return std::numeric_limits<double>::quiet_NaN(); } inline double inf_sym() { return std::numeric_limits<double>::infinity(); }
struct Conc {
  std::map<std::string, double> given; uint64_t seed = 1; std::set<std::string> failed; int obs = 0;
  std::string msg; bool warm = false;
};
inline Conc& C() { static Conc c; return c; }
struct Skip { std::string why; };
inline uint64_t splitmix(uint64_t& x) { uint64_t z = (x += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
inline uint64_t hash_str(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; return h; }
inline double sample_value(const std::string& name, uint64_t seed, double lo, double hi) {
  uint64_t x = hash_str(name) ^ (seed * 0x9e3779b97f4a7c15ull + 12345); splitmix(x);
  double u = (splitmix(x) >> 11) * (1.0 / 9007199254740992.0);
  uint64_t mode = seed >= 8 ? splitmix(x) % 16 : 15;
  if (mode == 0 && lo <= 0 && hi >= 0) return 0;
  if (mode == 1 && lo <= 1 && hi >= 1) return 1;
  if (mode == 2 && lo <= -1 && hi >= -1) return -1;
  if (mode == 3) return lo + (hi - lo) * (std::floor(u * 9) / 8);
  return lo + (hi - lo) * u; }
inline double var(const std::string& n0, double lo = -2, double hi = 2) { const std::string n = C().warm ? "warm." + n0 : n0; auto it = C().given.find(n); double v = it != C().given.end() ? it->second : sample_value(n, C().seed, lo, hi); C().given[n] = v; return v; }
inline double pos_var(const std::string& n, double lo = 0.05, double hi = 2) { double v = var(n, lo, hi); if (!(v > 0)) throw Skip{"positive " + n}; return v; }
inline double nonneg_var(const std::string& n, double lo = 0, double hi = 2) { double v = var(n, lo, hi); if (!(v >= 0)) throw Skip{"nonneg " + n}; return v; }
inline void unit_quat(const std::string& name, double* q) { static const char* s[4] = {".w", ".x", ".y", ".z"}; double n = 0;
  for (int i = 0; i < 4; ++i) { q[i] = var(name + s[i], -1, 1); n += q[i] * q[i]; } n = std::sqrt(n); if (n == 0) { q[0] = 1; n = 1; } for (int i = 0; i < 4; ++i) q[i] /= n; }
inline double opaque(double a) { return a; }
inline double fun(const std::string& f, double a, double b = 0) { uint64_t h = hash_str(f), u; memcpy(&u, &a, 8); h ^= u * 31; memcpy(&u, &b, 8); h ^= u * 131; return sample_value(f, h, -2, 2); }
inline void ob_bool(const std::string& n, bool v, const std::string& m = "") { if (C().warm) return; C().obs++; if (!v) { C().failed.insert(n); if (C().msg.size() < 4000) C().msg += n + ": " + m + "\n"; } }
inline bool close(double a, double b) { if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b); if (a == b) return true; if (std::isinf(a) || std::isinf(b)) return false;
  return std::fabs(a - b) <= 1e-9 * std::max(1.0, std::max(std::fabs(a), std::fabs(b))); }
inline bool ob_zero(const std::string& n, double a, double b, bool = false) { char buf[200]; snprintf(buf, sizeof buf, "got %.17g expected %.17g", a, b); bool ok = close(a, b); ob_bool(n, ok, buf); return ok; }
inline void ob_pos(const std::string& n, double a, bool strict) { char buf[100]; snprintf(buf, sizeof buf, "value %.17g", a); ob_bool(n, strict ? a > -1e-9 : a >= -1e-9, buf); }
inline void assume_bool(bool b) { if (!b) throw Skip{"assumption"}; }
inline void assume_sign(double a, int mask) { int m = a < 0 ? 1 : a > 0 ? 4 : 2; if (!(m & mask)) throw Skip{"assumption"}; }
inline int choose_n(const std::string& l, int n) { if (C().warm) return (hash_str(l) >> 8) % n; auto it = C().given.find("choice:" + l); int r = it != C().given.end() ? (int)it->second : (int)std::floor((sample_value("choice:" + l, C().seed, -1, 1) * 0.5 + 0.5) * n * 0.9999); C().given["choice:" + l] = r; return r < 0 ? 0 : r >= n ? n - 1 : r; }
inline bool choose(const std::string& l) { return choose_n(l, 2); }
inline bool same(double a, double b) { return close(a, b); }
inline bool identical(double a, double b) { return a == b; }
inline void note(const std::string&) {}
inline void cover(const std::string&) {}
inline bool& abs_term() { static bool b; return b; }
inline bool& inverse_exact() { static bool b; return b; }
inline std::string witness(double) { return "?"; }
inline bool& generic_equalities() { static bool b; return b; }
inline bool& norms_nonzero() { static bool b; return b; }
inline std::string show(double d) { char b[40]; snprintf(b, 40, "%.17g", d); return b; }
inline bool ground_value(double s, double* o) { *o = s; return true; }
}
#endif
namespace vc {
typedef Eigen::Matrix<Real, 3, 1> RV3; typedef Eigen::Matrix<Real, 4, 1> RV4; typedef Eigen::Matrix<Real, 3, 3> RM3;
typedef Eigen::Quaternion<Real> RQuat; typedef Eigen::Matrix<Real, Eigen::Dynamic, Eigen::Dynamic> RMX;
inline RV3 vec3(const std::string& n, double lo = -2, double hi = 2) { RV3 v; static const char* s[3] = {".x", ".y", ".z"}; for (int i = 0; i < 3; ++i) v[i] = var(n + s[i], lo, hi); return v; }
inline RQuat uquat(const std::string& n) { Real q[4]; unit_quat(n, q); RQuat r; r.w() = q[0]; r.x() = q[1]; r.y() = q[2]; r.z() = q[3]; return r; }
inline RQuat rawquat(const std::string& n) { RQuat r; r.w() = var(n + ".w"); r.x() = var(n + ".x"); r.y() = var(n + ".y"); r.z() = var(n + ".z"); return r; }
template <class M> void fill(M& m, const std::string& n, double lo = -2, double hi = 2) { for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) m(i, j) = var(n + "[" + std::to_string(i) + "," + std::to_string(j) + "]", lo, hi); }
template <class M> void fill_sym(M& m, const std::string& n) { for (int i = 0; i < m.rows(); ++i) for (int j = i; j < m.cols(); ++j) { m(i, j) = var(n + "[" + std::to_string(i) + "," + std::to_string(j) + "]"); m(j, i) = m(i, j); } }
template <int R, int Cc> Eigen::Matrix<Real, R, Cc> mat(const std::string& n) { Eigen::Matrix<Real, R, Cc> m; fill(m, n); return m; }
inline void ensure(const std::string& n, bool v, const std::string& msg = "postcondition is false on this path") { ob_bool(n, v, msg); }
inline std::string ts_(bool a) { return a ? "true" : "false"; } template <class T> std::string ts_(const T& a) { return std::to_string(a); }
template <class A, class B> void ensure_eq(const std::string& n, const A& a, const B& b) {
  if constexpr (std::is_integral<A>::value && std::is_integral<B>::value) ob_bool(n, a == (A)b && (B)a == b, ts_(a) + " != " + ts_(b));
  else ob_zero(n, Real(a), Real(b)); }
inline void ensure_eq(const std::string& n, const std::string& a, const std::string& b) { ob_bool(n, a == b, a + " != " + b); }
template <class A, class B> void ensure_meq(const std::string& n, const A& a, const B& b) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) { ob_bool(n + ".shape", false, "shape differs"); return; }
  for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) ob_zero(n + "[" + std::to_string(i) + "," + std::to_string(j) + "]", Real(a(i, j)), Real(b(i, j))); }
inline void ensure_qeq(const std::string& n, const RQuat& a, const RQuat& b) { ob_zero(n + ".w", a.w(), b.w()); ob_zero(n + ".x", a.x(), b.x()); ob_zero(n + ".y", a.y(), b.y()); ob_zero(n + ".z", a.z(), b.z()); }
// Cuts: a sub-term of the code's result is replaced by a fresh variable, so what is
// proved holds for every value of that sub-term (a generalisation of the obligation).
class Cuts {
#ifdef VC_SYM
  CutMap* c = cuts_new();
 public:
  void add(const Real& x, const std::string& n) { cuts_add(c, x, n); }
  void sweep(const Real& x, const std::string& n) { cuts_sweep(c, x, n); }
  void add_unit(const RQuat& q, const std::string& n) { Real a[4] = {q.w(), q.x(), q.y(), q.z()}; ob_zero(n + " has unit norm", a[0] * a[0] + a[1] * a[1] + a[2] * a[2] + a[3] * a[3], Real(1)); cuts_add_unit(c, a, n); }
  void add_unit_proved(const RQuat& q, const std::string& n) { Real a[4] = {q.w(), q.x(), q.y(), q.z()}; cuts_add_unit(c, a, n); }  // unit norm proved in another case
  void sweep_unit(const RQuat& q, const std::string& n) { Real a[4] = {q.w(), q.x(), q.y(), q.z()}; cuts_sweep_unit(c, a, n); }  // unit norm known from its construction
  Real operator()(const Real& x) { return cuts_apply(c, x); }
#else
 public:
  void add(const Real&, const std::string&) {}
  void sweep(const Real&, const std::string&) {}
  void add_unit(const RQuat& q, const std::string& n) { ob_zero(n + " has unit norm", q.squaredNorm(), 1); }
  void add_unit_proved(const RQuat&, const std::string&) {}
  void sweep_unit(const RQuat&, const std::string&) {}
  Real operator()(const Real& x) { return x; }
#endif
  template <class M> void add_all(const Eigen::MatrixBase<M>& m, const std::string& n) { for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) add(m(i, j), n + "_" + std::to_string(i) + "_" + std::to_string(j)); }
  template <class M> void sweep_all(const Eigen::MatrixBase<M>& m, const std::string& n) { for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) sweep(m(i, j), n + "_" + std::to_string(i) + "_" + std::to_string(j)); }
  template <class M> typename M::PlainObject mat(const Eigen::MatrixBase<M>& m) { typename M::PlainObject r(m); for (int i = 0; i < r.rows(); ++i) for (int j = 0; j < r.cols(); ++j) r(i, j) = (*this)(r(i, j)); return r; }
  RQuat quat(const RQuat& q) { RQuat r; r.w() = (*this)(q.w()); r.x() = (*this)(q.x()); r.y() = (*this)(q.y()); r.z() = (*this)(q.z()); return r; }
};
// like ensure_eq, but a failing obligation carries the exact deviation at a fixed point in its name (for known findings)
inline void ensure_eq_fp(const std::string& n, const Real& a, const Real& b) { if (same(a, b)) ob_zero(n, a, b); else ob_zero(n + " [deviates by " + witness(a - b) + "]", a, b); }
#ifdef VC_SYM
inline Real max_of(const Real& a, const Real& b) { return max_node(a, b); }
inline Real min_of(const Real& a, const Real& b) { return min_node(a, b); }
#else
inline Real max_of(double a, double b) { return std::max(a, b); }
inline Real min_of(double a, double b) { return std::min(a, b); }
#endif
inline void assume(bool b) { assume_bool(b); }
template <class M> bool same_mat(const M& a, const M& b) { for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) if (!same(a(i, j), b(i, j))) return false; return true; }
// independent reference formulas
inline RM3 rskew(const RV3& v) { RM3 m; m << Real(0), -v[2], v[1], v[2], Real(0), -v[0], -v[1], v[0], Real(0); return m; }
inline RM3 rrot(const RQuat& q) {  // rotation matrix of a unit quaternion, written out
  Real w = q.w(), x = q.x(), y = q.y(), z = q.z(), two = Real(2); RM3 m;
  m << w * w + x * x - y * y - z * z, two * (x * y - w * z), two * (x * z + w * y),
       two * (x * y + w * z), w * w - x * x + y * y - z * z, two * (y * z - w * x),
       two * (x * z - w * y), two * (y * z + w * x), w * w - x * x - y * y + z * z; return m; }
inline RQuat rqmul(const RQuat& a, const RQuat& b) { RQuat r;  // Hamilton product
  r.w() = a.w() * b.w() - a.x() * b.x() - a.y() * b.y() - a.z() * b.z();
  r.x() = a.w() * b.x() + a.x() * b.w() + a.y() * b.z() - a.z() * b.y();
  r.y() = a.w() * b.y() - a.x() * b.z() + a.y() * b.w() + a.z() * b.x();
  r.z() = a.w() * b.z() + a.x() * b.y() - a.y() * b.x() + a.z() * b.w(); return r; }
inline RQuat rqconj(const RQuat& a) { RQuat r; r.w() = a.w(); r.x() = -a.x(); r.y() = -a.y(); r.z() = -a.z(); return r; }

struct Case { std::string name; void (*fn)(); bool bounded; bool warm; };
inline std::vector<Case>& cases() { static std::vector<Case> c; return c; }
#ifndef VC_PREFIX
#define VC_PREFIX ""
#endif
// what a harness itself remembers between runs is forgotten after the warm-up
inline std::vector<void (*)()>& forgets() { static std::vector<void (*)()> v; return v; }
struct Forget { Forget(void (*f)()) { forgets().push_back(f); } };
#ifdef VC_NO_WARM
static const bool kWarm = false;
#else
static const bool kWarm = true;
#endif
struct Reg { Reg(const char* n, void (*f)(), bool b, bool w = kWarm) { cases().push_back({std::string(VC_PREFIX) + n, f, b, w}); } };
}  // namespace vc
#define VC_CASE(N) static void vc_case_##N(); static vc::Reg vc_reg_##N(#N, vc_case_##N, false); static void vc_case_##N()
// without the warm-up: what the process did before is part of the contract
#define VC_CASE_COLD(N) static void vc_case_##N(); static vc::Reg vc_reg_##N(#N, vc_case_##N, false, false); static void vc_case_##N()
#define VC_CASE_BOUNDED(N) static void vc_case_##N(); static vc::Reg vc_reg_##N(#N, vc_case_##N, true); static void vc_case_##N()

// usage: prog OUT [case...]      (symbolic)
//        prog run CASE SEED [name=value...]   (concrete; prints FAILED lines, exit 3 if any)
#ifdef VC_SYM
namespace vc {
inline int main_(int argc, char** argv) {
  int fd = open(argv[1], O_WRONLY | O_CREAT | O_APPEND, 0644);
  if (argc > 2 && std::string(argv[2]) == "--list") { for (auto& c : cases()) printf("%s%s\n", c.name.c_str(), c.bounded ? " bounded" : ""); return 0; }
  for (auto& c : cases()) { bool sel = argc <= 2; for (int i = 2; i < argc; ++i) if (c.name == argv[i]) sel = true; if (!sel) continue;
    fflush(0); pid_t p = fork(); if (p == 0) { if (freopen("/dev/null", "w", stdout)) {} if (!getenv("VC_DEBUG") && freopen("/dev/null", "w", stderr)) {} if (c.warm) { warm_up(c.fn); for (auto f : forgets()) f(); } run_case(c.name, c.fn, fd, 4000); _exit(0); }
    int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { std::string l = "{\"t\":\"crash\",\"case\":\"" + c.name + "\",\"path\":\"r\",\"status\":" + std::to_string(st) + "}\n"; ssize_t r = write(fd, l.data(), l.size()); (void)r; } }
  return 0; } }
#else
namespace vc {
inline int main_(int argc, char** argv) {
  if (argc < 4 || std::string(argv[1]) != "run") return 2;
  for (auto& c : cases()) if (c.name == argv[2]) {
    C().seed = strtoull(argv[3], 0, 10); for (int i = 4; i < argc; ++i) { std::string s = argv[i]; size_t e = s.rfind('='); if (e != std::string::npos) C().given[s.substr(0, e)] = atof(s.c_str() + e + 1); }
    if (c.warm) { C().warm = true; try { c.fn(); } catch (...) {} C().warm = false; generic_equalities() = norms_nonzero() = inverse_exact() = abs_term() = false; for (auto f : forgets()) f(); }
    try { c.fn(); } catch (Skip& s) { if (C().failed.empty()) { printf("SKIPPED %s\n", s.why.c_str()); return 4; } }
    for (auto& n : C().failed) printf("FAILED %s\n", n.c_str()); printf("%s", C().msg.c_str());
    for (auto& kv : C().given) printf("INPUT %s=%.17g\n", kv.first.c_str(), kv.second);
    fflush(0); _exit(C().failed.empty() ? 0 : 3); }
  return 2; } }
#endif
#define VC_MAIN int main(int argc, char** argv) { return vc::main_(argc, argv); }
#endif
