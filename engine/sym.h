// Shadow scalar: a mathematical real represented by a hash-consed term.
#ifndef VC_SYM_H
#define VC_SYM_H
#include <iosfwd>
#include <limits>
#include <string>
#include <cmath>
#include <vector>
namespace vc {
struct Node;
typedef const Node* NP;

NP node_from_double(double d);
NP node_undef(double id);
NP node_zero();

class Sym {
 public:
  NP n;        // null: the value is the literal `lit`
  double lit;
  Sym() : n(undef_tag()), lit(undef_count() += 1) {}   // uninitialised: a value of its own, made when it is read
  constexpr Sym(double d) : n(nullptr), lit(d) {}
  constexpr Sym(float d) : n(nullptr), lit(d) {}
  constexpr Sym(long double d) : n(nullptr), lit((double)d) {}
  constexpr Sym(int d) : n(nullptr), lit(d) {}
  constexpr Sym(unsigned d) : n(nullptr), lit(d) {}
  constexpr Sym(long d) : n(nullptr), lit((double)d) {}
  constexpr Sym(unsigned long d) : n(nullptr), lit((double)d) {}
  constexpr Sym(long long d) : n(nullptr), lit((double)d) {}
  constexpr Sym(unsigned long long d) : n(nullptr), lit((double)d) {}
  constexpr Sym(bool d) : n(nullptr), lit(d) {}
  constexpr Sym(char d) : n(nullptr), lit(d) {}
  constexpr Sym(short d) : n(nullptr), lit(d) {}
  constexpr Sym(unsigned short d) : n(nullptr), lit(d) {}
  constexpr Sym(unsigned char d) : n(nullptr), lit(d) {}
  struct FromNode {};
  Sym(NP p, FromNode) : n(p), lit(0) {}
  static NP undef_tag() { return reinterpret_cast<NP>(16); }
  static double& undef_count() { static double c = 0; return c; }
  NP node() const { return !n ? node_from_double(lit) : n == undef_tag() ? node_undef(lit) : n; }
  explicit operator bool() const;
  explicit operator int() const;
  explicit operator unsigned() const;
  explicit operator long() const;
  explicit operator unsigned long() const;
  explicit operator long long() const;
  explicit operator unsigned long long() const;
  explicit operator unsigned char() const;
  explicit operator float() const;
  explicit operator double() const;  // only for constants
  Sym& operator+=(const Sym& o);
  Sym& operator-=(const Sym& o);
  Sym& operator*=(const Sym& o);
  Sym& operator/=(const Sym& o);
  Sym& operator++() { return *this += Sym(1); }
  Sym operator++(int) { Sym o = *this; *this += Sym(1); return o; }
  Sym& operator--() { return *this -= Sym(1); }
};
inline Sym mk(NP p) { return Sym(p, Sym::FromNode()); }

Sym sym_add(const Sym& a, const Sym& b);
Sym sym_sub(const Sym& a, const Sym& b);
Sym sym_mul(const Sym& a, const Sym& b);
Sym sym_div(const Sym& a, const Sym& b);
Sym sym_neg(const Sym& a);
bool sym_lt(const Sym& a, const Sym& b);
bool sym_le(const Sym& a, const Sym& b);
bool sym_eq(const Sym& a, const Sym& b);
// in a constant expression both operands are literals and double arithmetic applies, as in the original
#define VC_CE __builtin_is_constant_evaluated()
constexpr Sym operator+(const Sym& a, const Sym& b) { return VC_CE ? Sym(a.lit + b.lit) : sym_add(a, b); }
constexpr Sym operator-(const Sym& a, const Sym& b) { return VC_CE ? Sym(a.lit - b.lit) : sym_sub(a, b); }
constexpr Sym operator*(const Sym& a, const Sym& b) { return VC_CE ? Sym(a.lit * b.lit) : sym_mul(a, b); }
constexpr Sym operator/(const Sym& a, const Sym& b) { return VC_CE ? Sym(a.lit / b.lit) : sym_div(a, b); }
constexpr Sym operator-(const Sym& a) { return VC_CE ? Sym(-a.lit) : sym_neg(a); }
constexpr Sym operator+(const Sym& a) { return a; }
constexpr bool operator<(const Sym& a, const Sym& b) { return VC_CE ? a.lit < b.lit : sym_lt(a, b); }
constexpr bool operator<=(const Sym& a, const Sym& b) { return VC_CE ? a.lit <= b.lit : sym_le(a, b); }
constexpr bool operator==(const Sym& a, const Sym& b) { return VC_CE ? a.lit == b.lit : sym_eq(a, b); }
constexpr bool operator>(const Sym& a, const Sym& b) { return b < a; }
constexpr bool operator>=(const Sym& a, const Sym& b) { return b <= a; }
constexpr bool operator!=(const Sym& a, const Sym& b) { return !(a == b); }
constexpr bool operator!(const Sym& a) { return a == Sym(0); }

Sym sqrt(const Sym& a);
Sym sin(const Sym& a);
Sym cos(const Sym& a);
Sym tan(const Sym& a);
Sym asin(const Sym& a);
Sym acos(const Sym& a);
Sym atan(const Sym& a);
Sym atan2(const Sym& a, const Sym& b);
Sym exp(const Sym& a);
Sym log(const Sym& a);
Sym log10(const Sym& a);
Sym pow(const Sym& a, const Sym& b);
Sym floor(const Sym& a);
Sym ceil(const Sym& a);
Sym round(const Sym& a);
Sym trunc(const Sym& a);
Sym fmod(const Sym& a, const Sym& b);
Sym fabs(const Sym& a);
Sym abs(const Sym& a);
Sym hypot(const Sym& a, const Sym& b);
Sym fmin(const Sym& a, const Sym& b);
Sym fmax(const Sym& a, const Sym& b);
void sincos(const Sym& x, Sym* s, Sym* c);
inline bool signbit(const Sym& a) { return a < Sym(0); }   // no negative zero over the reals
inline Sym copysign(const Sym& a, const Sym& b) { Sym m = fabs(a); return b < Sym(0) ? -m : m; }
inline Sym fma(const Sym& a, const Sym& b, const Sym& c) { return a * b + c; }
inline Sym fdim(const Sym& a, const Sym& b) { return b < a ? a - b : Sym(0); }
inline Sym hypot(const Sym& a, const Sym& b, const Sym& c) { return sqrt(a * a + b * b + c * c); }
inline Sym rint(const Sym& a) { return round(a); }
inline Sym nearbyint(const Sym& a) { return round(a); }
inline long lround(const Sym& a) { return (long)round(a); }
bool isnan(const Sym& a);
bool isinf(const Sym& a);
bool isfinite(const Sym& a);
Sym min_node(const Sym& a, const Sym& b);
Sym max_node(const Sym& a, const Sym& b);
std::ostream& operator<<(std::ostream& o, const Sym& s);
std::istream& operator>>(std::istream& o, Sym& s);
Sym nan_sym();
Sym inf_sym();
Sym round_to_float(const Sym& a);

// single precision: every value is the (uninterpreted) rounding of a real
class SymF {
 public:
  Sym v;
  SymF() {}
  static constexpr Sym rnd(const Sym& s) { return VC_CE ? Sym((double)(float)s.lit) : round_to_float(s); }
  template <class T> constexpr SymF(const T& d) : v(rnd(Sym(d))) {}
  constexpr SymF(const Sym& s) : v(rnd(s)) {}
  constexpr SymF(const SymF& s) : v(s.v) {}
  SymF& operator=(const SymF& s) { v = s.v; return *this; }
  constexpr operator Sym() const { return v; }
};
}  // namespace vc

namespace std {
using vc::isnan; using vc::isinf; using vc::isfinite; using vc::fabs; using vc::abs;
using vc::sqrt; using vc::sin; using vc::cos; using vc::tan; using vc::asin; using vc::acos;
using vc::atan; using vc::atan2; using vc::exp; using vc::log; using vc::log10; using vc::pow;
using vc::floor; using vc::ceil; using vc::round; using vc::trunc; using vc::fmod; using vc::hypot;
using vc::fmin; using vc::fmax; using vc::signbit; using vc::copysign; using vc::fma; using vc::fdim;
using vc::rint; using vc::nearbyint; using vc::lround;
// std::max(x, 0.0) and the like: the literal keeps its genuine type
#define VC_MIX(T) \
inline vc::Sym max(const vc::Sym& a, T b) { return a < vc::Sym(b) ? vc::Sym(b) : a; } \
inline vc::Sym max(T a, const vc::Sym& b) { return vc::Sym(a) < b ? b : vc::Sym(a); } \
inline vc::Sym min(const vc::Sym& a, T b) { return vc::Sym(b) < a ? vc::Sym(b) : a; } \
inline vc::Sym min(T a, const vc::Sym& b) { return b < vc::Sym(a) ? b : vc::Sym(a); } \
inline vc::Sym clamp(const vc::Sym& a, T l, T h) { return a < vc::Sym(l) ? vc::Sym(l) : vc::Sym(h) < a ? vc::Sym(h) : a; } \
inline vc::Sym clamp(const vc::Sym& a, const vc::Sym& l, T h) { return a < l ? l : vc::Sym(h) < a ? vc::Sym(h) : a; } \
inline vc::Sym clamp(const vc::Sym& a, T l, const vc::Sym& h) { return a < vc::Sym(l) ? vc::Sym(l) : h < a ? h : a; }
VC_MIX(double)
#undef VC_MIX
template <class It> typename enable_if<is_same<typename iterator_traits<It>::value_type, vc::Sym>::value, vc::Sym>::type
accumulate(It a, It b, double z) { vc::Sym s(z); for (; a != b; ++a) s = s + *a; return s; }
template <> class numeric_limits<vc::Sym> {
 public:
  static constexpr bool is_specialized = true, is_signed = true, is_integer = false,
    is_exact = true, has_infinity = true, has_quiet_NaN = true, has_signaling_NaN = false,
    is_iec559 = false, is_bounded = true, is_modulo = false;
  static constexpr int digits = 53, digits10 = 15, max_digits10 = 17, radix = 2,
    min_exponent = -1021, max_exponent = 1024, min_exponent10 = -307, max_exponent10 = 308;
  static constexpr float_denorm_style has_denorm = denorm_present;
  static constexpr bool has_denorm_loss = false;
  static constexpr float_round_style round_style = round_to_nearest;
  static vc::Sym min() { return numeric_limits<double>::min(); }
  static vc::Sym max() { return vc::inf_sym(); }  // a sentinel above every finite value
  static vc::Sym lowest() { return -vc::inf_sym(); }
  static vc::Sym epsilon() { return numeric_limits<double>::epsilon(); }
  static vc::Sym round_error() { return 0.5; }
  static vc::Sym infinity() { return vc::inf_sym(); }
  static vc::Sym quiet_NaN() { return vc::nan_sym(); }
  static vc::Sym signaling_NaN() { return vc::nan_sym(); }
  static vc::Sym denorm_min() { return numeric_limits<double>::denorm_min(); }
};
std::string to_string(const vc::Sym& s);
}  // namespace std

#endif
