// VC engine: hash-consed real terms, Laurent-polynomial normal forms with
// algebraic reduction rules, path splitting by fork(), z3 for sign conditions.
#include "engine.h"
#include <algorithm>
#include <cassert>
#include <cfloat>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <iostream>
#include <poll.h>
#include <quadmath.h>
#include <signal.h>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <array>
#include <z3++.h>
#include "vc_api.h"
namespace vc {
typedef __float128 Q;

// ---------------------------------------------------------------- terms
struct Key { uint8_t k; NP a, b; const void* p;
  bool operator==(const Key& o) const { return k == o.k && a == o.a && b == o.b && p == o.p; } };
struct KeyH { size_t operator()(const Key& k) const {
  size_t h = k.k; auto mix = [&](size_t x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); };
  mix((size_t)k.a >> 4); mix((size_t)k.b >> 4); mix((size_t)k.p >> 3); return h; } };

struct Store {
  std::unordered_map<Key, NP, KeyH> tab;
  std::unordered_map<std::string, NP> consts;
  std::unordered_map<uint64_t, NP> lits;
  std::map<std::string, NP> vars;
  std::map<std::string, const std::string*> names;
  std::vector<NP> all, undefs;
  std::vector<VarInfo*> varinfos;
  std::vector<std::array<NP, 4>> ugroups;  // w x y z
  NP zero, one, mone, nan, pinf, ninf;
  int n_undef = 0;
  Node* alloc() { static Node* blk = nullptr; static int left = 0;
    if (!left) { blk = (Node*)malloc(sizeof(Node) * 4096); left = 4096; }
    --left; return blk++; }
  NP raw(Kind k, NP a, NP b, const mpq_class* c, VarInfo* v, const std::string* f) {
    Node* n = alloc(); n->k = k; n->id = all.size(); n->a = a; n->b = b; n->c = c; n->v = v; n->f = f; n->refs = 0; if (a) a->refs++; if (b) b->refs++;
    all.push_back(n); return n; }
  NP get(Kind k, NP a, NP b, const std::string* f = nullptr) {
    Key key{(uint8_t)k, a, b, f};
    auto it = tab.find(key); if (it != tab.end()) return it->second;
    NP n = raw(k, a, b, nullptr, nullptr, f); tab[key] = n; return n; }
  Store() {
    zero = konst(0); one = konst(1); mone = konst(-1);
    nan = raw(K_NAN, 0, 0, 0, 0, 0); pinf = raw(K_PINF, 0, 0, 0, 0, 0); ninf = raw(K_NINF, 0, 0, 0, 0, 0);
  }
  NP konst(mpq_class q) { q.canonicalize(); std::string s = q.get_str(62);
    auto it = consts.find(s); if (it != consts.end()) return it->second;
    NP n = raw(K_CONST, 0, 0, new mpq_class(q), 0, 0); consts[s] = n; return n; }
  const std::string* name(const std::string& s) { auto it = names.find(s);
    if (it != names.end()) return it->second; return names[s] = new std::string(s); }
};
static Store& S() { static Store* s = new Store; return *s; }

NP n_const(const mpq_class& q) { return S().konst(q); }
static bool isc(NP a) { return a->k == K_CONST; }
static bool special(NP a) { return a->k >= K_NAN; }
NP node_zero() { return S().zero; }
NP node_undef(double id) {
  static auto* made = new std::unordered_map<long, NP>; NP& slot = (*made)[(long)id]; if (slot) return slot;
  VarInfo* v = new VarInfo; v->undef = true; v->idx = -1;
  NP n = S().raw(K_VAR, 0, 0, 0, v, 0); return slot = n; }
static std::string vname(NP n) {
  if (n->v->undef) return "undef#" + std::to_string(n->id);
  return n->v->name; }
// warm-up: the case is run once with other inputs, on one path and without obligations, before the run that counts
static bool g_warm = false; struct WarmEnd {};
NP n_var(const std::string& name0) {
  const std::string name = g_warm ? "warm." + name0 : name0;
  auto it = S().vars.find(name); if (it != S().vars.end()) return it->second;
  VarInfo* v = new VarInfo; v->name = name; v->idx = S().varinfos.size(); S().varinfos.push_back(v);
  return S().vars[name] = S().raw(K_VAR, 0, 0, 0, v, 0); }

static const mpq_class& pi_q() { static mpq_class* p = 0; if (!p) { mpz_class t; mpz_ui_pow_ui(t.get_mpz_t(), 10, 40); p = new mpq_class(mpz_class("31415926535897932384626433832795028841972"), t); p->canonicalize(); } return *p; }
static mpq_class lift(double d) {
  if (d == std::floor(d) && std::fabs(d) < 9e15) return mpq_class(d);
  char buf[64];
  for (int p = 1; p <= 15; ++p) {
    snprintf(buf, sizeof buf, "%.*e", p - 1, d);
    if (strtod(buf, 0) == d) {
      std::string s(buf); size_t e = s.find('e'); int ex = atoi(s.c_str() + e + 1);
      std::string m = s.substr(0, e); size_t dot = m.find('.'); int frac = 0;
      if (dot != std::string::npos) { frac = m.size() - dot - 1; m.erase(dot, 1); }
      if (m[0] == '+') m.erase(0, 1);
      mpz_class n(m), t; int k = ex - frac; mpz_ui_pow_ui(t.get_mpz_t(), 10, std::abs(k));
      mpq_class q = k >= 0 ? mpq_class(n * t) : mpq_class(n, t); q.canonicalize(); return q; } }
  // p/q * pi and p/q / pi stand for the mathematical multiples of pi (pi itself: 40 digits)
  for (int inv = 0; inv < 2; ++inv) {
    long double r = inv ? (long double)std::fabs(d) * M_PIl : (long double)std::fabs(d) / M_PIl;
    for (int q = 1; q <= 720; ++q) { long double pf = roundl(r * q); if (pf < 1 || pf > 7200) continue;
      double back = inv ? (double)(pf / q / M_PIl) : (double)(pf * M_PIl / q);
      if (std::fabs(back - std::fabs(d)) <= 2.3e-16 * std::fabs(d)) { mpq_class v((long)pf, q); v.canonicalize(); v = inv ? mpq_class(v / pi_q()) : mpq_class(v * pi_q()); return d < 0 ? mpq_class(-v) : v; } } }
  // continued fraction with a small denominator
  double x = std::fabs(d); long p0 = 0, q0 = 1, p1 = 1, q1 = 0; double y = x;
  for (int i = 0; i < 20; ++i) {
    double fl = std::floor(y); if (fl > 1e9) break; long a = (long)fl;
    long p2 = a * p1 + p0, q2 = a * q1 + q0; if (q2 > 2000000 || p2 > 2000000000L) break;
    if ((double)p2 / (double)q2 == x) { mpq_class r(p2, q2); r.canonicalize(); return d < 0 ? mpq_class(-r) : r; }
    p0 = p1; q0 = q1; p1 = p2; q1 = q2; double fr = y - fl; if (fr == 0) break; y = 1 / fr; }
  return mpq_class(d); }
NP node_from_double(double d) {
  if (std::isnan(d)) return S().nan;
  if (std::isinf(d)) return d > 0 ? S().pinf : S().ninf;
  uint64_t bits; if (d == 0) d = 0; memcpy(&bits, &d, 8);
  auto it = S().lits.find(bits); if (it != S().lits.end()) return it->second;
  return S().lits[bits] = S().konst(lift(d)); }

NP n_neg(NP a) { return n_mul(S().mone, a); }
static NP neg_inf(NP a) { return a->k == K_PINF ? S().ninf : S().pinf; }
NP n_add(NP a, NP b) {
  if (special(a) || special(b)) {
    if (a->k == K_NAN || b->k == K_NAN) return S().nan;
    if (special(a) && special(b)) return a->k == b->k ? a : S().nan;
    return special(a) ? a : b; }
  if (a == S().zero) return b;
  if (b == S().zero) return a;
  if (isc(a) && isc(b)) return n_const(*a->c + *b->c);
  // x + (-1)*x
  if (b->k == K_MUL && b->a == S().mone && b->b == a) return S().zero;
  if (a->k == K_MUL && a->a == S().mone && a->b == b) return S().zero;
  if (a->id > b->id) std::swap(a, b);
  return S().get(K_ADD, a, b); }
NP n_sub(NP a, NP b) { return a == b && !special(a) ? S().zero : n_add(a, n_neg(b)); }
NP n_mul(NP a, NP b) {
  if (special(a) || special(b)) {
    if (a->k == K_NAN || b->k == K_NAN) return S().nan;
    if (isc(a) && isc(b)) abort();
    NP o = special(a) ? b : a, i = special(a) ? a : b;
    if (special(o)) return o->k == i->k ? S().pinf : S().ninf;
    if (isc(o)) { int s = sgn(*o->c); return s == 0 ? S().nan : s > 0 ? i : neg_inf(i); }
    return S().nan; }
  if (a == S().zero || b == S().zero) return S().zero;
  if (a == S().one) return b;
  if (b == S().one) return a;
  if (isc(a) && isc(b)) return n_const(*a->c * *b->c);
  if (isc(b) || (!isc(a) && a->id > b->id)) std::swap(a, b);
  if (isc(a) && b->k == K_MUL && isc(b->a)) return n_mul(n_const(*a->c * *b->a->c), b->b);
  return S().get(K_MUL, a, b); }
NP n_div(NP a, NP b) {
  if (special(a) || special(b)) {
    if (a->k == K_NAN || b->k == K_NAN) return S().nan;
    if (special(a) && special(b)) return S().nan;
    if (special(b)) return S().zero;
    if (isc(b)) return sgn(*b->c) >= 0 ? a : neg_inf(a);
    return S().nan; }
  if (b == S().zero) { if (isc(a)) { int s = sgn(*a->c); return s == 0 ? S().nan : s > 0 ? S().pinf : S().ninf; } return S().nan; }
  if (a == S().zero) return a;
  if (b == S().one) return a;
  if (a == b) return S().one;
  if (isc(b)) return n_mul(n_const(1 / *b->c), a);
  return S().get(K_DIV, a, b); }
static bool qsqrt(const mpq_class& q, mpq_class& r) {
  if (q < 0) return false;
  if (!mpz_perfect_square_p(q.get_num_mpz_t()) || !mpz_perfect_square_p(q.get_den_mpz_t())) return false;
  mpz_class a, b; mpz_sqrt(a.get_mpz_t(), q.get_num_mpz_t()); mpz_sqrt(b.get_mpz_t(), q.get_den_mpz_t());
  r = mpq_class(a, b); r.canonicalize(); return true; }
NP n_sqrt(NP a) {
  if (special(a)) return a->k == K_PINF ? a : S().nan;
  mpq_class r; if (isc(a)) { if (*a->c < 0) return S().nan; if (qsqrt(*a->c, r)) return n_const(r); }
  return S().get(K_SQRT, a, nullptr); }
NP n_sin(NP a) { if (special(a)) return S().nan; if (a == S().zero) return a; return S().get(K_SIN, a, nullptr); }
NP n_cos(NP a) { if (special(a)) return S().nan; if (a == S().zero) return S().one; return S().get(K_COS, a, nullptr); }
NP n_fun(const std::string& f, NP a, NP b) {
  if (special(a) || (b && special(b))) return S().nan;
  return S().get(K_FUN, a, b, S().name(f)); }

// ---------------------------------------------------------------- polynomials
typedef int Mono;  // interned
struct MonoData { std::vector<std::pair<int, int>> f; bool ok; int deg; };
typedef std::vector<std::pair<Mono, mpq_class>> Poly;  // sorted by Mono id
enum AK { A_FREE, A_RULED, A_INV };
struct Atom { AK k; NP node; Poly p; /* square / inverse base */ std::string desc; int sgn; /* 1: >0, 2: >=0 */ };
struct VecH { size_t operator()(const std::vector<std::pair<int, int>>& v) const {
  size_t h = v.size(); for (auto& x : v) { h = h * 1000003 ^ (size_t)(x.first * 31 + x.second + 7); } return h; } };

struct NFStore {
  std::vector<MonoData> monos;
  std::unordered_map<std::vector<std::pair<int, int>>, Mono, VecH> mtab;
  std::unordered_map<uint64_t, Mono> mulc;
  std::unordered_map<Mono, Poly> red;
  std::vector<Atom> atoms;
  std::unordered_map<NP, int> node_atom;
  std::map<std::string, int> key_atom;
  std::unordered_map<NP, Poly> memo;
  std::map<int, Poly> subst;    // atom -> polynomial (path equalities)
  NFStore() { intern({}); }
  Mono intern(const std::vector<std::pair<int, int>>& f) {
    auto it = mtab.find(f); if (it != mtab.end()) return it->second;
    MonoData d; d.f = f; d.ok = true; d.deg = 0;
    for (auto& x : f) { d.deg += std::abs(x.second); const Atom& a = atoms[x.first];
      if (a.k == A_RULED && (x.second > 1 || x.second < 0)) d.ok = false;
      if (a.k == A_INV && x.second < 0) d.ok = false; }
    Mono id = monos.size(); monos.push_back(d); mtab[f] = id; return id; }
  Mono mul(Mono a, Mono b) {
    if (a == 0) return b;
    if (b == 0) return a;
    if (a > b) std::swap(a, b);
    uint64_t k = ((uint64_t)a << 32) | (uint32_t)b;
    auto it = mulc.find(k); if (it != mulc.end()) return it->second;
    std::vector<std::pair<int, int>> r; const auto &x = monos[a].f, &y = monos[b].f;
    size_t i = 0, j = 0;
    while (i < x.size() || j < y.size()) {
      if (j == y.size() || (i < x.size() && x[i].first < y[j].first)) r.push_back(x[i++]);
      else if (i == x.size() || y[j].first < x[i].first) r.push_back(y[j++]);
      else { int e = x[i].second + y[j].second; if (e) r.push_back({x[i].first, e}); ++i; ++j; } }
    Mono m = intern(r); mulc[k] = m; return m; }
};
static NFStore& N() { static NFStore* s = new NFStore; return *s; }
static const size_t kMaxTerms = 400000;
struct TooBig {};

static Poly pconst(const mpq_class& q) { Poly p; if (q != 0) p.push_back({0, q}); return p; }
static Poly patom(int a, int e = 1) { Poly p; p.push_back({N().intern({{a, e}}), 1}); return p; }
static Poly padd(const Poly& a, const Poly& b, int sb = 1) {
  Poly r; r.reserve(a.size() + b.size()); size_t i = 0, j = 0;
  while (i < a.size() || j < b.size()) {
    if (j == b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
    else if (i == a.size() || b[j].first < a[i].first) { r.push_back(b[j++]); if (sb < 0) r.back().second = -r.back().second; }
    else { mpq_class c = sb > 0 ? mpq_class(a[i].second + b[j].second) : mpq_class(a[i].second - b[j].second);
      if (c != 0) r.push_back({a[i].first, c}); ++i; ++j; } }
  if (r.size() > kMaxTerms) throw TooBig();
  return r; }
static Poly pscale(Poly a, const mpq_class& c) { if (c == 0) return Poly(); for (auto& t : a) t.second *= c; return a; }
static Poly pmul(const Poly& a, const Poly& b);
static Poly pinv(const Poly& d);
static Poly ppow(const Poly& a, int e) { Poly r = pconst(1); for (int i = 0; i < e; ++i) r = pmul(r, a); return r; }
static const Poly& reduceMono(Mono m) {
  auto it = N().red.find(m); if (it != N().red.end()) return it->second;
  std::vector<std::pair<int, int>> f = N().monos[m].f; Poly r;
  size_t i = 0;
  for (; i < f.size(); ++i) { const Atom& a = N().atoms[f[i].first];
    if ((a.k == A_RULED && (f[i].second > 1 || f[i].second < 0)) || (a.k == A_INV && f[i].second < 0)) break; }
  if (i == f.size()) { r.push_back({m, 1}); return N().red[m] = r; }
  int at = f[i].first, e = f[i].second; f.erase(f.begin() + i);
  Poly rest; rest.push_back({N().intern(f), 1});
  Poly base = N().atoms[at].p, fac;
  if (N().atoms[at].k == A_INV) fac = ppow(base, -e);
  else if (e > 1) { fac = ppow(base, e / 2); if (e & 1) fac = pmul(fac, patom(at)); }
  else { int k = (-e + 1) / 2; fac = ppow(pinv(base), k); if ((-e) & 1) fac = pmul(fac, patom(at)); }
  const Poly& rr = reduceMono(rest[0].first); Poly restr = rr;
  r = pmul(restr, fac);
  return N().red[m] = r; }
static Poly from_map(std::unordered_map<Mono, mpq_class>& acc) {
  Poly r; r.reserve(acc.size()); for (auto& t : acc) if (t.second != 0) r.push_back({t.first, t.second});
  std::sort(r.begin(), r.end(), [](const std::pair<Mono, mpq_class>& x, const std::pair<Mono, mpq_class>& y) { return x.first < y.first; });
  return r; }
static Poly pmul(const Poly& a, const Poly& b) {
  if (a.empty() || b.empty()) return Poly();
  if (a.size() == 1 && a[0].first == 0) return pscale(b, a[0].second);
  if (b.size() == 1 && b[0].first == 0) return pscale(a, b[0].second);
  std::unordered_map<Mono, mpq_class> acc; acc.reserve(a.size() * b.size());
  mpq_class c;
  for (auto& x : a) { for (auto& y : b) {
    Mono m = N().mul(x.first, y.first); c = x.second * y.second;
    if (N().monos[m].ok) acc[m] += c;
    else { Poly r = reduceMono(m); for (auto& t : r) acc[t.first] += c * t.second; } }
    if (acc.size() > kMaxTerms) throw TooBig(); }
  return from_map(acc); }

static std::string atom_name(int a);
static std::string pstr(const Poly& p, size_t lim = 60) {
  if (p.empty()) return "0";
  std::string s; size_t n = 0;
  for (auto& t : p) { if (n++ >= lim) { s += " + ...(" + std::to_string(p.size()) + " terms)"; break; }
    if (!s.empty()) s += " + "; bool one = t.second == 1 && t.first != 0;
    if (!one) s += t.second.get_str();
    bool first = one; for (auto& f : N().monos[t.first].f) { if (!first) s += "*"; first = false;
      s += atom_name(f.first); if (f.second != 1) s += "^" + std::to_string(f.second); } }
  return s; }
static std::string pkey(const Poly& p) { std::string s; for (auto& t : p) { s += std::to_string(t.first); s += ':'; s += t.second.get_str(62); s += ';'; } return s; }
static std::string atom_name(int a) { const Atom& t = N().atoms[a]; return t.desc; }

static int add_atom(AK k, NP n, const Poly& p, const std::string& desc, int sg = 0) {
  Atom a; a.k = k; a.node = n; a.p = p; a.desc = desc; a.sgn = sg; N().atoms.push_back(a); return N().atoms.size() - 1; }
// split polynomial: coefficient c, free monomial m (all atoms' minimal exponents), rest
static void content(const Poly& d, mpq_class& c, Mono& m, Poly& rest) {
  std::map<int, int> mn; bool first = true;
  for (auto& t : d) {
    std::map<int, int> cur; for (auto& f : N().monos[t.first].f) if (N().atoms[f.first].k != A_RULED) cur[f.first] = f.second;
    if (first) { mn = cur; first = false; }
    else { for (auto& x : mn) { auto it = cur.find(x.first); x.second = std::min(x.second, it == cur.end() ? 0 : it->second); }
      for (auto& x : cur) if (!mn.count(x.first)) mn[x.first] = std::min(0, x.second); } }
  std::vector<std::pair<int, int>> f, fi;
  for (auto& x : mn) if (x.second) { f.push_back(x); fi.push_back({x.first, -x.second}); }
  m = N().intern(f);
  // divide (exact on exponents, avoids the INV reduction)
  Poly r; for (auto& t : d) {
    std::vector<std::pair<int, int>> g; std::map<int, int> e; for (auto& x : N().monos[t.first].f) e[x.first] = x.second;
    for (auto& x : f) e[x.first] -= x.second;
    for (auto& x : e) if (x.second) g.push_back(x);
    r.push_back({N().intern(g), t.second}); }
  std::sort(r.begin(), r.end(), [](const std::pair<Mono, mpq_class>& x, const std::pair<Mono, mpq_class>& y) { return x.first < y.first; });
  c = r.back().second; if (c != 1) for (auto& t : r) t.second /= c;
  rest = r; }
static Poly mono_inv(Mono m) {  // 1/m
  Poly r = pconst(1);
  for (auto& x : N().monos[m].f) {
    const Atom& a = N().atoms[x.first];
    if (a.k == A_INV) { Poly b = a.p; r = pmul(r, ppow(b, x.second)); }
    else { Mono mm = N().intern({{x.first, -x.second}}); Poly q = N().monos[mm].ok ? Poly{{mm, mpq_class(1)}} : reduceMono(mm); r = pmul(r, q); } }
  return r; }
static bool pzero(const Poly& p);
static int inv_atom(const Poly& d) {
  std::string k = "INV|" + pkey(d); auto it = N().key_atom.find(k); if (it != N().key_atom.end()) return it->second;
  int a = add_atom(A_INV, nullptr, d, "INV(" + pstr(d, 8) + ")"); return N().key_atom[k] = a; }
struct DivByZero {};
static bool has_inv(const Poly& p) { for (auto& t : p) for (auto& f : N().monos[t.first].f) if (N().atoms[f.first].k == A_INV) return true; return false; }
// multiply by the bases of the INV atoms, outermost (largest id) first; collects the factors
static Poly clear_inv(Poly p, std::vector<std::pair<int, int>>* fac = nullptr) {
  for (int iter = 0; iter < 200; ++iter) {
    int at = -1; for (auto& t : p) for (auto& f : N().monos[t.first].f) if (N().atoms[f.first].k == A_INV) at = std::max(at, f.first);
    if (at < 0) return p;
    int mx = 0; for (auto& t : p) for (auto& f : N().monos[t.first].f) if (f.first == at) mx = std::max(mx, f.second);
    std::vector<Poly> by(mx + 1);
    std::vector<std::unordered_map<Mono, mpq_class>> acc(mx + 1);
    for (auto& t : p) { auto f = N().monos[t.first].f; int e = 0;
      for (size_t i = 0; i < f.size(); ++i) if (f[i].first == at) { e = f[i].second; f.erase(f.begin() + i); break; }
      acc[e][N().intern(f)] += t.second; }
    Poly base = N().atoms[at].p, pw = pconst(1), r;
    for (int e = mx; e >= 0; --e) { r = padd(r, pmul(from_map(acc[e]), pw)); if (e) pw = pmul(pw, base); }
    if (fac) fac->push_back({at, mx});
    p = r; }
  throw TooBig(); }
static Poly apply_subst(const Poly& p) {
  if (N().subst.empty()) return p;
  Poly cur = p;
  for (int iter = 0; iter < 50; ++iter) {
    bool any = false; Poly r;
    for (auto& t : cur) {
      auto f = N().monos[t.first].f; Poly term = pconst(t.second); bool hit = false;
      for (auto& x : f) { auto it = N().subst.find(x.first);
        if (it != N().subst.end() && x.second > 0) { hit = true; term = pmul(term, ppow(it->second, x.second)); }
        else { Mono mm = N().intern({x}); term = pmul(term, Poly{{mm, mpq_class(1)}}); } }
      if (hit) { any = true; r = padd(r, term); } else r = padd(r, Poly{t}); }
    cur = r; if (!any) return cur; }
  return cur; }
static bool pzero(const Poly& p0) {
  if (p0.empty()) return true;
  Poly p = apply_subst(p0);
  if (p.empty()) return true;
  if (p.size() == 1) return false;
  if (!has_inv(p)) return false;
  p = clear_inv(p);
  p = apply_subst(p);
  return p.empty(); }
static Q peval(const Poly& p, int sample);
static bool guess_const(const Poly& p, mpq_class& c) {
  if (p.empty()) { c = 0; return true; }
  if (p.size() == 1 && p[0].first == 0) { c = p[0].second; return true; }
  if (!has_inv(p) && N().subst.empty()) return false;
  Q v = peval(p, 0), w = peval(p, 1); if (isnanq(v) || isnanq(w) || fabsq(v - w) > 1e-15Q) return false;
  double d = (double)v; double r12 = std::round(d * 12); if (std::fabs(d * 12 - r12) > 1e-9) return false;
  c = mpq_class((long)r12, 12); c.canonicalize();
  return pzero(padd(p, pconst(c), -1)); }
static Poly pinv(const Poly& d0) {
  if (d0.empty()) throw DivByZero();
  Poly d = d0;
  mpq_class gc; if (d.size() > 1 && guess_const(d, gc)) { if (gc == 0) throw DivByZero(); return pconst(1 / gc); }
  if (has_inv(d) && d.size() > 1) {
    // N / prod(D_i^k): invert N, multiply by the bases
    std::vector<std::pair<int, int>> fac; Poly n = clear_inv(d, &fac); Poly r = pinv(n);
    for (auto& x : fac) r = pmul(r, ppow(N().atoms[x.first].p, x.second));
    return r; }
  if (d.size() == 1) return pscale(mono_inv(d[0].first), 1 / d[0].second);
  mpq_class c; Mono m; Poly rest; content(d, c, m, rest);
  Poly r = pscale(mono_inv(m), 1 / c);
  if (rest.size() == 1) return pmul(r, pscale(mono_inv(rest[0].first), 1 / rest[0].second));
  return pmul(r, patom(inv_atom(rest))); }
static int sos_sign(const Poly& p);
static int sqrt_atom(const Poly& s) {
  std::string k = "SQRT|" + pkey(s); auto it = N().key_atom.find(k); if (it != N().key_atom.end()) return it->second;
  int a = add_atom(A_RULED, nullptr, s, "sqrt(" + pstr(s, 8) + ")", 2); return N().key_atom[k] = a; }
static Poly psqrt(const Poly& s0) {
  Poly s = s0; mpq_class c, r;
  if (guess_const(s, c)) { if (c == 0) return Poly(); if (qsqrt(c, r)) return pconst(r); if (c > 0) return patom(sqrt_atom(pconst(c))); }
  // N / D with every D even and positive
  if (has_inv(s)) {
    std::vector<std::pair<int, int>> fac; Poly n = clear_inv(s, &fac); Poly den = pconst(1), o = pconst(1); bool ok = true;
    for (auto& x : fac) { Poly b = N().atoms[x.first].p; if (sos_sign(b) != 1) { ok = false; break; }
      int k = x.second; if (k & 1) { n = pmul(n, b); ++k; } den = pmul(den, ppow(patom(x.first), k / 2)); }
    if (ok) return pmul(psqrt(n), den); }
  // c * m^2 * rest with positive atoms in m
  if (!s.empty()) {
    mpq_class cc; Mono m; Poly rest; content(s, cc, m, rest);
    Poly out = pconst(1); std::vector<std::pair<int, int>> keep; bool any = false;
    for (auto& f : N().monos[m].f) {
      if (N().atoms[f.first].k == A_FREE && N().atoms[f.first].sgn == 1 && (f.second % 2 == 0)) { out = pmul(out, Poly{{N().intern({{f.first, f.second / 2}}), mpq_class(1)}}); any = true; }
      else keep.push_back(f); }
    mpq_class rq; mpq_class lead = cc; Poly in = rest;
    if (any) { in = pmul(pscale(rest, lead), Poly{{N().intern(keep), mpq_class(1)}}); return pmul(out, psqrt(in)); }
    if (rest.size() == 1 && rest[0].first == 0 && keep.empty()) { cc *= rest[0].second; if (qsqrt(cc, rq)) return pscale(out, rq); }
    // make the leading coefficient 1 if it is a positive square
    if (lead != 1 && qsqrt(lead < 0 ? mpq_class(-lead) : lead, rq)) {
      Poly t = pscale(s, 1 / (lead < 0 ? mpq_class(-lead) : lead)); return pscale(patom(sqrt_atom(t)), rq); } }
  return patom(sqrt_atom(s)); }
// 1: positive, 2: non-negative, 0: unknown.  Sum of even monomials with positive coefficients.
static int sos_sign(const Poly& p) {
  if (p.empty()) return 2;
  bool strict = false;
  for (auto& t : p) { if (t.second < 0) return 0; bool st = true;
    for (auto& f : N().monos[t.first].f) { const Atom& a = N().atoms[f.first];
      if (a.sgn == 1) continue;
      if (a.sgn == 2) { st = false; continue; }
      if (f.second % 2) { if (a.k == A_INV && sos_sign(a.p) == 1) continue; return 0; }
      st = false; }
    if (st) strict = true; }
  if (strict) return 1;
  // treat a sum of squares as positive if registered so by the path (norms of non-zero vectors)
  return 2; }

// trigonometry: sin/cos of a polynomial angle, expanded over its terms
static void trig(const Poly& ang, Poly& s, Poly& c);
static void trig_atom(const Poly& base, Poly& s, Poly& c) {
  std::string k = "TRIG|" + pkey(base);
  auto it = N().key_atom.find(k); int ca;
  if (it == N().key_atom.end()) {
    ca = add_atom(A_FREE, nullptr, base, "cos(" + pstr(base, 6) + ")");
    add_atom(A_RULED, nullptr, padd(pconst(1), pmul(patom(ca), patom(ca)), -1), "sin(" + pstr(base, 6) + ")");
    N().key_atom[k] = ca; } else ca = it->second;
  c = patom(ca); s = patom(ca + 1); }
static void trig_multiple(const Poly& base, long k, Poly& s, Poly& c) {
  Poly s1, c1; trig_atom(base, s1, c1); Poly ss, cc = pconst(1);
  long n = std::labs(k);
  for (long i = 0; i < n; ++i) { Poly ns = padd(pmul(ss, c1), pmul(cc, s1)); cc = padd(pmul(cc, c1), pmul(ss, s1), -1); ss = ns; }
  s = k < 0 ? pscale(ss, -1) : ss; c = cc; }
static void trig(const Poly& ang0, Poly& s, Poly& c) {
  Poly ang = ang0; mpq_class gc; if (guess_const(ang, gc)) ang = pconst(gc);
  s = Poly(); c = pconst(1);
  for (auto& t : ang) {
    Poly s1, c1; const mpq_class& q = t.second;
    if (t.first == 0) { mpq_class h = q * 2 / pi_q(); if (h.get_den() == 1) { mpz_class m; mpz_fdiv_r_ui(m.get_mpz_t(), h.get_num_mpz_t(), 4); long k = m.get_si(); static const int ss[4] = {0, 1, 0, -1}; Poly S1 = pconst(ss[k]), C1 = pconst(ss[(k + 1) % 4]);
        Poly ns = padd(pmul(s, C1), pmul(c, S1)); c = padd(pmul(c, C1), pmul(s, S1), -1); s = ns; continue; } }
    if (t.first != 0 && (q.get_den() == 1 || q.get_den() == 2) && abs(q) <= 6) {
      Poly base; base.push_back({t.first, mpq_class(1, 2)}); mpq_class two = q * 2; trig_multiple(base, two.get_num().get_si(), s1, c1);
    } else if (q < 0) { Poly base; base.push_back({t.first, -q}); trig_atom(base, s1, c1); s1 = pscale(s1, -1); }
    else { Poly base; base.push_back(t); trig_atom(base, s1, c1); }
    Poly ns = padd(pmul(s, c1), pmul(c, s1)); c = padd(pmul(c, c1), pmul(s, s1), -1); s = ns; } }

static const Poly& nf(NP root);
static int fun_atom(NP n, const Poly& a, const Poly* b) {
  std::string k = "FUN|" + *n->f + "|" + pkey(a) + "|" + (b ? pkey(*b) : "");
  auto it = N().key_atom.find(k); if (it != N().key_atom.end()) return it->second;
  int at = add_atom(A_FREE, n, Poly(), *n->f + "(" + pstr(a, 6) + (b ? ", " + pstr(*b, 6) : "") + ")");
  return N().key_atom[k] = at; }
static int mm_atom(NP n, const std::string& f, const std::set<std::string>& keys, const std::string& desc) {
  std::string k = f + "|"; for (auto& s : keys) k += s + "|";
  auto it = N().key_atom.find(k); if (it != N().key_atom.end()) return it->second;
  int at = add_atom(A_FREE, n, Poly(), f + "(" + desc + ")"); return N().key_atom[k] = at; }
static int var_atom(NP n) {
  auto it = N().node_atom.find(n); if (it != N().node_atom.end()) return it->second;
  if (n->v->ugroup >= 0) {
    auto& g = S().ugroups[n->v->ugroup];
    int x = add_atom(A_FREE, g[1], Poly(), vname(g[1])), y = add_atom(A_FREE, g[2], Poly(), vname(g[2])), z = add_atom(A_FREE, g[3], Poly(), vname(g[3]));
    Poly sq = pconst(1); for (int a : {x, y, z}) sq = padd(sq, pmul(patom(a), patom(a)), -1);
    int w = add_atom(A_RULED, g[0], sq, vname(g[0]));
    N().node_atom[g[0]] = w; N().node_atom[g[1]] = x; N().node_atom[g[2]] = y; N().node_atom[g[3]] = z;
    return N().node_atom[n]; }
  int a = add_atom(A_FREE, n, Poly(), vname(n), n->v->sign); return N().node_atom[n] = a; }
static void mm_collect(NP n, Kind k, std::vector<NP>& out) { if (n->k == k) { mm_collect(n->a, k, out); mm_collect(n->b, k, out); } else out.push_back(n); }
static Poly nf1(NP n) {
  switch (n->k) {
    case K_CONST: return pconst(*n->c);
    case K_VAR: return patom(var_atom(n));
    case K_ADD: return padd(nf(n->a), nf(n->b));
    case K_MUL: return pmul(nf(n->a), nf(n->b));
    case K_DIV: return pmul(nf(n->a), pinv(nf(n->b)));
    case K_SQRT: return psqrt(nf(n->a));
    case K_SIN: { Poly s, c; trig(nf(n->a), s, c); return s; }
    case K_COS: { Poly s, c; trig(nf(n->a), s, c); return c; }
    case K_MIN: case K_MAX: {   // canonical: a maximum of distinct elements, largest coefficient 1, maxima of maxima flattened
      bool neg = n->k == K_MIN; std::vector<NP> xs, fl; mm_collect(n, n->k, xs);
      for (NP x : xs) { if (neg) x = n_neg(x); const Poly& p = nf(x); NP an = nullptr; mpq_class c;
        if (p.size() == 1 && p[0].first != 0 && p[0].second > 0) { auto& f = N().monos[p[0].first].f; if (f.size() == 1 && f[0].second == 1) { an = N().atoms[f[0].first].node; c = p[0].second; } }
        if (an && an->k == K_MAX) { std::vector<NP> ys; mm_collect(an, K_MAX, ys); for (NP y : ys) fl.push_back(c == 1 ? y : n_mul(n_const(c), y)); } else fl.push_back(x); }
      std::map<std::string, NP> el; mpq_class cbest, s; bool fst = true;
      for (NP x : fl) { const Poly& p = nf(x); bool isconst = p.empty() || (p.size() == 1 && p[0].first == 0);
        if (isconst) { mpq_class v = p.empty() ? mpq_class(0) : p[0].second; if (fst || v > cbest) cbest = v; fst = false; } else el.insert({pkey(p), x});
        for (auto& u : p) { mpq_class v = abs(u.second); if (v > s) s = v; } }
      if (el.empty()) return pconst(neg ? mpq_class(-cbest) : cbest);
      if (!fst) el.insert({pkey(pconst(cbest)), n_const(cbest)});
      if (el.size() == 1) { Poly r = nf(el.begin()->second); return neg ? pscale(r, -1) : r; }
      if (s != 1) { std::map<std::string, NP> sc; for (auto& e : el) { NP y = n_mul(n_const(1 / s), e.second); sc.insert({pkey(nf(y)), y}); } el.swap(sc); }
      std::set<std::string> keys; std::string d; NP m = nullptr; bool sym = false;
      for (auto& e : el) { const Poly& p = nf(e.second); keys.insert(e.first); d += (d.empty() ? "" : ", ") + pstr(p, 4); m = m ? S().get(K_MAX, m, e.second) : e.second; sym = sym || el.count(pkey(pscale(p, -1))); }
      int at = mm_atom(m, "MAX", keys, d); if (sym && N().atoms[at].sgn == 0) N().atoms[at].sgn = 2;
      return pscale(patom(at), neg ? mpq_class(-s) : s); }
    case K_FUN: { Poly a = nf(n->a); if (!n->b) return patom(fun_atom(n, a, nullptr)); Poly b = nf(n->b); return patom(fun_atom(n, a, &b)); }
    default: return patom(add_atom(A_FREE, n, Poly(), n->k == K_NAN ? "NaN" : "Inf")); } }
static size_t g_memo_terms = 0;
static const Poly& nf(NP root) {
  auto it = N().memo.find(root); if (it != N().memo.end()) return it->second;
  // iterative post-order to keep the stack shallow
  std::vector<NP> st{root};
  while (!st.empty()) {
    NP n = st.back(); if (N().memo.count(n)) { st.pop_back(); continue; }
    bool ready = true;
    if (n->k == K_ADD) { // a sum used once is flattened into its parent
      std::vector<NP> leaves, w{n}; while (!w.empty()) { NP x = w.back(); w.pop_back(); for (NP c : {x->a, x->b}) if (c->k == K_ADD && c->refs == 1 && !N().memo.count(c)) w.push_back(c); else leaves.push_back(c); }
      if (leaves.size() > 2) {
        for (NP c : leaves) if (!N().memo.count(c)) { st.push_back(c); ready = false; }
        if (!ready) continue;
        st.pop_back(); std::unordered_map<Mono, mpq_class> acc; for (NP c : leaves) for (auto& t : N().memo[c]) acc[t.first] += t.second;
        Poly p = from_map(acc); if (p.size() > kMaxTerms) throw TooBig(); g_memo_terms += p.size(); N().memo[n] = std::move(p); continue; } }
    for (NP c : {n->a, n->b}) if (c && !N().memo.count(c)) { st.push_back(c); ready = false; }
    if (!ready) continue;
    st.pop_back(); Poly p = nf1(n); g_memo_terms += p.size(); N().memo[n] = std::move(p); }
  return N().memo[root]; }
static void trim_memo() { if (g_memo_terms > 6000000) { N().memo.clear(); g_memo_terms = 0; } }

// ---------------------------------------------------------------- numeric evaluation
struct Sample { std::unordered_map<NP, Q> val; uint64_t seed; std::map<std::string, double> given; };
static std::vector<Sample>& samples() { static auto* s = new std::vector<Sample>; return *s; }
static uint64_t splitmix(uint64_t& x) { uint64_t z = (x += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static uint64_t hash_str(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; return h; }
double sample_value(const std::string& name, uint64_t seed, double lo, double hi) {
  uint64_t x = hash_str(name) ^ (seed * 0x9e3779b97f4a7c15ull + 12345); splitmix(x);
  double u = (splitmix(x) >> 11) * (1.0 / 9007199254740992.0);
  uint64_t mode = seed >= 8 ? splitmix(x) % 16 : 15;
  if (mode == 0 && lo <= 0 && hi >= 0) return 0;
  if (mode == 1 && lo <= 1 && hi >= 1) return 1;
  if (mode == 2 && lo <= -1 && hi >= -1) return -1;
  if (mode == 3) return lo + (hi - lo) * (std::floor(u * 9) / 8);
  return lo + (hi - lo) * u; }
static Q var_value(NP n, Sample& s) {
  const VarInfo* v = n->v;
  if (v->ugroup >= 0) {
    auto& g = S().ugroups[v->ugroup]; double x[4]; double nn = 0;
    for (int i = 0; i < 4; ++i) { auto it = s.given.find(g[i]->v->name); x[i] = it != s.given.end() ? it->second : sample_value(g[i]->v->name, s.seed, -1, 1); }
    Q qn = 0; for (int i = 0; i < 4; ++i) qn += (Q)x[i] * x[i]; (void)nn;
    if (qn == 0) { x[0] = 1; qn = 1; }
    Q f = sqrtq(qn); for (int i = 0; i < 4; ++i) s.val[g[i]] = (Q)x[i] / f;
    return s.val[n]; }
  if (v->undef) return (Q)sample_value(vname(n), s.seed, -2, 2);
  auto it = s.given.find(v->name); if (it != s.given.end()) return it->second;
  return (Q)sample_value(v->name, s.seed, v->slo, v->shi); }
static Q fun_value(const std::string& f, Q a, Q b) {
  if (f == "tan") return tanq(a); if (f == "asin") return asinq(a); if (f == "acos") return acosq(a); if (f == "atan") return atanq(a);
  if (f == "atan2") return atan2q(a, b); if (f == "exp") return expq(a); if (f == "log") return logq(a); if (f == "pow") return powq(a, b);
  if (f == "floor") return floorq(a); if (f == "ceil") return ceilq(a); if (f == "fmod") return fmodq(a, b); if (f == "float") return (Q)(float)(double)a;
  if (f == "double") return (Q)(double)a;
  if (f == "abs") return fabsq(a);
  // uninterpreted: pseudo-random but functional
  uint64_t h = hash_str(f); double da = (double)a, db = (double)b; uint64_t u; memcpy(&u, &da, 8); h ^= u * 31; memcpy(&u, &db, 8); h ^= u * 131; return sample_value(f, h, -2, 2); }
static Q neval(NP root, Sample& s) {
  auto it0 = s.val.find(root); if (it0 != s.val.end()) return it0->second;
  std::vector<NP> st{root};
  while (!st.empty()) {
    NP n = st.back(); if (s.val.count(n)) { st.pop_back(); continue; }
    bool ready = true; NP def = n->k == K_VAR && n->v->opaque ? n->v->opaque : nullptr;
    for (NP c : {n->a, n->b, def}) if (c && !s.val.count(c)) { st.push_back(c); ready = false; }
    if (!ready) continue;
    st.pop_back(); Q a = n->a ? s.val[n->a] : 0, b = n->b ? s.val[n->b] : 0, r = 0;
    switch (n->k) {
      case K_CONST: { r = 0; mpf_class num(n->c->get_num(), 256), den(n->c->get_den(), 256), q(0, 256); q = num / den; double h1 = q.get_d(); mpf_class rem(q - h1, 256); double h2 = rem.get_d(); rem -= h2; r = (Q)h1 + (Q)h2 + (Q)rem.get_d(); break; }
      case K_VAR: r = def ? s.val[def] : var_value(n, s); break;
      case K_ADD: r = a + b; break; case K_MUL: r = a * b; break; case K_DIV: r = a / b; break;
      case K_SQRT: r = sqrtq(a); break; case K_SIN: r = sinq(a); break; case K_COS: r = cosq(a); break;
      case K_MIN: r = a < b ? a : b; break; case K_MAX: r = a < b ? b : a; break;
      case K_FUN: r = fun_value(*n->f, a, b); break;
      case K_NAN: r = nanq(""); break; case K_PINF: r = HUGE_VALQ; break; case K_NINF: r = -HUGE_VALQ; break; }
    s.val[n] = r; }
  return s.val[root]; }
static Sample& get_sample(int i) { auto& v = samples(); while ((int)v.size() <= i) { Sample s; s.seed = v.size() + 1; v.push_back(s); } return v[i]; }
static Q atom_eval(int a, Sample& s);
static Q peval_s(const Poly& p, Sample& s) {
  Q r = 0; for (auto& t : p) { Q m = 1; for (auto& f : N().monos[t.first].f) { Q v = atom_eval(f.first, s); for (int i = 0; i < std::abs(f.second); ++i) m = f.second > 0 ? m * v : m / v; }
    mpf_class q(t.second, 256); double h1 = q.get_d(); mpf_class rem(q - h1, 256); r += m * ((Q)h1 + (Q)rem.get_d()); }
  return r; }
static Q atom_eval(int a, Sample& s) {
  Atom t = N().atoms[a];
  if (t.k == A_INV) return 1 / peval_s(t.p, s);
  if (t.node) return neval(t.node, s);
  if (t.desc.compare(0, 4, "cos(") == 0) return cosq(peval_s(t.p, s));
  if (t.desc.compare(0, 4, "sin(") == 0) return sinq(peval_s(N().atoms[a - 1].p, s));
  return sqrtq(peval_s(t.p, s)); }
static Q peval(const Poly& p, int i) { return peval_s(p, get_sample(i)); }

// ---------------------------------------------------------------- path conditions
enum Op { GT0, GE0, EQ0, NE0, LT0, LE0 };
struct Cond { NP d; Poly p; Op op; };
struct PathState { std::vector<Cond> conds; std::map<std::string, int> sgn; std::string id = "r"; std::map<std::string, int> choices; };
static PathState& PS() { static PathState* p = new PathState; return *p; }
enum { S_NEG = 1, S_ZERO = 2, S_POS = 4, S_ANY = 7 };
static int& sign_of(const std::string& k) { auto it = PS().sgn.find(k); if (it == PS().sgn.end()) it = PS().sgn.insert({k, S_ANY}).first; return it->second; }
struct Canon { std::string key; int flip; Poly p; };
static Canon canon(const Poly& p) { Canon c; mpq_class lead = p.back().second; c.flip = lead < 0 ? -1 : 1; c.p = pscale(p, 1 / lead); c.key = pkey(c.p); return c; }
static int flipm(int m, int f) { if (f > 0) return m; return (m & S_ZERO) | ((m & S_NEG) ? S_POS : 0) | ((m & S_POS) ? S_NEG : 0); }

struct Zenc {
  z3::context& c; std::map<int, z3::expr> av; std::vector<z3::expr> side; std::map<NP, z3::expr> bools;
  Zenc(z3::context& c) : c(c) {}
  z3::expr num(const mpq_class& q) { return c.real_val(q.get_str().c_str()); }
  z3::expr poly(const Poly& p) {
    z3::expr_vector ts(c);
    for (auto& t : p) { z3::expr e = num(t.second);
      bool first = t.second == 1;
      for (auto f : N().monos[t.first].f) { z3::expr v = atom(f.first); int k = std::abs(f.second);
        if (f.second < 0) { v = invvar(f.first); }
        for (int i = 0; i < k; ++i) { if (first) { e = v; first = false; } else e = e * v; } }
      ts.push_back(e); }
    if (ts.size() == 0) return c.real_val(0);
    if (ts.size() == 1) return ts[0];
    return z3::sum(ts); }
  std::map<int, z3::expr> iv;
  z3::expr invvar(int a) { auto it = iv.find(a); if (it != iv.end()) return it->second;
    z3::expr v = c.real_const(("iv" + std::to_string(a)).c_str()); iv.insert({a, v}); side.push_back(v * atom(a) == 1); return v; }
  z3::expr atom(int a) {
    auto it = av.find(a); if (it != av.end()) return it->second;
    Atom t = N().atoms[a]; z3::expr v = c.real_const(("a" + std::to_string(a)).c_str()); av.insert({a, v});
    if (t.k == A_INV) side.push_back(v * poly(t.p) == 1);
    else if (t.k == A_RULED) { side.push_back(v * v == poly(t.p)); if (t.sgn == 2) side.push_back(v >= 0); }
    if (t.sgn == 1) side.push_back(v > 0);
    if (t.sgn == 2) side.push_back(v >= 0);
    if (t.k == A_FREE && !t.node && t.desc.compare(0, 4, "cos(") == 0) { side.push_back(v <= 1); side.push_back(v >= -1); }
    if (t.node && (t.node->k == K_MIN || t.node->k == K_MAX)) {
      std::vector<NP> xs; mm_collect(t.node, t.node->k, xs); z3::expr_vector any(c);
      for (NP x : xs) { z3::expr e = poly(nf(x)); side.push_back(t.node->k == K_MIN ? v <= e : v >= e); any.push_back(v == e); }
      side.push_back(z3::mk_or(any)); }
    if (t.node && t.node->k == K_FUN) {
      const std::string& f = *t.node->f;
      if (f == "exp") side.push_back(v > 0);
      if (f == "floor") { z3::expr e = poly(nf(t.node->a)); side.push_back(v <= e); side.push_back(e < v + 1); side.push_back(z3::is_int(v)); }
      if (f == "ceil") { z3::expr e = poly(nf(t.node->a)); side.push_back(v >= e); side.push_back(e > v - 1); side.push_back(z3::is_int(v)); } }
    if (t.node && t.node->k == K_VAR && t.node->v->opaque) { }
    return v; }
  z3::expr cond(const Poly& p, Op op) { z3::expr e = poly(p); switch (op) { case GT0: return e > 0; case GE0: return e >= 0; case EQ0: return e == 0; case NE0: return e != 0; case LT0: return e < 0; default: return e <= 0; } }
};
Stats& stats() { static Stats s; return s; }
static z3::context& zctx() { static z3::context* c = nullptr; static pid_t owner = 0; (void)owner; if (!c) c = new z3::context; return *c; }
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
// 1 sat, 0 unsat, -1 unknown; the model (values of named variables) is returned when sat
typedef std::vector<std::pair<Poly, Op>> Conds;
static int zsolve(const Conds& conds, const Conds& extra, std::map<std::string, double>* model, unsigned timeout_ms) {
  z3::context& c = zctx(); int res = -1;
  try {
    z3::solver s(c); z3::params p(c); p.set("rlimit", timeout_ms * 2000u); s.set(p);
    Zenc e(c);
    for (auto& x : conds) s.add(e.cond(x.first, x.second));
    for (auto& x : extra) s.add(e.cond(x.first, x.second));
    size_t done = 0; while (done < e.side.size()) { z3::expr f = e.side[done++]; s.add(f); }
    z3::check_result r = s.check();
    res = r == z3::sat ? 1 : r == z3::unsat ? 0 : -1;
    if (res == 1 && model) {
      z3::model m = s.get_model();
      for (auto& kv : e.av) { const Atom& t = N().atoms[kv.first]; if (!t.node || t.node->k != K_VAR || t.node->v->undef) continue;
        z3::expr v = m.eval(kv.second, true); double d = 0;
        if (v.is_numeral()) { d = atof(v.get_decimal_string(20).c_str()); } else if (v.is_algebraic()) { d = atof(v.get_decimal_string(20).c_str()); }
        (*model)[t.node->v->name] = d; } }
  } catch (z3::exception& ex) { res = -1; }
  return res; }
static bool nonlinear(const Poly& p) { for (auto& t : p) { if (N().monos[t.first].deg > 1) return true; for (auto& f : N().monos[t.first].f) if (N().atoms[f.first].k != A_FREE || f.second < 0) return true; } return false; }
static void atoms_of(const Poly& p, std::set<int>& out) {
  for (auto& t : p) for (auto& f : N().monos[t.first].f) { if (!out.insert(f.first).second) continue;
    Atom a = N().atoms[f.first]; if (a.k == A_INV || a.k == A_RULED) atoms_of(a.p, out);
    if (a.node && (a.node->k == K_MIN || a.node->k == K_MAX)) { std::vector<NP> xs; mm_collect(a.node, a.node->k, xs); for (NP x : xs) atoms_of(nf(x), out); }
    if (a.node && a.node->k == K_FUN && a.node->a) atoms_of(nf(a.node->a), out); } }
static Conds relevant(const Conds& cs, const Conds& extra) {
  std::set<int> at; for (auto& x : extra) atoms_of(x.first, at);
  std::vector<std::set<int>> sets(cs.size()); for (size_t i = 0; i < cs.size(); ++i) atoms_of(cs[i].first, sets[i]);
  std::vector<char> in(cs.size(), 0); bool more = true;
  while (more) { more = false; for (size_t i = 0; i < cs.size(); ++i) if (!in[i]) { bool hit = false; for (int a : sets[i]) if (at.count(a)) { hit = true; break; } if (hit) { in[i] = 1; more = true; at.insert(sets[i].begin(), sets[i].end()); } } }
  Conds r; for (size_t i = 0; i < cs.size(); ++i) if (in[i]) r.push_back(cs[i]);
  return r; }
static int zcheck(const std::vector<std::pair<Poly, Op>>& extra, std::map<std::string, double>* model, unsigned timeout_ms = 1500) {
  double t0 = now(); int res = -1; bool nlx = false;
  Conds conds, lin; for (auto& k : PS().conds) conds.push_back({k.p, k.op});
  for (auto& x : extra) if (!nlx) nlx = nonlinear(x.first);
  if (!model) conds = relevant(conds, extra);   // conditions that share no atom with the query cannot contradict it
  for (auto& k : conds) if (!nonlinear(k.first)) lin.push_back(k);
  bool nl = nlx || lin.size() < conds.size();
  if (nl && !nlx && zsolve(lin, extra, nullptr, timeout_ms) == 0) res = 0;   // already the linear conditions contradict it
  else if (!nl) res = zsolve(conds, extra, model, timeout_ms);
  else {  // nonlinear arithmetic may ignore its resource limit: solve in a child that can be killed
    int fd[2]; if (pipe(fd)) abort(); fflush(0); pid_t p = fork();
    if (p == 0) { close(fd[0]); std::map<std::string, double> m; int r = zsolve(conds, extra, model ? &m : nullptr, timeout_ms);
      std::string o((char*)&r, sizeof r); for (auto& kv : m) { uint32_t n = kv.first.size(); o.append((char*)&n, 4); o += kv.first; o.append((char*)&kv.second, 8); }
      size_t k = 0; while (k < o.size()) { ssize_t w = write(fd[1], o.data() + k, o.size() - k); if (w <= 0) break; k += w; } _exit(0); }
    close(fd[1]); std::string in; char buf[4096]; double end = t0 + timeout_ms * 0.004 + 2; bool dead = p < 0;
    while (!dead) { double left = end - now(); if (left <= 0) { kill(p, 9); break; } pollfd pf{fd[0], POLLIN, 0}; int k = poll(&pf, 1, (int)(left * 1000) + 1); if (k <= 0) continue;
      ssize_t n = read(fd[0], buf, sizeof buf); if (n <= 0) { dead = true; break; } in.append(buf, n); }
    close(fd[0]); int st; if (p > 0) waitpid(p, &st, 0);
    if (dead && in.size() >= 4) { memcpy(&res, in.data(), 4); size_t k = 4; while (model && k + 4 <= in.size()) { uint32_t n; memcpy(&n, in.data() + k, 4); k += 4; if (k + n + 8 > in.size()) break; std::string nm = in.substr(k, n); k += n; double d; memcpy(&d, in.data() + k, 8); k += 8; (*model)[nm] = d; } } }
  stats().z3_calls++; stats().z3_time += now() - t0; if (res < 0) stats().z3_unknown++;
  return res; }

// ---------------------------------------------------------------- forking
struct Shared { int active; int paths; int maxpaths; int shown, refuted, ms, failed, given; };   // failures with inputs; failures refuted by inputs; time spent on failures
static Shared* g_sh; static int g_out = -1; static std::string g_case; static std::vector<pid_t> g_kids;
static void emit(const std::string& s) { if (g_warm) return; std::string l = s + "\n"; if (g_out >= 0) { ssize_t r = write(g_out, l.data(), l.size()); (void)r; } }
static std::string js(const std::string& s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32) o += ' '; else o += c; } return o + "\""; }
static void wait_kids() { for (pid_t p : g_kids) { int st; waitpid(p, &st, 0);
    if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0)) { std::ostringstream o; o << "{\"t\":\"crash\",\"case\":" << js(g_case) << ",\"path\":" << js(PS().id) << ",\"status\":" << st << "}"; emit(o.str()); } } g_kids.clear(); }
static void finish_path(const char* how) {
  if (g_warm) throw WarmEnd();
  std::ostringstream o; o << "{\"t\":\"path\",\"case\":" << js(g_case) << ",\"path\":" << js(PS().id) << ",\"end\":" << js(how) << ",\"z3\":" << stats().z3_calls << ",\"z3_time\":" << stats().z3_time << ",\"z3_unknown\":" << stats().z3_unknown << ",\"nf_time\":" << stats().nf_time << ",\"nf\":" << stats().nf_calls << "}";
  emit(o.str()); if (g_sh) __sync_fetch_and_sub(&g_sh->active, 1);
  fflush(0); wait_kids(); _exit(0); }
void end_path(const char* how) { finish_path(how); }
// fork: returns true in the child
static bool fork_branch() {
  if (g_sh && __sync_add_and_fetch(&g_sh->paths, 1) > g_sh->maxpaths) { emit("{\"t\":\"error\",\"case\":" + js(g_case) + ",\"msg\":\"path limit\"}"); finish_path("limit"); }
  fflush(0);
  pid_t p = fork();
  if (p < 0) { emit("{\"t\":\"error\",\"case\":" + js(g_case) + ",\"msg\":\"fork failed\"}"); finish_path("limit"); }
  if (p == 0) { g_kids.clear(); if (g_sh) __sync_fetch_and_add(&g_sh->active, 1); stats() = Stats(); return true; }
  if (g_sh && g_sh->active >= 8) { int st; waitpid(p, &st, 0); if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0)) { std::ostringstream o; o << "{\"t\":\"crash\",\"case\":" << js(g_case) << ",\"path\":" << js(PS().id) << ",\"status\":" << st << "}"; emit(o.str()); } }
  else g_kids.push_back(p);
  return false; }
static int z3mask(const Poly& p, int mask) {
  int out = 0;
  if (mask & S_NEG) if (zcheck({{p, LT0}}, nullptr) != 0) out |= S_NEG;
  if (mask & S_ZERO) if (zcheck({{p, EQ0}}, nullptr) != 0) out |= S_ZERO;
  if (mask & S_POS) if (zcheck({{p, GT0}}, nullptr) != 0) out |= S_POS;
  return out; }
static void add_subst(const Poly& p) {
  // solve a linear occurrence of a free atom: prefer the atom created last
  std::map<int, int> cnt; 
  for (auto& t : p) for (auto& f : N().monos[t.first].f) cnt[f.first]++;
  for (auto it = cnt.rbegin(); it != cnt.rend(); ++it) {
    int at = it->first; if (N().atoms[at].k != A_FREE || it->second != 1) continue;
    if (!N().atoms[at].node || N().atoms[at].node->k != K_VAR) continue;
    for (auto& t : p) { auto& f = N().monos[t.first].f; if (f.size() == 1 && f[0].first == at && f[0].second == 1) {
        Poly r; for (auto& u : p) if (u.first != t.first) r.push_back({u.first, -u.second / t.second});
        N().subst[at] = r; return; } } }
  // x^2k = 0 or sum of squares = 0
  if (sos_sign(p)) for (auto& t : p) { auto& f = N().monos[t.first].f; if (f.size() == 1 && N().atoms[f[0].first].k == A_FREE && f[0].second > 0 && f[0].second % 2 == 0) N().subst[f[0].first] = Poly(); } }
static void record(NP d, const Poly& p, Op op, int mask, const Canon& c) {
  sign_of(c.key) = flipm(mask, c.flip); PS().conds.push_back({d, p, op});
  if (mask == S_ZERO) add_subst(p); }
static int base_sign(const Poly& p) {
  int m = S_ANY;
  if (sos_sign(p) == 1) m = S_POS; else if (sos_sign(p) == 2) m = S_POS | S_ZERO;
  else { Poly n = pscale(p, -1); int s = sos_sign(n); if (s == 1) m = S_NEG; else if (s == 2) m = S_NEG | S_ZERO; }
  return m; }
static Poly nf_clean(NP d) { Poly p = apply_subst(nf(d)); mpq_class c; if (!p.empty() && guess_const(p, c)) p = pconst(c); return p; }
static bool g_norms_nonzero = false;
bool& norms_nonzero() { return g_norms_nonzero; }
static bool g_generic = false;
bool& generic_equalities() { return g_generic; }
static bool syntactic_sos(NP n, int depth = 0) { if (depth > 20) return false; if (n->k == K_ADD) return syntactic_sos(n->a, depth + 1) && syntactic_sos(n->b, depth + 1); return n->k == K_MUL && n->a == n->b; }
static bool has_minmax(const Poly& p) { for (auto& t : p) for (auto& f : N().monos[t.first].f) { NP n = N().atoms[f.first].node; if (n && (n->k == K_MIN || n->k == K_MAX)) return true; } return false; }
// decide whether d <op> 0 on this path; may fork
static bool decide(NP d, Op op) {
  if (special(d)) { if (d->k == K_NAN) return op == NE0; bool pos = d->k == K_PINF; switch (op) { case GT0: case GE0: return pos; case LT0: case LE0: return !pos; case EQ0: return false; default: return true; } }
  if (g_warm) { Q v = neval(d, get_sample(0)); if (isnanq(v)) return op == NE0; bool z = fabsq(v) < 1e-25Q; switch (op) { case GT0: return !z && v > 0; case GE0: return z || v > 0; case LT0: return !z && v < 0; case LE0: return z || v < 0; case EQ0: return z; default: return !z; } }
  int want = op == GT0 ? S_POS : op == GE0 ? (S_POS | S_ZERO) : op == LT0 ? S_NEG : op == LE0 ? (S_NEG | S_ZERO) : op == EQ0 ? S_ZERO : (S_NEG | S_POS);
  if (g_norms_nonzero && op == GT0 && d->k == K_ADD && syntactic_sos(d)) return true;
  Poly p = nf_clean(d);
  if (p.empty() || (p.size() == 1 && p[0].first == 0)) { int m = p.empty() ? S_ZERO : p[0].second > 0 ? S_POS : S_NEG; return m & want; }
  Canon c = canon(p);
  int m = flipm(sign_of(c.key), c.flip) & base_sign(p);
  if (!(m & ~want)) return true;
  if (!(m & want)) return false;
  // z3 feasibility of both sides
  auto side = [&](int mask) -> int { // feasible?
    Op o = mask == S_POS ? GT0 : mask == S_NEG ? LT0 : mask == S_ZERO ? EQ0 : mask == (S_POS | S_ZERO) ? GE0 : mask == (S_NEG | S_ZERO) ? LE0 : NE0;
    return zcheck({{p, o}}, nullptr); };
  if (g_generic && (op == EQ0 || op == NE0) && (nonlinear(p) || has_minmax(p)) && (m & (S_NEG | S_POS))) { record(d, p, NE0, m & (S_NEG | S_POS), c); return op == NE0; }
  int ty = side(m & want), tn = ty == 0 ? 1 : side(m & ~want);
  bool res;
  if (ty == 0 && tn == 0) { finish_path("infeasible"); }
  if (ty == 0) res = false; else if (tn == 0) res = true;
  else { res = fork_branch(); PS().id += res ? 'T' : 'F'; }
  int nm = res ? (m & want) : (m & ~want);
  Op o = nm == S_POS ? GT0 : nm == S_NEG ? LT0 : nm == S_ZERO ? EQ0 : nm == (S_POS | S_ZERO) ? GE0 : nm == (S_NEG | S_ZERO) ? LE0 : NE0;
  record(d, p, o, nm, c);
  return res; }

bool sym_lt(const Sym& a, const Sym& b) { NP x = a.node(), y = b.node(); if (x->k == K_NAN || y->k == K_NAN) return false; return decide(n_sub(y, x), GT0); }
bool sym_le(const Sym& a, const Sym& b) { NP x = a.node(), y = b.node(); if (x->k == K_NAN || y->k == K_NAN) return false; if (x == y) return true; return decide(n_sub(y, x), GE0); }
bool sym_eq(const Sym& a, const Sym& b) { NP x = a.node(), y = b.node(); if (x->k == K_NAN || y->k == K_NAN) return false; if (x == y) return true; if (special(x) || special(y)) return false; return decide(n_sub(y, x), EQ0); }

// ---------------------------------------------------------------- Sym operations
Sym sym_add(const Sym& a, const Sym& b) { return mk(n_add(a.node(), b.node())); }
Sym sym_sub(const Sym& a, const Sym& b) { return mk(n_sub(a.node(), b.node())); }
Sym sym_mul(const Sym& a, const Sym& b) { return mk(n_mul(a.node(), b.node())); }
Sym sym_div(const Sym& a, const Sym& b) { return mk(n_div(a.node(), b.node())); }
Sym sym_neg(const Sym& a) { NP n = a.node(); if (n->k == K_PINF) return mk(S().ninf); if (n->k == K_NINF) return mk(S().pinf); return mk(n_neg(n)); }
Sym& Sym::operator+=(const Sym& o) { *this = *this + o; return *this; }
Sym& Sym::operator-=(const Sym& o) { *this = *this - o; return *this; }
Sym& Sym::operator*=(const Sym& o) { *this = *this * o; return *this; }
Sym& Sym::operator/=(const Sym& o) { *this = *this / o; return *this; }
Sym::operator bool() const { return !(*this == Sym(0)); }
static double constval(const Sym& s, bool* ok) {
  NP n = s.node(); *ok = true; if (n->k == K_NAN) return NAN; if (n->k == K_PINF) return INFINITY; if (n->k == K_NINF) return -INFINITY;
  if (isc(n)) return n->c->get_d();
  Poly p = nf_clean(n); if (p.empty()) return 0; if (p.size() == 1 && p[0].first == 0) return p[0].second.get_d();
  *ok = false; return 0; }
static bool no_vars(NP n) { std::vector<NP> st{n}; std::set<NP> seen; while (!st.empty()) { NP x = st.back(); st.pop_back(); if (!x || !seen.insert(x).second) continue; if (x->k == K_VAR) return false; st.push_back(x->a); st.push_back(x->b); } return true; }
bool ground_value(const Sym& s, double* out) { bool ok; *out = constval(s, &ok); if (ok) return true; if (no_vars(s.node())) { *out = (double)neval(s.node(), get_sample(0)); return true; } return false; }
static double need_const(const Sym& s) { double d; if (ground_value(s, &d)) return d; emit("{\"t\":\"error\",\"case\":" + js(g_case) + ",\"msg\":\"conversion of a symbolic real to a machine number\"}"); finish_path("unsupported"); return 0; }
Sym::operator int() const { return (int)need_const(*this); }
Sym::operator unsigned() const { return (unsigned)need_const(*this); }
Sym::operator long() const { return (long)need_const(*this); }
Sym::operator unsigned long() const { return (unsigned long)need_const(*this); }
Sym::operator long long() const { return (long long)need_const(*this); }
Sym::operator unsigned long long() const { return (unsigned long long)need_const(*this); }
Sym::operator unsigned char() const { return (unsigned char)need_const(*this); }
Sym::operator float() const { return (float)need_const(*this); }
Sym::operator double() const { return need_const(*this); }
Sym sqrt(const Sym& a) { return mk(n_sqrt(a.node())); }
Sym sin(const Sym& a) { return mk(n_sin(a.node())); }
Sym cos(const Sym& a) { return mk(n_cos(a.node())); }
Sym tan(const Sym& a) { return sin(a) / cos(a); }
static Sym fun1(const char* f, const Sym& a) { return mk(n_fun(f, a.node())); }
Sym asin(const Sym& a) { return fun1("asin", a); }
Sym acos(const Sym& a) { return fun1("acos", a); }
Sym atan(const Sym& a) { NP n = a.node(); if (n == S().zero) return Sym(0); if (n->k == K_PINF) return Sym(M_PI / 2); if (n->k == K_NINF) return Sym(-M_PI / 2); return fun1("atan", a); }
Sym atan2(const Sym& y, const Sym& x) {   // by quadrant; signed zeros are not distinguished
  if (special(y.node()) || special(x.node())) return mk(n_fun("atan2", y.node(), x.node()));
  Sym pi(M_PI); if (x > Sym(0)) return atan(y / x); if (x < Sym(0)) return y >= Sym(0) ? atan(y / x) + pi : atan(y / x) - pi;
  return y > Sym(0) ? pi / Sym(2) : y < Sym(0) ? -pi / Sym(2) : Sym(0); }
Sym exp(const Sym& a) { if (a.node() == S().zero) return Sym(1); return fun1("exp", a); }
Sym log(const Sym& a) { if (a.node() == S().one) return Sym(0); return fun1("log", a); }
Sym log10(const Sym& a) { if (a.node() == S().one) return Sym(0); return fun1("log10", a); }
Sym pow(const Sym& a, const Sym& b) {
  NP n = b.node(); if (isc(n)) { mpq_class q = *n->c; mpq_class tq = q * 2;
    if (tq.get_den() == 1 && abs(tq) <= 32) { long k = tq.get_num().get_si(); bool inv = k < 0; k = std::labs(k);
      Sym r(1); for (long i = 0; i < k / 2; ++i) r = r * a; if (k & 1) r = r * sqrt(a); return inv ? Sym(1) / r : r; } }
  return mk(n_fun("pow", a.node(), n)); }
static bool int_valued(NP n) { try { for (auto& t : nf(n)) { if (t.second.get_den() != 1) return false; for (auto& f : N().monos[t.first].f) { const Atom& at = N().atoms[f.first]; if (f.second < 0 || !at.node || at.node->k != K_FUN || (*at.node->f != "floor" && *at.node->f != "ceil")) return false; } } return true; } catch (...) { return false; } }
Sym floor(const Sym& a) { NP n = a.node(); if (special(n)) return a; if (!isc(n) && int_valued(n)) return a; if (isc(n)) { mpz_class z; mpz_fdiv_q(z.get_mpz_t(), n->c->get_num_mpz_t(), n->c->get_den_mpz_t()); return mk(n_const(mpq_class(z))); } return fun1("floor", a); }
Sym ceil(const Sym& a) { return -floor(-a); }
Sym trunc(const Sym& a) { return a >= Sym(0) ? floor(a) : ceil(a); }
Sym round(const Sym& a) { return a >= Sym(0) ? floor(a + Sym(0.5)) : ceil(a - Sym(0.5)); }
Sym fmod(const Sym& a, const Sym& b) { return a - b * trunc(a / b); }
static bool g_abs_term = false;
bool& abs_term() { return g_abs_term; }
Sym fabs(const Sym& a) { NP n = a.node(); if (n->k == K_NAN) return a; if (n->k == K_NINF || n->k == K_PINF) return mk(S().pinf); if (abs_term()) return max_node(a, -a); return a >= Sym(0) ? a : -a; }
Sym abs(const Sym& a) { return fabs(a); }
Sym hypot(const Sym& a, const Sym& b) { return sqrt(a * a + b * b); }
Sym fmin(const Sym& a, const Sym& b) { return min_node(a, b); }
Sym fmax(const Sym& a, const Sym& b) { return max_node(a, b); }
void sincos(const Sym& x, Sym* s, Sym* c) { *s = sin(x); *c = cos(x); }
bool isnan(const Sym& a) { return a.node()->k == K_NAN; }
bool isinf(const Sym& a) { return a.node()->k == K_PINF || a.node()->k == K_NINF; }
bool isfinite(const Sym& a) { return !isnan(a) && !isinf(a); }
static Sym mmnode(Kind k, const Sym& a, const Sym& b) {
  NP x = a.node(), y = b.node(); if (x == y) return a;
  if (x->k == K_NAN || y->k == K_NAN) return nan_sym();
  if (special(x) || special(y)) { NP s = special(x) ? x : y, o = special(x) ? y : x; bool big = s->k == K_PINF; return mk((k == K_MIN) == big ? o : s); }
  if (isc(x) && isc(y)) return mk((k == K_MIN) == (*x->c < *y->c) ? x : y);
  if (x->id > y->id) std::swap(x, y);
  return mk(S().get(k, x, y)); }
Sym min_node(const Sym& a, const Sym& b) { return mmnode(K_MIN, a, b); }
Sym max_node(const Sym& a, const Sym& b) { return mmnode(K_MAX, a, b); }
Sym nan_sym() { return mk(S().nan); }
Sym inf_sym() { return mk(S().pinf); }
Sym round_to_float(const Sym& a) { NP n = a.node(); if (special(n)) return a; if (isc(n)) { double d = n->c->get_d(); if ((double)(float)d == d) return a; return Sym((double)(float)d); }
  if (n->k == K_FUN && *n->f == "float") return a; return mk(n_fun("float", n)); }
std::ostream& operator<<(std::ostream& o, const Sym& s) { double d; NP n = s.node(); if (isc(n)) { d = n->c->get_d(); return o << d; } return o << "<" << n->id << ">"; }
std::istream& operator>>(std::istream& i, Sym& s) { double d; i >> d; s = Sym(d); return i; }

// ---------------------------------------------------------------- proving
static bool try_nf_zero(NP d) {
  double t0 = now(); stats().nf_calls++; bool r = false;
  try { r = pzero(nf(d)); } catch (TooBig&) { N().memo.clear(); stats().nf_toobig++; } catch (DivByZero&) { r = false; }
  stats().nf_time += now() - t0; return r; }
static bool zero_on_sample(NP d) { for (int i = 0; i < 2; ++i) { Sample& s = get_sample(i); Q v = neval(d, s); if (isnanq(v)) continue; if (fabsq(v) > 1e-16Q) return false; } return true; }
bool prove_zero(NP d) {
  if (d == S().zero) return true;
  if (special(d)) return false;
  if (g_warm) return zero_on_sample(d);
  if (N().subst.empty() && !zero_on_sample(d)) return false;
  return try_nf_zero(d); }
bool prove_positive(NP d, bool strict) {
  if (special(d)) return d->k == K_PINF;
  Poly p = nf_clean(d);
  if (p.empty()) return !strict;
  if (p.size() == 1 && p[0].first == 0) return p[0].second > 0;
  Canon c = canon(p); int m = flipm(sign_of(c.key), c.flip) & base_sign(p);
  if (!(m & ~(strict ? S_POS : (S_POS | S_ZERO)))) return true;
  return zcheck({{p, strict ? LE0 : LT0}}, nullptr, 8000) == 0; }

// find inputs on this path: sampled, then z3; extra: condition that must hold
static bool path_holds(Sample& s) { for (auto& c : PS().conds) { Q v = neval(c.d, s); if (isnanq(v)) return false; bool ok = c.op == GT0 ? v > 0 : c.op == GE0 ? v >= 0 : c.op == EQ0 ? fabsq(v) < 1e-25Q : c.op == NE0 ? v != 0 : c.op == LT0 ? v < 0 : v <= 0; if (!ok) return false; } return true; }
static std::map<std::string, double> dump(Sample& s) { std::map<std::string, double> m; for (auto& kv : S().vars) { if (kv.second->v->opaque) continue; m[kv.first] = (double)neval(kv.second, kv.first.compare(0, 5, "warm.") ? s : get_sample(0)); } for (auto& kv : PS().choices) m[kv.first] = kv.second; return m; }
static bool find_inputs(NP diff, std::map<std::string, double>& out) {
  auto good = [&](Sample& s) { if (!path_holds(s)) return false; if (!diff) return true; Q v = neval(diff, s); return isnanq(v) || fabsq(v) > 1e-9Q; };
  double t0 = now();
  for (uint64_t i = 1; i < 400 && now() - t0 < 4; ++i) { Sample s; s.seed = i; if (good(s)) { out = dump(s); return true; } }
  std::map<std::string, double> m; std::vector<std::pair<Poly, Op>> ex;
  if (zcheck({}, &m, 4000) == 1) for (uint64_t i = 1; i < 50; ++i) { Sample s; s.seed = i; s.given = m;
      if (i > 1) { // perturb the variables the path conditions do not mention: only those not in the model
      } if (good(s) || i == 1) { if (good(s)) { out = dump(s); return true; } } }
  if (diff) { try { Poly p = nf_clean(diff); m.clear(); if (zcheck({{p, NE0}}, &m, 4000) == 1) { Sample s; s.seed = 1; s.given = m; out = dump(s); return true; } } catch (...) {} }
  if (!m.empty()) { Sample s; s.seed = 1; s.given = m; out = dump(s); return true; }
  return false; }
static std::map<std::string, double> g_found;   // inputs already known for the failure about to be reported
static void report(const std::string& name, bool ok, const std::string& how, const std::string& msg, NP diff) {
  std::ostringstream o; o << "{\"t\":\"ob\",\"case\":" << js(g_case) << ",\"path\":" << js(PS().id) << ",\"name\":" << js(name) << ",\"ok\":" << (ok ? "true" : "false") << ",\"how\":" << js(how);
  int nfail = !ok && g_sh ? __sync_add_and_fetch(&g_sh->failed, 1) : 0;
  if (!ok) { o << ",\"msg\":" << js(nfail > 300 ? msg.substr(0, 60) : msg.size() > 1500 ? msg.substr(0, 1500) + " ..." : msg); std::map<std::string, double> in; bool f = false; if (g_found.size()) { in.swap(g_found); g_found.clear(); f = true; }
    else if (!g_sh || (g_sh->shown < 40 && g_sh->ms < 200000)) { double t0 = now(); try { f = find_inputs(diff, in); } catch (...) {} if (g_sh) { __sync_fetch_and_add(&g_sh->ms, (int)((now() - t0) * 1000)); if (f) __sync_fetch_and_add(&g_sh->shown, 1); } }
    if (f && g_sh && __sync_add_and_fetch(&g_sh->given, in.size() > 2000 ? 10 : 1) > 80) f = false;   // enough failing inputs to replay
    if (f) { o << ",\"inputs\":{"; bool first = true; for (auto& kv : in) { char b[64]; double v = kv.second; if (!std::isfinite(v)) v = 0; snprintf(b, sizeof b, "%.17g", v); o << (first ? "" : ",") << js(kv.first) << ":" << b; first = false; } o << "}"; } }
  o << "}"; emit(o.str());
  if (nfail > 3000) finish_path("failures"); }   // the verdict is settled; do not drown in its consequences
static std::string short_nf(NP d) { try { Poly p = nf(d); if (p.size() > 400) return std::to_string(p.size()) + " terms"; return pstr(p, 12); } catch (...) { return "(too large)"; } }
void ob_bool(const std::string& name, bool v, const std::string& msg) { if (g_warm) return; stats().obligations++; report(name, v, "path", v ? "" : msg, nullptr); }
bool ob_zero(const std::string& name, const Sym& a, const Sym& b, bool quiet_fail) {
  if (g_warm) return true; trim_memo();
  NP x = a.node(), y = b.node(); stats().obligations++;
  if (x == y) { report(name, true, "syntactic", "", nullptr); return true; }
  if (special(x) || special(y)) { report(name, x->k == y->k, "syntactic", "special value (nan/inf) differs", nullptr); return x->k == y->k; }
  NP d = n_sub(x, y); bool ok = prove_zero(d);
  if (!ok && N().subst.empty() == false) ok = try_nf_zero(d);
  if (!ok) { // z3 fall-back for branch-dependent facts
    // an input of this path on which the two sides differ settles it
    double t0 = now(); for (uint64_t i = 1; i < 30 && now() - t0 < 0.5; ++i) { Sample sm; sm.seed = i; if (!path_holds(sm)) continue; Q v = neval(d, sm); if (!isnanq(v) && fabsq(v) > 1e-9Q) { g_found = dump(sm); break; } }
    bool settled = !g_found.empty(), deviates = name.find("deviates by") != std::string::npos;
    if (settled && g_sh && !deviates) __sync_fetch_and_add(&g_sh->refuted, 1);
    if (!settled && !(g_sh && g_sh->refuted >= 30)) try { Poly p = nf_clean(d); if (p.size() < 60) ok = p.empty() || zcheck({{p, NE0}}, nullptr, 4000) == 0; } catch (...) {}
    if (ok) { report(name, true, "z3", "", nullptr); return true; } }
  report(name, ok, "normal-form", ok ? "" : "difference does not vanish: " + short_nf(d), d); return ok; }
void ob_pos(const std::string& name, const Sym& a, bool strict) { if (g_warm) return; stats().obligations++; NP d = a.node(); bool ok = prove_positive(d, strict); report(name, ok, "z3", ok ? "" : "sign not established: " + short_nf(d), nullptr); }
void assume_bool(bool b) { if (!b) finish_path("assume"); }
void assume_sign(const Sym& a, int mask) {
  if (g_warm) return;
  NP d = a.node(); if (special(d)) finish_path("assume"); Poly p = nf_clean(d); Op o = mask == S_POS ? GT0 : mask == S_NEG ? LT0 : mask == S_ZERO ? EQ0 : mask == (S_POS | S_ZERO) ? GE0 : mask == (S_NEG | S_ZERO) ? LE0 : NE0;
  if (p.empty() || (p.size() == 1 && p[0].first == 0)) { int m = p.empty() ? S_ZERO : p[0].second > 0 ? S_POS : S_NEG; if (!(m & mask)) finish_path("assume"); return; }
  Canon c = canon(p); int m = flipm(sign_of(c.key), c.flip) & base_sign(p) & mask; if (!m) finish_path("assume"); if (m == (flipm(sign_of(c.key), c.flip) & base_sign(p))) return;
  record(d, p, o, m, c); }
bool path_feasible() { return g_warm || zcheck({}, nullptr, 3000) != 0; }
int choose_n(const std::string& label, int n) { if (g_warm) return (hash_str(label) >> 8) % n; int r = n - 1; for (int i = 0; i < n - 1; ++i) if (fork_branch()) { r = i; break; }
  PS().id += "[" + label + "=" + std::to_string(r) + "]"; PS().choices["choice:" + label] = r; return r; }
bool choose(const std::string& label) { return choose_n(label, 2); }
Sym var(const std::string& name, double lo, double hi) { NP n = n_var(name); n->v->slo = lo; n->v->shi = hi; return mk(n); }
Sym pos_var(const std::string& name, double lo, double hi) { NP n = n_var(name); n->v->slo = lo; n->v->shi = hi; n->v->sign = 1; return mk(n); }
Sym nonneg_var(const std::string& name, double lo, double hi) { NP n = n_var(name); n->v->slo = lo; n->v->shi = hi; n->v->sign = 2; return mk(n); }
void unit_quat(const std::string& name, Sym* wxyz) {
  static const char* sfx[4] = {".w", ".x", ".y", ".z"}; std::array<NP, 4> g;
  bool fresh = !S().vars.count((g_warm ? "warm." : "") + name + ".w");
  for (int i = 0; i < 4; ++i) g[i] = n_var(name + sfx[i]);
  if (fresh) { int id = S().ugroups.size(); S().ugroups.push_back(g); for (int i = 0; i < 4; ++i) { g[i]->v->ugroup = id; g[i]->v->urole = i; } }
  for (int i = 0; i < 4; ++i) wxyz[i] = mk(g[i]); }
static int g_opq = 0;
Sym opaque(const Sym& a) {
  NP n = a.node(); if (isc(n) || n->k == K_VAR || special(n)) return a;
  static std::map<std::string, NP>* tab = new std::map<std::string, NP>; std::string k; try { k = pkey(nf(n)); } catch (TooBig&) { k = "node" + std::to_string(n->id); }
  { const Poly& p = nf(n); if (p.empty() || (p.size() == 1 && p[0].first == 0)) return mk(nf(n).empty() ? S().zero : n_const(nf(n)[0].second)); }
  auto it = tab->find(k); if (it != tab->end()) return mk(it->second);
  NP v = n_var("cut" + std::to_string(g_opq++)); v->v->opaque = n; (*tab)[k] = v; return mk(v); }
Sym fun(const std::string& f, const Sym& a) { return mk(n_fun(f, a.node())); }
Sym fun(const std::string& f, const Sym& a, const Sym& b) { return mk(n_fun(f, a.node(), b.node())); }
std::string show(const Sym& a) { NP n = a.node(); if (special(n)) return n->k == K_NAN ? "nan" : "inf"; return short_nf(n); }
std::string key_of(const Sym& a) { NP n = a.node(); if (special(n)) return "special" + std::to_string(n->k); try { return pkey(apply_subst(nf(n))); } catch (TooBig&) { return "node" + std::to_string(n->id); } }
bool identical(const Sym& a, const Sym& b) { return a.node() == b.node(); }
bool same(const Sym& a, const Sym& b) { NP x = a.node(), y = b.node(); if (x == y) return true; if (special(x) || special(y)) return false; return prove_zero(n_sub(x, y)); }
const char* current_case() { return g_case.c_str(); }
void note(const std::string& s) { emit("{\"t\":\"note\",\"case\":" + js(g_case) + ",\"path\":" + js(PS().id) + ",\"msg\":" + js(s) + "}"); }
void cover(const std::string& s) { emit("{\"t\":\"cover\",\"case\":" + js(g_case) + ",\"path\":" + js(PS().id) + ",\"name\":" + js(s) + "}"); }
void unsupported(const std::string& s) { emit("{\"t\":\"error\",\"case\":" + js(g_case) + ",\"msg\":" + js(s) + "}"); finish_path("unsupported"); }

// ---------------------------------------------------------------- exact value at one fixed rational point (identifies a known deviation)
static mpq_class wvar(NP n) {
  const VarInfo* v = n->v;
  if (v->ugroup >= 0) { static const int q[4][4] = {{1, 2, 2, 4}, {2, 4, 1, 2}, {4, 2, 2, 1}, {2, 1, 4, 2}}; uint64_t h = hash_str(S().ugroups[v->ugroup][0]->v->name); mpq_class r(q[h % 4][v->urole], 5); return r; }
  uint64_t h = hash_str(vname(n)); uint64_t a = splitmix(h); long k = 1 + a % 23; mpq_class r(k, 7 + (long)((a >> 20) % 5)); r.canonicalize(); return (v->sign == 0 && (a >> 40) & 1) ? mpq_class(-r) : r; }
std::string witness(const Sym& s) {
  std::unordered_map<NP, mpq_class> val; std::vector<NP> st{s.node()};
  while (!st.empty()) {
    NP n = st.back(); if (val.count(n)) { st.pop_back(); continue; }
    bool ready = true; NP def = n->k == K_VAR && n->v->opaque ? n->v->opaque : nullptr;
    for (NP c : {n->a, n->b, def}) if (c && !val.count(c)) { st.push_back(c); ready = false; }
    if (!ready) continue;
    st.pop_back(); mpq_class r;
    switch (n->k) { case K_CONST: r = *n->c; break; case K_VAR: r = def ? val[def] : wvar(n); break;
      case K_ADD: r = val[n->a] + val[n->b]; break; case K_MUL: r = val[n->a] * val[n->b]; break;
      case K_DIV: if (val[n->b] == 0) return "undefined"; r = val[n->a] / val[n->b]; break; default: return "irrational"; }
    val[n] = r; }
  std::string t = val[s.node()].get_str(); uint64_t h = hash_str(t); char b[40]; snprintf(b, sizeof b, "%.5g#%08x", val[s.node()].get_d(), (unsigned)(splitmix(h) >> 32)); return b; }

// ---------------------------------------------------------------- cuts: terms replaced by fresh variables
struct Sweep { NP term, cutterm, v; };
struct CutMap { std::unordered_map<NP, NP> m; std::unordered_map<uint64_t, std::vector<Sweep>> sweep; };
static uint64_t sweep_key(NP n) { uint64_t h = 17; for (int i = 0; i < 2; ++i) { Q v = neval(n, get_sample(i)); if (isnanq(v)) return 0; double d = (double)v; float f = (float)d; uint32_t u; memcpy(&u, &f, 4); h = h * 1000003 + u; } return h; }
CutMap* cuts_new() { return new CutMap; }
static int g_cut = 0;
void cuts_add(CutMap* c, const Sym& orig, const std::string& name) {
  NP n = orig.node(); if (isc(n) || n->k == K_VAR || special(n) || c->m.count(n)) return;
  NP v = n_var(name + "~" + std::to_string(g_cut++)); v->v->opaque = n; c->m[n] = v; }
void cuts_add_unit(CutMap* c, const Sym* wxyz, const std::string& name) {
  bool ok = true; for (int i = 0; i < 4; ++i) { NP n = wxyz[i].node(); if (isc(n) || n->k == K_VAR || special(n) || c->m.count(n)) ok = false; }
  if (!ok) return;
  Sym u[4]; unit_quat(name + "~" + std::to_string(g_cut++), u);
  for (int i = 0; i < 4; ++i) { NP v = u[i].n; v->v->opaque = wxyz[i].node(); c->m[wxyz[i].node()] = v; } }
// the same for the four components of a unit quaternion
void cuts_sweep_unit(CutMap* c, const Sym* wxyz, const std::string& name) {
  NP t[4]; for (int i = 0; i < 4; ++i) { Sym x = cuts_apply(c, wxyz[i]); t[i] = x.node(); if (isc(t[i]) || t[i]->k == K_VAR || special(t[i])) return; }
  Sym u[4]; unit_quat(name + "~" + std::to_string(g_cut++), u);
  for (int i = 0; i < 4; ++i) { NP v = u[i].n, o = wxyz[i].node(); v->v->opaque = o; c->sweep[sweep_key(o)].push_back({o, t[i], v}); c->m[o] = v; } }
// every node proved equal to `orig` becomes the same fresh variable
void cuts_sweep(CutMap* c, const Sym& orig, const std::string& name) {
  Sym cut = cuts_apply(c, orig); NP t = cut.node(); if (isc(t) || t->k == K_VAR || special(t)) return;
  NP v = n_var(name + "~" + std::to_string(g_cut++)); v->v->opaque = orig.node(); c->sweep[sweep_key(orig.node())].push_back({orig.node(), t, v}); c->m[orig.node()] = v; }
Sym cuts_apply(CutMap* c, const Sym& s) {
  std::vector<NP> st{s.node()};
  while (!st.empty()) {
    NP n = st.back(); if (c->m.count(n)) { st.pop_back(); continue; }
    if (!n->a) { c->m[n] = n; st.pop_back(); continue; }
    bool ready = true; for (NP x : {n->a, n->b}) if (x && !c->m.count(x)) { st.push_back(x); ready = false; }
    if (!ready) continue;
    st.pop_back(); NP a = c->m[n->a], b = n->b ? c->m[n->b] : nullptr, r = n;
    if (a != n->a || b != n->b) switch (n->k) {
      case K_ADD: r = n_add(a, b); break; case K_MUL: r = n_mul(a, b); break; case K_DIV: r = n_div(a, b); break;
      case K_SQRT: r = n_sqrt(a); break; case K_SIN: r = n_sin(a); break; case K_COS: r = n_cos(a); break;
      case K_FUN: r = n_fun(*n->f, a, b); break; case K_MIN: r = min_node(mk(a), mk(b)).node(); break; case K_MAX: r = max_node(mk(a), mk(b)).node(); break; default: break; }
    if (!c->sweep.empty() && !isc(r) && r->k != K_VAR) { auto it = c->sweep.find(sweep_key(n));
      if (it != c->sweep.end()) for (auto& w : it->second) if (n == w.term || r == w.cutterm || try_nf_zero(n_sub(r, w.cutterm))) { r = w.v; break; } }
    c->m[n] = r; }
  return mk(c->m[s.node()]); }

// ---------------------------------------------------------------- inverse contract
struct InvRec { int n; std::vector<Sym> s, x; };
static std::vector<InvRec>& invs() { static auto* v = new std::vector<InvRec>; return *v; }
const InvList inverse_records() { InvList l; for (auto& r : invs()) l.push_back({r.n, r.s, r.x}); return l; }
static void record_inverse(int n, const Sym* s, Sym* x) {
  if (n == 1) { x[0] = Sym(1) / s[0]; }
  else {
    for (auto& r : invs()) if (r.n == n) { bool eq = true; for (int i = 0; i < n * n && eq; ++i) eq = r.s[i].node() == s[i].node() || prove_zero(n_sub(r.s[i].node(), s[i].node())); if (eq) { for (int i = 0; i < n * n; ++i) x[i] = r.x[i]; return; } }
    if (n <= 3 && inverse_exact()) {
      auto A = [&](int i, int j) { return s[j * n + i]; };
      if (n == 2) { Sym d = A(0, 0) * A(1, 1) - A(0, 1) * A(1, 0); x[0] = A(1, 1) / d; x[3] = A(0, 0) / d; x[1] = -A(1, 0) / d; x[2] = -A(0, 1) / d; }
      else { Sym c[9]; Sym d(0); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { int i1 = (i + 1) % 3, i2 = (i + 2) % 3, j1 = (j + 1) % 3, j2 = (j + 2) % 3; c[j * 3 + i] = A(i1, j1) * A(i2, j2) - A(i1, j2) * A(i2, j1); }
        for (int j = 0; j < 3; ++j) d = d + A(0, j) * c[j * 3 + 0]; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) x[j * 3 + i] = c[i * 3 + j] / d; } }
    else { // fresh X; symmetric whenever S is
      bool sym = true; for (int i = 0; i < n && sym; ++i) for (int j = 0; j < i && sym; ++j) sym = s[j * n + i].node() == s[i * n + j].node() || prove_zero(n_sub(s[j * n + i].node(), s[i * n + j].node()));
      int id = invs().size();
      for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { int a = i, b = j; if (sym && a > b) std::swap(a, b); x[j * n + i] = mk(n_var("inv" + std::to_string(id) + "_" + std::to_string(a) + "_" + std::to_string(b))); } } }
  InvRec r; r.n = n; r.s.assign(s, s + n * n); r.x.assign(x, x + n * n); invs().push_back(r); }
static bool g_inv_exact = false;
bool& inverse_exact() { return g_inv_exact; }

// ---------------------------------------------------------------- driver
void warm_up(void (*fn)()) { g_warm = true; try { fn(); } catch (...) {} g_warm = false; g_abs_term = g_generic = g_norms_nonzero = g_inv_exact = false; invs().clear(); stats() = Stats(); }
int run_case(const std::string& name, void (*fn)(), int out_fd, int maxpaths) {
  g_sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); g_sh->active = 1; g_sh->paths = 1; g_sh->maxpaths = maxpaths;
  g_case = name; g_out = out_fd;
  try { fn(); } catch (TooBig&) { emit("{\"t\":\"error\",\"case\":" + js(g_case) + ",\"msg\":\"normal form too large\"}"); finish_path("toobig"); }
  catch (DivByZero&) { emit("{\"t\":\"error\",\"case\":" + js(g_case) + ",\"msg\":\"division by zero in a branch condition\"}"); finish_path("div0"); }
  finish_path("done"); return 0; }
}  // namespace vc
namespace std { std::string to_string(const vc::Sym& s) { std::ostringstream o; o << s; return o.str(); } }
namespace Eigen { namespace internal { void vc_record_inverse(int n, const vc::Sym* s, vc::Sym* x) { vc::record_inverse(n, s, x); } } }
