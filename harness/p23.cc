#define VC_NO_WARM   // the process-wide timer table is part of the contract
// Timing statistics and registry.
#include "vc.h"
#include <chrono>
#include <cstdarg>
#include <iomanip>
#include <list>
#include <deque>
#include <sstream>
#include <stdio.h>
namespace std { namespace chrono {
// the clock is an input: the harness sets its value (integer nanoseconds)
struct vc_clock { typedef std::chrono::nanoseconds duration; typedef duration::rep rep; typedef duration::period period; typedef std::chrono::time_point<vc_clock> time_point; static const bool is_steady = true;
  static long long& t() { static long long v = 0; return v; } static time_point now() noexcept { return time_point(duration(t())); } }; } }
namespace vc { struct Fmt { std::string f; std::vector<Real> v; }; inline std::vector<Fmt>& fmts() { static std::vector<Fmt> x; return x; } static vc::Forget forget_fmts([] { fmts().clear(); });
inline void push_(Fmt&) {} template <class A, class... R> void push_(Fmt& f, const A& a, const R&... r) { f.v.push_back(Real(a)); push_(f, r...); }
template <class... A> int vc_snprintf(char* b, size_t n, const char* f, const A&... a) { Fmt x; x.f = f; push_(x, a...); fmts().push_back(x); std::string s = "#" + std::to_string(fmts().size() - 1); strncpy(b, s.c_str(), n); return s.size(); } }
#include "shadow.h"
#define system_clock vc_clock
#define steady_clock vc_clock
#define high_resolution_clock vc_clock
#include <msf_timing/Timer.h>
namespace vc {
#ifdef VC_SYM
struct IntOf {   // operators as hidden friends: they apply only where an IntOf is written, never by conversion
  Sym s; template <class T> IntOf(const T& x) : s(trunc(Sym(x))) {} IntOf(int x) : s(x) {} operator Sym() const { return s; }
  friend Sym operator*(const IntOf& a, int b) { return a.s * Sym(b); } friend Sym operator*(int b, const IntOf& a) { return a.s * Sym(b); }
  friend Sym operator-(const IntOf& a, const IntOf& b) { return a.s - b.s; } friend Sym operator+(const IntOf& a, const IntOf& b) { return a.s + b.s; }
  friend Sym operator-(const IntOf& a, const Sym& b) { return a.s - b; } friend Sym operator-(const Sym& b, const IntOf& a) { return b - a.s; }
  friend bool operator>(const IntOf& a, int b) { return a.s > Sym(b); } friend bool operator<(const IntOf& a, int b) { return a.s < Sym(b); }
  friend Sym& operator-=(Sym& a, const IntOf& b) { return a -= b.s; }
};
#endif
}
#ifdef VC_SYM
#define int vc::IntOf
#endif
#define snprintf vc::vc_snprintf
#include <msf_timing/src/Timer.cc>
#undef snprintf
#undef int
using namespace vc;
using msf_timing::Accumulator; using msf_timing::Timing; using msf_timing::Timer;

static Real fin(const Real& x) { assume_sign(Real(1e300) - x, 4); assume_sign(x + Real(1e300), 4); return x; }   // samples are finite
// ---- the accumulator: representation invariant of a window of N over a history of n samples,
// kept by one more sample from ANY state that satisfies it (n unbounded)
template <int N> struct Hist { Real sum, mn, mx, wsum; std::vector<Real> win; /* newest N samples, by slot */ };
template <class A, int N> auto set_state(A& a, long n, Hist<N>& h, int) -> decltype((void)a.window_samples_, (void)a.totalsamples_, (void)a.window_sum_, (void)a.sum_, (void)a.min_, (void)a.max_, (void)a.samples_[0], true) {
  a.window_samples_ = n; a.totalsamples_ = n; if ((long)a.totalsamples_ != n || (long)a.window_samples_ != n) return false;
  int w = n < N ? n : N; h.sum = var("sum"); h.mn = var("mn"); h.mx = h.mn + nonneg_var("spread"); h.wsum = Real(0); h.win.clear();
  for (int i = 0; i < w; ++i) { Real s = var("s" + std::to_string(i)); a.samples_[i] = s; h.win.push_back(s); h.wsum = h.wsum + s; }
  a.window_sum_ = h.wsum; a.sum_ = h.sum; if (n) { a.min_ = fin(h.mn); a.max_ = fin(h.mx); } return true; }
template <class A, int N> bool set_state(A&, long, Hist<N>&, long) { return false; }
template <int N> void add_and_check(Accumulator<double, double, N>& a, long n, Hist<N>& h, const char* nm) {
  Real x = fin(var(nm)); a.Add(x);
  h.sum = h.sum + x; if (n == 0) { h.mn = x; h.mx = x; } else { if (x < h.mn) h.mn = x; if (x > h.mx) h.mx = x; }
  if (n < N) h.win.push_back(x); else h.win[n % N] = x;
  Real ws(0); for (auto& s : h.win) ws = ws + s; long w = h.win.size(); Real mean = ws / Real(w);
  Real v(0); for (auto& s : h.win) v = v + (s - mean) * (s - mean); v = v / Real(w);
  ensure("count", (long)a.TotalSamples() == n + 1, std::to_string((long)a.TotalSamples()) + " != " + std::to_string(n + 1));
  ensure_eq("total", a.Sum(), h.sum); ensure_eq("mean", a.Mean(), h.sum / Real(n + 1)); ensure_eq("minimum", a.Min(), h.mn); ensure_eq("maximum", a.Max(), h.mx);
  ensure_eq("rolling mean", a.RollingMean(), mean); ensure_eq("rolling variance", a.LazyVariance(), v); }
template <int N> void step(const std::vector<long>& ns) {
  int k = choose_n("n", ns.size()); long n = ns[k]; Accumulator<double, double, N> a; Hist<N> h;
  if (n > 0 && !set_state(a, n, h, 0)) { note("accumulator representation not recognised: induction step from states with " + std::to_string(n) + " samples skipped"); ensure("skipped", true); return; }
  if (n == 0) { h.sum = Real(0); }
  add_and_check<N>(a, n, h, "x"); }
VC_CASE(step1) { step<1>({0, 1, 2, 7}); }
VC_CASE(step3) { step<3>({0, 1, 2, 3, 4, 5, 6, 1000000}); }
VC_CASE(step50_filling) { std::vector<long> n; for (int i = 0; i < 50; i += 7) n.push_back(i); n.push_back(49); step<50>(n); }
VC_CASE(step50_full) { std::vector<long> n; for (int i = 50; i < 101; i += 5) n.push_back(i); step<50>(n); }
VC_CASE(step50_all) { std::vector<long> n; for (int i = 0; i < 110; ++i) n.push_back(i); step<50>(n); }   // every slot
VC_CASE(step_long_history) { step<50>({2147483645L, 2147483646L, 2147483647L, 2147483648L, 4294967295L, 4294967296L, 1000000000000L}); }
VC_CASE_BOUNDED(run_from_empty) {   // no knowledge of the representation: 2N+3 samples
  bool up = choose("increasing"); Accumulator<double, double, 4> a; Hist<4> h; h.sum = Real(0); Real x = var("x0");
  for (int n = 0; n < 11; ++n) { Real d = pos_var("d" + std::to_string(n)); Real y = up ? x + d : x - d; x = y; a.Add(fin(y));
    h.sum = h.sum + y; if (n == 0) h.mn = h.mx = y; if (up) h.mx = y; else h.mn = y; if (n < 4) h.win.push_back(y); else h.win[n % 4] = y;
    Real ws(0); for (auto& s : h.win) ws = ws + s; Real mean = ws / Real((int)h.win.size()), v(0); for (auto& s : h.win) v = v + (s - mean) * (s - mean); v = v / Real((int)h.win.size());
    ensure_eq("count", (long)a.TotalSamples(), (long)n + 1); ensure_eq("total", a.Sum(), h.sum); ensure_eq("mean", a.Mean(), h.sum / Real(n + 1)); ensure_eq("minimum", a.Min(), h.mn); ensure_eq("maximum", a.Max(), h.mx); ensure_eq("rolling mean", a.RollingMean(), mean); ensure_eq("rolling variance", a.LazyVariance(), v); } }
VC_CASE(empty) { Accumulator<double, double, 5> a; ensure_eq("no samples", (long)a.TotalSamples(), 0L); ensure_eq("no total", a.Sum(), 0.0); ensure_eq("no variance", a.LazyVariance(), 0.0); }

// ---- registry: a timer's samples reach the record of its own name and no other
VC_CASE_BOUNDED(registry) {
  static const char* tag[3] = {"alpha", "b", "alpha.long"};
  struct M { long n = 0; Real sum = Real(0), last; size_t h = 0; bool known = false; } m[3]; Real x(0); int steps = 4;
  for (int k = 0; k < steps; ++k) {
    std::string s = std::to_string(k); int op = choose_n("op" + s, 4); int t = op < 3 ? op : 0; M& q = m[t];
    if (op == 3) { Timing::Reset(); ensure("reset forgets every name", Timing::GetTimers().empty()); for (auto& r : m) r = M(); continue; }
    size_t h = Timing::GetHandle(tag[t]);
    if (q.known) ensure("same name, same record", h == q.h); else for (auto& r : m) if (r.known) ensure("new name, new record", h != r.h);
    q.h = h; q.known = true;
    Real dt = fin(pos_var("dt" + s)); Timing::Instance().AddTime(h, dt); q.n++; q.sum = q.sum + dt; q.last = dt;
    for (int i = 0; i < 3; ++i) if (m[i].known) {
      ensure_eq("count of the record", (long)Timing::GetNumSamples(m[i].h), m[i].n); ensure_eq("total of the record", Timing::GetTotalSeconds(m[i].h), m[i].sum);
      ensure_eq("count by name", (long)Timing::GetNumSamples(std::string(tag[i])), m[i].n); ensure_eq("total by name", Timing::GetTotalSeconds(std::string(tag[i])), m[i].sum); ensure_eq("mean by name", Timing::GetMeanSeconds(std::string(tag[i])), m[i].sum / Real(m[i].n));
      ensure_eq("rate", Timing::GetHz(m[i].h), Real(m[i].n) / m[i].sum); ensure_eq("rate by name", Timing::GetHz(std::string(tag[i])), Real(m[i].n) / m[i].sum);
      ensure("name of the record", Timing::GetTag(m[i].h) == tag[i]); }
    size_t known = 0; for (auto& r : m) known += r.known; ensure("as many records as names", Timing::GetTimers().size() == known); } }
VC_CASE(queries) {   // every query by name and by handle reads the matching statistic of that record
  Timing::GetHandle("other"); size_t h = Timing::GetHandle("t"); Timing::Instance().AddTime(Timing::GetHandle("other"), fin(var("o")));
  Real x = fin(var("x")), y = fin(var("y")); Timing::Instance().AddTime(h, x); Timing::Instance().AddTime(h, y); std::string t = "t";
  Real mean = (x + y) / Real(2), mn = x < y ? x : y, mx = x < y ? y : x, va = ((x - mean) * (x - mean) + (y - mean) * (y - mean)) / Real(2);
  for (int by = 0; by < 2; ++by) {
    ensure_eq("count", (long)(by ? Timing::GetNumSamples(t) : Timing::GetNumSamples(h)), 2L); ensure_eq("total", by ? Timing::GetTotalSeconds(t) : Timing::GetTotalSeconds(h), x + y);
    ensure_eq("mean", by ? Timing::GetMeanSeconds(t) : Timing::GetMeanSeconds(h), mean); ensure_eq("variance", by ? Timing::GetVarianceSeconds(t) : Timing::GetVarianceSeconds(h), va);
    ensure_eq("minimum", by ? Timing::GetMinSeconds(t) : Timing::GetMinSeconds(h), mn); ensure_eq("maximum", by ? Timing::GetMaxSeconds(t) : Timing::GetMaxSeconds(h), mx);
    assume_sign(x + y, 1 | 4); ensure_eq("rate", by ? Timing::GetHz(t) : Timing::GetHz(h), Real(1) / mean); } }
VC_CASE(timer_life) {   // a running timer adds one sample when stopped or destroyed, a stopped one nothing
  static const long long starts[4] = {0, 17, 1600000000123456789LL, 999999999LL}, lens[6] = {0, 1, 999, 1234567, 60000000000LL, 7200123456789LL};
  for (auto s : starts) for (auto l : lens) { std::string tag = "t" + std::to_string(s) + "_" + std::to_string(l); Real dt = Real(l) * Real(1.e-9);
    { std::chrono::vc_clock::t() = s - 5; Timer a(tag, true); ensure("constructed stopped", !a.IsTiming()); std::chrono::vc_clock::t() = s; a.Start(); ensure("running", a.IsTiming()); std::chrono::vc_clock::t() = s + l; a.Stop(); ensure("stopped", !a.IsTiming()); std::chrono::vc_clock::t() = s + l + 1000; }
    ensure_eq("one sample", (long)Timing::GetNumSamples(tag), 1L); ensure_eq("its length", Timing::GetTotalSeconds(tag), dt);
    { std::chrono::vc_clock::t() = s; Timer a(tag); ensure("constructed running", a.IsTiming()); std::chrono::vc_clock::t() = s + l; }
    ensure_eq("destruction stops", (long)Timing::GetNumSamples(tag), 2L); ensure_eq("and adds the length", Timing::GetTotalSeconds(tag), dt + dt);
    { std::chrono::vc_clock::t() = s; Timer a(Timing::GetHandle(tag)); std::chrono::vc_clock::t() = s + 2 * l; a.Stop(); a.Start(); std::chrono::vc_clock::t() = s + 3 * l; }
    ensure_eq("restart", (long)Timing::GetNumSamples(tag), 4L); ensure_eq("restart length", Timing::GetTotalSeconds(tag), dt * Real(5));
    { Timer a(tag, true); } ensure_eq("never started", (long)Timing::GetNumSamples(tag), 4L); } }
VC_CASE(format) {   // the printed fields represent the duration
  Real t = nonneg_var("t", 0, 100000); std::string s = Timing::SecondsToTimeString(t);
#ifdef VC_SYM
  ensure("formatted once", fmts().size() == 1); const Fmt& f = fmts().back(); ensure("result is the formatted text", s == "#0");
  size_t k = f.v.size(); ensure("fields", k >= 1 && k <= 3); Real v = f.v[k - 1]; if (k > 1) v = v + Real(60) * f.v[k - 2]; if (k > 2) v = v + Real(3600) * f.v[k - 3];
  ensure("seconds with microseconds last", f.f.size() >= 6 && f.f.substr(f.f.size() - 6) == "%09.6f");
  ensure_eq("represents the duration", v, t);
  for (size_t i = 0; i + 1 < k; ++i) { ob_pos("non-negative field", f.v[k - 1 - i], false); ob_pos("field below sixty", Real(60) - f.v[k - 1 - i], true); }
#else
  Fmt f = fmts().back(); size_t k = f.v.size(); double v = f.v[k - 1]; if (k > 1) v += 60 * f.v[k - 2]; if (k > 2) v += 3600 * f.v[k - 3]; ensure_eq("represents the duration", v, t);
#endif
}
VC_MAIN
