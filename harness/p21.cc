// Median and time formatting.
#include "vc.h"
namespace vc { struct NthCall { std::vector<Real> before; int k; Real result; }; inline std::vector<NthCall>& nth_calls() { static std::vector<NthCall> v; return v; } static vc::Forget forget_nth_calls([] { nth_calls().clear(); }); static bool g_contract = false; }
namespace std {
// Contract of std::nth_element: the element at `nth` becomes the k-th smallest of
// the range, a function of the multiset only; the rest of the range is unspecified.
template <class It> void vc_nth_element(It b, It m, It e) {
#ifdef VC_SYM
  if (vc::g_contract) { vc::NthCall c; c.before.assign(b, e); c.k = m - b; for (It i = b; i != e; ++i) *i = vc::Real(); 
    c.result = vc::var("kth" + std::to_string(vc::nth_calls().size())); *m = c.result; vc::nth_calls().push_back(c); return; }
#endif
  std::nth_element(b, m, e); } }
#include "shadow.h"
#define nth_element vc_nth_element
#include <msf_core/msf_tools.h>
#undef nth_element
#include <msf_core/src/lib/msf_tools.cc>
using namespace vc;

template <int N> void contract() {
#ifdef VC_SYM
  g_contract = true; nth_calls().clear();
  Eigen::Matrix<double, N, 1> d; fill(d, "d"); Eigen::Matrix<double, N, 1> d0 = d;
  Real r = msf_core::GetMedian(d);
  g_contract = false;
  ensure_meq("input unchanged", d, d0);
  if (nth_calls().empty()) return;   // other selection algorithm: decided by the exact cases alone
  NthCall c = nth_calls().back();
  ensure_eq("one selection", (int)nth_calls().size(), 1);
  ensure_eq("whole sample", (int)c.before.size(), N); ensure_eq("middle rank", c.k, N / 2);
  std::vector<bool> used(N, false); bool perm = (int)c.before.size() == N;
  for (auto& x : c.before) { bool f = false; for (int i = 0; i < N && !f; ++i) if (!used[i] && same(x, d0[i])) { used[i] = true; f = true; } perm = perm && f; }
  ensure("selection runs over exactly the sample", perm);
  ensure_eq("returns the selected element", r, c.result); cover("contract");
#else
  Eigen::Matrix<double, N, 1> d; fill(d, "d"); std::vector<double> v(d.data(), d.data() + N); std::sort(v.begin(), v.end());
  Eigen::Matrix<double, N, 1> d0 = d; ensure_eq("returns the selected element", msf_core::GetMedian(d), v[N / 2]); ensure_meq("input unchanged", d, d0);
#endif
}
template <int N> void exact() {   // the real std::nth_element, all orderings
  Eigen::Matrix<double, N, 1> d; fill(d, "d");
  Real r = msf_core::GetMedian(d);
  int less = 0, eq = 0; for (int i = 0; i < N; ++i) { if (d[i] < r) ++less; else if (d[i] == r) ++eq; }
  ensure("is an element", eq >= 1);
  ensure("rank is the middle", less <= N / 2 && less + eq > N / 2, std::to_string(less) + "/" + std::to_string(eq));
}
VC_CASE(one) { exact<1>(); }
VC_CASE(two) { exact<2>(); }
VC_CASE(three) { exact<3>(); }
VC_CASE(four) { exact<4>(); }
VC_CASE(five) { exact<5>(); }
VC_CASE(rank_small) { contract<1>(); contract<2>(); contract<3>(); contract<4>(); contract<5>(); contract<6>(); contract<7>(); contract<8>(); }
VC_CASE(rank_large) { contract<9>(); contract<10>(); contract<16>(); contract<17>(); contract<30>(); contract<31>(); contract<64>(); }
VC_CASE(timehuman) {
  Real t = var("t", -1e5, 2e9); Real h = msf_core::timehuman(t);
  ob_pos("not negative", h, false); ob_pos("below ten thousand seconds", Real(10000) - h, true);
  Real k = (t - h) / Real(10000); ensure_eq("whole multiple of ten thousand removed", k, floor(k));
}
VC_MAIN
