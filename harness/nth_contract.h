// Contract of std::nth_element: the element at `nth` becomes the k-th smallest of
// the range, a function of the multiset only; the rest of the range is unspecified.
// Include before any header of the repository that calls it.
#ifndef VC_NTH_CONTRACT_H
#define VC_NTH_CONTRACT_H
#include "vc.h"
namespace vc {
#ifdef VC_SYM
inline Real kth(std::vector<Real> v, int k) {   // one name per (multiset, rank)
  bool all = true; for (auto& x : v) all = all && same(x, v[0]); if (all) return v[0];
  static std::map<std::string, Real>* tab = new std::map<std::string, Real>; std::vector<std::string> ks; for (auto& x : v) ks.push_back(key_of(x)); std::sort(ks.begin(), ks.end());
  std::string key = std::to_string(k); for (auto& s : ks) key += "|" + s;
  auto it = tab->find(key); if (it != tab->end()) return it->second; Real r = var("kth" + std::to_string(tab->size())); tab->insert({key, r}); return r; }
#else
inline Real kth(std::vector<Real> v, int k) { std::sort(v.begin(), v.end()); return v[k]; }
#endif
}
namespace std {
#ifdef VC_SYM
template <> inline const vc::Sym& max<vc::Sym>(const vc::Sym& a, const vc::Sym& b) { static auto* keep = new std::deque<vc::Sym>; keep->push_back(vc::max_node(a, b)); return keep->back(); }
#endif
template <class It> void vc_nth_element(It b, It m, It e) {
#ifdef VC_SYM
  std::vector<vc::Real> v(b, e); int k = m - b; vc::Real r = vc::kth(v, k); for (It i = b; i != e; ++i) *i = vc::Real(); *m = r;
#else
  std::nth_element(b, m, e);
#endif
} }
#define nth_element vc_nth_element
#endif
