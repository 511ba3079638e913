// Abstract ordered map keyed by the shadow scalar: the standard's contract of
// std::map, over an arbitrary (unbounded) initial content that is materialised
// lazily - a Gap stands for any finite number of elements strictly between two
// keys.  Used instead of libstdc++'s tree for std::map<double, V>.
#ifndef VC_ABSMAP_H
#define VC_ABSMAP_H
#ifdef VC_SYM
#include <list>
#include <map>
#include <memory>
namespace vc {
inline bool& abstract_maps() { static bool b = false; return b; }     // default-constructed maps hold arbitrary content
inline int& absmap_fresh() { static int n = 0; return n; }
[[noreturn]] inline void absmap_bad(const char* w) { ob_bool(std::string("valid use of the map: ") + w, false, w); end_path("abort"); abort(); }
template <class V> V map_element(const Sym&) { absmap_bad("this map has no arbitrary elements"); }  // specialised by a harness: an arbitrary element stored under the key
template <class V> struct Gap {
  int depth = 0;  // elements taken one after the other from this end
  int state = 0;  // 0 open, 1 empty, 2 split
  bool haslo = false, hashi = false, upincl = false; // upincl: the upper bound itself may be an element
  Sym lo = Sym(0), hi = Sym(0);
  std::shared_ptr<Gap> l, r; Sym key = Sym(0); V val;
};
template <class V> class AbsMap {
 public:
  typedef Sym key_type; typedef V mapped_type; typedef std::pair<const Sym, V> value_type; typedef size_t size_type; typedef std::ptrdiff_t difference_type;
  typedef value_type& reference; typedef const value_type& const_reference;
  struct Node { value_type kv; bool dead = false; Node(const Sym& k, const V& v) : kv(k, v) {} };
  typedef std::shared_ptr<Node> NodeP; typedef std::shared_ptr<Gap<V> > GapP;
  struct Tok { NodeP n; GapP g; };
  typedef std::list<Tok> Toks;
  class iterator {
   public:
    typedef std::bidirectional_iterator_tag iterator_category; typedef std::pair<const Sym, V> value_type; typedef std::ptrdiff_t difference_type; typedef value_type* pointer; typedef value_type& reference;
    AbsMap* m; NodeP n;
    iterator() : m(nullptr) {}
    iterator(AbsMap* mm, NodeP nn) : m(mm), n(nn) {}
    value_type& operator*() const { chk("dereference"); return n->kv; }
    value_type* operator->() const { chk("dereference"); return &n->kv; }
    void chk(const char* w) const { if (!m) absmap_bad("singular iterator"); if (!n) absmap_bad((std::string(w) + " of end()").c_str()); if (n->dead) absmap_bad("use of an iterator to an erased element"); }
    iterator& operator++() { chk("increment"); *this = m->next(n); return *this; }
    iterator operator++(int) { iterator o = *this; ++*this; return o; }
    iterator& operator--() { if (!m) absmap_bad("singular iterator"); if (n && n->dead) absmap_bad("use of an iterator to an erased element"); *this = m->prev(n); return *this; }
    iterator operator--(int) { iterator o = *this; --*this; return o; }
    bool operator==(const iterator& o) const { return n == o.n; }
    bool operator!=(const iterator& o) const { return n != o.n; }
  };
  typedef iterator const_iterator; typedef std::reverse_iterator<iterator> reverse_iterator; typedef reverse_iterator const_reverse_iterator;
  mutable Toks t;
  static AbsMap*& last_abstract() { static AbsMap* p = nullptr; return p; }
  AbsMap() { if (abstract_maps()) { GapP g = std::make_shared<Gap<V> >(); g->haslo = true; g->lo = Sym(0); t.push_back(Tok{nullptr, g}); last_abstract() = this; } }
  AbsMap(const AbsMap& o) { assign(o); }
  AbsMap& operator=(const AbsMap& o) { if (this != &o) { kill(); assign(o); } return *this; }
  void assign(const AbsMap& o) { o.norm(); for (auto& k : o.t) t.push_back(k.n ? Tok{std::make_shared<Node>(k.n->kv.first, k.n->kv.second), nullptr} : k); }
  void kill() { for (auto& k : t) if (k.n) k.n->dead = true; t.clear(); }
  ~AbsMap() { kill(); }
  void norm() const {
    for (auto i = t.begin(); i != t.end();) {
      if (i->g && i->g->state == 1) { i = t.erase(i); continue; }
      if (i->g && i->g->state == 2) { GapP g = i->g; auto a = t.insert(i, Tok{nullptr, g->l}); t.insert(i, Tok{std::make_shared<Node>(g->key, g->val), nullptr}); t.insert(i, Tok{nullptr, g->r}); t.erase(i); i = a; continue; }
      ++i; }
  }
  static GapP mkgap(bool hl, const Sym& lo, bool hh, const Sym& hi) { GapP g = std::make_shared<Gap<V> >(); g->haslo = hl; g->hashi = hh; g->lo = lo; g->hi = hi; return g; }
  static GapP empty_gap() { GapP g = std::make_shared<Gap<V> >(); g->state = 1; return g; }
  // put an element into g; `where` 0: first of the gap, 1: last of the gap, 2: first that is >= (incl) / > bound
  static void split(GapP g, int where, const Sym* bound, bool incl) {
    Sym c = var("elem" + std::to_string(absmap_fresh()++), 0, 4);
    if (g->haslo) assume_sign(c - g->lo, 4);
    if (g->hashi) assume_sign(g->hi - c, g->upincl ? 6 : 4);
    if (bound) assume_sign(c - *bound, incl ? 6 : 4);
    if (where != 2 && g->depth >= 10) { note("loop over an arbitrary number of elements: followed for ten elements"); end_path("unrolled"); }
    g->key = c; g->val = map_element<V>(c);
    g->l = where == 0 ? empty_gap() : where == 1 ? mkgap(g->haslo, g->lo, true, c) : mkgap(g->haslo, g->lo, true, bound ? *bound : c);
    g->r = where == 1 ? empty_gap() : mkgap(true, c, g->hashi, g->hi);
    if (where != 1) g->r->upincl = g->upincl;
    if (where == 2 && !incl) g->l->upincl = true;
    if (where == 0) g->r->depth = g->depth + 1; if (where == 1) g->l->depth = g->depth + 1;
    g->state = 2;
    if (!path_feasible()) end_path("infeasible");
  }
  iterator it_of(const NodeP& n) { return iterator(this, n); }
  typename Toks::iterator pos(const NodeP& n) const { for (auto i = t.begin(); i != t.end(); ++i) if (i->n == n) return i; absmap_bad("iterator of another map"); }
  iterator next(const NodeP& n) { for (;;) { norm(); auto i = n ? std::next(pos(n)) : t.begin(); if (i == t.end()) return end(); if (i->n) return iterator(this, i->n);
      if (choose("more elements")) split(i->g, 0, nullptr, false); else i->g->state = 1; } }
  iterator prev(const NodeP& n) { for (;;) { norm(); auto i = n ? pos(n) : t.end(); if (i == t.begin()) absmap_bad("decrement of begin()"); --i; if (i->n) return iterator(this, i->n);
      if (choose("more elements")) split(i->g, 1, nullptr, false); else i->g->state = 1; } }
  iterator begin() const { return const_cast<AbsMap*>(this)->next(nullptr); }
  iterator end() const { return iterator(const_cast<AbsMap*>(this), nullptr); }
  iterator cbegin() const { return begin(); } iterator cend() const { return end(); }
  reverse_iterator rbegin() const { return reverse_iterator(end()); } reverse_iterator rend() const { return reverse_iterator(begin()); }
  iterator bound(const Sym& k, bool incl) const {   // first element >= k (incl) or > k
    AbsMap* me = const_cast<AbsMap*>(this); norm();
    auto i = t.begin();
    for (; i != t.end(); ++i) if (i->n && (incl ? !(i->n->kv.first < k) : (k < i->n->kv.first))) break;
    if (i == t.begin()) return iterator(me, i == t.end() ? nullptr : i->n);
    auto p = std::prev(i);
    if (!p->g) return iterator(me, i == t.end() ? nullptr : i->n);
    GapP g = p->g;
    bool can = true;                                  // may the gap hold an element on the right side of k?
    if (g->hashi) { if (g->upincl && incl) can = !(g->hi < k); else can = k < g->hi; }
    if (can && choose("element beyond the key")) { split(g, 2, &k, incl); norm(); for (auto j = t.begin(); j != t.end(); ++j) if (j->n && same(j->n->kv.first, g->key)) return iterator(me, j->n); absmap_bad("internal"); }
    if (can) { g->hashi = true; g->hi = k; g->upincl = !incl; }
    return iterator(me, i == t.end() ? nullptr : i->n);
  }
  iterator lower_bound(const Sym& k) const { return bound(k, true); }
  iterator upper_bound(const Sym& k) const { return bound(k, false); }
  std::pair<iterator, iterator> equal_range(const Sym& k) const { iterator a = lower_bound(k); return std::make_pair(a, upper_bound(k)); }
  iterator find(const Sym& k) const { iterator i = lower_bound(k); if (i == end() || k < i.n->kv.first) return end(); return i; }
  size_t count(const Sym& k) const { return find(k) != end(); }
  bool contains(const Sym& k) const { return count(k); }
  bool empty() const { return begin() == end(); }
  size_t size() const { size_t c = 0, added = 0; for (iterator i = begin(); i != end(); ++i) { ++c; size_t k = 0; for (auto& x : t) if (x.g) ++k; if (c > 4 && k) { note("size() of an arbitrary map: more than four elements are reported as one million"); return 1000000; } (void)added; } return c; }
  std::pair<iterator, bool> insert(const value_type& v) {
    iterator i = lower_bound(v.first); if (i != end() && !(v.first < i.n->kv.first)) return std::make_pair(i, false);
    NodeP n = std::make_shared<Node>(v.first, v.second);
    // every remaining element left of i is < key: an open gap directly before i holds only smaller elements
    t.insert(i.n ? pos(i.n) : t.end(), Tok{n, nullptr}); return std::make_pair(iterator(this, n), true);
  }
  template <class P> std::pair<iterator, bool> insert(P&& p) { const value_type v(p.first, p.second); return insert(v); }
  iterator insert(iterator, const value_type& v) { return insert(v).first; }
  template <class... A> std::pair<iterator, bool> emplace(A&&... a) { const value_type v(std::forward<A>(a)...); return insert(v); }
  template <class... A> iterator emplace_hint(iterator, A&&... a) { const value_type v(std::forward<A>(a)...); return insert(v).first; }
  template <class M> std::pair<iterator, bool> insert_or_assign(const Sym& k, M&& v) { const value_type kv(k, v); auto r = insert(kv); if (!r.second) r.first->second = v; return r; }
  V& operator[](const Sym& k) { const value_type v(k, V()); return insert(v).first->second; }
  V& at(const Sym& k) { iterator i = find(k); if (i == end()) absmap_bad("at() of an absent key"); return i->second; }
  iterator erase(iterator i) { i.chk("erase"); iterator r = std::next(i); i.n->dead = true; t.erase(pos(i.n)); return r; }
  size_t erase(const Sym& k) { iterator i = find(k); if (i == end()) return 0; i.n->dead = true; t.erase(pos(i.n)); return 1; }
  iterator erase(iterator a, iterator b) {
    norm(); auto x = a.n ? pos(a.n) : t.end(), y = b.n ? pos(b.n) : t.end();
    for (auto z = x; z != y; ++z) if (z == t.end()) absmap_bad("erase of an inverted range");
    while (x != y) { if (x->n) x->n->dead = true; x = t.erase(x); } return b; }
  void clear() { kill(); }
  void swap(AbsMap& o) { t.swap(o.t); }
};
}  // namespace vc
namespace std {
template <class V, class A> class map<vc::Sym, V, less<vc::Sym>, A> : public vc::AbsMap<V> { public: using vc::AbsMap<V>::AbsMap; };
template <class V, class A> class map<const vc::Sym, V, less<const vc::Sym>, A> : public vc::AbsMap<V> {};
}
#endif
#endif
