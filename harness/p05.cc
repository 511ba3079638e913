// SortedContainer: every query and mutation against the abstract ordered map.
#define ROS_PACKAGE_NAME "vc"
#include "vc.h"
#include "absmap.h"
#include "shadow.h"
#include <msf_core/msf_types.h>
#include <msf_core/msf_sortedContainer.h>
using namespace vc;
struct Elem { double time; int tag; Elem() : time(0), tag(0) {} };
struct InvalidElem : Elem { };
typedef shared_ptr<Elem> EP;
typedef msf_core::SortedContainer<Elem, InvalidElem> Box;
static EP mkelem(double t) { EP e(new Elem); e->time = t; return e; }
#ifdef VC_SYM
typedef AbsMap<EP> Map;
namespace vc { template <> EP map_element<EP>(const Sym& k) { return mkelem(k); } }
typedef Map::Tok Tok;
// an arbitrary container: any number of elements at any positive, distinct times
struct World { Box c; Map* m; Map before; World() : c(), m(Map::last_abstract()) { before = *m; } };
struct OnAbs { OnAbs() { abstract_maps() = true; } } ;
struct W0 { OnAbs on; World w; W0() { abstract_maps() = false; } };
typedef std::vector<Tok> View;
static View view(const Map& m) { m.norm(); View v; for (auto& k : m.t) v.push_back(k); return v; }
static bool tok_same(const Tok& a, const Tok& b) { return a.g ? a.g == b.g : (b.n && a.n->kv.second == b.n->kv.second && same(a.n->kv.first, b.n->kv.first)); }
static bool is_gap(const Tok& t) { return !!t.g; }
static EP el(const Tok& t) { return t.n->kv.second; }
// true when every element of the token is older than `cut`
static bool older(const Tok& t, const double& cut, const Tok* next) { if (t.n) return t.n->kv.first < cut; if (t.g->hashi && t.g->hi <= cut) return true; return next && next->n && next->n->kv.first <= cut; }
static bool not_older(const Tok& t, const double& cut) { return t.n ? !(t.n->kv.first < cut) : !(t.g->lo < cut); }
#else
typedef std::map<double, EP> Map;
struct Tok { EP e; };
typedef std::vector<Tok> View;
struct World { Box c; Map before, *m; Map cur;
  World() { int n = choose_n("size", 6); double t = 0; std::vector<int> order; for (int i = 0; i < n; ++i) order.push_back(i);
    std::vector<EP> es; for (int i = 0; i < n; ++i) { double d = sample_value("gap" + std::to_string(i), C().seed, 0, 1); d = (1 + std::floor(d * 4)) / 4; t += d; C().given["elem" + std::to_string(i)] = t; es.push_back(mkelem(t)); }
    for (int i = 0; i < n; ++i) std::swap(order[i], order[(int)sample_value("ord" + std::to_string(i), C().seed, i, n - 0.001)]);
    for (int i : order) { c.Insert(es[i]); before[es[i]->time] = es[i]; } m = nullptr; }
};
struct W0 { World w; };
static View view(const Map& m) { View v; for (auto& k : m) v.push_back(Tok{k.second}); return v; }
static bool tok_same(const Tok& a, const Tok& b) { return a.e == b.e; }
static bool is_gap(const Tok&) { return false; }
static EP el(const Tok& t) { return t.e; }
static bool older(const Tok& t, double cut, const Tok*) { return t.e->time < cut; }
static bool not_older(const Tok& t, double cut) { return !(t.e->time < cut); }
#endif
static View now(World& w) {
#ifdef VC_SYM
  return view(*w.m);
#else
  w.cur.clear(); for (auto i = w.c.GetIteratorBegin(); i != w.c.GetIteratorEnd(); ++i) w.cur[i->second->time] = i->second; return view(w.cur);
#endif
}
static bool same_view(const View& a, const View& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!tok_same(a[i], b[i])) return false; return true; }
static void unchanged(World& w) { ensure("content unchanged", same_view(now(w), view(w.before))); }
// stored under its own time, in strictly increasing order
static void ordered(World& w) {
  View v = now(w); bool ok = true; const Tok* last = nullptr;
#ifdef VC_SYM
  for (auto& k : v) { if (k.n) { if (!same(k.n->kv.first, k.n->kv.second->time)) ok = false; if (last && !(last->n->kv.first < k.n->kv.first)) ok = false; last = &k; }
    else if (last && k.g->haslo && k.g->lo < last->n->kv.first) ok = false; }
  for (size_t i = 0; i + 1 < v.size(); ++i) if (v[i].g && v[i + 1].n) { if (!v[i].g->hashi) ok = false; else if (v[i + 1].n->kv.first < v[i].g->hi) ok = false; }
#else
  for (auto i = w.c.GetIteratorBegin(); i != w.c.GetIteratorEnd(); ++i) if (i->first != i->second->time) ok = false;
#endif
  ensure("stored in time order under their own time", ok); }
static double query() { return var("t", -1, 6); }
static bool has_before(Map& m, double t, EP* e) { auto i = m.lower_bound(t); if (i == m.begin()) return false; --i; *e = i->second; return true; }
static bool has_after(Map& m, double t, EP* e) { auto i = m.upper_bound(t); if (i == m.end()) return false; *e = i->second; return true; }
static bool has_at(Map& m, double t, EP* e) { auto i = m.find(t); if (i == m.end()) return false; *e = i->second; return true; }
static void expect(World& w, const std::string& n, EP got, bool some, EP want) {
  if (some) ensure(n, got == want); else { ensure(n, got == w.c.GetInvalid()); ensure(n + ": invalid element carries the invalid time", got->time == msf_core::constants::INVALID_TIME); } }
// closest of the neighbours (earlier one on a tie)
static bool closest_of(Map& m, double t, EP* e) {
  if (has_at(m, t, e)) return true; EP b, a; bool hb = has_before(m, t, &b), ha = has_after(m, t, &a);
  if (hb && ha) { *e = (a->time - t) < (t - b->time) ? a : b; return true; }
  if (hb) *e = b; if (ha) *e = a; return hb || ha; }

VC_CASE(at) { W0 x; World& w = x.w; double t = query(); EP e; EP got = w.c.GetValueAt(t); bool s = has_at(w.before, t, &e);
  if (s) cover("found"); else cover("absent"); expect(w, "GetValueAt", got, s, e); unchanged(w); }
VC_CASE(before) { W0 x; World& w = x.w; double t = query(); EP e; EP got = w.c.GetClosestBefore(t);
  if (w.before.empty()) { expect(w, "GetClosestBefore of empty", got, false, e); cover("empty"); }
  else if (has_before(w.before, t, &e)) { expect(w, "GetClosestBefore", got, true, e); cover("some"); }
  else { expect(w, "GetClosestBefore: first when nothing is earlier", got, true, w.before.begin()->second); cover("first"); }
  unchanged(w); }
VC_CASE(after) { W0 x; World& w = x.w; double t = query(); EP e; EP got = w.c.GetClosestAfter(t); bool s = has_after(w.before, t, &e);
  if (s) cover("some"); else cover("none"); expect(w, "GetClosestAfter", got, s, e); unchanged(w); }
VC_CASE(closest) { W0 x; World& w = x.w; double t = query(); EP e; EP got = w.c.GetClosest(t); bool s = closest_of(w.before, t, &e);
  if (s) cover("some"); else cover("none"); if (!s) { expect(w, "GetClosest of empty", got, false, e); }
  else { ensure("GetClosest is an element at minimal distance", got == e || (got->time != e->time && fabs(got->time - t) == fabs(e->time - t))); ensure("GetClosest never invalid", got != w.c.GetInvalid()); } unchanged(w); }
VC_CASE(first_last) { W0 x; World& w = x.w; EP f = w.c.GetFirst(), l = w.c.GetLast(); bool some = !w.before.empty(); EP n;
  if (some) cover("some"); else cover("none");
  expect(w, "GetFirst", f, some, some ? w.before.begin()->second : n); expect(w, "GetLast", l, some, some ? std::prev(w.before.end())->second : n); unchanged(w); }
VC_CASE(it_before) { W0 x; World& w = x.w; double t = query(); auto i = w.c.GetIteratorClosestBefore(t); EP e;
  if (has_before(w.before, t, &e)) { ensure("GetIteratorClosestBefore", i != w.c.GetIteratorEnd() && i->second == e); cover("some"); }
  else { ensure("GetIteratorClosestBefore: end when nothing is earlier", i == w.c.GetIteratorEnd()); cover("none"); } unchanged(w); }
VC_CASE(it_after) { W0 x; World& w = x.w; double t = query(); auto i = w.c.GetIteratorClosestAfter(t); EP e;
  if (has_after(w.before, t, &e)) { ensure("GetIteratorClosestAfter", i != w.c.GetIteratorEnd() && i->second == e); cover("some"); }
  else { ensure("GetIteratorClosestAfter: end when nothing is later", i == w.c.GetIteratorEnd()); cover("none"); } unchanged(w); }
VC_CASE(it_closest) { W0 x; World& w = x.w; double t = query(); auto i = w.c.GetIteratorClosest(t); EP e;
  if (closest_of(w.before, t, &e)) { bool ok = i != w.c.GetIteratorEnd() && (i->second == e || fabs(i->second->time - t) == fabs(e->time - t)); ensure("GetIteratorClosest is at minimal distance", ok); cover("some"); }
  else { ensure("GetIteratorClosest: end when empty", i == w.c.GetIteratorEnd()); cover("none"); } unchanged(w); }
static void it_at(World& w, double t, typename Box::iterator_T i) { auto j = w.before.lower_bound(t);
  if (j != w.before.end()) { ensure("GetIteratorAtValue: the element or the next later one", i != w.c.GetIteratorEnd() && i->second == j->second); }
  else { ensure("GetIteratorAtValue: end when nothing is at or after", i == w.c.GetIteratorEnd()); } unchanged(w); }
VC_CASE(it_at_time) { W0 x; World& w = x.w; double t = query(); bool warn = choose("warn"); it_at(w, t, w.c.GetIteratorAtValue(t, warn)); if (has_at(w.before, t, new EP)) cover("exact"); else cover("next"); }
VC_CASE(it_at_elem) { W0 x; World& w = x.w; EP e = mkelem(query()); bool warn = choose("warn"); it_at(w, e->time, w.c.GetIteratorAtValue(e, warn)); if (has_at(w.before, e->time, new EP)) cover("exact"); else cover("next"); }
VC_CASE(bounds) { W0 x; World& w = x.w; auto b = w.c.GetIteratorBegin();
  if (w.before.empty()) { ensure("begin is end when empty", b == w.c.GetIteratorEnd()); cover("empty"); } else { ensure("begin is the first element", b->second == w.before.begin()->second); cover("some"); } unchanged(w); }
VC_CASE(insert) { W0 x; World& w = x.w; EP e = mkelem(pos_var("t", 0.1, 6)); EP old; auto i = w.c.Insert(e);
  if (has_at(w.before, e->time, &old)) { ensure("insert at an existing time keeps the stored element", i->second == old); unchanged(w); cover("existing"); }
  else { ensure("insert returns the new element", i->second == e); w.before.insert(Map::value_type(e->time, e)); ensure("exactly the new element is added", same_view(now(w), view(w.before))); cover("new"); }
  ordered(w); }
VC_CASE(clear) { W0 x; World& w = x.w; w.c.Clear(); ensure("clear empties", now(w).empty()); ensure("begin is end after clear", w.c.GetIteratorBegin() == w.c.GetIteratorEnd()); }
VC_CASE(clear_older) { W0 x; World& w = x.w; double age = pos_var("age", 0.1, 4);
  bool empty = w.before.empty(); double cut = 0; if (!empty) { cut = std::prev(w.before.end())->second->time; cut -= age; }
  w.c.ClearOlderThan(age);
  View a = now(w), b = view(w.before);
  if (empty) { ensure("cleaning an empty buffer", a.empty()); cover("empty"); return; }
  ensure("cleaning never empties the buffer", !a.empty() && !is_gap(a.back()) && el(a.back()) == std::prev(w.before.end())->second);
  bool suffix = a.size() <= b.size(); size_t k = suffix ? b.size() - a.size() : 0; for (size_t i = 0; suffix && i < a.size(); ++i) if (!tok_same(a[i], b[k + i])) suffix = false;
  ensure("only the oldest elements are removed", suffix); if (!suffix) return;
  bool old = true; for (size_t i = 0; i < k; ++i) if (!older(b[i], cut, i + 1 < b.size() ? &b[i + 1] : nullptr)) old = false;
  ensure("every removed element is older than the horizon", old);
  bool rest = true; for (size_t i = 1; i < a.size(); ++i) if (!not_older(a[i], cut)) rest = false;
  ensure("at most one element older than the horizon remains", rest && !is_gap(a[0]));
  if (k) cover("removed"); else cover("kept"); }
VC_CASE(update_time) { W0 x; World& w = x.w; double o = query(), n = pos_var("tnew", 0.1, 6); EP e, c;
  bool had = has_at(w.before, o, &e); if (!had) closest_of(w.before, o, &c);
  if (!had) {   // (the diagnostic prints the whole buffer: decided in the bounded run)
#ifdef VC_SYM
    assume(false);
#endif
  }
  EP r = w.c.UpdateTime(o, n);
  if (!had) { unchanged(w); return; }
  EP other; Map rest = w.before; rest.erase(o);
  if (has_at(rest, n, &other)) { ensure("re-timing onto an occupied time keeps the element stored there", r == other); ensure("the others stay", same_view(now(w), view(rest))); cover("collision"); }
  else { ensure("re-timed element is returned", r == e); ensure("it carries the new time", e->time == n); rest.insert(Map::value_type(n, e)); ensure("exactly this element moved", same_view(now(w), view(rest))); cover("moved"); }
  ordered(w); }
VC_CASE(fresh) {
#ifdef VC_SYM
  abstract_maps() = false;
#endif
  Box b; EP e = mkelem(1); ensure("a new buffer is empty", b.Size() == 0 && b.GetIteratorBegin() == b.GetIteratorEnd()); ensure("invalid element carries the invalid time", b.GetInvalid()->time == msf_core::constants::INVALID_TIME);
  ensure("INVALID_TIME is negative", msf_core::constants::INVALID_TIME < 0); b.Insert(e); ensure("size counts elements", b.Size() == 1); }
VC_MAIN
