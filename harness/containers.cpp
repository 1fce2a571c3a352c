// The ring buffer and the list against a plain sequence: any state (capacity, rotation, fill), then any two operations.
// case = kind * 1000 + capacity: 0 circular_buffer, 1 array_list without growth, 2 array_list with growth, 3 operations that must be refused
#include "vf.h"
#include <deque>
#include "circular_buffer.h"
#include "array_list.h"
typedef std::deque<double> Seq;
struct Item { double v; long tag; Item() : v(0), tag(-1) {} Item(double v, long t) : v(v), tag(t) {} };
static long tagc = 0;
static Item fresh() { double d = vf_double(-1e6, 1e6, "item"); return Item(d, ++tagc); }
typedef std::deque<Item> IS;
static bool eq(const Item &a, const Item &b) { return vf_and(a.v == b.v, a.tag == b.tag); }
template <class B> static void same(const B &b, const IS &m, int cap, const char *w) {
  vf_assert(b.count() == (int)m.size(), "number of items"); vf_assert(b.get_max_size() == cap, "capacity"); bool r = true;
  for (size_t i = 0; i < m.size(); i++) { r = vf_and(r, eq(b[(int)i], m[i])); r = vf_and(r, eq(b.get((int)i), m[i])); } vf_assert(r, w); vf_reach("sequence judged"); }
template <class B> static void rotate(B &b, int r) { for (int i = 0; i < r; i++) { b.push_front(Item(7, 7)); b.pop_back(); } }
static int grown(int cap, int need) { while (cap < need) cap *= 2; return cap; }
template <class B> static void drive(B &b, int cap, int ring, bool grow) {
  int r = vf_choose(cap, "rotation"), n = vf_choose(cap + 1, "fill"); IS m; rotate(b, r);
  for (int i = 0; i < n; i++) { Item x = fresh(); b.push_front(x); m.push_front(x); }
  same(b, m, cap, "items pushed to the front");
  for (int k = 0; k < 2; k++) {
    int op = vf_choose(8, "op"); 
    if (op == 0) { Item x = fresh(); bool full = (int)m.size() == cap; if (full && !ring && !grow) return; if (full && !ring) cap *= 2; if (full && ring) m.pop_back(); m.push_front(x); b.push_front(x); }
    else if (op == 1) { Item x = fresh(); bool full = (int)m.size() == cap; if (full && !ring && !grow) return; if (full && !ring) cap *= 2; if (full && ring) m.pop_front(); m.push_back(x); b.push_back(x); }
    else if (op == 2) { if (m.empty()) return; Item x = b.pop_front(); vf_assert(eq(x, m.front()), "the front item is returned"); m.pop_front(); }
    else if (op == 3) { if (m.empty()) return; Item x = b.pop_back(); vf_assert(eq(x, m.back()), "the back item is returned"); m.pop_back(); }
    else if (op == 4) { b.clear(); m.clear(); }
    else if (op == 5) { int lo = m.empty() ? 1 : (int)m.size(), s = lo + vf_choose(cap + 3 - lo, "size"); b.resize(s); cap = s; }
    else if (op == 6) { if (m.empty()) return; int i = vf_choose((int)m.size(), "index"); Item x = fresh(); b[i] = x; m[i] = x; }
    else if (op == 7) { int oc = k ? cap + 1 : 1 + vf_choose(cap + 2, "other"); B o(oc); int orr = k ? 1 : vf_choose(oc, "orot"), on = k ? cap : vf_choose(oc + 1, "ofill"); rotate(o, orr); IS om; for (int i = 0; i < on; i++) { Item x = fresh(); o.push_front(x); om.push_front(x); } b.copy(o); m = om; if (oc > cap) cap = oc; same(b, m, cap, "a copy holds the same items in the same order"); same(o, om, oc, "copying leaves the source alone"); }
    same(b, m, cap, "the items are those of a plain sequence");
  }
  if (ring) { for (int i = 0; i < cap + 1; i++) { Item x = fresh(); if ((int)m.size() == cap) m.pop_back(); m.push_front(x); b.push_front(x); same(b, m, cap, "the items are those of a plain sequence"); } }
}
static void ringextra(int cap) {   // initialise and grow with a filling item
  circular_buffer<Item> b(cap); Item d = fresh(); b.initialize(d); IS m; same(b, m, cap, "initialised"); for (int i = 0; i < cap; i++) vf_assert(eq(b[i], d), "initialising fills every slot");
  int n = vf_choose(cap + 1, "fill"), r = vf_choose(cap, "rotation"); rotate(b, r); for (int i = 0; i < n; i++) { Item x = fresh(); b.push_front(x); m.push_front(x); }
  int s = cap + vf_choose(4, "more"); Item f = fresh(); b.resize(s, f); same(b, m, s, "growing keeps the items"); for (int i = n; i < s; i++) vf_assert(eq(b[i], f), "growing fills the new slots"); vf_reach("sequence judged"); }
template <class F> static void refuse(F f, const char *w) { try { f(); } catch (const std::exception &) { vf_reach("refused"); return; } vf_assert(false, w); }
extern "C" void vf_main(void) {
  long cs = vf_case(); int cap = cs % 1000; vf_reach("containers");
  switch (cs / 1000) {
  case 0: { circular_buffer<Item> b(cap); drive(b, cap, 1, false); break; }
  case 1: { array_list<Item> b(cap); drive(b, cap, 0, false); break; }
  case 2: { array_list<Item> b; int c = b.get_max_size(); int r = vf_choose(3, "r") * 24, n = c - 2 + vf_choose(3, "n"); rotate(b, r); IS m; bool front = vf_choose(2, "front"); for (int i = 0; i < n; i++) { Item x(i * 0.5, i); if (i >= n - 3) x = fresh(); if (front) { b.push_front(x); m.push_front(x); } else { b.push_back(x); m.push_back(x); } }
      int g = c; for (int i = 0; i < cap; i++) { Item x = fresh(); bool f = vf_choose(2, "side"); if ((int)m.size() == g) g *= 2; if (f) { b.push_front(x); m.push_front(x); } else { b.push_back(x); m.push_back(x); } same(b, m, g, "a growing list keeps its items"); } break; }
  case 3: { int r = vf_choose(3, "rotation"); if (cap == 0 || cap == 1) { circular_buffer<Item> b(3); rotate(b, r); refuse([&] { if (cap) b.pop_front(); else b.pop_back(); }, "an empty ring gives nothing"); }
      else if (cap < 4) { array_list<Item> b(3); rotate(b, r); refuse([&] { if (cap == 2) b.pop_front(); else b.pop_back(); }, "an empty list gives nothing"); }
      else { array_list<Item> b(3); rotate(b, r); for (int i = 0; i < 3; i++) b.push_back(fresh()); Item x = fresh(); refuse([&] { if (cap == 4) b.push_front(x); else b.push_back(x); }, "a full list of fixed size refuses more"); } break; }
  case 4: ringextra(cap); break;
  }
}
