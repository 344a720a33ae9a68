#include "msf_common.h"
#include <msf_core/msf_sortedContainer.h>
#undef private
#undef protected
// A timed item; the container under test only relies on the member `time`.
struct Item { double time; int id; Item() : time(0), id(-1) {} Item(double t, int i) : time(t), id(i) {} };
typedef msf_core::SortedContainer<Item> C;
typedef boost::shared_ptr<Item> P;
#ifndef NMAX
#define NMAX 4
#endif
struct Box {
  C c; int n; double t[NMAX + 1]; P p[NMAX + 1]; bool kept[NMAX + 1];
  // inserts n items with arbitrary time stamps, in arbitrary order; kept = first one at its time
  void fill(int lo, int hi, bool distinct) {
    n = lo + sym_choice("n", hi - lo + 1);
    for (int i = 0; i < n; i++) {
      t[i] = sym_real("t", 1, 1000); p[i].reset(new Item(t[i], i)); kept[i] = true;
      for (int j = 0; j < i; j++) { if (distinct) sym_assume(t[i] != t[j]); else if (kept[j] && t[j] == t[i]) kept[i] = false; }
    }
  }
  void insertAll() { for (int i = 0; i < n; i++) c.Insert(p[i]); }
};
static void checkSorted(C& c, const char* m) { bool first = true; double last = 0; for (C::iterator_T it = c.GetIteratorBegin(); it != c.GetIteratorEnd(); ++it) { sym_assert(it->first == it->second->time, m); if (!first) sym_assert(last < it->second->time, m); last = it->second->time; first = false; } }
ENTRY(h_cont_insert) {
  Box b; b.fill(0, NMAX, false);
  for (int i = 0; i < b.n; i++) {
    C::iterator_T it = b.c.Insert(b.p[i]);
    sym_assert(it != b.c.GetIteratorEnd(), "insert returns a valid position");
    sym_assert(it->second->time == b.t[i], "insert returns the element at the inserted time");
    sym_assert((it->second == b.p[i]) == b.kept[i], "the first element at a time is kept, later ones are discarded");
  }
  checkSorted(b.c, "iteration is strictly ascending in time");
  int cnt = 0; for (int i = 0; i < b.n; i++) if (b.kept[i]) cnt++;
  sym_assert((int)b.c.Size() == cnt, "one element per distinct time");
  int seen = 0; for (C::iterator_T it = b.c.GetIteratorBegin(); it != b.c.GetIteratorEnd(); ++it) { seen++; int id = it->second->id; sym_assert(id >= 0 && id < b.n && b.kept[id] && it->second == b.p[id], "only inserted elements are stored"); }
  sym_assert(seen == cnt, "iteration visits every element");
  double mn = 2000, mx = 0; for (int i = 0; i < b.n; i++) { if (b.t[i] < mn) mn = b.t[i]; if (b.t[i] > mx) mx = b.t[i]; }
  if (b.n) { sym_assert(b.c.GetFirst()->time == mn, "first"); sym_assert(b.c.GetLast()->time == mx, "last"); }
  else { sym_assert(b.c.GetFirst()->time == msf_core::constants::INVALID_TIME && b.c.GetLast()->time == msf_core::constants::INVALID_TIME, "empty container answers invalid"); sym_assert(b.c.GetFirst() == b.c.GetInvalid(), "empty container answers invalid"); }
  b.c.Clear(); sym_assert(b.c.Size() == 0, "clear empties"); sym_assert(b.c.GetLast() == b.c.GetInvalid(), "clear empties");
  sym_reach("end");
}
static double dist(double a, double b) { return a < b ? b - a : a - b; }
ENTRY(h_cont_lookup) {
  Box b; b.fill(0, NMAX, true); b.insertAll();
  double q = sym_real("q", 1, 1000); C& c = b.c; int n = b.n;
  int at = -1, bef = -1, aft = -1, first = -1;
  for (int i = 0; i < n; i++) {
    if (b.t[i] == q) at = i;
    else if (b.t[i] < q) { if (bef < 0 || b.t[i] > b.t[bef]) bef = i; }
    else { if (aft < 0 || b.t[i] < b.t[aft]) aft = i; }
    if (first < 0 || b.t[i] < b.t[first]) first = i;
  }
  P inv = c.GetInvalid(); sym_assert(inv->time == msf_core::constants::INVALID_TIME, "invalid object is marked");
  sym_assert(c.GetValueAt(q) == (at >= 0 ? b.p[at] : inv), "exact lookup");
  sym_assert(c.GetClosestAfter(q) == (aft >= 0 ? b.p[aft] : inv), "closest after");
  sym_assert(c.GetClosestBefore(q) == (bef >= 0 ? b.p[bef] : n ? b.p[first] : inv), "closest before");
  P key(new Item(q, 99));
  C::iterator_T i1 = c.GetIteratorAtValue(q), i2 = c.GetIteratorAtValue(key, false);
  int want = at >= 0 ? at : aft;
  sym_assert(i1 == i2, "lookup by time and by object agree");
  sym_assert(want < 0 ? i1 == c.GetIteratorEnd() : (i1 != c.GetIteratorEnd() && i1->second == b.p[want]), "iterator at value");
  C::iterator_T ia = c.GetIteratorClosestAfter(q);
  sym_assert(aft < 0 ? ia == c.GetIteratorEnd() : (ia != c.GetIteratorEnd() && ia->second == b.p[aft]), "iterator after");
  if (bef >= 0) { C::iterator_T ib = c.GetIteratorClosestBefore(q); sym_assert(ib != c.GetIteratorEnd() && ib->second == b.p[bef], "iterator before"); }
  P g = c.GetClosest(q);
  C::iterator_T ic = c.GetIteratorClosest(q);
  if (n == 0) { sym_assert(g == inv && ic == c.GetIteratorEnd(), "closest of an empty container"); }
  else {
    sym_assert(g != inv, "closest is an element"); sym_assert(ic != c.GetIteratorEnd(), "closest iterator is an element");
    for (int i = 0; i < n; i++) { sym_assert(dist(g->time, q) <= dist(b.t[i], q), "closest object is at minimal distance"); sym_assert(dist(ic->second->time, q) <= dist(b.t[i], q), "closest iterator is at minimal distance"); }
  }
  sym_assert((int)c.Size() == n, "lookups do not modify"); sym_reach("end");
}
ENTRY(h_cont_clear) {
  Box b; b.fill(1, NMAX, true); b.insertAll(); C& c = b.c;
  double age = sym_real("age", 0.001, 1000), newest = 0; for (int i = 0; i < b.n; i++) if (b.t[i] > newest) newest = b.t[i];
  c.ClearOlderThan(age);
  checkSorted(c, "order kept"); int old = 0, in = 0;
  for (int i = 0; i < b.n; i++) {
    bool present = c.GetValueAt(b.t[i]) == b.p[i];
    if (b.t[i] >= newest - age) sym_assert(present, "elements younger than the age stay"); else if (present) old++;
    if (present) { in++; for (int j = 0; j < b.n; j++) if (b.t[j] > b.t[i]) sym_assert(c.GetValueAt(b.t[j]) == b.p[j], "removal is a prefix in time"); }
  }
  sym_assert(old <= 1, "at most the closest older element stays"); sym_assert((int)c.Size() == in, "nothing else is stored"); sym_reach("end");
}
ENTRY(h_cont_retime) {
  Box b; b.fill(1, NMAX, true); b.insertAll(); C& c = b.c;
  double from = sym_real("from", 1, 1000), to = sym_real("to", 1, 1000); int k = -1, taken = -1;
  for (int i = 0; i < b.n; i++) { if (b.t[i] == from) k = i; if (b.t[i] == to) taken = i; }
  sym_assume(taken < 0 || taken == k);
  P r = c.UpdateTime(from, to);
  checkSorted(c, "order restored"); sym_assert((int)c.Size() == b.n, "no element lost or duplicated");
  if (k < 0) { for (int i = 0; i < b.n; i++) { sym_assert(c.GetValueAt(b.t[i]) == b.p[i], "unknown time leaves the container alone"); sym_assert(dist(r->time, from) <= dist(b.t[i], from), "unknown time answers the closest element"); } }
  else {
    sym_assert(r == b.p[k] && r->time == to && c.GetValueAt(to) == b.p[k], "element found under its new time");
    for (int i = 0; i < b.n; i++) if (i != k) sym_assert(c.GetValueAt(b.t[i]) == b.p[i] && b.p[i]->time == b.t[i], "other elements untouched");
  }
  sym_reach("end");
}
// a minute of readings at 200 Hz and one element at an arbitrary time
#ifndef LARGE
#define LARGE 12800
#endif
static double slot(int i) { return 100 + i / 256.0; }
ENTRY(h_cont_large) {
  C c; double t = sym_real("t", slot(LARGE / 2) + 0.001, slot(LARGE / 2) + 0.0035); for (int i = 0; i < LARGE; i++) c.Insert(P(new Item(slot(i), i))); c.Insert(P(new Item(t, LARGE)));
  sym_assert((int)c.Size() == LARGE + 1, "one element per distinct time"); int i = 0; for (C::iterator_T it = c.GetIteratorBegin(); it != c.GetIteratorEnd(); ++it) { if (it->second->id == LARGE) { sym_assert(i == LARGE / 2 + 1, "iteration is strictly ascending in time"); continue; } if (it->second->id != i || it->first != slot(i)) break; i++; }
  sym_assert(i == LARGE, "every inserted element is kept, in order of time"); sym_assert(c.GetFirst()->id == 0 && c.GetLast()->id == LARGE - 1, "first and last"); sym_reach("end");
}
ENTRY(h_cont_clear_large) {
  C c; for (int i = 0; i < LARGE; i++) c.Insert(P(new Item(slot(i), i))); double age = sym_real("age", 40, 40.01); c.ClearOlderThan(age); double newest = slot(LARGE - 1); int first = c.GetFirst()->id, i = first; sym_assert(first >= 0 && first < LARGE, "elements stay"); if (first > 0) sym_assert(newest - slot(first - 1) >= age, "elements younger than the age stay"); if (first + 1 < LARGE) sym_assert(newest - slot(first + 1) <= age, "at most one older element stays");
  for (C::iterator_T it = c.GetIteratorBegin(); it != c.GetIteratorEnd(); ++it) { if (it->second->id != i) break; i++; } sym_assert(i == LARGE && (int)c.Size() == LARGE - first, "the rest stays in order"); sym_reach("end");
}
