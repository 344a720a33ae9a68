#include "filter_run.h"
static void noise(Mgr& m) { m.na = 0.5; m.nba = 0.25; }
// Readings from 10 s on, a hole, readings from 10 + hole on. Enough look-ups to make the periodic clean-up due, then one action.
struct Run {
  Filter f; double t[8], t0; std::vector<Imu> im; TM dup;
  // early readings around 300 - h, late ones from 300 on
  Run(int early, double h) { noise(f.m); t0 = 300 - h; f.begin(t0); double x = t0; for (int i = 0; i < 8; i++) { x = x + 0.0625; if (i == early) x = 300; t[i] = x; } im = imus(t0, t, 8); for (auto& i : im) f.imu(i); dup.reset(new TMeas(t[4] + 0.03, 0, 3)); f.core.AddMeasurement(dup); }
  void repeat(int n) { for (int i = 0; i < n; i++) f.core.AddMeasurement(dup); } // same time stamp: discarded
  void lookups(int n) { for (int i = 0; i < n; i++) f.core.GetClosestState(t[7]); }
  bool has(double x) { return f.core.GetStateAtTime(x)->time == x; }
};
static double symHole() { double h = sym_real("hole", 30, 200); sym_assume((h < 59.4) | (h > 60.6)); return h; }
// clean-up happens, discards what is older than a minute and nothing younger
ENTRY(h_buf_bounded) {
  double h = symHole(); Run r(4, h); r.repeat(110); r.lookups(110); r.repeat(1); bool old = h > 60;
  int n = 0; for (int i = 0; i < 4; i++) n += r.has(r.t[i]); if (r.has(r.t0)) n++;
  if (old) { sym_assert(n <= 1, "states older than a minute are eventually discarded"); sym_reach("old"); } else { sym_assert(n == 5, "states younger than a minute are kept"); sym_reach("young"); }
  for (int i = 4; i < 8; i++) sym_assert(r.has(r.t[i]), "states younger than a minute are kept");
  double x = r.t[7] + sym_real("gap", 0.004, 0.09); Imu nx; nx.t = x; nx.a = accel(1); nx.w = Filter::W(0); SMgr rm; StP y(new St(*r.f.m.prop)), z(new St); r.f.imu(nx); z->time = x; z->a_m = nx.a; z->w_m = nx.w; rm.msf_core_->PropagateState(y, z); eqState(*r.f.m.prop, *z, "prediction continues after the clean-up");
  TM m(new TMeas(r.t[6], 2)); r.f.core.AddMeasurement(m); sym_assert(m->applied == 1, "updates continue after the clean-up"); sym_assert(r.f.m.upd->time == x, "updates continue after the clean-up"); sym_reach("end");
}
// the clean-up becomes due while a measurement (recent or old) is being added
ENTRY(h_buf_during) {
  double h = symHole(); Run r(4, h); static const int ks[4] = {1, 3, 5, 6}; int k = ks[sym_choice("at", 4)]; TM a(new TMeas(r.t[5], 1)), b(new TMeas(r.t[k], 2)), d(new TMeas(r.t[7], 1)); r.f.core.AddMeasurement(a); int late = sym_choice("due", 4); if (sym_choice("by", 2)) r.repeat(97 + late); else r.lookups(97 + late);
  if (k == 5) b->time = r.t[5] - 0.03; r.f.core.AddMeasurement(b); r.f.core.AddMeasurement(d);
  if (k >= 4 || h < 60) { sym_assert(b->applied >= 1, "a measurement younger than a minute is applied"); sym_reach("young"); } else sym_reach("old");
  sym_assert(d->applied == 1, "the newest measurement is applied"); sym_assert(r.f.m.upd->time == r.t[7], "the newest state is published"); sym_reach("end");
}
// measurements are discarded as well: none older than a minute is kept
ENTRY(h_buf_meas) {
  double h = symHole(); Run r(4, h); TM a(new TMeas(r.t[1], 1, 7)), b(new TMeas(r.t[2], 1, 7)), c(new TMeas(r.t[5], 1, 7)), d(new TMeas(r.t[6], 1, 7)); r.f.core.AddMeasurement(a); r.f.core.AddMeasurement(b); r.f.core.AddMeasurement(c); r.f.core.AddMeasurement(d); r.repeat(110); r.lookups(110); r.repeat(1);
  bool gone = r.f.core.GetPreviousMeasurement(b->time, 7) != a; sym_assert(gone == (h > 60), "measurements older than a minute are discarded, younger ones kept"); sym_assert(r.f.core.GetPreviousMeasurement(d->time, 7) == c, "younger measurements are kept"); if (gone) sym_reach("old"); else sym_reach("young"); sym_reach("end");
}
