#include "filter_run.h"
static void noise(Mgr& m) { m.na = 0.5; m.nba = 0.25; }
static void times(double* t, int n, double x = 10) { for (int i = 0; i < n; i++) { x = x + sym_real("gap", 0.004, 0.09); t[i] = x; } }
static void compare(Filter& f, const St& start, const std::vector<Imu>& im, std::vector<TM> ms) {
  SMgr rm; noise(rm); StP e = inOrder(*rm.msf_core_, start, im, ms, nullptr); eqState(*f.core.GetStateAtTime(im.back().t), *e, "prediction continues from the right state"); StP last = f.core.GetClosestState(im.back().t); eqm(last->P, e->P, "covariance prediction continues from the right state");
}
static double sq(const Vector3d& a) { return a(0) * a(0) + a(1) * a(1) + a(2) * a(2); }
// one arbitrary reading among five: a magnitude above 50 never enters a state
static void spike(bool twice) {
  const int n = 5; double t[n]; for (int i = 0; i < n; i++) t[i] = 10 + 0.0625 * (i + 1); Filter f; noise(f.m); f.begin(10); auto im = imus(10, t, n); for (int i = 0; i < n; i++) im[i].w = Vector3d(.25, .125 * i, -.0625 * i); int k = sym_choice("index", twice ? n - 1 : n); im[k].a = symv3("a", 80); if (twice) im[k + 1].a = Vector3d(60, 1, 2);
  double n0 = sq(im[k].a); sym_assume((n0 > 2501) | (n0 < 2499)); std::vector<Vector3d> used; used.push_back(f.start.a_m);
  for (int i = 0; i < n; i++) {
    f.imu(im[i]); sym_assert(f.m.pub_prop == i + 1, "every reading is used for prediction"); const Vector3d u = f.m.prop->a_m; eqm(f.m.prop->w_m, im[i].w, "rates are used as they are");
    sym_assert(f.m.prop->time == t[i], "every reading gives a state at its time");
    if (i == k && n0 > 2500 || (twice && i == k + 1)) { sym_assert(sq(u) <= 2500, "an acceleration spike never enters the state"); eqm(u, used.back(), "a spike is replaced by the reading accepted just before it"); sym_reach("spike"); }
    else { eqm(u, im[i].a, "an acceleration that is not a spike is used as it is"); sym_reach("normal"); }
    used.push_back(u);
  }
  sym_reach("end");
}
ENTRY(h_imu_spike) { spike(false); }
ENTRY(h_imu_spike2) { spike(true); }
// a time gap before the first predictions restarts at the last state, with its content
ENTRY(h_imu_gap) {
  const int n = 6; double t[n]; int k = sym_choice("at", 3); double g = sym_real("big gap", -5, 5); sym_assume((g > 0.1001) | (g < -0.1001)); if (k) sym_assume(g > 0.1001); double x = 10; for (int i = 0; i < n; i++) { x = x + (i == k ? g : sym_real("gap", 0.004, 0.09)); t[i] = x; }
  Filter f; noise(f.m); f.begin(10); auto im = imus(10, t, n); for (int i = 0; i < k; i++) f.imu(im[i]);
  St before = k ? *f.core.GetStateAtTime(t[k - 1]) : f.start; if (k) before = *f.core.GetClosestState(t[k - 1]); int p = f.m.pub_prop; f.imu(im[k]); sym_assert(f.m.pub_prop == p, "no prediction over a large gap before the first predictions");
  before.time = t[k]; std::vector<Imu> rest(im.begin() + k + 1, im.end()); for (auto& i : rest) f.imu(i);
  compare(f, before, rest, {}); if (g > 0) sym_reach("forward"); else sym_reach("backward");
  if (n - k - 1 >= 3) { TM m(new TMeas(t[n - 1], 2)); f.core.AddMeasurement(m); if (m->applied) { compare(f, before, rest, {m}); sym_reach("measured"); } }
  sym_reach("end");
}
// no gap: nothing is restarted
ENTRY(h_imu_nogap) { const int n = 5; double t[n]; times(t, n); double g = sym_real("last gap", 0.004, 3); t[n - 1] = t[n - 2] + g; Filter f; noise(f.m); f.begin(10); auto im = imus(10, t, n); for (auto& i : im) f.imu(i); sym_assert(f.m.pub_prop == n, "every reading is predicted"); compare(f, f.start, im, {}); sym_reach("end"); }
// time running backwards by more than 10 ms after predictions: the filter stops until it is initialised again
ENTRY(h_imu_backwards) {
  const int n = 5; double t[n]; times(t, n); Filter f; noise(f.m); f.begin(10); auto im = imus(10, t, n); for (auto& i : im) f.imu(i); double b = sym_real("back", 0, 9); sym_assume((b > 0.01001) | ((b < 0.0099) & (b > 0.0001))); for (int i = 0; i < n; i++) { double d = t[n - 1] - b - t[i]; sym_assume((d > 0.0001) | (d < -0.0001)); }
  Imu late = im[n - 1]; late.t = t[n - 1] - b; int p = f.m.pub_prop; f.imu(late); bool reset = b > 0.01;
  if (reset) {
    sym_assert(f.m.pub_prop == p, "no prediction with a reading from the past"); Imu nx = im[n - 1]; nx.t = t[n - 1] + 0.01; f.imu(nx); sym_assert(f.m.pub_prop == p, "no prediction until initialised again");
    TM m(new TMeas(t[n - 1], 1)); f.core.AddMeasurement(m); sym_assert(m->applied == 0 && f.m.pub_upd == 0, "no update until initialised again");
    f.begin(late.t); double t2[4]; for (int i = 0; i < 4; i++) t2[i] = late.t + 0.0625 * (i + 1); auto im2 = imus(late.t, t2, 4); for (auto& i : im2) f.imu(i); compare(f, f.start, im2, {}); sym_reach("reset");
  } else { Imu nx = im[n - 1]; nx.t = t[n - 1] + 0.02; f.imu(nx); sym_assert(f.m.prop->time == nx.t, "a small disorder does not stop the filter"); sym_reach("tolerated"); }
  sym_reach("end");
}
// a repeated time stamp changes nothing
ENTRY(h_imu_repeat) {
  const int n = 5; double t[n]; times(t, n); Filter f; noise(f.m); f.begin(10); auto im = imus(10, t, n); int k = sym_choice("which", n); for (int i = 0; i < n; i++) { f.imu(im[i]); if (i == k) { Imu d = im[i]; d.a = symv3("a", 10); f.imu(d); } }
  compare(f, f.start, im, {}); sym_reach("end");
}
// re-initialisation forgets everything
ENTRY(h_reinit) {
  const int n = 4; double t[n]; times(t, n); Filter f; noise(f.m); f.begin(10); auto im = imus(10, t, n); for (auto& i : im) f.imu(i); int q = sym_choice("waiting", 2); TM w(new TMeas(t[n - 1] + 0.02, 3)), b(new TMeas(t[n - 2], 5)); if (q) f.core.AddMeasurement(w); f.core.AddMeasurement(b); int nb = b->applied;
  double t0 = sym_real("t0", 8, 12), t2[n]; times(t2, n, t0); f.begin(t0); auto im2 = imus(t0, t2, n); for (auto& i : im2) f.imu(i); TM m(new TMeas(t2[0], 2)); f.core.AddMeasurement(m);
  sym_assert(w->applied == 0 && b->applied == nb && m->applied == 1, "measurements from before an initialisation are forgotten"); compare(f, f.start, im2, {m}); sym_reach("end");
}
// a reading that is not a number: the filter stops once the prediction has reached it, until it is initialised again
ENTRY(h_imu_nan) {
  const int n = 5; double t[n]; times(t, n); Filter f; noise(f.m); f.begin(10); auto im = imus(10, t, n); int lag = sym_choice("late", 3); int k = lag ? 4 : sym_choice("index", n), c = sym_choice("component", 6); (c < 3 ? im[k].a : im[k].w)(c % 3) = NAN;
  for (int i = 0; i < k; i++) f.imu(im[i]); if (lag) { TM w(new TMeas(t[k - 1 - lag], 2)); f.core.AddMeasurement(w); sym_assert(w->applied == 1, "applied"); }
  for (int i = 0; i <= lag; i++) { f.imu(im[k]); im[k].t += 0.0625; }
  Imu nx = imus(10, t, n)[0]; nx.t = im[k].t; int p = f.m.pub_prop, u = f.m.pub_upd; f.imu(nx); sym_assert(f.m.pub_prop == p, "no prediction until initialised again");
  TM m(new TMeas(t[0], 1)); f.core.AddMeasurement(m); sym_assert(m->applied == 0 && f.m.pub_upd == u, "no update until initialised again");
  double t0 = nx.t + 1; f.begin(t0); double t2[4]; for (int i = 0; i < 4; i++) t2[i] = t0 + 0.0625 * (i + 1); auto im2 = imus(t0, t2, 4); TM x(new TMeas(t2[2], 3)); for (auto& i : im2) f.imu(i);  f.core.AddMeasurement(x); sym_assert(x->applied == 1, "measurements count again"); compare(f, f.start, im2, {x}); sym_reach(lag ? "lag" : "now"); sym_reach("end");
}
