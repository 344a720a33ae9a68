#include "filter_run.h"
#ifndef N
#define N 5
#endif
#ifndef W2
#define W2 2
#endif
static void times(double* t, int n, double x = 10) { for (int i = 0; i < n; i++) { x = x + sym_real("gap", 0.004, 0.09); t[i] = x; } }
static const double MS = 0.00105; // readings and measurements closer than a millisecond are treated as one instant
static void apart(double a, double b) { sym_assume((a - b > MS) | (b - a > MS)); }
// strictly inside interval w of the readings
static void inside(double tm, int w, const double* t, double t0 = 10) { sym_assume(tm - (w ? t[w - 1] : t0) > MS); sym_assume(t[w] - tm > MS); }
static void noise(Mgr& m) { m.na = 0.5; m.nba = 0.25; }
// compares every state from the measurement on, and the covariance of the newest
static void compare(Filter& f, const std::vector<Imu>& im, std::vector<TM> ms, bool cov) {
  SMgr rm; noise(rm); std::vector<StP> tr; StP e = inOrder(*rm.msf_core_, f.start, im, ms, &tr); double newest = im.back().t;
  for (size_t i = 0; i < im.size(); i++) eqState(*f.core.GetStateAtTime(im[i].t), *tr[i], "every state is the one obtained by applying everything in time order");
  sym_assert(f.m.prop && f.m.prop->time == newest, "the newest state is published");
  if (cov) { StP last = f.core.GetClosestState(newest); eqm(last->P, e->P, "the newest covariance is the one obtained by applying everything in time order"); }
}
// N IMU readings at arbitrary times, one measurement at an arbitrary time (on a reading or at least 1 ms away from all), arriving after any of the last readings.
static void run(int where, int arrive) { // where: interval index the measurement lies in, or 10 + index of the reading it coincides with
  double t[N]; times(t, N); Filter f; noise(f.m); f.begin(10); auto im = imus(10, t, N);
  double tm; if (where >= 10) tm = t[where - 10]; else { tm = sym_real("tm", 10, 11); inside(tm, where, t); }
  TM x(new TMeas(tm, sym_real("g", -2, 2)));
  for (int i = 0; i < N; i++) { f.imu(im[i]); if (i == arrive) f.core.AddMeasurement(x); }
  sym_assert(x->applied == 1, "the measurement is applied exactly once"); sym_assert(x->at == tm, "the measurement is applied to the state of its own time");
  compare(f, im, {x}, true);
  sym_assert(f.m.pub_upd == 1, "one update is published");
  if (arrive == N - 1) sym_assert(f.m.upd == f.core.GetStateAtTime(t[N - 1]), "the update is published at the newest state");
  sym_reach("end");
}
ENTRY(h_late_between) { int w = sym_choice("interval", N); int a = 2 + sym_choice("arrival", N - 2); run(w, a); }
ENTRY(h_late_on) { int w = sym_choice("reading", N); int a = 2 + sym_choice("arrival", N - 2); run(10 + w, a); }
// several measurements arriving in any order, at any of their positions
static void many(int k) {
  double t[N]; times(t, N); Filter f; noise(f.m); f.begin(10); auto im = imus(10, t, N); std::vector<TM> ms; std::vector<int> arr, wi;
  for (int i = 0; i < k; i++) {
    int w = N - W2 + sym_choice("interval", W2); wi.push_back(w); double tm = sym_real("tm", 10, 11); inside(tm, w, t); for (auto& o : ms) apart(tm, o->time);
    ms.push_back(TM(new TMeas(tm, i + 1))); arr.push_back(N - 2 + sym_choice("arrival", 2)); if (i) sym_assume(arr[i] >= arr[i - 1] && !(arr[0] == N - 2 && arr[1] == N - 2 && wi[0] == N - 1 && wi[1] == N - 1)); // two waiting measurements: h_future_two
  }
  for (int i = 0; i < N; i++) { f.imu(im[i]); for (int j = 0; j < k; j++) if (arr[j] == i) { int u = f.m.pub_upd; f.core.AddMeasurement(ms[j]); sym_assert(f.m.pub_upd <= u + 1, "at most one update is published per measurement"); } }
  if (ms[k - 1]->applied) sym_reach("applied");
  // a measurement is applied again whenever an earlier one arrives after it
  bool all = true; for (auto& m : ms) if (!m->applied) all = false;
  if (all) { compare(f, im, ms, wi[0] != wi[1]); for (auto& m : ms) sym_assert(m->at == m->time, "every measurement is applied to the state of its own time"); }
  sym_assert(all, "every measurement is applied"); sym_reach("end");
}
ENTRY(h_late_two) { many(2); }
// arbitrary readings at fixed times
ENTRY(h_late_readings) {
  double t[N]; for (int i = 0; i < N; i++) t[i] = 10 + 0.0625 * (i + 1); Filter f; noise(f.m); f.begin(10); auto im = imus(10, t, N); for (int i = 0; i < N; i++) { im[i].a = symv3("a", 20); im[i].w = Vector3d(.5 * i, 1 - .25 * i * i, .125 * i); }
  int w = 2 + sym_choice("interval", 3); double tm = 10 + 0.0625 * w + 0.015625; TM x(new TMeas(tm, 0.5));
  for (int i = 0; i < N; i++) f.imu(im[i]); f.core.AddMeasurement(x);
  sym_assert(x->applied == 1, "the measurement is applied exactly once");
  eqm(x->am, (im[w - 1].a + (im[w].a - im[w - 1].a) * 0.25).eval(), "readings at the measurement time are interpolated linearly"); eqm(x->wm, (im[w - 1].w + (im[w].w - im[w - 1].w) * 0.25).eval(), "readings at the measurement time are interpolated linearly");
  SMgr rm; noise(rm); StP e = inOrder(*rm.msf_core_, f.start, im, {x}, nullptr);
  eqState(*f.m.upd, *e, "every state is the one obtained by applying everything in time order"); sym_reach("end");
}
// a measurement closer than 1 ms to a reading is applied to the state of that reading
ENTRY(h_late_snap) {
  double t[N]; times(t, N); Filter f; noise(f.m); f.begin(10); auto im = imus(10, t, N); int k = sym_choice("reading", N); double off = sym_real("off", -0.001, 0.001), tm = t[k] + off; sym_assume(off < 0.00095 && off > -0.00095 && tm <= t[N - 1]); TM x(new TMeas(tm, 1));
  for (int i = 0; i < N; i++) f.imu(im[i]); f.core.AddMeasurement(x);
  sym_assert(x->applied == 1, "the measurement is applied exactly once"); sym_assert(x->at == t[k], "a measurement within a millisecond of a reading is applied to its state");
  x->time = t[k]; compare(f, im, {x}, false); sym_reach("end");
}
// two measurements, the second within 1 ms of a reading (on either side), the first arriving after it
ENTRY(h_late_two_snap) {
  double t[N]; times(t, N); Filter f; noise(f.m); f.begin(10); auto im = imus(10, t, N); int k = N - 2 + sym_choice("reading", 2); double off = sym_real("off", -0.001, 0.001), ty = t[k] + off; sym_assume(off < 0.00095 && off > -0.00095 && ty <= t[N - 1]);
  TM y(new TMeas(ty, 1)); double tx = sym_real("tm", 10, 11); inside(tx, k - 1, t); TM x(new TMeas(tx, 2));
  for (int i = 0; i < N; i++) f.imu(im[i]); f.core.AddMeasurement(y); f.core.AddMeasurement(x);
  sym_assert(x->applied == 1 && y->applied == 2, "both measurements are applied in time order"); sym_assert(y->at == t[k], "a measurement within a millisecond of a reading is applied to its state");
  y->time = t[k]; compare(f, im, {x, y}, true); sym_reach("end");
}
// two or three measurements within 1 ms of one reading, arriving in any order, perhaps with one applied before
ENTRY(h_late_same) {
  double t[N]; times(t, N); Filter f; noise(f.m); f.begin(10); auto im = imus(10, t, N); int k = N - 2 + sym_choice("reading", 2), n = 2 + sym_choice("three", 2); std::vector<TM> ms; double o[3];
  for (int i = 0; i < n; i++) { o[i] = sym_real("off", -0.001, 0.001); sym_assume((o[i] < 0.00095) & (o[i] > -0.00095) & (t[k] + o[i] <= t[N - 1])); for (int j = 0; j < i; j++) sym_assume((o[i] - o[j] > 0.00001) | (o[j] - o[i] > 0.00001)); ms.push_back(TM(new TMeas(t[k] + o[i], 1 + i))); }
  for (int i = 0; i < N; i++) f.imu(im[i]); for (auto& m : ms) f.core.AddMeasurement(m);
  for (auto& m : ms) { sym_assert(m->applied >= 1 && m->at == t[k], "a measurement within a millisecond of a reading is applied to its state"); }
  // all have the same instant: their (constant) corrections add up
  std::vector<TM> sum(1, TM(new TMeas(t[k], 0))); for (auto& m : ms) { sum[0]->c += m->c; sum[0]->k += m->k; }
  compare(f, im, sum, true); sym_assert(f.m.pub_upd == n, "one update is published per measurement"); sym_reach("end");
}
// ---- S02
ENTRY(h_future_one) {
  const int M = N + 1; double t[M]; times(t, M); Filter f; noise(f.m); f.begin(10); auto im = imus(10, t, M); double tm = sym_real("tm", 10, 11); sym_assume(tm > t[2]); for (int i = 0; i < M; i++) apart(tm, t[i]); TM x(new TMeas(tm, 1));
  for (int i = 0; i < M; i++) {
    f.imu(im[i]); if (i == 2) f.core.AddMeasurement(x);
    if (t[i] < tm) { sym_assert(x->applied == 0, "a measurement is not applied before the IMU readings reach its time"); sym_reach("waiting"); } else { sym_assert(x->applied == 1, "a waiting measurement is applied as soon as the IMU readings pass its time, and once"); sym_reach("done"); }
  }
  if (x->applied) { compare(f, im, {x}, true); sym_assert(f.m.pub_upd == 1, "one update is published"); } else { compare(f, im, {}, true); sym_assert(f.m.pub_upd == 0, "no update is published while waiting"); }
  sym_reach("end");
}
// three waiting measurements in any order: one is looked at per reading, so each is applied at the latest with the third reading from the one that reaches it
ENTRY(h_future_three) {
  const int M = N + 3; double t[M]; for (int i = 0; i < M; i++) t[i] = 10 + 0.0625 * (i + 1); Filter f; noise(f.m); f.begin(10); auto im = imus(10, t, M); std::vector<TM> ms; int wi[3];
  static const int order[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}, where[4][3] = {{3, 3, 3}, {3, 3, 4}, {3, 4, 4}, {3, 4, 5}}; int o = sym_choice("order", 6), h = sym_choice("places", 4);
  for (int i = 0; i < 3; i++) { int k = order[o][i], w = wi[i] = where[h][k]; double tm = sym_real("tm", 10, 11), lo = t[w - 1] + 0.005 + 0.02 * k; sym_assume((tm > lo) & (tm < lo + 0.01)); ms.push_back(TM(new TMeas(tm, i + 1))); }
  for (int i = 0; i < M; i++) { f.imu(im[i]); if (i == 2) for (auto& m : ms) f.core.AddMeasurement(m); for (int j = 0; j < 3; j++) { if (i < wi[j]) sym_assert(ms[j]->applied == 0, "a measurement is not applied before the IMU readings reach its time"); if (i >= wi[j] + 2) sym_assert(ms[j]->applied >= 1, "a waiting measurement is applied in its turn"); } }
  sym_assert(f.m.pub_upd == 3, "one update is published per measurement"); compare(f, im, ms, wi[0] != wi[1] && wi[1] != wi[2] && wi[0] != wi[2]); sym_reach("end");
}
// a measurement that arrives many readings and many measurements later
ENTRY(h_late_far) {
  const int M = 400, K = 40; double t[M]; for (int i = 0; i < M; i++) t[i] = 10 + 0.03125 * (i + 1); Filter f; noise(f.m); f.begin(10); auto im = imus(10, t, M); std::vector<TM> ms; double g = sym_real("g", -1, 1); TM late(new TMeas(t[5] + 0.0078125, 1)); late->c *= g;
  for (int i = 0; i < M; i++) { f.imu(im[i]); if (i % 10 == 9) { TM x(new TMeas(t[i], 1)); x->c *= 0.125 * (1 + i % 3); ms.push_back(x); f.core.AddMeasurement(x); } }
  int before = f.m.pub_upd; f.core.AddMeasurement(late); sym_assert(late->applied == 1, "the measurement is applied exactly once"); for (auto& m : ms) sym_assert(m->applied == 2, "each measurement after a late one is applied again, once"); sym_assert(f.m.pub_upd == before + 1, "one update is published"); ms.push_back(late); compare(f, im, ms, true); sym_reach("end");
}
// many waiting measurements, in an order unrelated to their times
ENTRY(h_future_many) {
  const int K = 24, M = 3 + 2 * K; double t[M]; for (int i = 0; i < M; i++) t[i] = 10 + 0.03125 * (i + 1); Filter f; noise(f.m); f.begin(10); auto im = imus(10, t, M); std::vector<TM> ms; int wi[K], stride = sym_choice("order", 2) ? 1 : 7; double g = sym_real("g", -1, 1);
  for (int i = 0; i < K; i++) { int k = i * stride % K; wi[i] = 3 + k; ms.push_back(TM(new TMeas(t[2 + k] + 0.0078125, 1))); ms[i]->c *= g * (1 + k % 3); }
  for (int i = 0; i < M; i++) { f.imu(im[i]); if (i == 2) for (auto& m : ms) f.core.AddMeasurement(m); for (int j = 0; j < K; j++) { if (i < wi[j]) sym_assert(ms[j]->applied == 0, "a measurement is not applied before the IMU readings reach its time"); if (i >= wi[j] + K - 1) sym_assert(ms[j]->applied >= 1, "a waiting measurement is applied in its turn"); } }
  sym_assert(f.m.pub_upd == K, "one update is published per measurement"); compare(f, im, ms, false); sym_reach("end");
}
ENTRY(h_future_two) {
  const int M = N + 2; double t[M]; times(t, M); Filter f; noise(f.m); f.begin(10); auto im = imus(10, t, M); std::vector<TM> ms; int wi[2];
  for (int i = 0; i < 2; i++) { double tm = sym_real("tm", 10, 11); int w = wi[i] = 3 + sym_choice("interval", 2); inside(tm, w, t); for (auto& o : ms) apart(tm, o->time); ms.push_back(TM(new TMeas(tm, i + 1))); }
  for (int i = 0; i < M; i++) { f.imu(im[i]); if (i == 2) for (auto& m : ms) f.core.AddMeasurement(m); for (auto& m : ms) if (t[i] < m->time) sym_assert(m->applied == 0, "a measurement is not applied before the IMU readings reach its time"); }
  bool all = ms[0]->applied && ms[1]->applied; sym_assert(all, "no waiting measurement is lost"); if (all) compare(f, im, ms, wi[0] != wi[1]); sym_reach("end");
}
ENTRY(h_too_old) {
  double t[N]; times(t, N); Filter f; noise(f.m); f.begin(10); auto im = imus(10, t, N); double tm = sym_real("tm", 1, 10); sym_assume(tm < 10); TM x(new TMeas(tm, 1));
  for (int i = 0; i < N; i++) { f.imu(im[i]); if (i == N - 2) f.core.AddMeasurement(x); }
  sym_assert(x->applied == 0, "a measurement older than all states is rejected"); sym_assert(f.m.pub_upd == 0, "a rejected measurement publishes nothing"); compare(f, im, {}, true);
  TM y(new TMeas(t[N - 1], 2)); f.core.AddMeasurement(y); sym_assert(x->applied == 0 && y->applied == 1, "a rejected measurement stays out"); compare(f, im, {y}, true); sym_reach("end");
}
ENTRY(h_duplicate) {
  double t[N]; times(t, N); Filter f; noise(f.m); f.begin(10); auto im = imus(10, t, N); double tm = sym_real("tm", 10, 11); inside(tm, 1, t); int same = sym_choice("same sensor", 2);
  TM x(new TMeas(tm, 1, 1)), y(new TMeas(tm, 5, same ? 1 : 2)); for (int i = 0; i < N; i++) f.imu(im[i]); f.core.AddMeasurement(x); int u = f.m.pub_upd; f.core.AddMeasurement(y);
  sym_assert(x->applied == 1 && y->applied == 0, "of two measurements with the same time the first is applied, once"); sym_assert(u == 1, "one update is published"); compare(f, im, {x}, true);
  TM z(new TMeas(10, 2)); f.core.AddMeasurement(z); sym_assert(z->applied == 1 && y->applied == 0, "the discarded measurement stays out"); compare(f, im, {x, z}, true); sym_reach("end");
}
ENTRY(h_no_state_near) { // the readings have a hole: a measurement inside it has no state within 0.1 s
  double t[N]; times(t, N); Filter f; noise(f.m); f.begin(10); double hole = sym_real("hole", 0.3, 2); t[N - 1] = t[N - 2] + hole; auto im = imus(10, t, N); double tm = sym_real("tm", 10, 13); sym_assume(tm > t[N - 2] && tm < t[N - 1] && tm - t[N - 2] > 0.1 && t[N - 1] - tm > 0.1);
  TM x(new TMeas(tm, 1)); for (int i = 0; i < N; i++) f.imu(im[i]); f.core.AddMeasurement(x); sym_assert(x->applied == 0, "a measurement with no state within 0.1 s is not applied"); sym_assert(f.m.pub_upd == 0, "nothing is published"); compare(f, im, {}, false); sym_reach("end");
}
// the readings have a hole: an unmatched measurement inside it, whether it arrives before or after a late one, does not keep the late one from reaching the newest state
ENTRY(h_late_hole) {
  const int M = N + 2; double t[M]; times(t, N - 1); double x = t[N - 2] + sym_real("hole", 0.3, 2); for (int i = N - 1; i < M; i++) { t[i] = x; x = x + sym_real("gap", 0.004, 0.09); }
  Filter f; noise(f.m); f.begin(10); auto im = imus(10, t, M); double th = sym_real("th", 10, 13); sym_assume((th - t[N - 2] > 0.1) & (t[N - 1] - th > 0.1)); TM y(new TMeas(th, 1));
  int w = N - 3 + sym_choice("interval", 2); double tm = sym_real("tm", 10, 11); inside(tm, w, t); TM z(new TMeas(tm, 2)); bool first = sym_bool("first");
  for (int i = 0; i < M; i++) f.imu(im[i]); if (first) f.core.AddMeasurement(y); f.core.AddMeasurement(z); if (!first) f.core.AddMeasurement(y);
  sym_assert(y->applied == 0 && z->applied == 1, "only the measurement with a state near it is applied"); sym_assert(f.m.pub_upd == 1, "one update is published"); compare(f, im, {z}, true); sym_reach("end");
}
ENTRY(h_not_ready) { // before initialisation and before the first predictions measurements have no effect
  double t[N]; times(t, N); Filter f; noise(f.m); TM x(new TMeas(10, 1)), y(new TMeas(10, 2)); f.core.AddMeasurement(x); Imu i0; i0.t = 9; i0.a = accel(0); i0.w = Filter::W(0); f.imu(i0); sym_assert(f.m.pub_prop == 0, "no prediction before initialisation");
  f.begin(10); auto im = imus(10, t, N); f.core.AddMeasurement(y); f.imu(im[0]); f.core.AddMeasurement(y); for (int i = 1; i < N; i++) f.imu(im[i]);
  sym_assert(x->applied == 0 && y->applied == 0, "measurements have no effect before the first predictions"); compare(f, im, {}, true); sym_reach("end");
}
