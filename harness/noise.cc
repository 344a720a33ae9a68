#include "pose_state.h"
using namespace Eigen;
// the manager hands out symbolic noise for every non-core state
struct NMgr : Mgr {
  bool aux = false; mutable double got_dt = -1; mutable St* got = 0; mutable PMat want;
  template <int I> void blk(St& s, int at, int n) const { auto& B = s.GetQBlock<I>(); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) want(at + i, at + j) = B(i, j) = sym_real("B", -5, 5); }
  void CalculateQAuxiliaryStates(St& s, double dt) const override {
    got = &s; got_dt = dt; want.setZero(); if (!aux) return;
    blk<D::L>(s, 15, 1); blk<D::q_wv>(s, 16, 3); blk<D::p_wv>(s, 19, 3); blk<D::q_ic>(s, 22, 3); blk<D::p_ic>(s, 25, 3);
  }
};
static void fillState(St& s) {
  sv<D::p>(s) = symv3("p", 100); sv<D::v>(s) = symv3("v", 50); sv<D::q>(s) = symq("q"); sv<D::b_w>(s) = symv3("bw", 1); sv<D::b_a>(s) = symv3("ba", 5);
  sv<D::L>(s)(0) = sym_real("L", 0.01, 50); sv<D::q_wv>(s) = symq("qwv"); sv<D::p_wv>(s) = symv3("pwv", 100); sv<D::q_ic>(s) = symq("qic"); sv<D::p_ic>(s) = symv3("pic", 10); s.w_m = symv3("w", 10); s.a_m = symv3("a", 40);
}
// covariance after one interval that starts without uncertainty: the injected noise
static PMat noise(NMgr& m, const St& at, double dt) { Core& c = *m.msf_core_; StP o(new St), n(new St(at)); o->P.setZero(); n->P.setConstant(7); o->time = 50; n->time = 50 + dt; c.PredictProcessCovariance(o, n); return n->P; }
static bool core(int i) { return i < 15; }
// no noise: nothing is injected
ENTRY(h_noise_zero) { NMgr m; St s; fillState(s); PMat Q = noise(m, s, sym_real("dt", 1e-4, 0.5)); for (int i = 0; i < NE; i++) for (int j = 0; j < NE; j++) sym_eq(Q(i, j), 0, "no noise, no growth"); sym_reach("end"); }
ENTRY(h_noise_acc) {
  NMgr m; m.na = sym_real("na", 0, 3); St s; fillState(s); double dt = sym_real("dt", 1e-4, 0.5), q = m.na * m.na; PMat Q = noise(m, s, dt), W = PMat::Zero();
  for (int i = 0; i < 3; i++) { W(i, i) = q * dt * dt * dt / 3; W(i, 3 + i) = W(3 + i, i) = q * dt * dt / 2; W(3 + i, 3 + i) = q * dt; }
  for (int i = 0; i < NE; i++) for (int j = 0; j < NE; j++) sym_eq(Q(i, j), W(i, j), "noise of the accelerometer"); sym_reach("end");
}
ENTRY(h_noise_accbias) {
  NMgr m; m.nba = sym_real("nba", 0, 3); St s; fillState(s); double dt = sym_real("dt", 1e-4, 0.5), q = m.nba * m.nba; PMat Q = noise(m, s, dt), W = PMat::Zero(); Matrix3d C = s.Get<D::q>().toRotationMatrix();
  for (int i = 0; i < 3; i++) { W(3 + i, 3 + i) = q * dt * dt * dt / 3; W(12 + i, 12 + i) = q * dt; for (int j = 0; j < 3; j++) { W(i, 12 + j) = W(12 + j, i) = -C(i, j) * q * dt * dt * dt / 6; W(3 + i, 12 + j) = W(12 + j, 3 + i) = -C(i, j) * q * dt * dt / 2; } }
  for (int i = 0; i < NE; i++) for (int j = 0; j < NE; j++) sym_eq(Q(i, j), W(i, j), "random walk of the accelerometer bias"); sym_reach("end");
}
// derivatives at dt = 0 of the entries, exact for polynomials up to degree 5 that vanish at 0
struct Series { PMat d1, d2; double h; Series(NMgr& m, const St& s) { h = sym_real("h", 1e-4, 0.1); PMat f[6]; for (int k = 1; k <= 5; k++) f[k] = noise(m, s, k * h); d1 = 300 * f[1] - 300 * f[2] + 200 * f[3] - 75 * f[4] + 12 * f[5]; d2 = -154 * f[1] + 214 * f[2] - 156 * f[3] + 61 * f[4] - 10 * f[5]; } };
ENTRY(h_noise_gyrobias) {
  NMgr m; m.nbw = sym_real("nbw", 0, 3); St s; fillState(s); double q = m.nbw * m.nbw; Series S(m, s); double h = S.h; PMat W1 = PMat::Zero(), W2 = PMat::Zero();
  for (int i = 0; i < 3; i++) { W1(9 + i, 9 + i) = q; W2(6 + i, 9 + i) = W2(9 + i, 6 + i) = -q; }
  for (int i = 0; i < NE; i++) for (int j = 0; j < NE; j++) { sym_eq(S.d1(i, j), 60 * h * W1(i, j), "random walk of the gyro bias, first order"); sym_eq(S.d2(i, j), 12 * h * h * W2(i, j), "random walk of the gyro bias, second order"); }
  PMat Q = noise(m, s, h); for (int i = 0; i < 3; i++) { sym_eq(Q(9 + i, 9 + i), q * h, "random walk of the gyro bias"); sym_eq(Q(6 + i, 6 + i), q * h * h * h / 3, "gyro bias random walk in the attitude"); sym_eq(Q(6 + i, 9 + i), -q * h * h / 2, "gyro bias random walk in the attitude"); sym_eq(Q(9 + i, 6 + i), -q * h * h / 2, "gyro bias random walk in the attitude"); } sym_reach("end");
}
struct Gyro { NMgr m; St s; double q; Series* S; double h; Matrix3d CA; Gyro() { m.nw = sym_real("nw", 0, 3); fillState(s); q = m.nw * m.nw; S = new Series(m, s); h = S->h; Vector3d a = s.a_m - s.Get<D::b_a>(); Matrix3d A; A << 0, -a(2), a(1), a(2), 0, -a(0), -a(1), a(0), 0; CA = s.Get<D::q>().toRotationMatrix() * A; } };
static bool vel(int i, int j) { return (i >= 3 && i < 6 && j < 9) || (j >= 3 && j < 6 && i < 9); }
static bool att(int i, int j) { return i >= 6 && i < 9 && j >= 6 && j < 9; }
ENTRY(h_noise_gyro) { // everything except the coupling into the velocity
  Gyro g; for (int i = 0; i < NE; i++) for (int j = 0; j < NE; j++) if (!vel(i, j)) { sym_eq(g.S->d1(i, j), 60 * g.h * (i == j && att(i, j) ? g.q : 0), "gyro noise, first order"); if (!att(i, j)) sym_eq(g.S->d2(i, j), 0, "gyro noise, second order"); }
  sym_reach("end");
}
ENTRY(h_noise_gyro_vel) { Gyro g; for (int i = 0; i < NE; i++) for (int j = 0; j < NE; j++) if (vel(i, j)) sym_eq(g.S->d1(i, j), 0, "gyro noise on the velocity, first order"); sym_reach("end"); }
ENTRY(h_noise_gyro_vel2) {
  Gyro g; for (int i = 0; i < NE; i++) for (int j = 0; j < NE; j++) if (vel(i, j)) { double w = 0; if (i >= 3 && i < 6 && j >= 6) w = -g.CA(i - 3, j - 6); if (j >= 3 && j < 6 && i >= 6) w = -g.CA(j - 3, i - 6); sym_eq(g.S->d2(i, j), 12 * g.h * g.h * g.q * w, "gyro noise on the velocity, second order"); }
  sym_reach("end");
}
ENTRY(h_noise_gyro_att) { Gyro g; for (int i = 6; i < 9; i++) for (int j = 6; j < 9; j++) sym_eq(g.S->d2(i, j), 0, "gyro noise on the attitude, second order"); sym_reach("end"); }
// noise of the states the user adds, for an arbitrary time and covariance before
ENTRY(h_noise_aux) {
  NMgr m; m.aux = true; m.na = sym_real("na", 0, 3); m.nba = sym_real("nba", 0, 3); m.nbw = sym_real("nbw", 0, 3); St s; fillState(s); double dt = sym_real("dt", 1e-4, 0.5);
  Core& c = *m.msf_core_; StP o(new St), n(new St(s)); o->P.setZero(); n->P.setConstant(7); o->time = 50; n->time = 50 + dt; c.PredictProcessCovariance(o, n);
  sym_assert(m.got == n.get(), "noise is evaluated at the new state"); sym_eq(m.got_dt, dt, "and for the interval");
  for (int i = 0; i < NE; i++) for (int j = 0; j < NE; j++) if (!core(i) || !core(j)) sym_eq(n->P(i, j), m.want(i, j), "noise of the additional states is what the user set");
  sym_reach("end");
}
// consecutive intervals: no noise of an earlier interval is carried over
ENTRY(h_noise_again) {
  NMgr m; m.na = 2; m.nba = 1; m.nbw = .5; m.nw = .25; m.aux = true; St s; fillState(s); Core& c = *m.msf_core_; StP o(new St), n(new St(s)); o->P.setZero(); o->time = 50; n->time = 50.25; c.PredictProcessCovariance(o, n);
  m.na = m.nba = m.nw = m.nbw = 0; m.aux = false; n->GetQBlock<D::L>().setZero(); n->GetQBlock<D::q_wv>().setZero(); n->GetQBlock<D::p_wv>().setZero(); n->GetQBlock<D::q_ic>().setZero(); n->GetQBlock<D::p_ic>().setZero();
  c.PredictProcessCovariance(o, n); for (int i = 0; i < NE; i++) for (int j = 0; j < NE; j++) sym_eq(n->P(i, j), 0, "a repeated prediction uses the current noise only"); sym_reach("end");
}
// an interval that is empty or runs backwards is rejected
ENTRY(h_cov_reject) {
  NMgr m; Core& c = *m.msf_core_; m.na = m.nba = m.nw = m.nbw = 1; StP o(new St), n(new St); fillState(*n); double d = sym_choice("same time", 2) ? 0.0 : sym_real("d", 0.001, 20), t0 = sym_real("tp", 0, 99); o->time = 50; n->time = 50 - d; c.time_P_propagated = t0;
  for (int i = 0; i < NE; i++) for (int j = 0; j < NE; j++) { o->P(i, j) = sym_real("P", -9, 9); n->P(i, j) = sym_real("P", -9, 9); } PMat A = o->P, B = n->P;
  c.PredictProcessCovariance(o, n);
  for (int i = 0; i < NE; i++) for (int j = 0; j < NE; j++) { sym_eq(o->P(i, j), A(i, j), "older covariance untouched"); sym_eq(n->P(i, j), B(i, j), "no prediction backwards in time"); }
  sym_eq(c.time_P_propagated, t0, "time of the covariance untouched"); sym_reach("end");
}
// the covariance catches up over the buffered states
static void chain(bool oneStep) {
  NMgr m; Core& c = *m.msf_core_; m.na = .5; m.nba = .25; m.nw = .125; m.nbw = 1; const int N = 5; StP s[N], r[N]; static const double off[N] = {0, .25, .375, .75, 1};
  for (int i = 0; i < N; i++) { s[i].reset(new St); s[i]->time = 10 + off[i]; sv<D::q>(*s[i]) = Quaterniond(.5, .5, i % 2 ? .5 : -.5, .5); s[i]->w_m = Vector3d(i, 1, -i); s[i]->a_m = Vector3d(1, i, 9); s[i]->P.setZero(); for (int k = 0; k < NE; k++) s[i]->P(k, k) = sym_real("P", 0, 10); r[i].reset(new St(*s[i])); c.stateBuffer_.Insert(s[i]); }
  int a = sym_choice("from", N), b = sym_choice("to", N); c.time_P_propagated = s[a]->time; bool exact = oneStep ? true : sym_choice("exact", 2); StP to = s[b]; if (!exact) { to.reset(new St(*s[b])); to->time = s[b]->time + 0.0625; }
  if (oneStep) { b = a + 1 < N ? a + 1 : a; c.PropagatePOneStep(); } else c.PropPToState(to);
  sym_assert(c.time_P_propagated == s[b > a ? b : a]->time, "time of the covariance"); for (int i = a; i < b; i++) c.PredictProcessCovariance(r[i], r[i + 1]);
  for (int i = 0; i < N; i++) { for (int k = 0; k < NE; k++) for (int l = 0; l < NE; l++) sym_eq(s[i]->P(k, l), r[i]->P(k, l), "covariance of every state on the way, no other"); sym_assert(s[i]->time == 10 + off[i], "times kept"); }
  sym_reach("end");
}
ENTRY(h_cov_chain) { chain(false); }
ENTRY(h_cov_onestep) { chain(true); }
