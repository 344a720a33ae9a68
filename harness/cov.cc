#include "pose_state.h"
using namespace Eigen;
// one covariance prediction between two states with arbitrary content
static Matrix3d skew(const Vector3d& a) { Matrix3d s; s << 0, -a(2), a(1), a(2), 0, -a(0), -a(1), a(0), 0; return s; }
static void fillState(St& s, bool symbolic) {
  if (symbolic) {
    s.Get<D::p>(); sv<D::p>(s) = symv3("p", 100); sv<D::v>(s) = symv3("v", 50); sv<D::q>(s) = symq("q"); sv<D::b_w>(s) = symv3("bw", 1); sv<D::b_a>(s) = symv3("ba", 5);
    sv<D::L>(s)(0) = sym_real("L", 0.01, 50); sv<D::q_wv>(s) = symq("qwv"); sv<D::p_wv>(s) = symv3("pwv", 100); sv<D::q_ic>(s) = symq("qic"); sv<D::p_ic>(s) = symv3("pic", 10);
    s.w_m = symv3("w", 10); s.a_m = symv3("a", 40);
  } else {
    sv<D::q>(s) = Quaterniond(0.5, 0.5, -0.5, 0.5); sv<D::b_w>(s) = Vector3d(.25, .5, -.125); sv<D::b_a>(s) = Vector3d(-.5, .25, 1); s.w_m = Vector3d(1, -2, .5); s.a_m = Vector3d(3, -1, 9);
  }
}
// sum_{j=0..2} (-[w])^j dt^(n+j)/(n+j)!
static Matrix3d phi(int n, const Matrix3d& W, double dt) {
  Matrix3d r = Matrix3d::Zero(), p = Matrix3d::Identity(); double f = 1; for (int i = 1; i <= n; i++) f = f * dt / i;
  for (int j = 0; j <= 2; j++) { r += p * f; p = -(p * W); f = f * dt / (n + j + 1); } return r;
}
// error-state transition from the continuous error dynamics
static PMat transition(const St& n, double dt) {
  PMat F = PMat::Identity(); Matrix3d C = n.Get<D::q>().toRotationMatrix(); Vector3d ew = n.w_m - n.Get<D::b_w>(), ea = n.a_m - n.Get<D::b_a>(); Matrix3d W = skew(ew), CA = C * skew(ea), I = Matrix3d::Identity();
  F.block<3, 3>(0, 3) = dt * I; F.block<3, 3>(0, 6) = -CA * phi(2, W, dt); F.block<3, 3>(0, 9) = CA * phi(3, W, dt); F.block<3, 3>(0, 12) = -C * (dt * dt / 2);
  F.block<3, 3>(3, 6) = -CA * phi(1, W, dt); F.block<3, 3>(3, 9) = CA * phi(2, W, dt); F.block<3, 3>(3, 12) = -C * dt;
  F.block<3, 3>(6, 6) = phi(0, W, dt); F.block<3, 3>(6, 9) = -phi(1, W, dt);
  return F;
}
ENTRY(h_cov_transition) {
  Mgr m; Core& c = *m.msf_core_; StP o(new St), n(new St); fillState(*n, true);
  double dt = sym_real("dt", 1e-4, 0.5); o->time = 50; n->time = 50 + dt;
  c.PredictProcessCovariance(o, n);
  PMat F = transition(*n, dt);
  for (int i = 0; i < NE; i++) for (int j = 0; j < NE; j++) { sym_eq(o->Fd(i, j), F(i, j), i < 15 && j < 15 ? "error-state transition" : "auxiliary states do not couple"); }
  sym_assert(c.time_P_propagated == n->time, "covariance time advances"); sym_assert(m.q_calls >= 1, "auxiliary process noise is queried");
  sym_reach("end");
}
// P' = F P F^T + Q for arbitrary P; the transition is that of a fixed motion (its form is decided by h_cov_transition)
static void propagate(bool symbolicState) {
  Mgr m; Core& c = *m.msf_core_; StP o(new St), n(new St); fillState(*n, symbolicState);
  m.na = 0.5; m.nba = 0.25; m.nw = 0.125; m.nbw = 2;
  double dt = symbolicState ? sym_real("dt", 1e-4, 0.5) : 0.125; o->time = 50; n->time = 50 + dt;
  for (int i = 0; i < NE; i++) for (int j = i; j < NE; j++) o->P(i, j) = o->P(j, i) = sym_real("P", -10, 10);
  PMat P0 = o->P;
  for (int i = 0; i < NE; i++) for (int j = 0; j < NE; j++) n->P(i, j) = 77;
  c.PredictProcessCovariance(o, n);
  PMat F = o->Fd;
  for (int i = 0; i < NE; i++) for (int j = 0; j < NE; j++) {
    double s = 0; for (int k = 0; k < NE; k++) { double t = 0; for (int l = 0; l < NE; l++) t += F(i, l) * P0(l, k); s += t * F(j, k); }
    sym_eq(n->P(i, j), s + o->Qd(i, j), "covariance is F P F' + Q");
  }
  for (int i = 0; i < NE; i++) for (int j = 0; j < NE; j++) sym_eq(o->P(i, j), P0(i, j), "covariance of the older state untouched");
  sym_reach("end");
}
ENTRY(h_cov_propagate_all) { propagate(true); }
ENTRY(h_cov_propagate) { propagate(false); }
