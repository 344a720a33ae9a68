#define STATE_HEADER "mini_statedef.h"
#include "pose_state.h"
using namespace Eigen;
typedef Matrix<double, NE, 1> EVec;
struct KMgr : Mgr { mutable EVec got; mutable int n = 0; void AugmentCorrectionVector(EVec& c) const override { got = c; n++; } };
struct Meas : msf_core::MSF_MeasurementBase<St> {
  Meas(int id, double t) : msf_core::MSF_MeasurementBase<St>(true, id, false, 0) { this->time = t; }
  void Apply(boost::shared_ptr<St>, Core&) override {}
  std::string Type() override { return "m"; }
  template <class H, class R, class Q> void rel(StP o, StP s, Core& c, const MatrixBase<H>& ho, const MatrixBase<H>& h, const MatrixBase<R>& r, const MatrixBase<Q>& q) { this->CalculateAndApplyCorrectionRelative(o, s, c, ho, h, r, q); }
};
// the previous measurement of the same sensor
ENTRY(h_prev) {
  KMgr m; Core& c = *m.msf_core_; const int N = 4; boost::shared_ptr<Meas> me[N]; int id[N];
  for (int i = 0; i < N; i++) { id[i] = sym_int("id", 1, 3); me[i].reset(new Meas(id[i], 10 + i)); }
  static const int order[3][4] = {{0, 1, 2, 3}, {3, 1, 0, 2}, {2, 3, 1, 0}}; int o = sym_choice("order", 3); for (int i = 0; i < N; i++) c.MeasurementBuffer_.Insert(me[order[o][i]]);
  int k = sym_choice("of", N), want = sym_int("sensor", 1, 3); auto p = c.GetPreviousMeasurement(10 + k, want); int last = -1; for (int i = 0; i < k; i++) if (id[i] == want) last = i;
  if (last < 0) sym_assert(p->time == msf_core::constants::INVALID_TIME, "no previous measurement of the sensor"); else sym_assert(p == me[last], "the latest earlier measurement of the sensor");
  sym_assert(c.GetPreviousMeasurement(10.5, want)->time == msf_core::constants::INVALID_TIME, "unknown time has no previous measurement"); sym_reach("end");
}
static void dense(PMat& F, int at, int n) { for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) F(at + i, at + j) = sym_real("F", -3, 3); }
// transition accumulated between two states of the buffer, in order of time
ENTRY(h_accum) {
  KMgr m; Core& c = *m.msf_core_; const int N = 4; StP s[N];
  for (int i = 0; i < N; i++) { s[i].reset(new St); s[i]->time = 10 + i; s[i]->Fd.setIdentity(); dense(s[i]->Fd, 0, 3); s[i]->Fd(2, 7) = sym_real("F", -3, 3); s[i]->Fd(7, 9) = sym_real("F", -3, 3); c.stateBuffer_.Insert(s[i]); }
  int a = sym_choice("from", N), b = a + sym_choice("steps", N); sym_assume(b < N); PMat F, W = PMat::Identity(); F.setConstant(7); c.GetAccumulatedStateTransitionStochasticCloning(s[a], s[b], F);
  for (int i = a; i < b; i++) { PMat T; for (int r = 0; r < NE; r++) for (int q = 0; q < NE; q++) { double v = 0; for (int k = 0; k < NE; k++) v += s[i]->Fd(r, k) * W(k, q); T(r, q) = v; } W = T; }
  for (int r = 0; r < NE; r++) for (int q = 0; q < NE; q++) sym_eq(F(r, q), W(r, q), "product of the transitions, later ones from the left"); sym_reach("end");
}
// update of the newer state by a measurement that relates it to the older one
template <int M> static Matrix<double, M, M> adj(const Matrix<double, M, M>& a, double& det);
template <> Matrix<double, 1, 1> adj<1>(const Matrix<double, 1, 1>& a, double& det) { det = a(0, 0); Matrix<double, 1, 1> r; r(0, 0) = 1; return r; }
template <> Matrix<double, 2, 2> adj<2>(const Matrix<double, 2, 2>& a, double& det) { det = a(0, 0) * a(1, 1) - a(0, 1) * a(1, 0); Matrix<double, 2, 2> r; r << a(1, 1), -a(0, 1), -a(1, 0), a(0, 0); return r; }
template <int M, int N> static void update(const int (&idx)[N]) {
  KMgr m; Core& c = *m.msf_core_; c.initialized_ = true; c.predictionMade_ = true; StP o(new St), s(new St); o->time = 10; s->time = 11; c.stateBuffer_.Insert(o); c.stateBuffer_.Insert(s); sv<D::q>(*s) = Quaterniond(1, 0, 0, 0); sv<D::L>(*s)(0) = 1;
  o->Fd.setIdentity(); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) if (i != j) o->Fd(idx[i], idx[j]) = sym_real("F", -2, 2);
  for (int w = 0; w < 2; w++) { PMat& P = w ? s->P : o->P; P.setZero(); for (int i = 0; i < NE; i++) P(i, i) = 1 + i; for (int i = 0; i < N; i++) for (int j = i; j < N; j++) P(idx[i], idx[j]) = P(idx[j], idx[i]) = i == j ? sym_real("Pd", 0.01, 10) : sym_real("P", -1, 1); }
  Matrix<double, M, NE> Ho = Matrix<double, M, NE>::Zero(), H = Ho; for (int r = 0; r < M; r++) for (int i = 0; i < N; i++) { Ho(r, idx[i]) = sym_real("Ho", -3, 3); H(r, idx[i]) = sym_real("H", -3, 3); }
  Matrix<double, M, M> S = Matrix<double, M, M>::Zero(); for (int r = 0; r < M; r++) for (int k = r; k < M; k++) S(r, k) = S(k, r) = r == k ? sym_real("S", 0.5, 5) : sym_real("So", -0.2, 0.2);
  PMat Po = o->P, Pn = s->P, X = o->Fd * Po; // X: covariance of the newer with the older state
  Matrix<double, M, M> HPH = Ho * Po * Ho.transpose() + H * X * Ho.transpose() + (H * X * Ho.transpose()).transpose() + H * Pn * H.transpose(), R = S - HPH; Matrix<double, M, 1> z; for (int r = 0; r < M; r++) z(r) = sym_real("r", -5, 5);
  double det; Matrix<double, M, M> A = adj<M>(S, det); Meas me(3, 11); me.rel(o, s, c, Ho, H, z, R);
  sym_assert(m.n == 1, "one correction is applied"); Matrix<double, NE, M> U = X * Ho.transpose() + Pn * H.transpose(), UA = U * A;
  for (int i = 0; i < NE; i++) { double w = 0; for (int r = 0; r < M; r++) w += UA(i, r) * z(r); sym_eq(m.got(i) * det, w, "optimal correction of the newer state"); }
  for (int i = 0; i < NE; i++) for (int j = 0; j < NE; j++) { double w = 0; for (int r = 0; r < M; r++) w += UA(i, r) * U(j, r); sym_eq(s->P(i, j) * det, Pn(i, j) * det - w, "posterior covariance of the newer state"); sym_eq(o->P(i, j), Po(i, j), "the older state keeps its covariance"); }
  sym_reach("end");
}
static const int kA[3] = {0, 4, 8}, kB[2] = {6, 15};
ENTRY(h_rel_update1) { update<1, 3>(kA); }
ENTRY(h_rel_update2) { update<2, 2>(kB); }
// an asymmetry of the prior, as rounding leaves it, does not survive an update
ENTRY(h_rel_sym) {
  KMgr m; Core& c = *m.msf_core_; c.initialized_ = true; c.predictionMade_ = true; StP o(new St), s(new St); o->time = 10; s->time = 11; c.stateBuffer_.Insert(o); c.stateBuffer_.Insert(s); sv<D::q>(*s) = Quaterniond(1, 0, 0, 0); sv<D::L>(*s)(0) = 1; o->Fd.setIdentity();
  for (int i = 0; i < NE; i++) o->P(i, i) = s->P(i, i) = 1 + i; static const int at[3][2] = {{0, 4}, {15, 8}, {2, 9}}; for (auto& k : at) { s->P(k[0], k[1]) = sym_real("P", -1, 1); s->P(k[1], k[0]) = sym_real("P", -1, 1); }
  Matrix<double, 1, NE> Ho = Matrix<double, 1, NE>::Zero(), H = Ho; Ho(0, 0) = -1; H(0, 0) = 1; H(0, 9) = 2; Matrix<double, 1, 1> R, z; R << 1.5; z << 0; Meas me(3, 11); me.rel(o, s, c, Ho, H, z, R);
  for (int i = 0; i < NE; i++) for (int j = 0; j < i; j++) sym_eq(s->P(i, j), s->P(j, i), "the covariance is symmetric"); sym_reach("end");
}
