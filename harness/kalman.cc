#define STATE_HEADER "mini_statedef.h"
#include "pose_state.h"
using namespace Eigen;
typedef Matrix<double, NE, 1> EVec;
struct KMgr : Mgr { mutable EVec got; mutable int n = 0; void AugmentCorrectionVector(EVec& c) const override { got = c; n++; } };
// a measurement whose only purpose is to hand H, r, R to the update of the base class
struct Meas : msf_core::MSF_MeasurementBase<St> {
  Meas(bool mah, double thr) : msf_core::MSF_MeasurementBase<St>(true, 3, mah, thr) {}
  void Apply(boost::shared_ptr<St>, Core&) override {}
  std::string Type() override { return "m"; }
  template <class H, class R, class Q> void fixed(StP s, Core& c, const MatrixBase<H>& h, const MatrixBase<R>& r, const MatrixBase<Q>& q) { this->CalculateAndApplyCorrection(s, c, h, r, q); }
  void dyn(StP s, Core& c, const MatrixXd& h, const MatrixXd& r, const MatrixXd& q) { this->CalculateAndApplyCorrection(s, c, h, r, q); }
};
static StP prior(KMgr& m, bool symbolicAll) {
  m.msf_core_->initialized_ = true; m.msf_core_->predictionMade_ = true;
  StP s(new St); s->time = 5; sv<D::q>(*s) = Quaterniond(1, 0, 0, 0); sv<D::L>(*s)(0) = 1; s->P.setZero();
  (void)symbolicAll; return s;
}
template <int M> static Matrix<double, M, M> adj(const Matrix<double, M, M>& a, double& det);
template <> Matrix<double, 1, 1> adj<1>(const Matrix<double, 1, 1>& a, double& det) { det = a(0, 0); Matrix<double, 1, 1> r; r(0, 0) = 1; return r; }
template <> Matrix<double, 2, 2> adj<2>(const Matrix<double, 2, 2>& a, double& det) { det = a(0, 0) * a(1, 1) - a(0, 1) * a(1, 0); Matrix<double, 2, 2> r; r << a(1, 1), -a(0, 1), -a(1, 0), a(0, 0); return r; }
template <> Matrix<double, 3, 3> adj<3>(const Matrix<double, 3, 3>& a, double& det) {
  Matrix<double, 3, 3> r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { int a1 = (j + 1) % 3, a2 = (j + 2) % 3, b1 = (i + 1) % 3, b2 = (i + 2) % 3; r(i, j) = a(a1, b1) * a(a2, b2) - a(a1, b2) * a(a2, b1); }
  det = a(0, 0) * r(0, 0) + a(0, 1) * r(1, 0) + a(0, 2) * r(2, 0); return r;
}
// idx: the error states that carry a symbolic covariance and measurement row; the others have covariance 0 and H = 0 there
template <int M, int N> static void update(const int (&idx)[N], bool dyn, bool gate = false) {
  KMgr m; StP s = prior(m, false); Core& c = *m.msf_core_;
  for (int i = 0; i < NE; i++) s->P(i, i) = 1 + i;
  for (int i = 0; i < N; i++) for (int j = i; j < N; j++) { double x = i == j ? sym_real("Pd", 0.01, 10) : sym_real("P", -1, 1); s->P(idx[i], idx[j]) = s->P(idx[j], idx[i]) = x; }
  Matrix<double, M, NE> H = Matrix<double, M, NE>::Zero(); for (int r = 0; r < M; r++) for (int i = 0; i < N; i++) H(r, idx[i]) = sym_real("H", -3, 3);
  // every R is S - H P H' for some symmetric S, so S is the free variable
  Matrix<double, M, M> S = Matrix<double, M, M>::Zero(); for (int r = 0; r < M; r++) for (int k = r; k < M; k++) S(r, k) = S(k, r) = r == k ? sym_real("S", 0.5, 5) : sym_real("So", -0.2, 0.2);
  Matrix<double, M, M> R = S - (H * s->P * H.transpose()).eval();
  Matrix<double, M, 1> z; for (int r = 0; r < M; r++) z(r) = sym_real("r", -5, 5);
  PMat P0 = s->P; double det; Matrix<double, M, M> A = adj<M>(S, det);
  double thr = gate ? sym_real("thr", 0.1, 10) : 0; Meas me(gate, thr); EVec x0 = EVec::Zero(); (void)x0; const St before = *s; if (dyn) me.dyn(s, c, H, z, R); else me.fixed(s, c, H, z, R);
  if (gate) {
    double q = 0; for (int a = 0; a < M; a++) for (int b = 0; b < M; b++) q += z(a) * A(a, b) * z(b); // r' S^-1 r det
    sym_assert(m.n == 0 || m.n == 1, "at most one correction");
    if (m.n == 0) {
      sym_assert(q >= thr * thr * det, "only residuals beyond the threshold are rejected");
      for (int i = 0; i < NE; i++) for (int j = 0; j < NE; j++) sym_eq(s->P(i, j), P0(i, j), "a rejected measurement leaves the covariance");
      eqm(s->Get<D::p>(), before.Get<D::p>(), "a rejected measurement leaves the state"); eqm(s->Get<D::v>(), before.Get<D::v>(), "a rejected measurement leaves the state"); eqq(s->Get<D::q>(), before.Get<D::q>(), "a rejected measurement leaves the state");
      eqm(s->Get<D::b_w>(), before.Get<D::b_w>(), "a rejected measurement leaves the state"); eqm(s->Get<D::b_a>(), before.Get<D::b_a>(), "a rejected measurement leaves the state"); eqm(s->Get<D::L>(), before.Get<D::L>(), "a rejected measurement leaves the state");
      sym_reach("rejected"); return;
    }
    sym_assert(q <= thr * thr * det, "residuals beyond the threshold are rejected"); sym_reach("accepted");
  }
  sym_assert(m.n == 1, "one correction is applied");
  Matrix<double, NE, M> U = P0 * H.transpose(); Matrix<double, NE, M> UA = U * A;
  for (int i = 0; i < NE; i++) { double w = 0; for (int r = 0; r < M; r++) w += UA(i, r) * z(r); sym_eq(m.got(i) * det, w, "correction is K r with K = P H' (H P H' + R)^-1"); }
  for (int i = 0; i < NE; i++) for (int j = 0; j < NE; j++) {
    bool in = false; double w = 0; for (int r = 0; r < M; r++) w += UA(i, r) * U(j, r);
    (void)in; sym_eq(s->P(i, j) * det, P0(i, j) * det - w, "posterior covariance is (I - K H) P (I - K H)' + K R K'");
  }
  sym_reach("end");
}
static const int kAll4[4] = {0, 4, 8, 15}, kB4[4] = {2, 7, 11, 13}, kC3[3] = {1, 6, 15}, kD3[3] = {3, 9, 12}, kE2[2] = {6, 15};
ENTRY(h_kal_1) { if (sym_choice("which", 2)) update<1, 4>(kAll4, false); else update<1, 4>(kB4, false); }
ENTRY(h_kal_1d) { update<1, 4>(kAll4, true); }
ENTRY(h_kal_2) { if (sym_choice("which", 2)) update<2, 3>(kC3, false); else update<2, 3>(kD3, false); }
ENTRY(h_kal_3) { update<3, 2>(kE2, false); }
static const int kF1[1] = {4}, kF2[2] = {4, 15};
ENTRY(h_gate_1) { update<1, 2>(kF2, false, true); }
ENTRY(h_gate_2) { update<2, 1>(kF1, false, true); }
ENTRY(h_gate_1d) { update<1, 1>(kF1, true, true); }
ENTRY(h_gate_2d) { update<2, 1>(kF1, true, true); }
// an asymmetry of the prior, as rounding leaves it, does not survive an update
ENTRY(h_kal_sym) {
  KMgr m; StP s = prior(m, false); Core& c = *m.msf_core_; for (int i = 0; i < NE; i++) s->P(i, i) = 1 + i; static const int at[3][2] = {{0, 4}, {15, 8}, {2, 9}}; for (auto& k : at) { s->P(k[0], k[1]) = sym_real("P", -1, 1); s->P(k[1], k[0]) = sym_real("P", -1, 1); }
  Matrix<double, 1, NE> H = Matrix<double, 1, NE>::Zero(); H(0, 0) = 1; H(0, 9) = 2; Matrix<double, 1, 1> R, z; R << 1.5; z << 0; Meas me(false, 0); if (sym_choice("dyn", 2)) me.dyn(s, c, H, z, R); else me.fixed(s, c, H, z, R);
  for (int i = 0; i < NE; i++) for (int j = 0; j < i; j++) sym_eq(s->P(i, j), s->P(j, i), "the covariance is symmetric"); sym_reach("end");
}
