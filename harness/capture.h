// Records what a measurement hands to the update of the base class, which is decided on its own (kalman.cc).
// Included after pose_state.h and before the header of the measurement under study.
#pragma once
struct Captured {
  int n = 0, nrel = 0; bool gate = false; double thr = 0; Eigen::MatrixXd H, r, R, Hold; StP s, sold;
};
inline Captured& cap() { static Captured c; return c; }
namespace msf_core {
template <> template <class H_type, class Res_type, class R_type>
void MSF_MeasurementBase<St>::CalculateAndApplyCorrection(shared_ptr<St> s, MSF_Core<St>&, const Eigen::MatrixBase<H_type>& H, const Eigen::MatrixBase<Res_type>& r, const Eigen::MatrixBase<R_type>& R) { Captured& c = cap(); c.n++; c.gate = enable_mah_outlier_rejection_; c.thr = mah_threshold_; c.H = H; c.r = r; c.R = R; c.s = s; }
template <>
inline void MSF_MeasurementBase<St>::CalculateAndApplyCorrection(shared_ptr<St> s, MSF_Core<St>&, const Eigen::MatrixXd& H, const Eigen::MatrixXd& r, const Eigen::MatrixXd& R) { Captured& c = cap(); c.n++; c.gate = enable_mah_outlier_rejection_; c.thr = mah_threshold_; c.H = H; c.r = r; c.R = R; c.s = s; }
template <> template <class H_type, class Res_type, class R_type>
void MSF_MeasurementBase<St>::CalculateAndApplyCorrectionRelative(shared_ptr<St> so, shared_ptr<St> s, MSF_Core<St>&, const Eigen::MatrixBase<H_type>& Ho, const Eigen::MatrixBase<H_type>& H, const Eigen::MatrixBase<Res_type>& r, const Eigen::MatrixBase<R_type>& R) { Captured& c = cap(); c.nrel++; c.gate = enable_mah_outlier_rejection_; c.thr = mah_threshold_; c.Hold = Ho; c.H = H; c.r = r; c.R = R; c.s = s; c.sold = so; }
}
// error state k of s moved by e: attitudes by a small rotation in their own frame, everything else by addition
struct Move {
  int k; double e; int at;
  template <class V> void operator()(V& v) const { Move* m = const_cast<Move*>(this); one(m->at, v.state_); }
  void one(int& a, Eigen::Quaterniond& q) const { if (k >= a && k < a + 3) { Eigen::Vector3d d(0, 0, 0); d(k - a) = e / 2; q = q * Eigen::Quaterniond(1, d(0), d(1), d(2)); } a += 3; }
  template <int N> void one(int& a, Eigen::Matrix<double, N, 1>& x) const { if (k >= a && k < a + N) x(k - a) += e; a += N; }
};
inline StP moved(const St& s, int k, double e) { StP t(new St(s)); Move m{k, e, 0}; boost::fusion::for_each(t->statevars, m); return t; }
inline Eigen::Matrix3d rot(const Eigen::Quaterniond& q) {
  Eigen::Matrix3d m; double w = q.w(), x = q.x(), y = q.y(), z = q.z();
  m << w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y), 2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x), 2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z; return m;
}
// covariance filled with distinct values; after the measurement exactly the cross-covariances of fixed states are zero
inline void fillP(PMat& P) { for (int i = 0; i < NE; i++) for (int j = 0; j < NE; j++) P(i, j) = 1 + (i < j ? i * NE + j : j * NE + i) / 1024.0; }
template <class F> inline void checkP(const PMat& P, F fixed) {
  PMat O; fillP(O);
  for (int i = 0; i < NE; i++) for (int j = 0; j < NE; j++) { int bi = fixed(i), bj = fixed(j); bool cleared = bi != bj; sym_eq(P(i, j), cleared ? 0.0 : O(i, j), cleared ? "covariances between a fixed state and others are cleared" : "other covariances are kept"); }
}
