#include "pose_state.h"
#include <msf_core/msf_tools.h>
using namespace Eigen;
typedef Matrix<double, NE, 1> EVec;
// Fills the 30-entry reference with a known attitude by 30 neutral corrections, then applies one arbitrary correction.
static const double kq[4] = {0.5, -0.5, 0.5, 0.5};
static void base(St& s) {
  sv<D::p>(s) = Vector3d(1, 2, 3); sv<D::v>(s) = Vector3d(4, 5, 6); sv<D::q>(s) = Quaterniond(1, 0, 0, 0); sv<D::b_w>(s) = Vector3d(.1, .2, .3); sv<D::b_a>(s) = Vector3d(.4, .5, .6);
  sv<D::L>(s)(0) = 2; sv<D::q_wv>(s) = Quaterniond(kq[0], kq[1], kq[2], kq[3]); sv<D::p_wv>(s) = Vector3d(7, 8, 9); sv<D::q_ic>(s) = Quaterniond(1, 0, 0, 0); sv<D::p_ic>(s) = Vector3d(-1, -2, -3); s.time = 3;
}
static void run(int extra, int odd) {
  Mgr m; Core& c = *m.msf_core_; c.initialized_ = true; c.predictionMade_ = true; double thr = sym_real("thr", 0.01, 3);
  for (int i = 0; i < 30 + extra; i++) {
    StP s(new St); base(*s); if (odd && i % 30 < odd) sv<D::q_wv>(*s) = Quaterniond(0, 0, 0, 1); // a minority of outliers in the reference
    EVec z = EVec::Zero(); bool f0 = c.isfuzzyState_; c.ApplyCorrection(s, z, 1e6); sym_assert(c.isfuzzyState_ == f0, "a consistent drift attitude is not flagged");
  }
  sym_assert(!c.isfuzzyState_, "not flagged while the reference is collected");
  StP s(new St); base(*s); EVec d = EVec::Zero(); if (sym_choice("the same attitude by the opposite quaternion", 2)) sv<D::q_wv>(*s).coeffs() *= -1;
  for (int i = 0; i < 6; i++) d(i) = sym_real("dpv", -1, 1); for (int i = 9; i < 16; i++) d(i) = sym_real("db", -0.05, 0.05);
  for (int i = 16; i < 19; i++) d(i) = sym_real("dq", -0.9, 0.9); for (int i = 19; i < 22; i++) d(i) = sym_real("dpw", -1, 1); for (int i = 25; i < 28; i++) d(i) = sym_real("dpi", -1, 1);
  int ax = sym_choice("largest axis", 3); double sg = sym_choice("its sign", 2) ? -1 : 1; for (int i = 1; i < 3; i++) sym_assume((sg * d(16 + ax) >= d(16 + (ax + i) % 3)) & (sg * d(16 + ax) >= -d(16 + (ax + i) % 3)));
  const EVec d0 = d; const St o = *s; c.ApplyCorrection(s, d, thr); const St& S = *s;
  // relative rotation between the corrected drift attitude q (x) dq and the reference q: dq*, whose vector part is -dtheta/2
  // (the axis and the direction of the largest component are chosen beforehand)
  double n = (d0(16) * d0(16) + d0(17) * d0(17) + d0(18) * d0(18)) / 4, w = std::sqrt(1 - n), mx = sg * d0(16 + ax);
  // flagged iff 2 max|v| / |w| > thr  <=>  mx > thr w
  if (c.isfuzzyState_) sym_assert(mx >= thr * w, "flagged only beyond the threshold"); else sym_assert(mx <= thr * w, "flagged whenever the deviation exceeds the threshold");
  eqm(S.Get<D::p>(), (o.Get<D::p>() + d0.segment<3>(0)).eval(), "propagated states keep their correction"); eqm(S.Get<D::v>(), (o.Get<D::v>() + d0.segment<3>(3)).eval(), "propagated states keep their correction");
  double k = c.isfuzzyState_ ? 0 : 1; const char* msg = "all other states are restored when flagged and corrected otherwise";
  eqm(S.Get<D::b_w>(), (o.Get<D::b_w>() + k * d0.segment<3>(9)).eval(), msg); eqm(S.Get<D::b_a>(), (o.Get<D::b_a>() + k * d0.segment<3>(12)).eval(), msg); sym_eq(S.Get<D::L>()(0), o.Get<D::L>()(0) + k * d0(15), msg);
  eqm(S.Get<D::p_wv>(), (o.Get<D::p_wv>() + k * d0.segment<3>(19)).eval(), msg); eqm(S.Get<D::p_ic>(), (o.Get<D::p_ic>() + k * d0.segment<3>(25)).eval(), msg);
  if (c.isfuzzyState_) { eqq(S.Get<D::q_wv>(), o.Get<D::q_wv>(), msg); sym_reach("fuzzy"); } else sym_reach("ok");
  sym_reach("end");
}
ENTRY(h_fuzzy) { run(0, 0); }
ENTRY(h_fuzzy_wrap) { run(31, 0); }
ENTRY(h_fuzzy_median) { run(1, 9); }
// A sequence of n neutral corrections of a state with the given drift attitude; every one must be flagged or not as told.
static void feed(Core& c, int n, const Quaterniond& q, double thr, bool flagged, const char* msg) {
  for (int i = 0; i < n; i++) { StP s(new St); base(*s); sv<D::q_wv>(*s) = q; EVec z = EVec::Zero(); z(12) = 0.5; c.isfuzzyState_ = false; c.ApplyCorrection(s, z, thr); sym_assert(c.isfuzzyState_ == flagged, msg); sym_eq(const_cast<const St&>(*s).Get<D::b_a>()(0), flagged ? 0.4 : 0.9, msg); }
}
// rotations by half-angles with rational sine and cosine about z: 2 tan(half) = 0 (A), 0.2857 (B), 0.5455+ (C)
static Quaterniond rot(int k) { double t = k / 7.0, c = (1 - t * t) / (1 + t * t), s = 2 * t / (1 + t * t); return Quaterniond(c, 0, 0, s); }
ENTRY(h_fuzzy_persist) { // flagged attitudes never enter the reference
  Mgr m; Core& c = *m.msf_core_; c.initialized_ = true; c.predictionMade_ = true; double thr = sym_real("thr", 0.1, 0.4);
  feed(c, 30, rot(0), thr, false, "nothing is flagged while the reference is collected"); feed(c, 40, rot(1), thr, true, "a persistent jump stays flagged"); feed(c, 3, rot(0), thr, false, "the reference is still the accepted attitude"); sym_reach("end");
}
ENTRY(h_fuzzy_window) { // the reference consists of the last thirty accepted attitudes, no others
  Mgr m; Core& c = *m.msf_core_; c.initialized_ = true; c.predictionMade_ = true; double thr = sym_real("thr", 0.05, 0.1), hi = 1e6;
  static const int place[6] = {0, 1, 14, 15, 28, 29}; int odd = place[sym_choice("stray", 6)], k = sym_choice("earlier windows", 2);
  for (int i = 0; i < 30; i++) feed(c, 1, rot(i == odd ? 0 : 1), 0, false, "nothing is flagged while the reference is collected");
  for (int i = 0; i < k; i++) feed(c, 30, rot(3), hi, false, "a move within the threshold is accepted");
  feed(c, 16, rot(2), hi, false, "a move within the threshold is accepted"); feed(c, 14, rot(1), hi, false, "a move within the threshold is accepted");
  feed(c, 1, rot(2), thr, false, "the reference is the median of the last thirty"); feed(c, 1, rot(0), thr, true, "the reference is the median of the last thirty"); sym_reach("end");
}
ENTRY(h_fuzzy_slide) { // the reference follows the accepted attitudes
  Mgr m; Core& c = *m.msf_core_; c.initialized_ = true; c.predictionMade_ = true; double thr = sym_real("thr", 0.7, 1);
  feed(c, 30, rot(0), thr, false, "nothing is flagged while the reference is collected"); feed(c, 1, rot(2), thr, true, "a jump beyond the threshold is flagged"); feed(c, 31, rot(1), thr, false, "a move within the threshold is accepted"); feed(c, 31, rot(2), thr, false, "the reference followed the accepted attitudes"); feed(c, 1, rot(0), thr, true, "the old attitude is now a jump"); feed(c, 65, rot(2), thr, false, "accepted over several windows"); sym_reach("end");
}
ENTRY(h_fuzzy_reset) {
  Mgr m; Core& c = *m.msf_core_; c.initialized_ = true; c.predictionMade_ = true; double thr = sym_real("thr", 0.1, 0.4); int n = sym_choice("n", 2) ? 45 : 7;
  feed(c, n, rot(0), thr, false, "nothing is flagged while the reference is collected"); c.fuzzyTracker_.Reset();
  feed(c, 30, rot(2), thr, false, "after a reset the reference is collected afresh"); feed(c, 1, rot(0), thr, true, "the new reference is used"); feed(c, 2, rot(2), thr, false, "the new reference is used"); sym_reach("end");
}
// while the reference is being collected nothing is flagged, whatever the drift attitude
ENTRY(h_fuzzy_collect) {
  Mgr m; Core& c = *m.msf_core_; c.initialized_ = true; c.predictionMade_ = true;
  for (int i = 0; i < 30; i++) { StP s(new St); base(*s); sv<D::q_wv>(*s) = symq("q"); EVec z = EVec::Zero(); c.ApplyCorrection(s, z, 0.0001); sym_assert(!c.isfuzzyState_, "nothing is flagged while the reference is collected"); }
  sym_reach("end");
}
template <int N> static void median() {
  Matrix<double, N, 1> x; for (int i = 0; i < N; i++) x(i) = sym_real("x", -10, 10); const Matrix<double, N, 1> x0 = x;
  double r = msf_core::GetMedian(x); int below = 0, above = 0; bool member = false; for (int i = 0; i < N; i++) { if (x0(i) < r) below++; if (x0(i) > r) above++; if (x0(i) == r) member = true; }
  sym_assert(member, "the median is an element"); sym_assert(below <= N / 2 && above <= N - 1 - N / 2, "the median splits the data"); eqm(x, x0, "the data are not reordered");
  sym_reach("end");
}
ENTRY(h_median3) { median<3>(); }
ENTRY(h_median4) { median<4>(); }
ENTRY(h_median5) { median<5>(); }
