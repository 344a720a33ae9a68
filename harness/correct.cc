#include "pose_state.h"
using namespace Eigen;
typedef Matrix<double, NE, 1> EVec;
static void fill(St& s) {
  sv<D::p>(s) = symv3("p", 100); sv<D::v>(s) = symv3("v", 50); sv<D::q>(s) = symq("q"); sv<D::b_w>(s) = symv3("bw", 1); sv<D::b_a>(s) = symv3("ba", 5);
  sv<D::L>(s)(0) = sym_real("L", 0.01, 50); sv<D::q_wv>(s) = symq("qwv"); sv<D::p_wv>(s) = symv3("pwv", 100); sv<D::q_ic>(s) = symq("qic"); sv<D::p_ic>(s) = symv3("pic", 10);
}
struct CMgr : Mgr {
  mutable bool hold = false, seenOld = false; mutable Vector3d oldp, newp;
  void AugmentCorrectionVector(EVec& c) const override { augment_calls++; if (hold) c(15) = 0; }
  void SanityCheckCorrection(St& n, const St& o, EVec&) const override { sanity_calls++; newp = const_cast<const St&>(n).Get<D::p>(); oldp = o.Get<D::p>(); }
};
static Quaterniond qmul(const Quaterniond& a, const Quaterniond& b) {
  return Quaterniond(a.w() * b.w() - a.x() * b.x() - a.y() * b.y() - a.z() * b.z(), a.w() * b.x() + a.x() * b.w() + a.y() * b.z() - a.z() * b.y(),
                     a.w() * b.y() - a.x() * b.z() + a.y() * b.w() + a.z() * b.x(), a.w() * b.z() + a.x() * b.y() - a.y() * b.x() + a.z() * b.w());
}
static Quaterniond small(const Vector3d& t) {
  double n = (t(0) * t(0) + t(1) * t(1) + t(2) * t(2)) / 4;
  if (n < 1) return Quaterniond(std::sqrt(1 - n), t(0) / 2, t(1) / 2, t(2) / 2);
  double w = 1 / std::sqrt(1 + n); return Quaterniond(w, w * t(0) / 2, w * t(1) / 2, w * t(2) / 2);
}
ENTRY(h_correct) {
  CMgr m; Core& c = *m.msf_core_; c.initialized_ = true; c.predictionMade_ = true;
  StP s(new St); fill(*s); s->time = 7; s->w_m = symv3("w", 3); s->a_m = symv3("a", 3); const St o = *s; const St& S = *s;
  int which = sym_choice("which", 3); m.fixed_bias = sym_choice("fixedbias", 2); m.hold = sym_choice("hold", 2);
  EVec d; for (int i = 0; i < NE; i++) d(i) = sym_real("d", -3, 3);
  static const int at[3] = {6, 16, 22}; for (int k = 0; k < 3; k++) if (k != which) d.segment<3>(at[k]).setZero();
  const EVec d0 = d; bool ok = c.ApplyCorrection(s, d);
  sym_assert(ok, "correction is applied"); sym_assert(m.augment_calls == 1 && m.sanity_calls == 1, "user hooks are called once");
  double f = m.fixed_bias ? 0 : 1, l = m.hold ? 0 : 1;
  eqm(S.Get<D::p>(), (o.Get<D::p>() + d0.segment<3>(0)).eval(), "position corrected additively"); eqm(S.Get<D::v>(), (o.Get<D::v>() + d0.segment<3>(3)).eval(), "velocity corrected additively");
  eqm(S.Get<D::b_w>(), (o.Get<D::b_w>() + f * d0.segment<3>(9)).eval(), "gyro bias corrected additively, or fixed"); eqm(S.Get<D::b_a>(), (o.Get<D::b_a>() + f * d0.segment<3>(12)).eval(), "accelerometer bias corrected additively, or fixed");
  sym_eq(S.Get<D::L>()(0), o.Get<D::L>()(0) + l * d0(15), "scale corrected additively, user veto respected");
  eqm(S.Get<D::p_wv>(), (o.Get<D::p_wv>() + d0.segment<3>(19)).eval(), "drift position corrected additively"); eqm(S.Get<D::p_ic>(), (o.Get<D::p_ic>() + d0.segment<3>(25)).eval(), "calibration position corrected additively");
  eqq(S.Get<D::q>(), qmul(o.Get<D::q>(), small(d0.segment<3>(6))), "attitude corrected multiplicatively in the body frame"); eqq(S.Get<D::q_wv>(), qmul(o.Get<D::q_wv>(), small(d0.segment<3>(16))), "drift attitude corrected multiplicatively"); eqq(S.Get<D::q_ic>(), qmul(o.Get<D::q_ic>(), small(d0.segment<3>(22))), "calibration attitude corrected multiplicatively");
  sym_eq(S.Get<D::q>().squaredNorm(), 1, "unit attitude after correction"); sym_eq(S.Get<D::q_wv>().squaredNorm(), 1, "unit drift attitude after correction"); sym_eq(S.Get<D::q_ic>().squaredNorm(), 1, "unit calibration attitude after correction");
  eqm(m.oldp, o.Get<D::p>(), "sanity hook sees the old state"); eqm(m.newp, S.Get<D::p>(), "sanity hook sees the new state");
  eqm(S.w_m, o.w_m, "readings untouched"); eqm(S.a_m, o.a_m, "readings untouched"); sym_assert(S.time == 7, "time untouched");
  sym_reach("end");
}
ENTRY(h_correct_uninit) {
  CMgr m; Core& c = *m.msf_core_; int k = sym_choice("k", 3); c.initialized_ = k & 1; c.predictionMade_ = k & 2;
  StP s(new St); fill(*s); s->time = 7; const St o = *s; const St& S = *s; EVec d; for (int i = 0; i < NE; i++) d(i) = sym_real("d", -1, 1);
  sym_assert(!c.ApplyCorrection(s, d), "no correction before the first prediction");
  eqm(S.Get<D::p>(), o.Get<D::p>(), "state untouched before the first prediction"); eqq(S.Get<D::q>(), o.Get<D::q>(), "state untouched before the first prediction"); eqm(S.Get<D::v>(), o.Get<D::v>(), "state untouched before the first prediction"); sym_eq(S.Get<D::L>()(0), o.Get<D::L>()(0), "state untouched before the first prediction");
  sym_reach("end");
}
