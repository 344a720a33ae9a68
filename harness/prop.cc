#include "pose_state.h"
using namespace Eigen;
static void fill(St& s) {
  sv<D::p>(s) = symv3("p", 100); sv<D::v>(s) = symv3("v", 50); sv<D::q>(s) = symq("q"); sv<D::b_w>(s) = symv3("bw", 1); sv<D::b_a>(s) = symv3("ba", 5);
  sv<D::L>(s)(0) = sym_real("L", 0.01, 50); sv<D::q_wv>(s) = symq("qwv"); sv<D::p_wv>(s) = symv3("pwv", 100); sv<D::q_ic>(s) = symq("qic"); sv<D::p_ic>(s) = symv3("pic", 10);
  s.w_m = symv3("w", 10); s.a_m = symv3("a", 40);
}
ENTRY(h_prop_kinematics) {
  Mgr m; Core& c = *m.msf_core_;
  StP o(new St), n(new St); fill(*o);
  o->time = 100; double dt = sym_real("dt", 1e-4, 0.5); n->time = 100 + dt;
  n->w_m = symv3("w1", 10); n->a_m = symv3("a1", 40);
  sv<D::p>(*n) = symv3("junk", 10); sv<D::L>(*n)(0) = sym_real("junkL", 0, 5);
  c.PropagateState(o, n);
  const St &O = *o, &N = *n;
  eqm(N.Get<D::b_w>(), O.Get<D::b_w>(), "gyro bias carried over");
  eqm(N.Get<D::b_a>(), O.Get<D::b_a>(), "accelerometer bias carried over");
  sym_eq(N.Get<D::L>()(0), O.Get<D::L>()(0), "scale carried over");
  eqq(N.Get<D::q_wv>(), O.Get<D::q_wv>(), "drift attitude carried over");
  eqm(N.Get<D::p_wv>(), O.Get<D::p_wv>(), "drift position carried over");
  eqq(N.Get<D::q_ic>(), O.Get<D::q_ic>(), "calibration attitude carried over");
  eqm(N.Get<D::p_ic>(), O.Get<D::p_ic>(), "calibration position carried over");
  Quaterniond qn = N.Get<D::q>(), qo = O.Get<D::q>();
  sym_eq(qn.squaredNorm(), 1.0, "unit attitude");
  Vector3d a0 = O.a_m - O.Get<D::b_a>(), a1 = N.a_m - O.Get<D::b_a>();
  Vector3d g(0, 0, 9.80834);
  Vector3d dv = 0.5 * (qn.toRotationMatrix() * a1 + qo.toRotationMatrix() * a0) - g;
  eqm(N.Get<D::v>(), (O.Get<D::v>() + dv * dt).eval(), "velocity");
  eqm(N.Get<D::p>(), (O.Get<D::p>() + 0.5 * dt * (O.Get<D::v>() + N.Get<D::v>())).eval(), "position");
  sym_eq(N.time, 100 + dt, "time untouched");
  sym_reach("end");
}

// attitude increment: series of the mean rate to fourth order plus the first-order correction for a changing rate
static Quaterniond qmul(const Quaterniond& a, const Quaterniond& b) {
  return Quaterniond(a.w() * b.w() - a.x() * b.x() - a.y() * b.y() - a.z() * b.z(), a.w() * b.x() + a.x() * b.w() + a.y() * b.z() - a.z() * b.y(),
                     a.w() * b.y() - a.x() * b.z() + a.y() * b.w() + a.z() * b.x(), a.w() * b.z() + a.x() * b.y() - a.y() * b.x() + a.z() * b.w());
}
static void attitude(bool constRate, bool unitStart) {
  Mgr m; Core& c = *m.msf_core_; StP o(new St), n(new St);
  sv<D::q>(*o) = unitStart ? Quaterniond(1, 0, 0, 0) : symq("q"); sv<D::b_w>(*o) = symv3("bw", 1); o->w_m = symv3("w", 10);
  double dt = sym_real("dt", 1e-4, 0.5); o->time = 100; n->time = 100 + dt;
  n->w_m = constRate ? o->w_m : symv3("w1", 10);
  c.PropagateState(o, n);
  Vector3d w0 = o->w_m - o->Get<D::b_w>(), w1 = n->w_m - o->Get<D::b_w>(), wm = (w0 + w1) / 2, cr = w0.cross(w1) * (dt * dt / 24);
  Vector3d h = wm * (dt / 2); double t2 = h.squaredNorm();
  // s = 1 + p + p^2/2 + p^3/6 + p^4/24 with p = (0,h), p^2 = -|h|^2
  double sw = 1 - t2 / 2 + t2 * t2 / 24, k = 1 - t2 / 6;
  Quaterniond s(sw, h(0) * k + cr(0), h(1) * k + cr(1), h(2) * k + cr(2));
  Quaterniond raw = qmul(o->Get<D::q>(), s), q = n->Get<D::q>();
  double r[4] = {raw.w(), raw.x(), raw.y(), raw.z()}, v[4] = {q.w(), q.x(), q.y(), q.z()};
  for (int i = 0; i < 4; i++) for (int j = i + 1; j < 4; j++) sym_eq(v[i] * r[j], v[j] * r[i], "attitude increment");
  sym_eq(q.squaredNorm(), 1.0, "unit attitude");
  sym_reach("end");
}
ENTRY(h_prop_attitude_const) { attitude(true, false); }
ENTRY(h_prop_attitude_unit) { attitude(false, true); }
ENTRY(h_prop_attitude) { attitude(false, false); }
