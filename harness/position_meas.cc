#ifndef STATE_HEADER
#define STATE_HEADER <position_msf/msf_statedef.hpp>
#endif
#include "pose_state.h"
#include "capture.h"
#define private public
#define protected public
#include <msf_updates/position_sensor_handler/position_measurement.h>
#undef private
#undef protected
using namespace Eigen;
typedef msf_updates::position_measurement::PositionMeasurement PM;
typedef sensor_fusion_comm::PointWithCovarianceStamped Msg;
enum { cPIP = msf_tmp::GetStartIndexInCorrection<St::StateSequence_T, D::p_ip>::value };
static StP state() {
  StP s(new St); s->time = 5; sv<D::p>(*s) = symv3("p", 100); sv<D::v>(*s) = symv3("v", 10); sv<D::q>(*s) = symq("q"); sv<D::p_ip>(*s) = symv3("pip", 10); sv<D::b_w>(*s) = Vector3d(.1, .2, .3); fillP(s->P); return s;
}
static boost::shared_ptr<Msg> message(const Vector3d& p) { boost::shared_ptr<Msg> m(new Msg); m->point.x = p(0); m->point.y = p(1); m->point.z = p(2); m->header.seq = 1; return m; }
static Captured apply(Mgr& m, const boost::shared_ptr<Msg>& msg, StP s, int fixed) { PM me(0.5, true, true, 3, fixed, false, 5); me.MakeFromSensorReading(msg, 5); cap() = Captured(); me.Apply(s, *m.msf_core_); return cap(); }
ENTRY(h_pos_residual) {
  Mgr m; StP s = state(); Vector3d z = symv3("z", 200); Captured c = apply(m, message(z), s, 0); sym_assert(c.n == 1 && c.s == s && c.r.rows() == 3, "one update of the given state");
  eqm(c.r, (z - (s->Get<D::p>() + rot(s->Get<D::q>()) * s->Get<D::p_ip>())).eval(), "residual: measured minus predicted position of the antenna"); checkP(s->P, [](int) { return -1; }); sym_reach("end");
}
ENTRY(h_pos_jacobian) {
  Mgr m; StP s = state(); boost::shared_ptr<Msg> msg = message(symv3("z", 200)); Captured c = apply(m, msg, s, 0); int k = sym_choice("col", NE);
  for (int i = 0; i < 3; i++) { double d = sym_jac([&](double e) { return apply(m, msg, moved(*s, k, e), 0).r(i); }); sym_eq(c.H(i, k), -d, "derivative of the predicted position"); }
  sym_reach("end");
}
ENTRY(h_pos_fixed) {
  Mgr m; StP s = state(); boost::shared_ptr<Msg> msg = message(symv3("z", 200)); bool f = sym_bool("fixed"); Captured a = apply(m, msg, StP(new St(*s)), 0), c = apply(m, msg, s, f ? 1 << D::p_ip : 0);
  auto blk = [&](int k) { return f && k >= cPIP && k < cPIP + 3 ? 1 : -1; };
  for (int i = 0; i < 3; i++) for (int k = 0; k < NE; k++) sym_eq(c.H(i, k), blk(k) == 1 ? 0.0 : a.H(i, k), blk(k) == 1 ? "a fixed offset is not corrected" : "other states keep their derivative");
  eqm(c.r, a.r, "the residual does not depend on what is fixed"); eqm(c.R, a.R, "nor does the noise"); checkP(s->P, blk); sym_reach("end");
}
ENTRY(h_pos_message) {
  bool fc = sym_bool("fixed_cov"); Vector3d z = symv3("z", 200); boost::shared_ptr<Msg> msg = message(z); Matrix3d Q; for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++) Q(i, j) = Q(j, i) = i == j ? sym_real("Qd", 1e-4, 10) : sym_real("Q", -1, 1);
  for (int i = 0; i < 9; i++) msg->covariance[i] = Q(i / 3, i % 3); double n = sym_real("n", 1e-3, 5); PM me(n, fc, true, 3, 0, false, 5); me.MakeFromSensorReading(msg, 7);
  sym_eq(me.time, 7, "time of the measurement"); eqm(me.z_p_, z, "measured position"); if (fc) eqm(me.R_, (n * n * Matrix3d::Identity()).eval(), "fixed covariance"); else eqm(me.R_, Q, "covariance of the message"); sym_reach("end");
}
