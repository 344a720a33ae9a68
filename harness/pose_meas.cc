#include "pose_state.h"
#include "capture.h"
#define private public
#define protected public
#include <msf_updates/pose_sensor_handler/pose_measurement.h>
#undef private
#undef protected
using namespace Eigen;
typedef msf_updates::pose_measurement::PoseMeasurement<> PM;
typedef geometry_msgs::PoseWithCovarianceStamped Msg;
static const int kIds[5] = {D::L, D::q_wv, D::p_wv, D::q_ic, D::p_ic};
enum { cP = 0, cQ = 6, cL = 15, cQWV = 16, cPWV = 19, cQIC = 22, cPIC = 25 };
static const int kAt[5] = {cL, cQWV, cPWV, cQIC, cPIC}, kLen[5] = {1, 3, 3, 3, 3};
static StP state(int mode) {
  StP s(new St); s->time = 5;
  sv<D::p>(*s) = symv3("p", 100); sv<D::v>(*s) = symv3("v", 10); sv<D::p_wv>(*s) = symv3("pwv", 100); sv<D::p_ic>(*s) = symv3("pic", 10); sv<D::L>(*s)(0) = sym_real("L", 0.01, 50);
  sv<D::b_w>(*s) = Vector3d(.1, .2, .3); sv<D::b_a>(*s) = Vector3d(.3, .1, .2);
  sv<D::q>(*s) = mode & 1 ? symq("q") : Quaterniond(.5, .5, -.5, .5); sv<D::q_wv>(*s) = mode & 2 ? symq("qwv") : Quaterniond(.5, -.5, .5, .5); sv<D::q_ic>(*s) = mode & 4 ? symq("qic") : Quaterniond(.5, .5, .5, -.5);
  fillP(s->P); return s;
}
static boost::shared_ptr<Msg> message(const Vector3d& p, const Quaterniond& q) {
  boost::shared_ptr<Msg> m(new Msg); m->pose.pose.position.x = p(0); m->pose.pose.position.y = p(1); m->pose.pose.position.z = p(2);
  m->pose.pose.orientation.w = q.w(); m->pose.pose.orientation.x = q.x(); m->pose.pose.orientation.y = q.y(); m->pose.pose.orientation.z = q.z(); m->header.seq = 1; return m;
}
static Captured apply(Mgr& m, const boost::shared_ptr<Msg>& msg, StP s, int fixed, bool worldSensor = true) {
  PM me(0.5, 0.25, worldSensor, true, true, 3, false, 5, fixed); me.MakeFromSensorReading(msg, 5); cap() = Captured(); me.Apply(s, *m.msf_core_); return cap();
}
static Vector3d predictedPosition(const St& s) { return rot(s.Get<D::q_wv>()) * (s.Get<D::p>() - s.Get<D::p_wv>() + rot(s.Get<D::q>()) * s.Get<D::p_ic>()) * s.Get<D::L>()(0); }
static Quaterniond predictedAttitude(const St& s) { return s.Get<D::q_wv>() * s.Get<D::q>() * s.Get<D::q_ic>(); }
// residual: measured minus predicted
static void residual(int mode) {
  Mgr m; StP s = state(mode); Vector3d zp = symv3("zp", 200); Quaterniond zq = symq("zq");
  Captured c = apply(m, message(zp, zq), s, 0); sym_assert(c.n == 1 && c.s == s, "one update of the given state"); sym_assert(c.r.rows() == 7 && c.H.rows() == 7 && c.R.rows() == 7, "pose and yaw rows");
  Vector3d e = zp - predictedPosition(*s); for (int i = 0; i < 3; i++) sym_eq(c.r(i), e(i), "position residual");
  Quaterniond d = predictedAttitude(*s).conjugate() * zq; if (sym_choice("quaternion and its opposite", 2)) sym_assume(d.w() < -0.1); else sym_assume(d.w() > 0.1);
  for (int i = 0; i < 3; i++) sym_eq(c.r(3 + i) * d.w(), 2 * d.vec()(i), "attitude residual is the rotation from predicted to measured");
  sym_eq(c.r(6), 0, "no information, no innovation about the yaw of the reference frame");
  checkP(s->P, [](int) { return -1; });
  for (int i = 0; i < 7; i++) for (int j = 0; j < 7; j++) sym_eq(c.R(i, j), i != j ? 0.0 : i < 3 ? 0.25 : i < 6 ? 0.0625 : 1e-6, "fixed measurement covariance");
  sym_reach("end");
}
ENTRY(h_pose_residual) { residual(7); }
// H is the derivative of the prediction in every error state
static void jacobian(int mode) {
  Mgr m; StP s = state(mode); Vector3d zp = symv3("zp", 200); Quaterniond zq = predictedAttitude(*s); boost::shared_ptr<Msg> msg = message(zp, zq);
  Captured c = apply(m, msg, s, 0);
  int k0 = sym_choice("col", NE);
  for (int i = 0; i < 6; i++) { double d = sym_jac([&](double e) { return apply(m, msg, moved(*s, k0, e), 0).r(i); }); sym_eq(c.H(i, k0), -d, i < 3 ? "derivative of the predicted position" : "derivative of the predicted attitude"); }
  sym_eq(c.H(6, k0), 0, "no information about the yaw of the reference frame");
  sym_reach("end");
}
ENTRY(h_pose_jacobian) { jacobian(7); }
// fixed states: no column, no cross-covariance, everything else unchanged
ENTRY(h_pose_fixed) {
  Mgr m; StP s = state(0); Vector3d zp = symv3("zp", 200); boost::shared_ptr<Msg> msg = message(zp, predictedAttitude(*s));
  Captured a = apply(m, msg, StP(new St(*s)), 0); MatrixXd H0 = a.H; int sel = sym_int("fixed", 0, 31); int flags = 0; bool f[5]; for (int i = 0; i < 5; i++) { f[i] = (sel >> i) & 1; if (f[i]) flags |= 1 << kIds[i]; }
  Captured c = apply(m, msg, s, flags);
  auto blk = [&](int k) { for (int i = 0; i < 5; i++) if (f[i] && k >= kAt[i] && k < kAt[i] + kLen[i]) return i; return -1; };
  for (int i = 0; i < 7; i++) for (int k = 0; k < NE; k++) sym_eq(c.H(i, k), blk(k) >= 0 ? 0.0 : H0(i, k), blk(k) >= 0 ? "fixed states are not corrected" : "states that are not fixed keep their derivative");
  eqm(c.r, a.r, "the residual does not depend on what is fixed"); eqm(c.R, a.R, "nor does the noise"); checkP(s->P, blk); sym_reach("end");
}
// measurement from the message: covariance, and the inversion of a pose given as world in sensor
ENTRY(h_pose_message) {
  bool fixedCov = sym_bool("fixed_cov"), ws = sym_bool("world_sensor"); Vector3d zp = symv3("zp", 200); Quaterniond zq = symq("zq"); boost::shared_ptr<Msg> msg = message(zp, zq);
  Matrix<double, 6, 6> Q; for (int i = 0; i < 6; i++) for (int j = i; j < 6; j++) Q(i, j) = Q(j, i) = i == j ? sym_real("Qd", 1e-4, 10) : sym_real("Q", -1, 1);
  for (int i = 0; i < 36; i++) msg->pose.covariance[i] = Q(i / 6, i % 6);
  double np = sym_real("np", 1e-3, 5), nq = sym_real("nq", 1e-3, 5); PM me(np, nq, ws, fixedCov, true, 3, false, 5, 0); me.MakeFromSensorReading(msg, 7); sym_eq(me.time, 7, "time of the measurement");
  Matrix3d C = rot(zq); Matrix<double, 7, 7> R = Matrix<double, 7, 7>::Zero(); R(6, 6) = 1e-6;
  if (fixedCov) for (int i = 0; i < 6; i++) R(i, i) = i < 3 ? np * np : nq * nq; else { R.block<3, 3>(0, 0) = Q.block<3, 3>(0, 0); R.block<3, 3>(3, 3) = Q.block<3, 3>(3, 3); if (!ws) for (int b = 0; b < 6; b += 3) R.block<3, 3>(b, b) = (C.transpose() * R.block<3, 3>(b, b) * C).eval(); }
  eqm(me.R_, R, "measurement covariance");
  if (ws) { eqm(me.z_p_, zp, "measured position"); eqq(me.z_q_, zq, "measured attitude"); }
  else { eqm(me.z_p_, Vector3d(-(C.transpose() * zp)), "measured position is that of the sensor in the world"); eqq(me.z_q_, Quaterniond(zq.w(), -zq.x(), -zq.y(), -zq.z()), "measured attitude is that of the sensor in the world"); }
  sym_reach("end");
}
