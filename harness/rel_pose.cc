#define POSE_REL 1
#include "pose_meas.cc"
// relative pose: the change of the sensor pose between two measurements against that between the two states
struct Rel { Mgr m; StP so, sn; Vector3d zo, zn; Quaterniond qo, qn; bool prev = true; int prevId = 3; };
static Captured applyRel(Rel& x, StP so, StP sn) {
  Core& c = *x.m.msf_core_; while (c.stateBuffer_.Size()) c.stateBuffer_.Clear(); c.MeasurementBuffer_.Clear();
  so->time = 4; sn->time = 5; StP mid(new St(*so)); mid->time = 4.5; c.stateBuffer_.Insert(so); c.stateBuffer_.Insert(mid); c.stateBuffer_.Insert(sn);
  boost::shared_ptr<PM> mo(new PM(0.5, 0.25, true, true, false, x.prevId, false, 5, 0)), mn(new PM(0.5, 0.25, true, true, false, 3, false, 5, 0)), other(new PM(0.5, 0.25, true, true, false, 9, false, 5, 0));
  mo->MakeFromSensorReading(message(x.zo, x.qo), 4); mn->MakeFromSensorReading(message(x.zn, x.qn), 5); other->MakeFromSensorReading(message(Vector3d(7, 7, 7), Quaterniond(.5, .5, .5, .5)), 4.5);
  if (x.prev) c.MeasurementBuffer_.Insert(mo); c.MeasurementBuffer_.Insert(other); c.MeasurementBuffer_.Insert(mn);
  cap() = Captured(); mn->Apply(sn, c); return cap();
}
static StP relState(int mode) { StP s = state(mode); return s; }
static void fill(Rel& x, int mo, int mn) { x.so = relState(mo); x.sn = relState(mn); x.zo = symv3("zo", 100); x.zn = symv3("zn", 100); }
ENTRY(h_rel_residual) {
  Rel x; fill(x, 1, 1); x.qo = symq("zqo"); x.qn = symq("zqn"); Captured c = applyRel(x, x.so, x.sn);
  sym_assert(c.n == 0 && c.nrel == 1 && c.s == x.sn && c.sold == x.so, "one update relating the state of the previous measurement to the given one");
  Vector3d e = (x.zn - x.zo) - (predictedPosition(*x.sn) - predictedPosition(*x.so)); for (int i = 0; i < 3; i++) sym_eq(c.r(i), e(i), "measured minus predicted change of position");
  Quaterniond h = predictedAttitude(*x.so).conjugate() * predictedAttitude(*x.sn), z = x.qo.conjugate() * x.qn, d = h.conjugate() * z; sym_assume(d.w() > 0.1);
  for (int i = 0; i < 3; i++) sym_eq(c.r(3 + i) * d.w(), 2 * d.vec()(i), "rotation from the predicted to the measured change of attitude");
  sym_eq(c.r(6), 0, "no information, no innovation about the yaw of the reference frame"); sym_reach("end");
}
static void relJacobian(bool old) {
  Rel x; fill(x, 1, 1); Quaterniond h = predictedAttitude(*x.so).conjugate() * predictedAttitude(*x.sn); x.qo = Quaterniond(.5, -.5, -.5, -.5); x.qn = x.qo * h;
  Captured c = applyRel(x, StP(new St(*x.so)), StP(new St(*x.sn))); int k = sym_choice("col", NE); const MatrixXd& H = old ? c.Hold : c.H;
  for (int i = 0; i < 6; i++) { double d = sym_jac([&](double e) { return old ? applyRel(x, moved(*x.so, k, e), StP(new St(*x.sn))).r(i) : applyRel(x, StP(new St(*x.so)), moved(*x.sn, k, e)).r(i); }); sym_eq(H(i, k), -d, old ? "derivative of the prediction in the older state" : "derivative of the prediction in the newer state"); }
  sym_eq(H(6, k), 0, "no information about the yaw of the reference frame"); sym_reach("end");
}
ENTRY(h_rel_jac_new) { relJacobian(false); }
ENTRY(h_rel_jac_old) { relJacobian(true); }
ENTRY(h_rel_first) { // nothing to relate to
  Rel x; fill(x, 0, 0); x.qo = x.qn = predictedAttitude(*x.so); if (sym_bool("other_sensor")) x.prevId = 5; else x.prev = false; Captured c = applyRel(x, x.so, x.sn); sym_assert(c.n == 0 && c.nrel == 0, "no update without a previous measurement of the same sensor"); sym_reach("end");
}
