#include "filter_run.h"
static void noise(Mgr& m) { m.na = 0.5; m.nba = 0.25; }
struct Ext { double t; Vector3d a, w, p, v; Quaterniond q; };
static Ext mk(int i, double t) { Ext e; e.t = t; e.a = accel(i); e.w = Vector3d(.25, .125 * i, -.0625 * i); e.p = symv3("p", 50); e.v = symv3("v", 20); e.q = symq("q"); return e; }
static void feed(Filter& f, const Ext& e, bool done = true) { f.core.ProcessExternallyPropagatedState(e.a, e.w, e.p, e.v, e.q, done, e.t, 0); }
static void is(const St& s, const Ext& e, const St& o) {
  sym_eq(s.time, e.t, "the state has the time of the message"); eqm(s.Get<D::p>(), e.p, "an externally propagated state is taken over"); eqm(s.Get<D::v>(), e.v, "an externally propagated state is taken over"); eqq(s.Get<D::q>(), e.q, "an externally propagated state is taken over");
  eqm(s.Get<D::b_w>(), o.Get<D::b_w>(), "states that are not propagated are carried over"); eqm(s.Get<D::b_a>(), o.Get<D::b_a>(), "states that are not propagated are carried over"); sym_eq(s.Get<D::L>()(0), o.Get<D::L>()(0), "states that are not propagated are carried over"); eqm(s.w_m, e.w, "the rates are those of the message");
}
// a sequence of externally propagated states with a measurement in between
ENTRY(h_ext_seq) {
  Filter f; noise(f.m); f.begin(10); double t[4]; t[0] = 10 + sym_real("first", 0.004, 4.9); for (int i = 1; i < 4; i++) t[i] = t[i - 1] + sym_real("gap", 0.004, 0.09); Ext e[4]; for (int i = 0; i < 4; i++) e[i] = mk(i + 1, t[i]);
  TM early(new TMeas(10, 1)); f.core.AddMeasurement(early);
  feed(f, e[0]); sym_assert(f.m.pub_prop == 1, "every message is published"); is(*f.m.prop, e[0], f.start); eqm(f.m.prop->a_m, e[0].a, "the acceleration is that of the message"); eqm(f.m.prop->P, f.start.P, "the first state keeps the initial covariance");
  sym_assert(f.core.GetStateAtTime(10)->time != 10, "states from before the first message are gone"); sym_assert(early->applied == 0, "no update before the first prediction");
  St last = *f.m.prop;
  for (int i = 1; i < 4; i++) { feed(f, e[i]); sym_assert(f.m.pub_prop == i + 1, "every message is published"); is(*f.m.prop, e[i], f.start); sym_assert(f.core.GetStateAtTime(t[i]) == f.m.prop, "the state is buffered under its time"); }
  // a measurement on the last message
  int k = sym_choice("at", 2) ? 3 : 0; StP sk = f.core.GetStateAtTime(t[k]); St b = *f.core.GetClosestState(t[k]); TM m(new TMeas(t[k], sym_real("g", -1, 1))); f.core.AddMeasurement(m); sym_assert(m->applied == 1 && m->at == t[k], "a measurement is applied to the state of its time");
  eqm(const_cast<const St&>(*sk).Get<D::p>(), (b.Get<D::p>() + m->c.segment<3>(0)).eval(), "the correction is applied"); sym_assert(f.m.pub_upd == 1 && f.m.upd->time == t[3], "the newest state is published"); sym_reach("end");
}
// covariance follows the prediction between externally propagated states
ENTRY(h_ext_cov) {
  Filter f; noise(f.m); f.begin(10); double t0 = 10 + sym_real("first", 0.004, 4.9), t1 = t0 + sym_real("gap", 0.004, 0.09); Ext a = mk(1, t0), b = mk(2, t1); a.q = Quaterniond(.5, .5, .5, -.5); b.q = Quaterniond(.5, -.5, .5, -.5); feed(f, a); St A = *f.m.prop; feed(f, b);
  SMgr rm; noise(rm); StP x(new St(A)), y(new St(*f.m.prop)); rm.msf_core_->PredictProcessCovariance(x, y); StP n = f.core.GetClosestState(t1); eqm(n->P, y->P, "the covariance is predicted between the external states"); sym_reach("end");
}
// not propagated externally: the filter integrates the readings itself
ENTRY(h_ext_raw) {
  Filter f; noise(f.m); f.begin(10); double t0 = 10 + sym_real("first", 0.004, 4.9), t1 = t0 + sym_real("gap", 0.004, 0.09); Ext a = mk(1, t0), b = mk(2, t1); feed(f, a, false);
  SMgr rm; noise(rm); StP x(new St(f.start)), y(new St); y->time = t0; y->a_m = a.a; y->w_m = a.w; rm.msf_core_->PropagateState(x, y); eqState(*f.m.prop, *y, "a message that is not propagated is integrated"); feed(f, b, false); StP z(new St); z->time = t1; z->a_m = b.a; z->w_m = b.w; rm.msf_core_->PropagateState(y, z); eqState(*f.m.prop, *z, "a message that is not propagated is integrated"); sym_reach("end");
}
ENTRY(h_ext_spike) {
  Filter f; noise(f.m); f.begin(10); Ext a = mk(1, 10.0625), b = mk(2, 10.125); b.a = symv3("a", 80); double n = b.a(0) * b.a(0) + b.a(1) * b.a(1) + b.a(2) * b.a(2); sym_assume((n > 2501) | (n < 2499)); feed(f, a); feed(f, b); eqm(f.m.prop->w_m, b.w, "rates are used as they are");
  if (n > 2500) { eqm(f.m.prop->a_m, a.a, "a spike is replaced by the reading accepted just before it"); sym_reach("spike"); } else { eqm(f.m.prop->a_m, b.a, "an acceleration that is not a spike is used as it is"); sym_reach("normal"); }
  sym_reach("end");
}
// a gap of more than five seconds before the first prediction re-times the initial state
ENTRY(h_ext_gap) {
  Filter f; noise(f.m); f.begin(10); double g = sym_choice("back", 2) ? -sym_real("back by", 5.001, 9) : sym_real("gap", 5.001, 100); Ext a = mk(1, 10 + g), b = mk(2, 10 + g + 0.0625); feed(f, a); sym_assert(f.m.pub_prop == 0, "no prediction over a large gap"); StP s = f.core.GetStateAtTime(10 + g); sym_assert(s->time == 10 + g, "the initial state is moved to the new time"); eqm(const_cast<const St&>(*s).Get<D::p>(), f.start.Get<D::p>(), "with its content");
  feed(f, b); sym_assert(f.m.pub_prop == 1, "prediction starts after the gap"); is(*f.m.prop, b, f.start); eqm(f.m.prop->P, f.start.P, "the first state keeps the initial covariance"); sym_reach("end");
}
ENTRY(h_ext_uninit) { Filter f; Ext a = mk(1, 10.0625); feed(f, a); sym_assert(f.m.pub_prop == 0, "nothing happens before initialisation"); sym_reach("end"); }
// IMU readings after external states, and external states after IMU readings
ENTRY(h_ext_mixed) {
  Filter f; noise(f.m); f.begin(10); int k = sym_choice("imu first", 3); double t = 10; for (int i = 0; i < k; i++) { t = t + 0.0625; Imu x; x.t = t; x.a = accel(i); x.w = Filter::W(i); f.imu(x); }
  int n = 1 + sym_choice("external", 2); Ext e; for (int i = 0; i < n; i++) { t = t + 0.0625; e = mk(i, t); feed(f, e); is(*f.m.prop, e, f.start); }
  StP y(new St(*f.m.prop)); SMgr rm; noise(rm); int pp = f.m.pub_prop;
  for (int i = 0; i < 2; i++) { t = t + sym_real("gap", 0.004, 0.09); Imu x; x.t = t; x.a = accel(i + 2); x.w = Filter::W(i); f.imu(x); sym_assert(f.m.pub_prop == pp + i + 1, "IMU readings are predicted after external states"); StP z(new St); z->time = t; z->a_m = x.a; z->w_m = x.w; rm.msf_core_->PropagateState(y, z); eqState(*f.m.prop, *z, "IMU readings continue from the newest external state"); y = z; }
  sym_reach("end");
}
// an IMU reading after the initial state was moved by an external message
ENTRY(h_ext_gap_imu) {
  Filter f; noise(f.m); f.begin(10); double g = sym_choice("back", 2) ? -sym_real("back by", 5.001, 9) : sym_real("gap", 5.001, 100); Ext a = mk(1, 10 + g); feed(f, a); Imu x; x.t = 10 + g + 0.0625; x.a = accel(3); x.w = Filter::W(0); f.imu(x); sym_assert(f.m.pub_prop == 1, "IMU readings are predicted after external states");
  SMgr rm; noise(rm); StP y(new St(f.start)), z(new St); y->time = 10 + g; z->time = x.t; z->a_m = x.a; z->w_m = x.w; rm.msf_core_->PropagateState(y, z); eqState(*f.m.prop, *z, "IMU readings continue from the newest external state"); sym_reach("end");
}
