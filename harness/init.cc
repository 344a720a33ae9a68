// Starting (and restarting) the filter through an initial measurement.
#include "pose_state.h"
using namespace Eigen;
typedef msf_core::MSF_InitMeasurement<St> Init; typedef boost::shared_ptr<Init> InitP;
struct IMgr : Mgr { mutable StP first; mutable St seen; void PublishStateInitial(const StP& s) const override { pub_init++; first = s; seen = *s; } };
struct Nop : msf_core::MSF_MeasurementBase<St> { int n = 0; Nop(double t) : msf_core::MSF_MeasurementBase<St>(true, 1, false, 0) { time = t; } void Apply(StP, Core&) override { n++; } std::string Type() override { return "n"; } };
// a filter that has been running: states, applied and waiting measurements
static void used(Core& c) {
  for (int i = 0; i < 3; i++) { StP s(new St); s->time = 500 + i; c.stateBuffer_.Insert(s); boost::shared_ptr<Nop> n(new Nop(500 + i)); c.MeasurementBuffer_.Insert(n); c.queueFutureMeasurements_.push(boost::shared_ptr<Nop>(new Nop(600 + i))); }
  c.initialized_ = c.predictionMade_ = true; c.time_P_propagated = 502; c.it_last_IMU = c.stateBuffer_.GetIteratorAtValue(c.stateBuffer_.GetLast());
}
struct Vals { Vector3d p, v, bw, ba, pwv, pic; Quaterniond q, qwv, qic; double L; };
static Vals anyVals() { Vals x; x.p = symv3("p", 100); x.v = symv3("v", 50); x.q = symq("q"); x.bw = symv3("bw", 1); x.ba = symv3("ba", 5); x.L = sym_real("L", 0.01, 50); x.qwv = symq("qwv"); x.pwv = symv3("pwv", 100); x.qic = symq("qic"); x.pic = symv3("pic", 10); return x; }
template <class V> static bool one(int mask, int k) { return mask >> k & 1; }
static void give(Init& i, const Vals& x, int m) {
  if (m & 1) i.template SetStateInitValue<D::p>(x.p); if (m & 2) i.template SetStateInitValue<D::v>(x.v); if (m & 4) i.template SetStateInitValue<D::q>(x.q); if (m & 8) i.template SetStateInitValue<D::b_w>(x.bw); if (m & 16) i.template SetStateInitValue<D::b_a>(x.ba);
  if (m & 32) i.template SetStateInitValue<D::L>(Matrix<double, 1, 1>::Constant(x.L)); if (m & 64) i.template SetStateInitValue<D::q_wv>(x.qwv); if (m & 128) i.template SetStateInitValue<D::p_wv>(x.pwv); if (m & 256) i.template SetStateInitValue<D::q_ic>(x.qic); if (m & 512) i.template SetStateInitValue<D::p_ic>(x.pic);
}
static void checkVals(const St& s, const Vals& x, int m) {
  const char* g = "value given, or neutral"; Vector3d z = Vector3d::Zero(); Quaterniond e = Quaterniond::Identity();
  eqm(s.Get<D::p>(), m & 1 ? x.p : z, g); eqm(s.Get<D::v>(), m & 2 ? x.v : z, g); eqq(s.Get<D::q>(), m & 4 ? x.q : e, g); eqm(s.Get<D::b_w>(), m & 8 ? x.bw : z, g); eqm(s.Get<D::b_a>(), m & 16 ? x.ba : z, g); sym_eq(s.Get<D::L>()(0), m & 32 ? x.L : 0, g); eqq(s.Get<D::q_wv>(), m & 64 ? x.qwv : e, g); eqm(s.Get<D::p_wv>(), m & 128 ? x.pwv : z, g); eqq(s.Get<D::q_ic>(), m & 256 ? x.qic : e, g); eqm(s.Get<D::p_ic>(), m & 512 ? x.pic : z, g);
}
static int someMask() { static const int k[] = {0, 1023, 682, 341, 31, 992, 1, 512, 4 | 64 | 256}; return k[sym_choice("given", 9)]; }
ENTRY(h_init_values) {
  IMgr m; Core& c = *m.msf_core_; bool again = sym_choice("again", 2), rd = sym_choice("readings", 2); if (again) used(c); Vals x = anyVals(); int mask = someMask(); InitP i(new Init(rd)); double t = i->time = sym_real("t", 1, 100); give(*i, x, mask); i->Geta_m() = symv3("a", 40); i->Getw_m() = symv3("w", 10); Vector3d a = i->Geta_m(), w = i->Getw_m();
  c.Init(i); sym_assert(c.initialized_ && !c.predictionMade_, "initialised, waiting for the first reading"); sym_assert(c.stateBuffer_.Size() == 1, "one state"); StP s = c.stateBuffer_.GetLast(); sym_eq(s->time, t, "time of the initial measurement"); sym_eq(c.time_P_propagated, t, "time of the covariance"); checkVals(*s, x, mask); eqm(s->a_m, rd ? a : Vector3d::Zero().eval(), "initial acceleration"); eqm(s->w_m, rd ? w : Vector3d::Zero().eval(), "initial rotation");
  sym_assert(m.pub_init == 1 && m.first == s, "the initial state is published once"); checkVals(m.seen, x, mask); sym_eq(m.seen.time, t, "time of the published state"); sym_assert(c.queueFutureMeasurements_.empty() && c.MeasurementBuffer_.Size() == 0, "no measurement of the past survives"); sym_reach("end");
}
// covariance: as given, or the default
ENTRY(h_init_cov) {
  IMgr m; Core& c = *m.msf_core_; InitP i(new Init(true)); i->time = 7; auto& P = i->GetStateCovariance(); double a = sym_real("P", -9, 9), b = sym_real("P", -9, 9), d = sym_real("P", -9, 9); P(0, 0) = a; P(3, 20) = P(20, 3) = b; P(NE - 1, NE - 1) = d; Vals x = anyVals(); give(*i, x, 1023); c.Init(i); auto& Q = c.stateBuffer_.GetLast()->P;
  if (a == 0 && b == 0 && d == 0) { for (int k = 0; k < NE; k++) for (int l = 0; l < NE; l++) { sym_eq(Q(k, l), Q(l, k), "the default covariance is symmetric"); if (k >= 15 || l >= 15) sym_assert(k == l ? Q(k, l) > 0 : Q(k, l) == 0, "additional states start uncertain and uncorrelated"); else sym_assert(Q(k, l) * Q(k, l) <= Q(k, k) * Q(l, l) + 1e-12, "correlations are at most one"); } sym_reach("default"); }
  else { for (int k = 0; k < NE; k++) for (int l = 0; l < NE; l++) sym_eq(Q(k, l), k == 0 && l == 0 ? a : k == NE - 1 && l == NE - 1 ? d : (k == 3 && l == 20) || (k == 20 && l == 3) ? b : 0, "covariance as given"); sym_reach("given"); }
  sym_reach("end");
}
// measurements count only after the first reading that follows
ENTRY(h_init_first) {
  IMgr m; Core& c = *m.msf_core_; bool again = sym_choice("again", 2); if (again) used(c); InitP i(new Init(true)); i->time = 10; Vals x = anyVals(); give(*i, x, 1023); i->Geta_m() = Vector3d(0, 0, 9.5); boost::shared_ptr<Nop> e(new Nop(10)), f(new Nop(sym_real("tm", 9, 12)));
  if (!again) { c.AddMeasurement(e); sym_assert(e->n == 0 && c.MeasurementBuffer_.Size() == 0, "nothing is used before the start"); c.ProcessIMU(Vector3d(1, 2, 8), Vector3d(.5, 0, 0), 9.5, 1); sym_assert(c.stateBuffer_.Size() == 0 && m.pub_prop == 0, "nothing is predicted before the start"); }
  c.Init(i); c.AddMeasurement(f); sym_assert(f->n == 0 && c.MeasurementBuffer_.Size() == 0 && c.queueFutureMeasurements_.empty(), "measurements wait for the first reading");
  StP s = c.stateBuffer_.GetLast(); St o(*s); double t = 10 + sym_real("dt", 0.002, 0.05); Vector3d a(1, 2, 8), w(.5, -.25, .125); c.ProcessIMU(a, w, t, 2); sym_assert(c.stateBuffer_.Size() == 2, "the first reading predicts from the initial state"); StP n = c.stateBuffer_.GetLast(); sym_eq(n->time, t, "time of the reading");
  StP so(new St(o)), r(new St); r->time = t; r->a_m = a; r->w_m = w; c.PropagateState(so, r); const St &N = *n, &R = *r; eqm(N.Get<D::p>(), R.Get<D::p>(), "predicted from the initial state"); eqm(N.Get<D::v>(), R.Get<D::v>(), "predicted from the initial state"); eqq(N.Get<D::q>(), R.Get<D::q>(), "predicted from the initial state");
  sym_assert(m.pub_prop == 1, "the prediction is published"); for (int k = 1; k < 4; k++) c.ProcessIMU(a, w, t + k / 16.0, 2 + k); boost::shared_ptr<Nop> g(new Nop(t + 0.125)); c.AddMeasurement(g); sym_assert(g->n == 1, "measurements count once there are a few predictions"); sym_reach("end");
}
// initial values can be taken back
ENTRY(h_init_takeback) {
  Init i(true); Vals x = anyVals(); give(i, x, 1023); const Init& ci = i; eqm(ci.GetStateInitValue<D::v>(), x.v, "value set"); eqq(ci.GetStateInitValue<D::q_ic>(), x.qic, "value set"); i.ResetStateInitValue<D::v>(); i.ResetStateInitValue<D::q_ic>(); IMgr m; StP s(new St); sv<D::v>(*s) = Vector3d(3, 4, 5); sv<D::q_ic>(*s) = Quaterniond(0, 1, 0, 0); i.time = 4; i.Apply(s, *m.msf_core_);
  const St& S = *s; sym_eq(S.time, 4, "time"); eqm(S.Get<D::v>(), Vector3d(3, 4, 5), "value taken back"); eqq(S.Get<D::q_ic>(), Quaterniond(0, 1, 0, 0), "value taken back"); eqm(S.Get<D::p>(), x.p, "other values stay"); eqq(S.Get<D::q>(), x.q, "other values stay"); eqm(S.Get<D::p_ic>(), x.pic, "other values stay"); sym_reach("end");
}
// a restart forgets the reference of the fuzzy tracking
ENTRY(h_init_fuzzy) {
  IMgr m; Core& c = *m.msf_core_; c.initialized_ = c.predictionMade_ = true; int n = sym_choice("before", 3) * 30; for (int k = 0; k < n; k++) { StP s(new St); sv<D::q_wv>(*s) = Quaterniond(.5, .5, .5, .5); Matrix<double, NE, 1> z = Matrix<double, NE, 1>::Zero(); c.ApplyCorrection(s, z, 0.1); }
  InitP i(new Init(true)); i->time = 10; c.Init(i); c.predictionMade_ = true;
  for (int k = 0; k < 31; k++) { StP s(new St); sv<D::q_wv>(*s) = Quaterniond(.5, -.5, .5, -.5); Matrix<double, NE, 1> z = Matrix<double, NE, 1>::Zero(); z(16) = k == 30 ? sym_real("small", -0.05, 0.05) : 0; c.ApplyCorrection(s, z, 0.1); sym_assert(!c.isfuzzyState_, "attitudes from before the restart do not count"); } sym_reach("end");
}
// a state is reset to neutral values and the user has the last word
struct RMgr : Mgr { mutable int n = 0; mutable bool neutral = false; void ResetState(St& s) const override { n++; neutral = s.time == 0 && s.P(3, 3) == 0; sv<D::L>(s)(0) = 1; } };
ENTRY(h_init_reset) {
  RMgr m; St s; Vals x = anyVals(); sv<D::p>(s) = x.p; sv<D::v>(s) = x.v; sv<D::q>(s) = x.q; sv<D::b_w>(s) = x.bw; sv<D::b_a>(s) = x.ba; sv<D::L>(s)(0) = x.L; sv<D::q_wv>(s) = x.qwv; sv<D::p_wv>(s) = x.pwv; sv<D::q_ic>(s) = x.qic; sv<D::p_ic>(s) = x.pic; s.time = 5; s.w_m = symv3("w", 9); s.a_m = symv3("a", 9); for (int i = 0; i < NE; i++) for (int j = 0; j < NE; j++) s.P(i, j) = sym_real("P", 1, 9);
  bool user = sym_choice("user", 2); s.Reset(user ? &m : 0); x.L = 1; checkVals(s, x, user ? 32 : 0); sym_eq(s.time, 0, "time"); eqm(s.w_m, Vector3d::Zero(), "no rotation"); eqm(s.a_m, Vector3d::Zero(), "no acceleration"); for (int i = 0; i < NE; i++) for (int j = 0; j < NE; j++) sym_eq(s.P(i, j), 0, "no covariance"); sym_assert(m.n == (user ? 1 : 0) && (!user || m.neutral), "the user is called last"); sym_reach("end");
}
