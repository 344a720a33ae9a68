// What the filter tells the outside world, and what it makes of IMU and external-state messages.
#include "mgr_common.h"
#include <sensor_msgs/Imu.h>
struct Fill { template <class V> void operator()(V& v) const { one(v.state_); } void one(Quaterniond& q) const { q = symq("q"); } template <int N> void one(Matrix<double, N, 1>& x) const { for (int i = 0; i < N; i++) x(i) = sym_real("x", -100, 100); } };
struct Flat { std::vector<double>* o; template <class V> void operator()(const V& v) const { one(v.state_); } void one(const Quaterniond& q) const { double a[4] = {q.w(), q.x(), q.y(), q.z()}; o->insert(o->end(), a, a + 4); } template <int N> void one(const Matrix<double, N, 1>& x) const { for (int i = 0; i < N; i++) o->push_back(x(i)); } };
static std::vector<double> flat(const St& s) { std::vector<double> o; boost::fusion::for_each(s.statevars, Flat{&o}); return o; }
static StP anyState(bool withP) { StP s(new St); boost::fusion::for_each(s->statevars, Fill()); s->time = sym_real("time", 1, 1000); s->w_m = symv3("w_m", 10); s->a_m = symv3("a_m", 40); s->P.setZero(); if (withP) for (int i = 0; i < NE; i++) for (int j = i; j < NE; j++) s->P(i, j) = s->P(j, i) = sym_real("P", -9, 9); return s; }
static std::string onlyTopic; // the only topic somebody listens to, or all
static bool listens(const char* t) { return onlyTopic == "*" || onlyTopic == t; }
struct Net : World { Net(const char* only) { onlyTopic = only; ros::stub::g().listens = listens; } };
typedef msf_core::MSF_SensorManager<St> Base; typedef geometry_msgs::PoseWithCovarianceStamped PoseMsg; typedef sensor_fusion_comm::DoubleMatrixStamped MatMsg; typedef sensor_fusion_comm::ExtEkf Ext;
static void eqStamp(const ros::Time& t, double w) { sym_eq(t.toSec(), w, "time of the state"); }
template <class V> static void eqv(const V& a, const Vector3d& b, const char* m) { sym_eq(a.x, b(0), m); sym_eq(a.y, b(1), m); sym_eq(a.z, b(2), m); }
static void checkPose(const PoseMsg& m, const St& s) {
  eqStamp(m.header.stamp, s.time); eqv(m.pose.pose.position, s.Get<D::p>(), "position"); eqq(Quaterniond(m.pose.pose.orientation.w, m.pose.pose.orientation.x, m.pose.pose.orientation.y, m.pose.pose.orientation.z), s.Get<D::q>(), "attitude");
  static const int at[6] = {0, 1, 2, 6, 7, 8}; for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) sym_eq(m.pose.covariance[6 * i + j], s.P(at[i], at[j]), "covariance of position and attitude");
}
// pose, odometry and velocity after every prediction
ENTRY(h_pub_propagation) {
  static const char* tp[4] = {"*", "pose", "odometry", "ext_state"}; Net w(tp[sym_choice("listener", 4)]); MGR m; StP s = anyState(true); const St& S = *s; s->noise_gyr = symv3("ng", 1); static_cast<Base&>(m).PublishStateAfterPropagation(s);
  if (listens("pose")) { auto v = ros::stub::out<PoseMsg>("pose"); sym_assert(v.size() == 1, "one pose"); checkPose(v[0], S); }
  Matrix3d R = rot(S.Get<D::q>()); Vector3d vb = R.transpose() * S.Get<D::v>();
  if (listens("ext_state")) { auto v = ros::stub::out<sensor_fusion_comm::ExtState>("ext_state"); sym_assert(v.size() == 1, "one state for a controller"); eqStamp(v[0].header.stamp, S.time); eqv(v[0].pose.position, S.Get<D::p>(), "position"); auto& o = v[0].pose.orientation; eqq(Quaterniond(o.w, o.x, o.y, o.z), S.Get<D::q>(), "attitude"); eqv(v[0].velocity, S.Get<D::v>(), "velocity in the world"); }
  if (listens("odometry")) {
    auto v = ros::stub::out<nav_msgs::Odometry>("odometry"); sym_assert(v.size() == 1, "one odometry"); PoseMsg p; p.header = v[0].header; p.pose = v[0].pose; checkPose(p, S); eqv(v[0].twist.twist.linear, vb, "velocity in the frame of the IMU"); eqv(v[0].twist.twist.angular, S.w_m - S.Get<D::b_w>(), "rotation without bias");
    Matrix<double, 3, 6> J; J.leftCols<3>() = R.transpose(); J.rightCols<3>() << 0, -vb(2), vb(1), vb(2), 0, -vb(0), -vb(1), vb(0), 0; Matrix<double, 6, 6> C; static const int at[6] = {3, 4, 5, 6, 7, 8}; for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) C(i, j) = S.P(at[i], at[j]);
    Matrix3d V = J * C * J.transpose(); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { sym_eq(v[0].twist.covariance[6 * i + j], V(i, j), "covariance of the velocity in the frame of the IMU"); sym_eq(v[0].twist.covariance[6 * (3 + i) + 3 + j], S.P(9 + i, 9 + j) + (i == j ? S.noise_gyr(i) * S.noise_gyr(i) : 0), "covariance of the rotation"); }
  }
  sym_reach("end");
}
// state, pose, transform and covariances after every update
ENTRY(h_pub_update) {
  static const char* tp[5] = {"*", "pose_after_update", "cov_core", "cov_aux", "cov_core_aux"}; Net w(tp[sym_choice("listener", 5)]); MGR m; StP s = anyState(true); const St& S = *s; static_cast<Base&>(m).PublishStateAfterUpdate(s);
  auto a = ros::stub::out<sensor_fusion_comm::DoubleArrayStamped>("state_out"); sym_assert(a.size() == 1, "one full state"); eqStamp(a[0].header.stamp, S.time); std::vector<double> f = flat(S); sym_assert(a[0].data.size() == f.size(), "size of the full state"); for (size_t i = 0; i < f.size(); i++) sym_eq(a[0].data[i], f[i], "states in the order of their definition");
  if (listens("pose_after_update")) { auto v = ros::stub::out<PoseMsg>("pose_after_update"); sym_assert(v.size() == 1, "one pose"); checkPose(v[0], S); }
  auto& t = ros::stub::Last<tf::StampedTransform>::msg(); sym_assert(ros::stub::Last<tf::StampedTransform>::count() == 1, "one transform"); for (int i = 0; i < 3; i++) sym_eq(t.t.o.v[i], S.Get<D::p>()(i), "origin of the transform"); sym_eq(t.stamp.toSec(), 100, "the transform carries the time of its publication"); eqq(Quaterniond(t.t.r.q[3], t.t.r.q[0], t.t.r.q[1], t.t.r.q[2]), S.Get<D::q>(), "rotation of the transform");
  struct { const char* n; int r0, r1, c0, c1; } b[3] = {{"cov_core", 0, 15, 0, 15}, {"cov_aux", 15, NE, 15, NE}, {"cov_core_aux", 0, 15, 15, NE}};
  for (auto& x : b) if (listens(x.n)) { auto v = ros::stub::out<MatMsg>(x.n); sym_assert(v.size() == 1, "one covariance"); eqStamp(v[0].header.stamp, S.time); int R = x.r1 - x.r0, C = x.c1 - x.c0; sym_assert((int)v[0].rows == R && (int)v[0].cols == C && (int)v[0].data.size() == R * C, "size of the covariance"); for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) sym_eq(v[0].data[i * C + j], S.P(x.r0 + i, x.c0 + j), "block of the covariance, row by row"); }
  sym_reach("end");
}
// every message names the configured frames
static const char* frames(const char* n) { std::string s(n); auto is = [&](const char* e) { std::string x(e); return s.size() >= x.size() && s.compare(s.size() - x.size(), x.size(), x) == 0; }; return is("msf_output_frame") ? "a" : is("odometry_child_frame") ? "b" : is("tf_target_frame") ? "c" : nullptr; }
ENTRY(h_pub_frames) {
  Net w("*"); bool set = sym_choice("configured", 2); if (set) ros::stub::g().param_s = frames; const std::string o = set ? "a" : "world", c = set ? "b" : "imu", t = set ? "c" : "state"; MGR m; StP s = anyState(false);
  static_cast<Base&>(m).PublishStateAfterPropagation(s); static_cast<Base&>(m).PublishStateAfterUpdate(s); ros::stub::g().param_s = nullptr;
  sym_assert(ros::stub::out<PoseMsg>("pose")[0].header.frame_id == o && ros::stub::out<PoseMsg>("pose_after_update")[0].header.frame_id == o && ros::stub::out<sensor_fusion_comm::ExtState>("ext_state")[0].header.frame_id == o, "poses are given in the output frame");
  auto v = ros::stub::out<nav_msgs::Odometry>("odometry")[0]; sym_assert(v.header.frame_id == o && v.child_frame_id == c, "frames of the odometry"); auto& x = ros::stub::Last<tf::StampedTransform>::msg(); sym_assert(x.frame_id_ == o && x.child_frame_id_ == t, "frames of the transform"); sym_reach("end");
}
// the gyro noise in the published rotation rate is the configured one
static boost::shared_ptr<Ext> extMsg(double, uint32_t, uint32_t, const Vector3d&, const Vector3d&, const double*, int);
ENTRY(h_pub_noise) {
  Net w("odometry"); MGR m; boost::shared_ptr<msf_core::MSF_InitMeasurement<St>> im(new msf_core::MSF_InitMeasurement<St>(true)); im->time = 5; im->Geta_m() = Vector3d(0, 0, 9.81); im->Getw_m() = Vector3d::Zero(); m.msf_core_->Init(im); CoreCfg c; double ng = c.core_noise_gyr = sym_real("ng", 0, 2); c.core_noise_acc = sym_real("na", 0, 2); configureCore(c); bool ext = sym_choice("external", 2); Vector3d g = symv3("g", 10), a(0.5, 0.25, 9); double x[16] = {1, 2, 3, 4, 5, 6, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0};
  if (ext) ros::stub::deliver("hl_state_input", extMsg(5.0625, 3, Ext::current_state, a, g, x, 16)); else { auto i = msgAt<sensor_msgs::Imu>(5.0625, 7); put(i->linear_acceleration, a); put(i->angular_velocity, g); ros::stub::deliver("imu_state_input", i); }
  auto v = ros::stub::out<nav_msgs::Odometry>("odometry"); sym_assert(v.size() == 1, "one odometry"); StP n = current(m); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) sym_eq(v[0].twist.covariance[6 * (3 + i) + 3 + j], n->P(9 + i, 9 + j) + (i == j ? ng * ng : 0), "noise of the rotation rate as configured"); sym_reach("end");
}
static boost::shared_ptr<Ext> extMsg(double t, uint32_t seq, uint32_t flag, const Vector3d& a, const Vector3d& w, const double* x, int n) { auto e = msgAt<Ext>(t, seq); put(e->linear_acceleration, a); put(e->angular_velocity, w); e->flag = flag; for (int i = 0; i < n; i++) e->state.push_back((float)x[i]); return e; }
static void anyHl(double* x) { for (int i = 0; i < 6; i++) x[i] = sym_real("hl", -100, 100); sym_unit4("hq", x + 6); for (int i = 10; i < 16; i++) x[i] = sym_real("hl", -100, 100); }
// the correction takes the latest externally propagated state to the corrected one
ENTRY(h_pub_correction) {
  static const char* tp[2] = {"*", "correction"}; Net w(tp[sym_choice("listener", 2)]); MGR m; double x[16], y[16] = {9, 9, 9, 9, 9, 9, 1, 0, 0, 0, 9, 9, 9, 9, 9, 9}; anyHl(x); ready(m, 5); m.msf_core_->initialized_ = false; ros::stub::deliver("hl_state_input", extMsg(6, 1, Ext::current_state, Vector3d(0, 0, 9.81), Vector3d::Zero(), y, 16)); ros::stub::deliver("hl_state_input", extMsg(6.25, 2, sym_choice("flag", 4), Vector3d(0, 0, 9.81), Vector3d::Zero(), x, 16));
  StP s = anyState(false); const St& S = *s; ros::stub::outs<Ext>().clear(); static_cast<Base&>(m).PublishStateAfterUpdate(s); auto v = ros::stub::out<Ext>("correction"); sym_assert(v.size() == 1 && v[0].state.size() == 16, "one correction"); eqStamp(v[0].header.stamp, S.time); sym_assert(v[0].flag == Ext::state_correction, "marked as a correction");
  std::vector<double> f = flat(S); auto& c = v[0].state; for (int i = 0; i < 16; i++) if (i < 6 || i >= 10) sym_eq(x[i] + c[i], f[i], "the correction added to the external state is the state of the filter");
  Quaterniond h(x[6], x[7], x[8], x[9]), d(c[6], c[7], c[8], c[9]); Quaterniond q = h * d; eqq(q, S.Get<D::q>(), "the external attitude turned by the correction is the attitude of the filter"); sym_reach("end");
}
// with recorded data the external filter is kept at its initial state
ENTRY(h_pub_playback) {
  Net w("*"); params().b = {{"data_playback", true}}; MGR m; StP s = anyState(false); static_cast<Base&>(m).PublishStateAfterUpdate(s); auto v = ros::stub::out<Ext>("correction"); sym_assert(v.size() == 1 && v[0].state.size() == 16, "one correction"); sym_assert(v[0].flag == Ext::initialization, "marked as an initialisation"); for (int i = 0; i < 16; i++) sym_eq(v[0].state[i], i == 6 ? 1 : 0, "neutral state"); sym_reach("end");
}
ENTRY(h_pub_initial) {
  Net w("*"); MGR m; StP s = anyState(false); static_cast<Base&>(m).PublishStateInitial(s); auto v = ros::stub::out<Ext>("correction"); sym_assert(v.size() == 1 && v[0].state.size() == 16, "one message"); sym_assert(v[0].flag == Ext::initialization, "marked as an initialisation"); eqStamp(v[0].header.stamp, s->time); std::vector<double> f = flat(*s); for (int i = 0; i < 16; i++) sym_eq(v[0].state[i], f[i], "core state of the filter"); sym_reach("end");
}
// IMU readings reach the filter as they are
static int states(MGR& m) { return m.msf_core_->stateBuffer_.Size(); }
ENTRY(h_imu_topic) {
  Net w(""); MGR m; StP s = ready(m, 5); *const_cast<Vector3d*>(&s->a_m) = Vector3d(0, 0, 9.81); double t = 5 + sym_real("dt", 0.002, 0.05); Vector3d a = symv3("a", 20), g = symv3("g", 10); auto i = msgAt<sensor_msgs::Imu>(t, 7); put(i->linear_acceleration, a); put(i->angular_velocity, g);
  sym_assert(ros::stub::deliver("imu_state_input", i) == 1, "the filter listens to the IMU"); sym_assert(states(m) == 2, "one reading, one state"); StP n = current(m); sym_eq(n->time, t, "time of the reading"); eqm(n->a_m, a, "acceleration"); eqm(n->w_m, g, "rotation"); sym_reach("end");
}
// external states: taken over when marked as current, otherwise only their readings count
ENTRY(h_ext_topic) {
  Net w(""); bool play = sym_choice("playback", 2); params().b = {{"data_playback", play}}; MGR m; StP s = ready(m, 5); s->a_m = Vector3d(0, 0, 9.81); sv<D::p>(*s) = Vector3d(1, 2, 3); sv<D::v>(*s).setZero(); sv<D::q>(*s).setIdentity(); int flag = sym_choice("flag", 4), n = sym_choice("length", 5); static const int len[5] = {16, 0, 9, 15, 10};
  double x[16]; anyHl(x); double k = sym_real("scale", 0.5, 2); for (int i = 6; i < 10; i++) x[i] *= k; Vector3d a(0.5, 0.25, 9), g(0.125, -0.25, 0.5); double t = 5.03125; sym_assert(ros::stub::deliver("hl_state_input", extMsg(t, 3, flag, a, g, x, len[n])) == 1, "the filter listens to external states");
  sym_assert(states(m) == 2, "one message, one state"); StP c = current(m); const St& C = *c; sym_eq(C.time, t, "time of the reading"); eqm(C.a_m, a, "acceleration"); eqm(C.w_m, g, "rotation");
  if (flag == Ext::current_state && !play && n == 0) { eqm(C.Get<D::p>(), Vector3d(x[0], x[1], x[2]), "position as given"); eqm(C.Get<D::v>(), Vector3d(x[3], x[4], x[5]), "velocity as given"); Quaterniond q = C.Get<D::q>(); sym_eq(q.squaredNorm(), 1, "unit attitude"); sym_eq(q.w() * k, x[6], "attitude as given"); sym_eq(q.x() * k, x[7], "attitude as given"); sym_eq(q.y() * k, x[8], "attitude as given"); sym_eq(q.z() * k, x[9], "attitude as given"); sym_reach("taken"); }
  else { StP o(new St(*s)), e(new St); e->time = t; e->a_m = a; e->w_m = g; m.msf_core_->PropagateState(o, e); const St& E = *e; eqm(C.Get<D::p>(), E.Get<D::p>(), "integrated from the readings"); eqm(C.Get<D::v>(), E.Get<D::v>(), "integrated from the readings"); eqq(C.Get<D::q>(), E.Get<D::q>(), "integrated from the readings"); sym_reach("integrated"); }
  sym_reach("end");
}
// an external state that is not a number is not taken over
ENTRY(h_ext_nan) {
  Net w(""); MGR m; StP s = ready(m, 5); s->a_m = Vector3d(0, 0, 9.81); sv<D::p>(*s) = symv3("p", 10); sv<D::v>(*s) = symv3("v", 10); sv<D::q>(*s).setIdentity(); static const double bad[3] = {NAN, INFINITY, -INFINITY}; double x[16] = {1, 2, 3, 4, 5, 6, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0}; x[sym_choice("where", 10)] = bad[sym_choice("bad", 3)];
  Vector3d a(0.5, 0.25, 9), g(0.125, -0.25, 0.5); double t = 5.03125; ros::stub::deliver("hl_state_input", extMsg(t, 3, Ext::current_state, a, g, x, 16)); sym_assert(states(m) == 2, "one message, one state"); StP c = current(m), o(new St(*s)), e(new St); const St& C = *c; e->time = t; e->a_m = a; e->w_m = g; m.msf_core_->PropagateState(o, e); const St& E = *e;
  eqm(C.Get<D::p>(), E.Get<D::p>(), "integrated from the readings"); eqm(C.Get<D::v>(), E.Get<D::v>(), "integrated from the readings"); eqq(C.Get<D::q>(), E.Get<D::q>(), "integrated from the readings"); sym_reach("end");
}
#ifdef HAS_PRESSURE
// every tenth reading is used; the average is over the last ten used
ENTRY(h_pressure_topic) {
  Net w(""); MGR m; ready(m, 1); double h[14]; std::vector<double> used, times; auto& H = *m.pressure_handler_; sym_eq(H.GetPressureMeasurement()(0), 0, "zero before the first reading"); sym_eq(H.GetAveragedPressureMeasurement()(0), 0, "zero before the first reading");
  int first = sym_int("seq", 0, 9); for (int i = 0; i < 14; i++) { h[i] = sym_real("h", -100, 100); for (int k = 0; k < 2; k++) { bool use = k == 0; auto p = msgAt<geometry_msgs::PointStamped>(20 + i, use ? 10 * i : 10 * i + (first ? first : 5)); put(p->point, Vector3d(4, 5, use ? h[i] : 77)); ros::stub::deliver("pressure_height", p); if (use) { used.push_back(h[i]); times.push_back(20 + i); } } }
  sym_eq(H.GetPressureMeasurement()(0), used.back(), "the last reading used"); double a = 0; for (size_t i = used.size() - 10; i < used.size(); i++) a += used[i]; sym_eq(H.GetAveragedPressureMeasurement()(0), a / 10, "average of the last ten readings used");
  std::vector<MeasP> v = waiting(m); sym_assert(v.size() == used.size(), "every tenth reading is used"); for (size_t i = 0; i < v.size(); i++) { sym_eq(v[i]->time, times[i], "time of the reading"); StP x(new St); x->time = 5; Captured u = applied(m, v[i], x); sym_eq(u.r(0), used[i], "height of the reading"); } sym_reach("end");
}
#endif
// a state that is not a number is not sent to the external filter
ENTRY(h_pub_nan) {
  Net w("*"); MGR m; StP s(new St); s->time = 3; static const double bad[3] = {NAN, INFINITY, -INFINITY}; int k = sym_choice("bad", 3), i = sym_choice("where", 4); if (i == 0) sv<D::p>(*s)(1) = bad[k]; if (i == 1) sv<D::v>(*s)(2) = bad[k]; if (i == 2) sv<D::b_w>(*s)(0) = bad[k]; if (i == 3) sv<D::q>(*s) = Quaterniond(0.5, bad[k], 0.5, 0.5);
  static_cast<Base&>(m).PublishStateAfterUpdate(s); sym_assert(ros::stub::out<Ext>("correction").empty(), "no correction from a broken state"); sym_reach("end");
}
