#include "mgr_common.h"
// The pose sensor as part of the pose, pose-and-pressure and pose-and-position filters.
#ifndef LEVEL
#define LEVEL(x) msf_updates::SinglePoseSensor_##x
#endif
typedef geometry_msgs::PoseWithCovarianceStamped PoseCov;
static void calib(const Vector3d& p, const Quaterniond& q) {
  params().d = {{"pose_sensor/init/p_ic/x", p(0)}, {"pose_sensor/init/p_ic/y", p(1)}, {"pose_sensor/init/p_ic/z", p(2)}, {"pose_sensor/init/q_ic/w", q.w()}, {"pose_sensor/init/q_ic/x", q.x()}, {"pose_sensor/init/q_ic/y", q.y()}, {"pose_sensor/init/q_ic/z", q.z()}};
}
static const Quaterniond kZq(.5, -.5, .5, .5), kQic(.5, .5, -.5, .5);
#ifdef HAS_POSITION
static boost::shared_ptr<geometry_msgs::PointStamped> pointMsg(double t, uint32_t seq, const Vector3d& p) { auto m = msgAt<geometry_msgs::PointStamped>(t, seq); put(m->point, p); return m; }
#endif
// an update computed from the state s with a measurement received at time t through a topic
template <class M> static Captured via(MGR& m, const char* topic, const boost::shared_ptr<M>& msg, StP s) {
  ready(m, 1); ros::stub::deliver(topic, msg); std::vector<MeasP> w = waiting(m); sym_assert(w.size() == 1, "one measurement reaches the filter"); Captured c = applied(m, w[0], s); sym_assert(c.n == 1, "one update"); return c;
}
static void checkStart(MGR& m, StP s, double L, const Vector3d& pic, const Quaterniond& qic) {
  sym_assert(m.msf_core_->initialized_, "the filter is initialised"); sym_assert(m.msf_core_->stateBuffer_.Size() == 1, "one state"); sym_eq(s->time, 100, "time of the initial state is now"); sym_eq(s->Get<D::L>()(0), L, "initial scale");
  eqm(s->Get<D::p_ic>(), pic, "camera position from the parameters"); eqq(s->Get<D::q_ic>(), qic, "camera attitude from the parameters");
  eqm(s->Get<D::v>(), Vector3d::Zero(), "starts at rest"); eqm(s->Get<D::b_w>(), Vector3d::Zero(), "no gyro bias"); eqm(s->Get<D::b_a>(), Vector3d::Zero(), "no accelerometer bias");
  eqm(s->w_m, Vector3d::Zero(), "no rotation"); Vector3d a = rot(s->Get<D::q>()) * s->a_m; for (int i = 0; i < 3; i++) sym_assert((a(i) - (i == 2 ? 9.8083 : 0) < 0.01) & (a(i) - (i == 2 ? 9.8083 : 0) > -0.01), "the first reading is gravity alone");
  sym_eq(s->Get<D::q>().squaredNorm(), 1, "unit attitude");
}
enum How { CONFIG, SCALE_SRV, HEIGHT_CFG, HEIGHT_SRV };
static void initial(How how, int sy, bool got = true) {
  World w; Vector3d zp = symv3("zp", 100), pic = symv3("pic", 5); Quaterniond zq = sy & 1 ? symq("zq") : kZq, qic = sy & 2 ? symq("qic") : kQic;
  bool ws = sym_choice("world_sensor", 2); params().b = {{"pose_measurement_world_sensor", ws}}; double len = !(sy & 2) && sym_choice("rounded digits", 2) ? 1.25 : 1; calib(pic, Quaterniond(len * qic.w(), len * qic.x(), len * qic.y(), len * qic.z())); double yaw = 0;
#ifdef HAS_POSITION
  params().d.push_back({"position_sensor/init/p_ip/x", 0.3}); params().d.push_back({"position_sensor/init/p_ip/y", -0.2}); params().d.push_back({"position_sensor/init/p_ip/z", 0.1}); params().b.push_back({"position_use_fixed_covariance", true}); params().b.push_back({"position_absolute_measurements", true});
#endif
  MGR m; Cfg c;
#ifdef HAS_POSITION
  static const double kYaw[3] = {0, 90, -135}; c.position_yaw_init = yaw = kYaw[sym_choice("yaw", 3)]; 
#endif
  Vector3d z0 = ws ? zp : Vector3d(-(rot(zq).transpose() * zp)); // position of the sensor in the world
  if (how == HEIGHT_CFG || how == HEIGHT_SRV) sym_assume((z0(2) > 0.1) | (z0(2) < -0.1));
  ready(m, 1); if (got) { ros::stub::deliver("pose_with_covariance_input", poseMsg(19, 0, Vector3d(9, 8, 7), kQic)); ros::stub::deliver("pose_with_covariance_input", poseMsg(20, 1, zp, zq)); } waiting(m); // the latest counts
#ifdef HAS_PRESSURE
  double hp = sym_real("pressure", -50, 50); auto pm = msgAt<geometry_msgs::PointStamped>(20, 10); put(pm->point, Vector3d(0, 0, hp)); ready(m, 1); if (got) ros::stub::deliver("pressure_height", pm); waiting(m);
#endif
#ifdef HAS_POSITION
  Vector3d pp = symv3("pp", 100); ready(m, 1); if (got) { ros::stub::deliver("position_input", pointMsg(19, 0, Vector3d(9, 8, 7))); ros::stub::deliver("position_input", pointMsg(20, 1, pp)); } waiting(m);
#endif
  double L = sym_real("scale", 0.01, 20), h = sym_real("height", 0.1, 20); if (how == HEIGHT_SRV && sym_choice("below", 2)) h = -h;
  if (how == CONFIG) { c.core_init_filter = true; c.pose_initial_scale = L; dynamic_reconfigure::Server<Cfg>::last()->cb(c, LEVEL(INIT_FILTER)); sym_assert(!c.core_init_filter, "the request is taken back once it has been served"); }
  if (how == HEIGHT_CFG) { c.core_set_height = true; c.core_height = h; L = z0(2) / h; dynamic_reconfigure::Server<Cfg>::last()->cb(c, LEVEL(SET_HEIGHT)); sym_assert(!c.core_set_height, "the request is taken back once it has been served"); }
#ifdef HAS_SERVICES
  if (how == SCALE_SRV) { sensor_fusion_comm::InitScale::Request q; sensor_fusion_comm::InitScale::Response r; q.scale = L; auto& v = ros::stub::srv<sensor_fusion_comm::InitScale::Request, sensor_fusion_comm::InitScale::Response>(); sym_assert(v.size() >= 1 && v.back().f(q, r), "the service answers"); }
  if (how == HEIGHT_SRV) { sensor_fusion_comm::InitHeight::Request q; sensor_fusion_comm::InitHeight::Response r; q.height = h; L = z0(2) / h; auto& v = ros::stub::srv<sensor_fusion_comm::InitHeight::Request, sensor_fusion_comm::InitHeight::Response>(); sym_assert(v.size() >= 1 && v.back().f(q, r), "the service answers"); }
#endif
  StP s(new St(*current(m))); checkStart(m, s, L, pic, qic);
#ifdef HAS_POSITION
  { double e1 = s->Get<D::q>().w() - cos(yaw / 360 * M_PI), e2 = s->Get<D::q>().z() - sin(yaw / 360 * M_PI); sym_assert((e1 < 1e-9) & (e1 > -1e-9) & (e2 < 1e-9) & (e2 > -1e-9), "level, with the configured heading"); }
#endif
  if (!got) { double e1 = s->Get<D::q>().w() - cos(yaw / 360 * M_PI), e2 = s->Get<D::q>().z() - sin(yaw / 360 * M_PI); sym_assert((e1 < 1e-9) & (e1 > -1e-9) & (e2 < 1e-9) & (e2 > -1e-9), "level and heading as configured without a measurement"); sym_reach("end"); return; }
  Captured u = via(m, "pose_with_covariance_input", poseMsg(50, 2, zp, zq), s); for (int i = 0; i < 6; i++) sym_eq(u.r(i), 0, "the pose used for initialisation is explained exactly");
#ifdef HAS_PRESSURE
  pm = msgAt<geometry_msgs::PointStamped>(50, 20); put(pm->point, Vector3d(0, 0, hp)); u = via(m, "pressure_height", pm, s); sym_eq(u.r(0), 0, "the pressure used for initialisation is explained exactly");
#endif
#ifdef HAS_POSITION
  u = via(m, "position_input", pointMsg(50, 2, pp), s); for (int i = 0; i < 3; i++) sym_eq(u.r(i), 0, "the position used for initialisation is explained exactly");
#endif
  sym_reach("end");
}
ENTRY(h_mgr_init) { initial(CONFIG, 3); }
ENTRY(h_mgr_init_sensor) { initial(CONFIG, 1); }
ENTRY(h_mgr_init_fixed) { initial(CONFIG, 0); }
ENTRY(h_mgr_init_height) { initial(HEIGHT_CFG, 0); }
ENTRY(h_mgr_init_none) { initial(CONFIG, 0, false); }
#ifdef HAS_SERVICES
ENTRY(h_mgr_srv_scale) { initial(SCALE_SRV, 0); }
ENTRY(h_mgr_srv_height) { initial(HEIGHT_SRV, 0); }
// a request that cannot be served leaves the filter as it is
ENTRY(h_mgr_srv_refuse) {
  World w; MGR m; sensor_fusion_comm::InitHeight::Request q; sensor_fusion_comm::InitHeight::Response r; auto& v = ros::stub::srv<sensor_fusion_comm::InitHeight::Request, sensor_fusion_comm::InitHeight::Response>();
  StP s = ready(m, 1); bool got = sym_choice("got", 2); if (got) { Vector3d zp = symv3("zp", 100); sym_assume(zp(2) > 0.1); ros::stub::deliver("pose_with_covariance_input", poseMsg(20, 1, zp, kZq)); q.height = sym_real("height", -0.0099, 0.0099); } else q.height = sym_real("any_height", -20, 20);
  sym_assert(v.size() >= 1 && !v.back().f(q, r), "the request is refused"); sym_assert(current(m) == s && m.msf_core_->initialized_ && m.msf_core_->predictionMade_, "the running filter is not disturbed"); sym_assert((int)waiting(m).size() == (got ? 1 : 0), "waiting measurements are kept"); sym_reach("end");
}
#endif
// a change of other settings does not restart the filter
ENTRY(h_mgr_norestart) {
  World w; MGR m; StP s = ready(m, 1); Cfg c; bool flag = sym_choice("flag", 2); uint32_t level = flag ? LEVEL(MISC) : ~0u; c.core_init_filter = flag; c.core_set_height = flag; ros::stub::deliver("pose_with_covariance_input", poseMsg(20, 1, Vector3d(1, 2, 3), kZq));
  configure(c, level); sym_assert(current(m) == s && m.msf_core_->initialized_ && m.msf_core_->predictionMade_, "the running filter is not disturbed"); sym_assert(waiting(m).size() == 1, "waiting measurements are kept"); sym_reach("end");
}
// settings reach the filter, and the latest ones count
ENTRY(h_mgr_config) {
  World w; params().b = {{"pose_use_fixed_covariance", true}}; MGR m; Cfg c, old; old.pose_noise_meas_p = 3; old.pose_noise_meas_q = 2; old.pose_delay = 1.5; old.pose_fixed_scale = true; old.pose_noise_scale = 7; configure(old, LEVEL(MISC));
  double np = sym_real("np", 1e-3, 5), nq = sym_real("nq", 1e-3, 5), delay = sym_real("delay", -2, 2), t = sym_real("t", 40, 60); int sel = sym_int("fixed", 0, 31);
  c.pose_noise_meas_p = np; c.pose_noise_meas_q = nq; c.pose_delay = delay; c.pose_fixed_scale = sel & 1; c.pose_fixed_q_wv = sel & 2; c.pose_fixed_p_wv = sel & 4; c.pose_fixed_q_ic = sel & 8; c.pose_fixed_p_ic = sel & 16;
  double n[6]; const char* nm[5] = {"nL", "nqwv", "npwv", "nqic", "npic"}; for (int i = 0; i < 5; i++) n[i] = sym_real(nm[i], 0, 10);
  c.pose_noise_scale = n[0]; c.pose_noise_q_wv = n[1]; c.pose_noise_p_wv = n[2]; c.pose_noise_q_ic = n[3]; c.pose_noise_p_ic = n[4];
  int at[6] = {15, 16, 19, 22, 25, 28}, len[6] = {1, 3, 3, 3, 3, 0}, nb = 5;
#ifdef HAS_PRESSURE
  c.press_noise_bias_p = n[5] = sym_real("nbp", 0, 10); len[5] = 1; nb = 6; double nz = c.press_noise_meas_p = sym_real("nz", 1e-3, 5);
#endif
#ifdef HAS_POSITION
  c.position_noise_p_ip = n[5] = sym_real("npip", 0, 10); len[5] = 3; nb = 6;
#endif
  // the same change may ask for a height that cannot be set because no pose has arrived yet
  bool h = sym_choice("height asked for", 2); c.core_set_height = h; configure(c, h ? LEVEL(MISC) | LEVEL(SET_HEIGHT) : LEVEL(MISC));
  ready(m, 1); ros::stub::deliver("pose_with_covariance_input", poseMsg(t, 1, Vector3d(1, 2, 3), kZq)); std::vector<MeasP> v = waiting(m); sym_assert(v.size() == 1, "one measurement reaches the filter"); sym_eq(v[0]->time, t - delay, "the delay dates the measurement back");
  StP s(new St); s->time = 5; fillP(s->P); sv<D::p>(*s) = Vector3d(1, 2, 4); sv<D::L>(*s)(0) = 2; sv<D::p_ic>(*s) = Vector3d(.1, .2, .3); sv<D::q>(*s) = kZq; sv<D::q_wv>(*s).setIdentity(); sv<D::q_ic>(*s).setIdentity(); sv<D::p_wv>(*s) = Vector3d(3, 4, 5);
  Captured u = applied(m, v[0], s); for (int i = 0; i < 7; i++) for (int j = 0; j < 7; j++) sym_eq(u.R(i, j), i != j ? 0.0 : i < 3 ? np * np : i < 6 ? nq * nq : 1e-6, "measurement noise from the settings");
  checkP(s->P, [&](int k) { for (int i = 0; i < 5; i++) if ((sel >> i & 1) && k >= at[i] && k < at[i] + len[i]) return i; return -1; });
  St z; for (int i = 0; i < NE; i++) for (int j = 0; j < NE; j++) z.P(i, j) = 0; double dt = sym_real("dt", 1e-3, 1); static_cast<msf_core::MSF_SensorManager<St>&>(m).CalculateQAuxiliaryStates(z, dt);
  auto chk = [&](auto& q, int b) { for (int i = 0; i < q.rows(); i++) for (int j = 0; j < q.cols(); j++) sym_eq(q(i, j), i == j ? dt * n[b] * n[b] : 0.0, "drift of the additional states as configured"); };
  chk(z.GetQBlock<D::L>(), 0); chk(z.GetQBlock<D::q_wv>(), 1); chk(z.GetQBlock<D::p_wv>(), 2); chk(z.GetQBlock<D::q_ic>(), 3); chk(z.GetQBlock<D::p_ic>(), 4);
#ifdef HAS_PRESSURE
  chk(z.GetQBlock<D::b_p>(), 5);
  auto pm = msgAt<geometry_msgs::PointStamped>(50, 20); ready(m, 1); ros::stub::deliver("pressure_height", pm); v = waiting(m); sym_assert(v.size() == 1, "one measurement reaches the filter"); u = applied(m, v[0], s); sym_eq(u.R(0, 0), nz * nz, "pressure noise from the settings");
#endif
#ifdef HAS_POSITION
  chk(z.GetQBlock<D::p_ip>(), 5);
#endif
  sym_reach("end");
}
// settings of the core
ENTRY(h_mgr_core) {
  World w; MGR m; CoreCfg c; double a = c.core_noise_acc = sym_real("na", 1e-4, .5), ab = c.core_noise_accbias = sym_real("nba", 1e-8, .1), g = c.core_noise_gyr = sym_real("nw", 1e-4, .5), gb = c.core_noise_gyrbias = sym_real("nbw", 1e-7, .1); bool fb = c.core_fixed_bias = sym_bool("fixed"); configureCore(c);
  Cfg o; configure(o, LEVEL(MISC)); const msf_core::MSF_SensorManager<St>& b = m; sym_eq(b.GetParamNoiseAcc(), a, "accelerometer noise"); sym_eq(b.GetParamNoiseAccbias(), ab, "accelerometer bias walk"); sym_eq(b.GetParamNoiseGyr(), g, "gyro noise"); sym_eq(b.GetParamNoiseGyrbias(), gb, "gyro bias walk"); sym_assert(b.GetParamFixedBias() == fb, "fixed bias"); sym_reach("end");
}
// a negative scale estimate is corrected to a small positive one, any other is left alone
ENTRY(h_mgr_sanity) {
  World w; MGR m; St s, b; double L = sym_real("L", -50, 50); sv<D::L>(s)(0) = L; Vector3d p = symv3("p", 10); sv<D::p>(s) = p; Matrix<double, NE, 1> cor = Matrix<double, NE, 1>::Zero(); static_cast<msf_core::MSF_SensorManager<St>&>(m).SanityCheckCorrection(s, b, cor);
  double g = s.Get<D::L>()(0); if (L < 0) { sym_eq(g, 0.1, "a negative scale becomes 0.1"); sym_reach("negative"); } else { sym_eq(g, L, "other scales are kept"); sym_reach("kept"); } eqm(s.Get<D::p>(), p, "nothing else changes"); sym_reach("end");
}
// rate limit: a measurement passes exactly when it is later than the last accepted one by more than the minimum interval less the 1 ms tolerance
ENTRY(h_mgr_throttle) {
  World w; double dt = sym_real("min_dt", 0.002, 1), delay = sym_real("delay", -0.5, 0.5); params().d = {{"pose_measurement_minimum_dt", dt}}; params().b = {{"pose_absolute_measurements", (bool)sym_choice("absolute", 2)}}; MGR m; Cfg c; c.pose_delay = delay; configure(c, LEVEL(MISC)); ready(m, 1);
  double t[4], last = 0; std::vector<double> acc; for (int i = 0; i < 4; i++) { t[i] = sym_real("t", 40, 60); ros::stub::deliver("pose_with_covariance_input", poseMsg(t[i], i + 1, Vector3d(i, 2, 3), kZq)); if (i == 0 || t[i] - last > dt - 0.001) { last = t[i]; acc.push_back(t[i]); } }
  std::vector<MeasP> v = waiting(m); sym_assert(v.size() == acc.size(), "exactly the measurements far enough apart are used"); for (size_t i = 0; i < v.size(); i++) sym_eq(v[i]->time, acc[i] - delay, "in order, dated back by the delay"); sym_reach("end");
}
// every kind of pose message carries the same information; without a covariance only when a fixed one is configured
ENTRY(h_mgr_kinds) {
  World w; bool fixed = sym_choice("fixed_cov", 2); params().b = {{"pose_use_fixed_covariance", fixed}}; MGR m; int kind = sym_choice("kind", 4); double t = sym_real("t", 40, 60), delay = sym_real("delay", -1, 1); Cfg c; c.pose_delay = delay; c.pose_noise_meas_p = 0.5; c.pose_noise_meas_q = 0.25; configure(c, LEVEL(MISC));
  Vector3d zp = symv3("zp", 100); Quaterniond zq = symq("zq"); double cv = sym_real("cov", 0.01, 5); StP s = ready(m, 1); int n = 0;
  if (kind == 0) { auto g = poseMsg(t, 1, zp, zq); for (int i = 0; i < 3; i++) g->pose.covariance[7 * i] = cv; n = ros::stub::deliver("pose_with_covariance_input", g); }
  if (kind == 1) { auto g = msgAt<nav_msgs::Odometry>(t, 1); g->pose = poseMsg(t, 1, zp, zq)->pose; for (int i = 0; i < 3; i++) g->pose.covariance[7 * i] = cv; n = ros::stub::deliver("odometry_input", g); }
  if (kind == 2) { auto g = msgAt<geometry_msgs::TransformStamped>(t, 1); put(g->transform.translation, zp); putq(g->transform.rotation, zq); n = ros::stub::deliver("transform_input", g); }
  if (kind == 3) { auto g = msgAt<geometry_msgs::PoseStamped>(t, 1); put(g->pose.position, zp); putq(g->pose.orientation, zq); n = ros::stub::deliver("pose_input", g); }
  sym_assert(n >= 1, "the topic is subscribed");
  std::vector<MeasP> v = waiting(m);
#ifdef HAS_POSITION
  v.erase(std::remove_if(v.begin(), v.end(), [](const MeasP& x) { return !boost::dynamic_pointer_cast<msf_updates::pose_measurement::PoseMeasurement<>>(x); }), v.end());
#endif
  if (kind >= 2 && !fixed) { sym_assert(v.empty(), "messages without covariance need a configured one"); sym_reach("discarded"); return; }
  sym_assert(v.size() == 1, "one measurement reaches the filter"); sym_eq(v[0]->time, t - delay, "time of the measurement"); auto pm = boost::dynamic_pointer_cast<msf_updates::pose_measurement::PoseMeasurement<>>(v[0]); sym_assert(!!pm, "a pose measurement");
  eqm(pm->z_p_, zp, "measured position"); eqq(pm->z_q_, zq, "measured attitude"); StP x(new St); x->time = 5; sv<D::q>(*x) = kZq; Captured u = applied(m, v[0], x); for (int i = 0; i < 6; i++) sym_eq(u.R(i, i), fixed ? (i < 3 ? 0.25 : 0.0625) : i < 3 ? cv : 0.04, "measurement covariance"); sym_reach("end");
}
// a pose sensor asked to distort its poses: each one after the first drifts by the time since the one before
unsigned std::random_device::_M_getval() { return 20121; }
void std::random_device::_M_init(const std::string&) {}
void std::random_device::_M_fini() {}
ENTRY(h_mgr_distorted) {
  World w; double mp = sym_real("mp", -1, 1), ms = sym_real("ms", -0.25, 0.25); params().b = {{"pose_use_fixed_covariance", true}}; params().d = {{"pose_sensor/distortpos_mean", mp}, {"pose_sensor/distortatt_mean", 0.125}, {"pose_sensor/distortscale_mean", ms}};
  MGR m; Cfg c; c.pose_noise_meas_p = c.pose_noise_meas_q = 0.5; c.pose_delay = 0; configure(c, LEVEL(MISC)); msf_pose_sensor::PoseSensorHandler<msf_updates::pose_measurement::PoseMeasurement<>, MGR> h(m, "", "pose_sensor", true); h.SetNoises(0.5, 0.5); h.SetDelay(0);
  StP s(new St); s->Reset(&m); s->time = 1; s->P.setIdentity(); double t[3] = {20, 20.25, 20.75}; Vector3d drift = Vector3d::Zero(); Quaterniond dq = Quaterniond::Identity(); double scale = 1; 
  for (int i = 0; i < 3; i++) {
    Vector3d p = symv3("p", 50); if (i) { double dt = t[i] - t[i - 1]; drift += Vector3d::Constant(mp * dt); scale += ms * dt; Quaterniond d = QuaternionFromSmallAngle(Vector3d(Vector3d::Constant(0.125 * dt))); d.normalize(); dq = dq * d; }
    ready(m, 1); ros::stub::deliver("pose_with_covariance_input", poseMsg(t[i], 2 * i + 1, p, kZq)); std::vector<MeasP> v = waiting(m); sym_assert(v.size() == 2, "a measurement of each sensor"); Captured a = applied(m, v[0], s), b = applied(m, v[1], s);
    ready(m, 1); ros::stub::deliver("pose_with_covariance_input", poseMsg(t[i] + 0.0625, 2 * i + 2, Vector3d((p + drift) * scale), Quaterniond(kZq * dq))); v = waiting(m); sym_assert(v.size() == 2, "a measurement of each sensor"); Captured e = applied(m, v[0], s);
    sym_assert(e.n == 1 && b.n == 1, "one update"); for (int j = 0; j < 7; j++) sym_eq(b.r(j), e.r(j), "drifts over the time since the pose before"); t[i] += 0.0625;
    { double dt = 0.0625; drift += Vector3d::Constant(mp * dt); scale += ms * dt; Quaterniond d = QuaternionFromSmallAngle(Vector3d(Vector3d::Constant(0.125 * dt))); d.normalize(); dq = dq * d; }
  }
  sym_reach("end");
}
