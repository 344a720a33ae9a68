#include "mgr_common.h"
// The position sensor as part of the position and of the pose-and-position filter.
#include <msf_core/gps_conversion.h>
typedef geometry_msgs::PointStamped Pt;
typedef msf_updates::position_measurement::PositionMeasurement PosM;
#ifndef LEVEL
#define LEVEL(x) msf_updates::SinglePositionSensor_##x
#endif
enum { PIP = NE - 3 };
static boost::shared_ptr<Pt> point(double t, uint32_t seq, const Vector3d& p) { auto m = msgAt<Pt>(t, seq); put(m->point, p); return m; }
static std::vector<MeasP> got(MGR& m) { std::vector<MeasP> v = waiting(m), o; for (auto& x : v) if (boost::dynamic_pointer_cast<PosM>(x)) o.push_back(x); return o; }
#ifndef HAS_POSE
ENTRY(h_mgr_init) {
  World w; Vector3d zp = symv3("zp", 100), pip = symv3("pip", 5); params().d = {{"position_sensor/init/p_ip/x", pip(0)}, {"position_sensor/init/p_ip/y", pip(1)}, {"position_sensor/init/p_ip/z", pip(2)}}; params().b = {{"position_use_fixed_covariance", true}, {"position_absolute_measurements", true}};
  bool have = sym_choice("have", 2); static const double kYaw[5] = {0, 90, -135, 180, 30}; double yaw = kYaw[sym_choice("yaw", 5)]; MGR m; ready(m, 1); if (have) { ros::stub::deliver("position_input", point(19, 0, Vector3d(9, 8, 7))); ros::stub::deliver("position_input", point(20, 1, zp)); } waiting(m); // the latest counts
  Cfg c; c.position_yaw_init = yaw; c.core_init_filter = true; dynamic_reconfigure::Server<Cfg>::last()->cb(c, LEVEL(INIT_FILTER)); sym_assert(!c.core_init_filter, "the request is taken back once it has been served");
  StP s(new St(*current(m))); sym_assert(m.msf_core_->initialized_, "the filter is initialised"); sym_assert(m.msf_core_->stateBuffer_.Size() == 1, "one state"); sym_eq(s->time, 100, "time of the initial state is now"); eqm(s->Get<D::p_ip>(), pip, "antenna position from the parameters");
  eqm(s->Get<D::v>(), Vector3d::Zero(), "starts at rest"); eqm(s->Get<D::b_w>(), Vector3d::Zero(), "no gyro bias"); eqm(s->Get<D::b_a>(), Vector3d::Zero(), "no accelerometer bias"); eqm(s->w_m, Vector3d::Zero(), "no rotation");
  Quaterniond q = s->Get<D::q>(); double e1 = q.w() - cos(yaw / 360 * M_PI), e2 = q.z() - sin(yaw / 360 * M_PI); sym_assert((e1 < 1e-9) & (e1 > -1e-9) & (e2 < 1e-9) & (e2 > -1e-9) & (q.x() == 0) & (q.y() == 0), "level, with the configured heading");
  Vector3d a = rot(q) * s->a_m; for (int i = 0; i < 3; i++) sym_assert((a(i) - (i == 2 ? 9.8083 : 0) < 0.01) & (a(i) - (i == 2 ? 9.8083 : 0) > -0.01), "the first reading is gravity alone");
  ready(m, 1); ros::stub::deliver("position_input", point(50, 2, have ? zp : Vector3d(0, 0, 0))); auto v = got(m); sym_assert(v.size() == 1, "one measurement reaches the filter"); Captured u = applied(m, v[0], s); sym_assert(u.n == 1, "one update");
  for (int i = 0; i < 3; i++) sym_assert((u.r(i) < 1e-9) & (u.r(i) > -1e-9), "the position used for initialisation is explained exactly"); sym_reach("end");
}
ENTRY(h_mgr_norestart) {
  World w; params().b = {{"position_use_fixed_covariance", true}, {"position_absolute_measurements", true}}; MGR m; StP s = ready(m, 1); Cfg c; bool flag = sym_choice("flag", 2); uint32_t level = flag ? LEVEL(MISC) : ~0u; c.core_init_filter = flag; ros::stub::deliver("position_input", point(20, 1, Vector3d(1, 2, 3)));
  configure(c, level); sym_assert(current(m) == s && m.msf_core_->initialized_ && m.msf_core_->predictionMade_, "the running filter is not disturbed"); sym_assert(waiting(m).size() == 1, "waiting measurements are kept"); sym_reach("end");
}
ENTRY(h_mgr_core) {
  World w; MGR m; CoreCfg c; double a = c.core_noise_acc = sym_real("na", 1e-4, .5), ab = c.core_noise_accbias = sym_real("nba", 1e-8, .1), g = c.core_noise_gyr = sym_real("nw", 1e-4, .5), gb = c.core_noise_gyrbias = sym_real("nbw", 1e-7, .1); bool fb = c.core_fixed_bias = sym_bool("fixed"); configureCore(c);
  Cfg o; configure(o, LEVEL(MISC)); const msf_core::MSF_SensorManager<St>& b = m; sym_eq(b.GetParamNoiseAcc(), a, "accelerometer noise"); sym_eq(b.GetParamNoiseAccbias(), ab, "accelerometer bias walk"); sym_eq(b.GetParamNoiseGyr(), g, "gyro noise"); sym_eq(b.GetParamNoiseGyrbias(), gb, "gyro bias walk"); sym_assert(b.GetParamFixedBias() == fb, "fixed bias"); sym_reach("end");
}
#endif
ENTRY(h_mgr_position_config) {
  World w; params().b = {{"position_use_fixed_covariance", true}, {"position_absolute_measurements", true}}; MGR m; Cfg c, old; old.position_noise_meas = 3; old.position_delay = 1.5; old.position_fixed_p_ip = true; old.position_noise_p_ip = 7; configure(old, LEVEL(MISC));
  double n = c.position_noise_meas = sym_real("n", 1e-3, 5), delay = c.position_delay = sym_real("delay", -2, 2), np = c.position_noise_p_ip = sym_real("npip", 0, 10), t = sym_real("t", 40, 60); bool fixed = c.position_fixed_p_ip = sym_choice("fixed", 2); configure(c, LEVEL(MISC));
  ready(m, 1); ros::stub::deliver("position_input", point(t, 1, Vector3d(1, 2, 3))); auto v = got(m); sym_assert(v.size() == 1, "one measurement reaches the filter"); sym_eq(v[0]->time, t - delay, "the delay dates the measurement back");
  StP s(new St); s->time = 5; fillP(s->P); Captured u = applied(m, v[0], s); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) sym_eq(u.R(i, j), i == j ? n * n : 0.0, "measurement noise from the settings");
  checkP(s->P, [&](int k) { return fixed && k >= PIP ? 0 : -1; });
  St z; double dt = sym_real("dt", 1e-3, 1); static_cast<msf_core::MSF_SensorManager<St>&>(m).CalculateQAuxiliaryStates(z, dt); auto& q = z.GetQBlock<D::p_ip>(); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) sym_eq(q(i, j), i == j ? dt * np * np : 0.0, "drift of the antenna position as configured"); sym_reach("end");
}
// messages: points need a configured covariance; every fifth transform is used
ENTRY(h_mgr_position_kinds) {
  World w; bool fixed = sym_choice("fixed_cov", 2); params().b = {{"position_use_fixed_covariance", fixed}, {"position_absolute_measurements", true}}; MGR m; int kind = sym_choice("kind", 2); double t = sym_real("t", 40, 60), delay = sym_real("delay", -1, 1); Cfg c; c.position_delay = delay; c.position_noise_meas = 0.5; configure(c, LEVEL(MISC));
  Vector3d zp = symv3("zp", 100); ready(m, 1); int n = 0; uint32_t seq = 9 + sym_choice("seq", 7);
  if (kind == 0) n = ros::stub::deliver("position_input", point(t, seq, zp)); else { auto g = msgAt<geometry_msgs::TransformStamped>(t, seq); put(g->transform.translation, zp); n = ros::stub::deliver("transform_input", g); }
  sym_assert(n >= 1, "the topic is subscribed"); auto v = got(m); bool use = fixed && (kind == 0 || seq % 5 == 0);
  if (!use) { sym_assert(v.empty(), "not used"); sym_reach("discarded"); return; }
  sym_assert(v.size() == 1, "one measurement reaches the filter"); sym_eq(v[0]->time, t - delay, "time of the measurement"); eqm(boost::dynamic_pointer_cast<PosM>(v[0])->z_p_, zp, "measured position"); sym_reach("end");
}
// GPS fixes: the first one is the origin; its covariance is used, and it is discarded without one
ENTRY(h_mgr_gps) {
  World w; bool fixed = sym_choice("fixed_cov", 2); params().b = {{"position_use_fixed_covariance", fixed}, {"position_absolute_measurements", true}}; MGR m; Cfg c; c.position_delay = 0.5; c.position_noise_meas = 0.5; configure(c, LEVEL(MISC));
  int type = sym_choice("type", 4); double h = sym_real("alt", -100, 5000), up = sym_real("up", -500, 500), cv[9]; sym_assume((up > 1) | (up < -1)); ready(m, 1); for (int i = 0; i < 9; i++) cv[i] = i % 4 == 0 ? sym_real("cov", 0.01, 5) : i == 1 || i == 3 ? 0.002 : 0.001;
  for (int k = 0; k < 2; k++) { auto g = msgAt<sensor_msgs::NavSatFix>(40 + k, 1 + k); g->latitude = 47.25; g->longitude = 8.5; g->altitude = k ? h + up : h; g->position_covariance_type = type; for (int i = 0; i < 9; i++) g->position_covariance[i] = cv[i]; sym_assert(ros::stub::deliver("navsatfix_input", g) >= 1, "the topic is subscribed"); }
  auto v = got(m); if (!fixed && type == 0) { sym_assert(v.empty(), "a fix without covariance is not used"); sym_reach("discarded"); return; }
  sym_assert(v.size() == 2, "both fixes reach the filter"); for (int k = 0; k < 2; k++) { sym_eq(v[k]->time, 39.5 + k, "time of the fix"); auto p = boost::dynamic_pointer_cast<PosM>(v[k])->z_p_; Vector3d e(p(0), p(1), p(2) - (k ? up : 0)); for (int i = 0; i < 3; i++) sym_assert((e(i) < 1e-3) & (e(i) > -1e-3), "metres east, north and up of the first fix"); }
  StP s(new St); s->time = 5; Captured u = applied(m, v[1], s); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) sym_eq(u.R(i, j), fixed ? (i == j ? 0.25 : 0.0) : cv[3 * i + j], "measurement covariance"); sym_reach("end");
}
// every sensor has its own origin: the first fix it got itself
ENTRY(h_mgr_gps_own) {
  double up = sym_real("up", -500, 500); sym_assume((up > 1) | (up < -1)); for (int k = 0; k < 2; k++) {
    World w; params().b = {{"position_use_fixed_covariance", true}, {"position_absolute_measurements", true}}; MGR m; Cfg c; c.position_delay = 0.5; configure(c, LEVEL(MISC)); ready(m, 1);
    for (int i = 0; i < 2; i++) { auto g = msgAt<sensor_msgs::NavSatFix>(40 + i, 1 + i); g->latitude = k ? -33.5 : 47.25; g->longitude = k ? 151.25 : 8.5; g->altitude = 100 * k + i * up; g->position_covariance_type = 2; for (int j = 0; j < 9; j++) g->position_covariance[j] = j % 4 == 0; ros::stub::deliver("navsatfix_input", g); }
    auto v = got(m); sym_assert(v.size() == 2, "both fixes reach the filter"); for (int i = 0; i < 2; i++) { auto p = boost::dynamic_pointer_cast<PosM>(v[i])->z_p_; Vector3d e(p(0), p(1), p(2) - i * up); for (int j = 0; j < 3; j++) sym_assert((e(j) < 1e-3) & (e(j) > -1e-3), "metres east, north and up of the first fix of the same sensor"); }
  }
  sym_reach("end");
}
// the GPS reference is moved vertically so that the last fix gets the given height
ENTRY(h_mgr_gps_adjust) {
  World w; params().b = {{"position_use_fixed_covariance", true}, {"position_absolute_measurements", true}}; MGR m; Cfg c; configure(c, LEVEL(MISC)); ready(m, 1);
  double h = sym_real("alt", -100, 5000), up = sym_real("up", -500, 500), cz = sym_real("height", -100, 100);
  auto fix = [&](int k, double alt) { auto g = msgAt<sensor_msgs::NavSatFix>(40 + k, 1 + k); g->latitude = 47.25; g->longitude = 8.5; g->altitude = alt; g->position_covariance_type = 2; ros::stub::deliver("navsatfix_input", g); };
  fix(0, h); fix(1, h + up); m.position_handler_->AdjustGPSZReference(cz); fix(2, h + up);
  auto v = got(m); sym_assert(v.size() == 3, "the fixes reach the filter"); auto p = boost::dynamic_pointer_cast<PosM>(v[2])->z_p_; Vector3d e(p(0), p(1), p(2) - cz); for (int i = 0; i < 3; i++) sym_assert((e(i) < 1e-3) & (e(i) > -1e-3), "the same fix now has the given height"); sym_reach("end");
}
