#include "mgr_common.h"
#include <msf_core/gps_conversion.h>
// The spherical position filter: angles and distance arrive separately.
typedef geometry_msgs::PointStamped Pt;
typedef msf_spherical_position::AngleMeasurement AngM;
typedef msf_spherical_position::DistanceMeasurement DistM;
#define LEVEL(x) msf_updates::SphericalPositionSensor_##x
static boost::shared_ptr<Pt> point(double t, uint32_t seq, const Vector3d& p) { auto m = msgAt<Pt>(t, seq); put(m->point, p); return m; }
ENTRY(h_mgr_init) {
  World w; Vector3d pip = symv3("pip", 5); params().d = {{"position_sensor/init/p_ip/x", pip(0)}, {"position_sensor/init/p_ip/y", pip(1)}, {"position_sensor/init/p_ip/z", pip(2)}}; params().b = {{"use_fixed_covariance", true}, {"absolute_measurements", true}};
  static const double kYaw[3] = {0, 90, -135}; double yaw = kYaw[sym_choice("yaw", 3)]; double th = sym_real("theta", 0.3, 2.8), ph = sym_real("phi", -3.1, 3.1), d = sym_real("dist", 0.1, 100);
  MGR m; ready(m, 1); if (sym_choice("before", 2)) { ros::stub::deliver("angle_input", point(19, 0, Vector3d(1, .5, 0))); ros::stub::deliver("distance_input", point(19, 0, Vector3d(0, 0, 7))); } ros::stub::deliver("angle_input", point(20, 1, Vector3d(th, ph, 0))); ros::stub::deliver("distance_input", point(20, 1, Vector3d(0, 0, d))); waiting(m);
  Cfg c; c.yaw_init = yaw; c.core_init_filter = true; dynamic_reconfigure::Server<Cfg>::last()->cb(c, LEVEL(INIT_FILTER)); sym_assert(!c.core_init_filter, "the request is taken back once it has been served");
  StP s(new St(*current(m))); sym_assert(m.msf_core_->initialized_, "the filter is initialised"); sym_assert(m.msf_core_->stateBuffer_.Size() == 1, "one state"); sym_eq(s->time, 100, "time of the initial state is now"); eqm(s->Get<D::p_ip>(), pip, "antenna position from the parameters");
  eqm(s->Get<D::v>(), Vector3d::Zero(), "starts at rest"); eqm(s->Get<D::b_w>(), Vector3d::Zero(), "no gyro bias"); eqm(s->Get<D::b_a>(), Vector3d::Zero(), "no accelerometer bias"); eqm(s->w_m, Vector3d::Zero(), "no rotation");
  Quaterniond q = s->Get<D::q>(); double e1 = q.w() - cos(yaw / 360 * M_PI), e2 = q.z() - sin(yaw / 360 * M_PI); sym_assert((e1 < 1e-9) & (e1 > -1e-9) & (e2 < 1e-9) & (e2 > -1e-9) & (q.x() == 0) & (q.y() == 0), "level, with the configured heading");
  Vector3d a = s->Get<D::p>() + rot(q) * pip, o(d * sin(th) * cos(ph), d * sin(th) * sin(ph), d * cos(th)); for (int i = 0; i < 3; i++) sym_assert((a(i) - o(i) < 1e-6) & (a(i) - o(i) > -1e-6), "the angles and the distance used for initialisation are explained"); sym_reach("end");
}
ENTRY(h_mgr_norestart) { // a change of other settings does not restart the filter
  World w; params().b = {{"use_fixed_covariance", true}, {"absolute_measurements", true}}; MGR m; StP s = ready(m, 1); Cfg c; bool flag = sym_choice("flag", 2); uint32_t level = flag ? LEVEL(MISC) : ~0u; c.core_init_filter = flag; ros::stub::deliver("angle_input", point(20, 1, Vector3d(1, .5, 0)));
  configure(c, level); sym_assert(current(m) == s && m.msf_core_->initialized_ && m.msf_core_->predictionMade_, "the running filter is not disturbed"); sym_assert(waiting(m).size() == 1, "waiting measurements are kept"); sym_reach("end");
}
ENTRY(h_mgr_config) {
  World w; bool fixedCov = sym_choice("fixed_cov", 2); params().b = {{"use_fixed_covariance", fixedCov}, {"absolute_measurements", true}}; MGR m; Cfg c, old; old.angle_noise_meas = 3; old.distance_noise_meas = 4; old.angle_delay = 1.5; old.distance_delay = -1; old.fixed_p_ip = true; old.noise_p_ip = 7; configure(old, LEVEL(MISC));
  double na = c.angle_noise_meas = sym_real("na", 1e-3, 5), nd = c.distance_noise_meas = sym_real("nd", 1e-3, 5), da = c.angle_delay = sym_real("da", -2, 2), dd = c.distance_delay = sym_real("dd", -2, 2), np = c.noise_p_ip = sym_real("npip", 0, 10), t = sym_real("t", 40, 60); bool fixed = c.fixed_p_ip = sym_choice("fixed", 2); configure(c, LEVEL(MISC));
  double th = sym_real("theta", 0.3, 2.8), ph = sym_real("phi", -3.1, 3.1), d = sym_real("dist", 0.1, 100); ready(m, 1); sym_assert(ros::stub::deliver("angle_input", point(t, 1, Vector3d(th, ph, 0))) == 1 && ros::stub::deliver("distance_input", point(t, 1, Vector3d(0, 0, d))) == 1, "the topics are subscribed");
  auto v = waiting(m); if (!fixedCov) { sym_assert(v.empty(), "readings without covariance need a configured one"); sym_reach("discarded"); return; }
  sym_assert(v.size() == 2, "both readings reach the filter"); sym_eq(v[0]->time, t - da, "the delay dates the angles back"); sym_eq(v[1]->time, t - dd, "the delay dates the distance back"); sym_assert(v[0]->sensorID_ != v[1]->sensorID_, "the two sensors are told apart");
  for (int k = 0; k < 2; k++) { StP s(new St); s->time = 5; sv<D::p>(*s) = Vector3d(1, 2, 3); fillP(s->P); Captured u = applied(m, v[k], s); sym_assert(u.n == 1, "one update"); for (int i = 0; i < u.R.rows(); i++) for (int j = 0; j < u.R.cols(); j++) sym_eq(u.R(i, j), i != j ? 0.0 : k ? nd * nd : na * na, "measurement noise from the settings"); checkP(s->P, [&](int x) { return fixed && x >= NE - 3 ? 0 : -1; }); }
  St z; double dt = sym_real("dt", 1e-3, 1); static_cast<msf_core::MSF_SensorManager<St>&>(m).CalculateQAuxiliaryStates(z, dt); auto& q = z.GetQBlock<D::p_ip>(); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) sym_eq(q(i, j), i == j ? dt * np * np : 0.0, "drift of the antenna position as configured"); sym_reach("end");
}
