#include "mgr_common.h"
// Settings and identity of every sensor of a manager: the outlier gate, absolute or relative mode.
struct Sensor { const char* ns; const char* abs; bool absDefault; int kind; };
enum { POSE, POSITION, PRESSURE, ANGLE, DIST };
static const Sensor kSensors[] = {
#ifdef HAS_POSE
  {"pose_sensor", "pose_sensor/pose_absolute_measurements", true, POSE},
#endif
#ifdef HAS_POSITION
  {"position_sensor", "position_sensor/position_absolute_measurements", false, POSITION},
#endif
#ifdef HAS_PRESSURE
  {"pressure_sensor", nullptr, true, PRESSURE},
#endif
#ifdef HAS_SPHERICAL
  {"spherical_position_sensor", "spherical_position_sensor/absolute_measurements", false, ANGLE}, {"spherical_position_sensor", "spherical_position_sensor/absolute_measurements", false, DIST},
#endif
};
static const int kN = sizeof(kSensors) / sizeof(Sensor);
template <class M> static boost::shared_ptr<M> pt(double t) { auto m = msgAt<M>(t, 10); put(m->point, Vector3d(1, .5, 2)); return m; }
static int send(int kind, double t) {
  if (kind == POSE) return ros::stub::deliver("pose_with_covariance_input", poseMsg(t, 10, Vector3d(1, 2, 3), Quaterniond(.5, .5, .5, -.5)));
  const char* topic = kind == POSITION ? "position_input" : kind == PRESSURE ? "pressure_height" : kind == ANGLE ? "angle_input" : "distance_input"; return ros::stub::deliver(topic, pt<geometry_msgs::PointStamped>(t));
}
ENTRY(h_sensors) {
  World w; std::vector<std::string> names; names.reserve(4 * kN); bool set = sym_choice("gate set", 2), on[kN], abs[kN]; double thr[kN]; params().b = {{"position_use_fixed_covariance", true}};
  for (int k = 0; k < kN; k++) {
    const Sensor& s = kSensors[k]; bool same = k && !std::strcmp(s.ns, kSensors[k - 1].ns); abs[k] = s.absDefault; on[k] = false; thr[k] = 0;
    if (same) { abs[k] = abs[k - 1]; on[k] = on[k - 1]; thr[k] = thr[k - 1]; continue; }
    if (set) { on[k] = sym_choice("gate", 2); thr[k] = sym_real("threshold", 0.1, 50); names.push_back(std::string(s.ns) + "/enable_mah_outlier_rejection"); params().b.push_back({names.back().c_str(), on[k]}); names.push_back(std::string(s.ns) + "/mah_threshold"); params().d.push_back({names.back().c_str(), thr[k]}); }
    if (s.abs && sym_choice("mode set", 2)) { abs[k] = !s.absDefault; params().b.push_back({s.abs, abs[k]}); }
  }
  MGR m; Cfg c; configure(c, 0); ready(m, 1); int ids[kN];
  for (int k = 0; k < kN; k++) {
    sym_assert(send(kSensors[k].kind, 20 + k) >= 1, "the topic is subscribed"); auto v = waiting(m); sym_assert(v.size() == 1, "one measurement reaches the filter"); if (v.size() != 1) return;
    ids[k] = v[0]->sensorID_; for (int j = 0; j < k; j++) sym_assert(ids[j] != ids[k], "every sensor has its own identity");
    StP s(new St); s->time = 5; sv<D::p>(*s) = Vector3d(1, 2, 3); sv<D::q>(*s) = Quaterniond(.5, .5, -.5, .5); Captured u = applied(m, v[0], s);
    if (!abs[k]) { sym_assert(u.n == 0 && u.nrel == 0, "a relative measurement without a predecessor changes nothing"); sym_reach("relative"); continue; }
    sym_assert(u.n == 1 && u.nrel == 0, "an absolute measurement is used as such"); sym_assert(u.gate == on[k], "the outlier gate is on exactly for the sensors it was enabled for"); if (on[k]) { sym_eq(u.thr, thr[k], "threshold of the sensor's own gate"); sym_reach("gated"); }
    // a second measurement of the same sensor keeps the identity
    send(kSensors[k].kind, 30 + k); auto x = waiting(m); sym_assert(x.size() == 1 && x[0]->sensorID_ == ids[k], "a sensor keeps its identity"); sym_reach("absolute");
  }
  sym_reach("end");
}
