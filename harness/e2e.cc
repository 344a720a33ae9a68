// A whole node: IMU readings and sensor messages on its topics, in the order of their times and in other orders of arrival.
#define REAL_UPDATE
#include "mgr_common.h"
#include <sensor_msgs/Imu.h>
typedef sensor_fusion_comm::DoubleArrayStamped Vec;
struct Msg { int kind; double t; int at; }; // kind 0: IMU, 1: measurement; t: of the message; at: which one
static Vector3d zs[3]; static double accx; static Vector3d acc(int i) { static const double v[4][3] = {{0.5, 0.25, 9.5}, {-0.25, 0.5, 10}, {0.125, -0.5, 9.75}, {0.25, 0, 9.25}}; return Vector3d(i == 5 ? accx : v[i % 4][0], v[i % 4][1], v[i % 4][2]); }
static void send(const Msg& x) {
  if (x.kind == 0) { auto i = msgAt<sensor_msgs::Imu>(x.t, x.at); put(i->linear_acceleration, acc(x.at)); put(i->angular_velocity, Vector3d(0.125, 0.25, -0.125)); ros::stub::deliver("imu_state_input", i); return; }
#ifdef HAS_POSE
  auto q = Quaterniond(1, 0, 0, 0); ros::stub::deliver("pose_with_covariance_input", poseMsg(x.t, 1 + x.at, zs[x.at], q));
#else
  auto m = msgAt<geometry_msgs::PointStamped>(x.t, 1 + x.at); put(m->point, zs[x.at]); ros::stub::deliver("position_input", m);
#endif
}
#ifdef HAS_POSE
static const char kNs[] = "pose";
#else
static const char kNs[] = "position";
#endif
// attitude and gyro bias (and the scale of a pose sensor) are certain, so that the filter is linear in what is measured
static bool open(int i) {
#ifdef HAS_POSE
  return i < 6 || (i >= 12 && i < 15);
#else
  return i < 6 || i >= 12;
#endif
}
struct Result { StP s; std::vector<double> out; double t; int n; };
static Result run(const std::vector<Msg>& ms) {
  World w; params().b = {{"position_use_fixed_covariance", true}, {"position_absolute_measurements", true}, {"pose_use_fixed_covariance", true}}; ros::stub::outs<Vec>().clear(); MGR m; Cfg c;
#ifdef HAS_POSE
  c.pose_delay = 0.25; c.pose_noise_meas_p = 0.25; c.pose_noise_meas_q = 0.125;
#else
  c.position_delay = 0.25; c.position_noise_meas = 0.25;
#endif
  configure(c, 1 << 20); boost::shared_ptr<msf_core::MSF_InitMeasurement<St>> im(new msf_core::MSF_InitMeasurement<St>(true)); im->time = 5; im->template SetStateInitValue<D::p>(Vector3d(1, 2, 3)); im->Geta_m() = Vector3d(0, 0, 9.81); im->Getw_m() = Vector3d(0.125, 0, 0); for (int i = 0; i < NE; i++) for (int j = 0; j < NE; j++) im->GetStateCovariance()(i, j) = open(i) && open(j) ? (i == j ? 1 + i / 8. : (i + j) / 256.0) : 0; m.msf_core_->Init(im);
  CoreCfg k; k.core_noise_acc = 0.0625; k.core_noise_accbias = 0.03125; k.core_noise_gyr = k.core_noise_gyrbias = 0; configureCore(k);
  for (auto& x : ms) send(x);
  auto o = ros::stub::out<Vec>("state_out"); Result r{StP(new St(*current(m))), {}, 0, (int)o.size()}; if (!o.empty()) { r.t = o.back().header.stamp.toSec(); r.out.assign(o.back().data.begin(), o.back().data.end()); } return r;
}
struct EqV { const St* o; const char* m; template <class V> void operator()(const V& v) const { one(v.state_, *o, v); } template <class V> void one(const Quaterniond& q, const St& o, const V& v) const { eqq(q, o.Get<V::statetype_>(), m); } template <int N, class V> void one(const Matrix<double, N, 1>& x, const St& o, const V& v) const { eqm(x, o.Get<V::statetype_>(), m); } };
static void same(const Result& a, const Result& b, const char* m) {
  sym_eq(a.s->time, b.s->time, m); std::vector<double> x, y; eqm(a.s->ToEigenVector(), b.s->ToEigenVector(), m); for (int i = 0; i < NE; i++) for (int j = 0; j < NE; j++) sym_eq(a.s->P(i, j), b.s->P(i, j), "covariance");
}
ENTRY(h_e2e_order) {
  for (int i = 0; i < 2; i++) zs[i] = Vector3d(1 + i, 2, 3); for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) zs[i](j) += sym_real("z", -0.5, 0.5); accx = sym_real("ax", -5, 5);
  // readings every 1/32 s; messages are stamped a quarter of a second after what they measure
  std::vector<Msg> i, p; for (int k = 1; k <= 8; k++) i.push_back({0, 5 + k / 32.0, k}); p.push_back({1, 5.25 + 5 / 32.0, 0}); p.push_back({1, 5.25 + 6.75 / 32.0, 1});
  std::vector<Msg> ref = {i[0], i[1], i[2], i[3], i[4], p[0], i[5], i[6], p[1], i[7]}, v; 
#ifdef HAS_POSE
  int order = sym_choice("order", 2) * 3; // a pose older than the last one used is skipped by the limit of the rate
#else
  int order = sym_choice("order", 4);
#endif
  switch (order) {
    case 0: v = {i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], p[0], p[1]}; break; // both late
    case 1: v = {i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], p[1], p[0]}; break; // late and in reverse
    case 2: v = {i[0], i[1], i[2], i[3], i[4], i[5], i[6], p[1], p[0], i[7]}; break;
    default: v = {i[0], i[1], i[2], i[3], p[0], i[4], i[5], i[6], i[7], p[1]}; break; // before the reading of its time
  }
  Result a = run(ref), b = run(v); same(a, b, "same state whatever the order of arrival"); sym_reach("end");
}
