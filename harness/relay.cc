// The relay node between a pose source and the filters.
#include "msf_common.h"
#include <geometry_msgs/PointStamped.h>
#include <geometry_msgs/PoseStamped.h>
#define main relay_main // the real main may end without returning a value
#define spin() spin(); return 0
#include <msf_distort.cc>
#undef main
#undef spin
typedef msf_distort::MSF_DistortConfig RCfg;
static bool all(const char*) { return true; }
static double val() { return sym_real("v", -1000, 1000); }
static int total() { return ros::stub::outs<geometry_msgs::PoseWithCovarianceStamped>().size() + ros::stub::outs<geometry_msgs::TransformStamped>().size() + ros::stub::outs<geometry_msgs::PoseStamped>().size() + ros::stub::outs<sensor_msgs::NavSatFix>().size() + ros::stub::outs<geometry_msgs::PointStamped>().size(); }
template <class M> static boost::shared_ptr<M> msg() { boost::shared_ptr<M> m(new M); m->header.seq = sym_int("seq", 0, 1000); m->header.stamp = ros::Time(sym_real("sec", 0, 1000)); m->header.frame_id = "f"; return m; }
template <class M> static M once(const char* in, const char* out, boost::shared_ptr<M> m, bool on, bool& got) {
  ros::stub::outs<M>().clear(); int n = total(); sym_assert(ros::stub::deliver(in, m) == 1, "the relay listens"); auto v = ros::stub::out<M>(out); got = on; sym_assert(total() == n + (on ? 1 : 0), "relayed if and only if switched on"); sym_assert((int)v.size() == (on ? 1 : 0), "relayed on its own topic");
  if (!on) return *m; sym_assert(v[0].header.seq == m->header.seq && v[0].header.frame_id == "f", "same header"); sym_eq(v[0].header.stamp.toSec(), m->header.stamp.toSec(), "same time"); return v[0];
}
template <class P> static void pos(P& p, double* k) { p.x = k[0]; p.y = k[1]; p.z = k[2]; }
template <class P> static void same(const P& p, double* k) { sym_eq(p.x, k[0], "same x"); sym_eq(p.y, k[1], "same y"); sym_eq(p.z, k[2], "same z"); }
template <class Q> static void setq(Q& q, double* k) { pos(q, k); q.w = k[3]; }
template <class Q> static void sameq(const Q& q, double* k) { same(q, k); sym_eq(q.w, k[3], "same w"); }
static void run() {
  bool got; for (int round = 0; round < 2; round++) {
    RCfg c; bool pose = c.publish_pose, point = c.publish_position; if (round) { c.publish_pose = pose = sym_choice("pose", 2); c.publish_position = point = sym_choice("position", 2); dynamic_reconfigure::Server<RCfg>::last()->cb(c, 1); } else sym_assert(pose & point, "everything is relayed unless switched off");
    double k[7]; for (double& x : k) x = val();
    auto a = msg<geometry_msgs::PoseWithCovarianceStamped>(); pos(a->pose.pose.position, k); setq(a->pose.pose.orientation, k + 3); a->pose.covariance[7] = k[2]; auto A = once("pose_with_covariance_input", "pose_with_covariance_output", a, pose, got); same(A.pose.pose.position, k); sameq(A.pose.pose.orientation, k + 3); sym_eq(A.pose.covariance[7], k[2], "same covariance");
    auto t = msg<geometry_msgs::TransformStamped>(); pos(t->transform.translation, k); setq(t->transform.rotation, k + 3); auto T = once("transform_input", "transform_output", t, pose, got); same(T.transform.translation, k); sameq(T.transform.rotation, k + 3);
    auto p = msg<geometry_msgs::PoseStamped>(); pos(p->pose.position, k); setq(p->pose.orientation, k + 3); auto P = once("pose_input", "pose_output", p, pose, got); same(P.pose.position, k); sameq(P.pose.orientation, k + 3);
    auto n = msg<sensor_msgs::NavSatFix>(); n->latitude = k[0]; n->longitude = k[1]; n->altitude = k[2]; n->position_covariance[4] = k[3]; auto N = once("navsatfix_input", "navsatfix_output", n, point, got); sym_eq(N.latitude, k[0], "same latitude"); sym_eq(N.longitude, k[1], "same longitude"); sym_eq(N.altitude, k[2], "same altitude"); sym_eq(N.position_covariance[4], k[3], "same covariance");
    auto o = msg<geometry_msgs::PointStamped>(); pos(o->point, k); auto Q = once("point_input", "point_output", o, point, got); same(Q.point, k);
  }
}
ENTRY(h_relay) { ros::stub::subs().clear(); ros::stub::g().listens = all; ros::stub::g().spin = run; char n[] = "relay"; char* argv[] = {n, 0}; relay_main(1, argv); sym_reach("end"); }
