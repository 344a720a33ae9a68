// Drives one of the real sensor managers as a node does: parameters, configuration, topics and services.
// MGR_HEADER / MGR / MGR_CFG come from the unit; STATE_HEADER names the state definition of the same manager.
#pragma once
#include "pose_state.h"
#ifndef REAL_UPDATE
#include "capture.h"
#endif
#define private public
#define protected public
#include MGR_HEADER
#undef private
#undef protected
using namespace Eigen;
typedef MGR_CFG Cfg;
typedef msf_core::MSF_CoreConfig CoreCfg;
struct Params { std::vector<std::pair<const char*, double>> d; std::vector<std::pair<const char*, bool>> b; };
inline Params& params() { static Params p; return p; }
// a key names a parameter in any namespace, or in the namespaces it ends with
inline bool isParam(const char* full, const char* key) { size_t a = std::strlen(full), b = std::strlen(key); return a >= b && !std::strcmp(full + a - b, key) && (a == b || full[a - b - 1] == '/'); }
inline double paramD(const char* n, double v) { for (auto& x : params().d) if (isParam(n, x.first)) return x.second; return v; }
inline bool paramB(const char* n, bool v) { for (auto& x : params().b) if (isParam(n, x.first)) return x.second; return v; }
struct World { World() { params() = Params(); ros::stub::g().param_d = paramD; ros::stub::g().param_b = paramB; ros::stub::subs().clear(); ros::stub::g().num_subscribers = 0; ros::stub::now() = 100; } };
inline void configure(const Cfg& c, uint32_t level) { Cfg x = c; dynamic_reconfigure::Server<Cfg>::last()->cb(x, level); }
inline void configureCore(const CoreCfg& c) { CoreCfg x = c; dynamic_reconfigure::Server<CoreCfg>::last()->cb(x, 0); }
// the node as it is between two IMU readings: one buffered state, so that a later measurement waits in the queue
inline StP ready(MGR& m, double t) { Core& c = *m.msf_core_; StP s(new St); s->time = t; c.stateBuffer_.Clear(); c.stateBuffer_.Insert(s); c.initialized_ = true; c.predictionMade_ = true; return s; }
typedef boost::shared_ptr<msf_core::MSF_MeasurementBase<St>> MeasP;
inline std::vector<MeasP> waiting(MGR& m) { std::vector<MeasP> v; auto& q = m.msf_core_->queueFutureMeasurements_; while (!q.empty()) { v.push_back(q.front()); q.pop(); } return v; }
#ifndef REAL_UPDATE
inline Captured applied(MGR& m, MeasP me, StP s) { cap() = Captured(); me->Apply(s, *m.msf_core_); return cap(); }
#endif
inline StP current(MGR& m) { return m.msf_core_->stateBuffer_.GetLast(); }
template <class M> inline boost::shared_ptr<M> msgAt(double t, uint32_t seq) { boost::shared_ptr<M> x(new M); x->header.stamp = ros::Time(t); x->header.seq = seq; return x; }
template <class P, class V> inline void put(P& p, const V& v) { p.x = v(0); p.y = v(1); p.z = v(2); }
template <class Q> inline void putq(Q& o, const Quaterniond& q) { o.w = q.w(); o.x = q.x(); o.y = q.y(); o.z = q.z(); }
inline boost::shared_ptr<geometry_msgs::PoseWithCovarianceStamped> poseMsg(double t, uint32_t seq, const Vector3d& p, const Quaterniond& q) { auto m = msgAt<geometry_msgs::PoseWithCovarianceStamped>(t, seq); put(m->pose.pose.position, p); putq(m->pose.pose.orientation, q); for (int i = 0; i < 36; i++) m->pose.covariance[i] = i % 7 == 0 ? 0.04 : 0.0; return m; }
inline void calibration(const char* sensor3, const Vector3d& p) {}
