#define STATE_HEADER <pose_pressure_msf/msf_statedef.hpp>
#include "pose_state.h"
#include "capture.h"
#define private public
#define protected public
#include <msf_updates/pressure_sensor_handler/pressure_measurement.h>
#undef private
#undef protected
using namespace Eigen;
typedef pressure_measurement::PressureMeasurement PM;
static Captured apply(Mgr& m, double z, StP s, double n) { boost::shared_ptr<geometry_msgs::PointStamped> msg(new geometry_msgs::PointStamped); msg->point.x = 77; msg->point.y = 78; msg->point.z = z; PM me(n, true, 3, false, 5); me.MakeFromSensorReading(msg, 5); cap() = Captured(); me.Apply(s, *m.msf_core_); return cap(); }
static StP state() { StP s(new St); s->time = 5; sv<D::p>(*s) = symv3("p", 100); sv<D::v>(*s) = symv3("v", 10); sv<D::q>(*s) = Quaterniond(.5, .5, -.5, .5); sv<D::b_p>(*s)(0) = sym_real("bp", -100, 100); sv<D::L>(*s)(0) = 2; sv<D::q_wv>(*s) = Quaterniond(.5, -.5, -.5, .5); sv<D::q_ic>(*s) = Quaterniond(1, 0, 0, 0); fillP(s->P); return s; }
ENTRY(h_pressure) {
  Mgr m; StP s = state(); double z = sym_real("z", -500, 9000), n = sym_real("n", 1e-3, 10); Captured c = apply(m, z, s, n); sym_assert(c.n == 1 && c.s == s && c.r.rows() == 1, "one update of the given state");
  sym_eq(c.r(0), z - (s->Get<D::p>()(2) - s->Get<D::b_p>()(0)), "residual: measured minus predicted height"); sym_eq(c.R(0, 0), n * n, "height noise"); checkP(s->P, [](int) { return -1; });
  int k = sym_choice("col", NE); double d = sym_jac([&](double e) { return apply(m, z, moved(*s, k, e), n).r(0); }); sym_eq(c.H(0, k), -d, "derivative of the predicted height"); sym_reach("end");
}
ENTRY(h_pressure_invalid) { Mgr m; StP s = state(); s->time = msf_core::constants::INVALID_TIME; Captured c = apply(m, 3, s, 1); sym_assert(c.n == 0, "no update of an invalid state"); sym_reach("end"); }
