#define STATE_HEADER <spherical_msf/msf_statedef.hpp>
#include "pose_state.h"
#include "capture.h"
#define private public
#define protected public
#include <msf_updates/spherical_position_sensor/spherical_measurement.h>
#undef private
#undef protected
using namespace Eigen;
typedef geometry_msgs::PointStamped Msg;
typedef msf_spherical_position::AngleMeasurement Angle;
typedef msf_spherical_position::DistanceMeasurement Distance;
enum { cPIP = 15 };
struct Where { double d, h, c, s; };  // prism at (d c, d s, h)
static StP state(Where& w, bool sym) {
  StP st(new St); st->time = 5; w.d = sym_real("d", 0.5, 100); w.h = sym_real("h", -100, 100); double cs[2]; sym_unit2("az", cs); w.c = cs[0]; w.s = cs[1];
  sv<D::q>(*st) = sym ? symq("q") : Quaterniond(.5, .5, -.5, .5); sv<D::p_ip>(*st) = sym ? symv3("pip", 5) : Vector3d(1, 2, -.5); sv<D::v>(*st) = Vector3d(1, 2, 3);
  sv<D::p>(*st) = Vector3d(w.d * w.c, w.d * w.s, w.h) - rot(st->Get<D::q>()) * st->Get<D::p_ip>(); fillP(st->P); return st;
}
static boost::shared_ptr<Msg> message(double th, double ph, double r) { boost::shared_ptr<Msg> m(new Msg); m->point.x = th; m->point.y = ph; m->point.z = r; return m; }
template <class M> static Captured apply(Mgr& m, const boost::shared_ptr<Msg>& msg, StP s, int fixed) {
  M me(0.5, true, true, 3, fixed, false, 5); me.MakeFromSensorReading(msg, 5); cap() = Captured(); me.Apply(s, *m.msf_core_); return cap();
}
ENTRY(h_sph_angle) {
  Mgr m; Where w; StP s = state(w, false); double th = sym_real("th", 0, M_PI), ph = sym_real("ph", -M_PI, M_PI);
  Captured c = apply<Angle>(m, message(th, ph, 0), s, 0); sym_assert(c.n == 1 && c.s == s && c.r.rows() == 2, "one update of the given state");
  Vector3d z = s->Get<D::p>() + rot(s->Get<D::q>()) * s->Get<D::p_ip>();
  double az = std::atan2(z(1), z(0)); sym_assume((az <= M_PI) & (az >= -M_PI)); double e = ph - az;
  sym_eq(c.r(0), th - std::acos(z(2) / std::sqrt(z(0) * z(0) + z(1) * z(1) + z(2) * z(2))), "inclination residual");
  sym_assert((c.r(1) <= M_PI + 1e-9) & (c.r(1) >= -M_PI - 1e-9), "azimuth residual is the short way round");
  double g = c.r(1) - e; const double t = 1e-9; auto near = [&](double x) { return (g - x <= t) & (g - x >= -t); };
  sym_assert(near(0) | near(2 * M_PI) | near(-2 * M_PI), "azimuth residual");
  sym_eq(c.R(0, 0), 0.25, "angle noise"); sym_eq(c.R(1, 1), 0.25, "angle noise"); sym_eq(c.R(0, 1), 0, "angle noise"); sym_eq(c.R(1, 0), 0, "angle noise"); checkP(s->P, [](int) { return -1; });
  sym_reach("end");
}
// exact points, one per quadrant and half-axis, on both sides of the equator
ENTRY(h_sph_points) {
  static const double X[9] = {2, 3, 0, -1, -3, -2, 0, 1, 1e-3}, Y[9] = {0, 3, 1, 1, 0, -2, -4, -1, -1}, A[9] = {0, M_PI / 4, M_PI / 2, 3 * M_PI / 4, M_PI, -3 * M_PI / 4, -M_PI / 2, -M_PI / 4, -1.56979632712823};
  int i = sym_choice("point", 9); double h = sym_choice("up", 2) ? 1.5 : -1.5; Mgr m; StP s(new St); s->time = 5; sv<D::q>(*s) = Quaterniond(1, 0, 0, 0); sv<D::p_ip>(*s) = Vector3d(.5, .25, -1); sv<D::p>(*s) = Vector3d(X[i] - .5, Y[i] - .25, h + 1);
  double th = std::acos(h / std::sqrt(X[i] * X[i] + Y[i] * Y[i] + h * h)), da = sym_real("da", -0.5, 0.5), di = sym_real("di", -0.5, 0.5); double ph = A[i] + da; if (ph > M_PI) ph -= 2 * M_PI;
  Captured c = apply<Angle>(m, message(th + di, ph, 0), s, 0); double e0 = c.r(0) - di, e1 = c.r(1) - da;
  sym_assert((e0 < 1e-6) & (e0 > -1e-6), "inclination residual"); sym_assert((e1 < 1e-6) & (e1 > -1e-6), "azimuth residual"); sym_reach("end");
}
template <class M, int R> static void jacobian(bool sym) {
  Mgr m; Where w; StP s = state(w, sym); boost::shared_ptr<Msg> msg = message(1, 0.5, 3); Captured c = apply<M>(m, msg, s, 0); sym_assert(c.H.rows() == R, "rows");
  int k = sym_choice("col", NE);
  for (int i = 0; i < R; i++) { double d = sym_jac([&](double e) { return apply<M>(m, msg, moved(*s, k, e), 0).r(i); }); sym_eq(c.H(i, k), -d, "derivative of the prediction"); }
  sym_reach("end");
}
ENTRY(h_sph_angle_jac) { jacobian<Angle, 2>(true); }
ENTRY(h_sph_dist_jac) { jacobian<Distance, 1>(true); }
ENTRY(h_sph_dist) {
  Mgr m; Where w; StP s = state(w, true); double d = sym_real("dist", 0, 200); Captured c = apply<Distance>(m, message(1, 2, d), s, 0); sym_assert(c.n == 1 && c.s == s && c.r.rows() == 1, "one update of the given state");
  sym_eq(c.r(0), d - std::sqrt(w.d * w.d + w.h * w.h), "distance residual"); sym_eq(c.R(0, 0), 0.25, "distance noise"); checkP(s->P, [](int) { return -1; }); sym_reach("end");
}
template <class M, int R> static void fixedState() {
  Mgr m; Where w; StP s = state(w, false); bool f = sym_bool("fixed"); Captured a = apply<M>(m, message(1, 2, 3), StP(new St(*s)), 0), c = apply<M>(m, message(1, 2, 3), s, f ? 1 << D::p_ip : 0);
  for (int i = 0; i < R; i++) for (int k = 0; k < NE; k++) { bool z = f && k >= cPIP; sym_eq(c.H(i, k), z ? 0.0 : a.H(i, k), z ? "a fixed offset is not corrected" : "other states keep their derivative"); }
  eqm(c.r, a.r, "the residual does not depend on what is fixed"); eqm(c.R, a.R, "nor does the noise"); checkP(s->P, [&](int k) { return f && k >= cPIP ? 1 : -1; }); sym_reach("end");
}
ENTRY(h_sph_angle_fixed) { fixedState<Angle, 2>(); }
ENTRY(h_sph_dist_fixed) { fixedState<Distance, 1>(); }
