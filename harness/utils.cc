// Rotation helpers and conversions between Eigen and messages.
#include "msf_common.h"
#include <msf_core/eigen_utils.h>
#include <msf_core/eigen_conversions.h>
#include <msf_core/similaritytransform.h>
#include <msf_core/msf_tools.h>
using namespace Eigen;
static Vector3d v3(const char* n, double b) { double x = sym_real(n, -b, b), y = sym_real(n, -b, b), z = sym_real(n, -b, b); return Vector3d(x, y, z); }
static Quaterniond uq() { double a[4]; sym_unit4("q", a); return Quaterniond(a[0], a[1], a[2], a[3]); }
template <class A, class B> static void eqm(const A& a, const B& b, const char* m) { for (int i = 0; i < a.rows(); i++) for (int j = 0; j < a.cols(); j++) sym_eq(a(i, j), b(i, j), m); }
ENTRY(h_util_matrices) {
  Vector3d a = v3("a", 10), b = v3("b", 10); eqm(Skew(a) * b, a.cross(b), "cross product"); Quaterniond q = uq(), w(0, a(0), a(1), a(2));
  eqm(OmegaMatJPL(a) * q.coeffs(), (q * w).coeffs(), "quaternion rate, JPL"); eqm(OmegaMatHamilton(a) * q.coeffs(), (w * q).coeffs(), "quaternion rate, Hamilton"); eqm(XiMat(q.coeffs()) * a, (q * w).coeffs(), "error quaternion");
  Matrix3d X = XiMat(q.coeffs()).transpose() * XiMat(q.coeffs()); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) sym_eq(X(i, j), i == j, "orthonormal"); sym_reach("end");
}
ENTRY(h_util_small) {
  Vector3d t = v3("t", 6); Quaterniond q = QuaternionFromSmallAngle(t); sym_eq(q.squaredNorm(), 1, "unit"); sym_assert(q.w() >= 0, "shortest rotation"); eqm(q.vec().cross(t), Vector3d(0, 0, 0), "about the axis of the angles"); sym_assert(q.vec().dot(t) >= 0, "in the direction of the angles"); sym_reach(t.squaredNorm() < 4 ? "small" : "large"); sym_reach("end");
}
ENTRY(h_util_small_first) {
  int k = sym_choice("axis", 3); for (int j = 0; j < 4; j++) { double d = sym_jac([&](double e) { Vector3d t(0, 0, 0); t(k) = e; return QuaternionFromSmallAngle(t).coeffs()(j); }); sym_eq(d, j == k ? 0.5 : 0, "half the angle"); } eqm(QuaternionFromSmallAngle(Vector3d(0, 0, 0)).coeffs(), Vector4d(0, 0, 0, 1), "no rotation"); sym_reach("end");
}
template <class M> static void numeric(M& m) {
  sym_assert(CheckForNumeric(m, "finite"), "finite values pass"); static const double bad[3] = {NAN, INFINITY, -INFINITY}; int k = sym_choice("bad", 3), r = sym_choice("row", m.rows()), c = sym_choice("column", m.cols()); m(r, c) = bad[k]; sym_assert(!CheckForNumeric(m, "bad"), "a value that is not finite is found"); sym_reach("end");
}
template <class M> static void fill(M& m) { for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) m(i, j) = sym_real("m", -1000, 1000); }
ENTRY(h_util_numeric) { Matrix<double, 3, 4> m; fill(m); numeric(m); }
ENTRY(h_util_numeric_dyn) { MatrixXd m(2, 3); fill(m); numeric(m); }
ENTRY(h_util_numeric_vec) { Matrix<float, 10, 1> m; fill(m); numeric(m); }
ENTRY(h_util_conv) {
  Vector3d p = v3("p", 1000); Quaterniond q = uq(); geometry_msgs::Point P = msf_core::EigenToGeometryMsgs(p), P2 = eigen_conversions::Vector3dToPoint<Vector3d, geometry_msgs::Point>(p); geometry_msgs::Quaternion Q = msf_core::EigenToGeometryMsgs(q), Q2 = eigen_conversions::QuaternionToMsg(q);
  sym_eq(P.x, p(0), "x"); sym_eq(P.y, p(1), "y"); sym_eq(P.z, p(2), "z"); sym_eq(P2.x, p(0), "x"); sym_eq(P2.y, p(1), "y"); sym_eq(P2.z, p(2), "z"); eqm(msf_core::GeometryMsgsToEigen(P), p, "there and back");
  sym_eq(Q.w, q.w(), "w"); sym_eq(Q.x, q.x(), "x"); sym_eq(Q.y, q.y(), "y"); sym_eq(Q.z, q.z(), "z"); sym_eq(Q2.w, q.w(), "w"); sym_eq(Q2.x, q.x(), "x"); sym_eq(Q2.y, q.y(), "y"); sym_eq(Q2.z, q.z(), "z"); eqm(msf_core::GeometryMsgsToEigen(Q).coeffs(), q.coeffs(), "there and back"); sym_reach("end");
}
// covariance blocks keep the message covariance symmetric and touch nothing else
ENTRY(h_util_cov) {
  geometry_msgs::PoseWithCovariance::_covariance_type c; double o[36]; for (int i = 0; i < 36; i++) c[i] = o[i] = sym_real("c", -10, 10); Matrix3d E; fill(E); int r = 3 * sym_choice("row", 2), k = 3 * sym_choice("column", 2);
  if (r == k) for (int i = 0; i < 3; i++) for (int j = 0; j < i; j++) E(i, j) = E(j, i); msf_core::EigenCovBlockToGeometryMsgs(c, E, r, k); eqm(msf_core::GeometryMsgsCovBlockToEigen(c, r, k), E, "there and back"); if (r != k) eqm(msf_core::GeometryMsgsCovBlockToEigen(c, k, r), E.transpose(), "the opposite block is the transpose");
  for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) { bool in = (i / 3 == r / 3 && j / 3 == k / 3) || (i / 3 == k / 3 && j / 3 == r / 3); if (!in) sym_eq(c[6 * i + j], o[6 * i + j], "the other blocks stay"); else if (r != k) sym_eq(c[6 * i + j], c[6 * j + i], "symmetric"); } sym_reach("end");
}
// times are shown modulo ten thousand seconds
ENTRY(h_util_time) {
  double t = sym_real("t", -30000, 30000), h = msf_core::timehuman(t); sym_assert((h >= 0) & (h < 10000), "within ten thousand seconds"); double d = t - h; int n = sym_int("n", -3, 3); bool any = false; for (int i = -3; i <= 3; i++) any = any | (d == 10000.0 * i); sym_assert(any, "a multiple of ten thousand seconds less"); (void)n; sym_reach("end");
}
// similarity transform between two sets of poses
typedef msf_core::similarity_transform::From6DoF Sim; typedef msf_core::similarity_transform::Pose SPose;
static SPose spose(const Vector3d& p, const Quaterniond& q) { SPose s; s.pose.position = msf_core::EigenToGeometryMsgs(p); s.pose.orientation = msf_core::EigenToGeometryMsgs(q); return s; }
static const double QS[4][4] = {{1, 0, 0, 0}, {0.5, 0.5, 0.5, 0.5}, {0.6, 0, -0.8, 0}, {0.28, 0.96, 0, 0}}, TS[4][3] = {{1, 0, 2}, {-1, 3, 0.5}, {2, -2, 1}, {0, 1, -3}};
static Quaterniond cq(int i) { return Quaterniond(QS[i % 4][0], QS[i % 4][1], QS[i % 4][2], QS[i % 4][3]); }
static void near(double a, double b, const char* m) { double d = a - b; sym_assert((d < 1e-6) & (d > -1e-6), m); }
ENTRY(h_sim_recover) {
  int n = 2 + sym_choice("pairs", 3), k = sym_choice("rotation", 4); Vector3d x = v3("x", 5); double s = sym_real("s", 0.1, 10); Sim sim; Quaterniond d = cq(k);
  for (int i = 0; i < n; i++) { Quaterniond q1 = cq(i), q2 = q1 * d; Vector3d t2(TS[i][0], TS[i][1], TS[i][2]), t1 = s * t2 - q1 * x; if (i % 2) sim.AddMeasurement(std::make_pair(spose(t1, q1), spose(t2, q2))); else sim.AddMeasurement(spose(t1, q1), spose(t2, q2)); }
  SPose r; double sc = 0, cond = 0; sym_assert(sim.Compute(r, &sc, &cond), "two pairs are enough"); near(sc, s, "scale"); near(r.pose.position.x, x(0), "offset"); near(r.pose.position.y, x(1), "offset"); near(r.pose.position.z, x(2), "offset");
  Vector4d q = msf_core::GeometryMsgsToEigen(r.pose.orientation).coeffs(); if (q.dot(d.coeffs()) < 0) q = -q; for (int i = 0; i < 4; i++) near(q(i), d.coeffs()(i), "rotation"); sym_assert(cond >= 1, "condition number"); sym_reach("end");
}
ENTRY(h_sim_least) {
  Sim sim; Matrix<double, 12, 4> A; Matrix<double, 12, 1> b; for (int i = 0; i < 4; i++) { Quaterniond q1 = cq(i); Vector3d t2(TS[i][0], TS[i][1], TS[i][2]), t1 = v3("t", 10); A.block<3, 3>(3 * i, 0) = Matrix3d(-Matrix3d::Identity()); A.block<3, 1>(3 * i, 3) = q1.inverse() * t2; b.segment<3>(3 * i) = q1.inverse() * t1; sim.AddMeasurement(spose(t1, q1), spose(t2, q1)); }
  SPose r; double sc = 0; sym_assert(sim.Compute(r, &sc), "enough pairs"); Vector4d x(r.pose.position.x, r.pose.position.y, r.pose.position.z, sc); Vector4d g = A.transpose() * (A * x - b); for (int i = 0; i < 4; i++) near(g(i), 0, "least squares"); sym_reach("end");
}
ENTRY(h_sim_mean) { // attitudes that differ by opposite rotations about one axis, each pair equally often: the mean is in the middle
  int ax = sym_choice("axis", 3), k = sym_choice("rotation", 4), n = 1 + sym_choice("pairs", 2); static const double an[2] = {0.4, 0.9}; Quaterniond d = cq(k); Sim sim; int at = 0;
  for (int i = 0; i < n; i++) for (int sg = -1; sg <= 1; sg += 2) { Quaterniond q1 = cq(i), e(cos(an[i] / 2), 0, 0, 0); e.coeffs()(ax) = sg * sin(an[i] / 2); sim.AddMeasurement(spose(v3("t", 10), q1), spose(Vector3d(TS[at][0], TS[at][1], TS[at][2]), q1 * d * e)); at++; }
  SPose r; sym_assert(sim.Compute(r), "enough pairs"); Vector4d q = msf_core::GeometryMsgsToEigen(r.pose.orientation).coeffs(); if (q.dot(d.coeffs()) < 0) q = -q; for (int i = 0; i < 4; i++) near(q(i), d.coeffs()(i), "mean rotation"); sym_reach("end");
}
ENTRY(h_sim_few) { Sim sim; SPose r; double s = 7; sym_assert(!sim.Compute(r, &s), "no pairs"); sim.AddMeasurement(spose(v3("a", 5), uq()), spose(v3("b", 5), uq())); sym_assert(!sim.Compute(r, &s), "one pair is not enough"); sym_eq(s, 7, "nothing reported"); sym_reach("end"); }
