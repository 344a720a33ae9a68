// Artificial drift of the pose sensor and the relay node.
#include "msf_common.h"
#include <msf_updates/PoseDistorter.h>
#include <msf_core/eigen_utils.h>
using namespace Eigen;
// the same sequence of random numbers for every distorter
unsigned std::random_device::_M_getval() { return 20121; }
void std::random_device::_M_init(const std::string&) {}
void std::random_device::_M_fini() {}
typedef msf_updates::PoseDistorter Dist;
static Vector3d v3(const char* n, double b) { double x = sym_real(n, -b, b), y = sym_real(n, -b, b), z = sym_real(n, -b, b); return Vector3d(x, y, z); }
static Quaterniond uq(const char* n) { double a[4]; sym_unit4(n, a); return Quaterniond(a[0], a[1], a[2], a[3]); }
template <class A, class B> static void eqm(const A& a, const B& b, const char* m) { for (int i = 0; i < a.rows(); i++) for (int j = 0; j < a.cols(); j++) sym_eq(a(i, j), b(i, j), m); }
static const Vector3d O(0, 0, 0);
// without noise the position drifts by mean times time, and the scale likewise
ENTRY(h_dist_position) {
  Vector3d m = v3("m", 2); double s = sym_real("s", -1, 1); Dist d(m, O, O, O, s, 0); Vector3d drift(0, 0, 0); double scale = 1;
  for (int i = 0; i < 4; i++) { double dt = sym_real("dt", 0, 1); Vector3d p = v3("p", 100), x = p; d.Distort(x, dt); drift += m * dt; scale += s * dt; eqm(x, (p + drift) * scale, "accumulated drift and scale"); } sym_reach("end");
}
// the attitude drift accumulates small rotations and stays a rotation
ENTRY(h_dist_attitude) {
  Vector3d m = v3("m", 1); Dist d(O, O, m, O, 0, 0); Quaterniond drift(1, 0, 0, 0);
  for (int i = 0; i < 2; i++) { double dt = sym_real("dt", 0, 1); Quaterniond a = uq("q"), x = a; d.Distort(x, dt); drift = drift * QuaternionFromSmallAngle(Vector3d(m * dt)); eqm(x.coeffs(), (a * drift).coeffs(), "accumulated rotation"); sym_eq(x.squaredNorm(), 1, "unit attitude"); } sym_reach("end");
}
// both together are the two separately; no mean and no noise is no distortion
ENTRY(h_dist_both) {
  Vector3d m = v3("m", 2); double s = sym_real("s", -1, 1); Vector3d am(0.25, -0.5, 0.125); Dist d(m, O, am, O, s, 0), e(m, O, am, O, s, 0), none(O, O, O, O, 0, 0);
  for (int i = 0; i < 2; i++) { double dt = i ? 0.25 : 0.5; Vector3d p = v3("p", 100), x = p, y = p, z = p; Quaterniond q = uq("q"), a = q, b = q, c = q; d.Distort(x, a, dt); e.Distort(y, dt); e.Distort(b, dt); none.Distort(z, c, dt); eqm(x, y, "position"); eqm(a.coeffs(), b.coeffs(), "attitude"); eqm(z, p, "no distortion"); eqm(c.coeffs(), q.coeffs(), "no distortion"); } sym_reach("end");
}
// the noise is the same draw scaled by the standard deviation of its own channel
ENTRY(h_dist_noise) {
  Vector3d m = v3("m", 2), n = v3("n", 2), one(1, 1, 1); double s = sym_real("s", -1, 1), sn = sym_real("sn", 0, 1); Dist u(O, one, O, one, 0, 0), k(O, O, O, one, 0, 1), d(m, n, O, one, s, sn); double t = 0;
  for (int i = 0; i < 3; i++) { double dt = i == 1 ? 0.25 : 0.5; Vector3d p(1, 2, 3), x = p, w = O, b = one; u.Distort(w, dt); k.Distort(b, dt); sym_assert(w(0) != 0 && w(1) != 0 && w(2) != 0 && b(0) != 1, "noise on every channel"); t += dt;
    d.Distort(x, dt); Vector3d e = x - (p + m * t + n.cwiseProduct(w)) * (1 + s * t + sn * (b(0) - 1)); for (int j = 0; j < 3; j++) sym_assert((e(j) < 1e-9) & (e(j) > -1e-9), "noise scaled by the standard deviation"); } sym_reach("end");
}
ENTRY(h_dist_noise_att) {
  Vector3d one(1, 1, 1); Dist a(O, one, O, one, 0, 1), b(O, one, O, O, 0, 1); Quaterniond q = uq("q"), x = q, y = q; a.Distort(x, 0.5); b.Distort(y, 0.5); eqm(y.coeffs(), q.coeffs(), "no attitude noise unless asked for"); Quaterniond e = q.conjugate() * x; for (int i = 0; i < 3; i++) sym_assert((e.vec()(i) > 1e-9) | (e.vec()(i) < -1e-9), "noise on every axis"); sym_reach("end");
}
