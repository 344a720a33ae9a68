#include "msf_common.h"
#include <msf_core/gps_conversion.h>
using namespace Eigen;
typedef msf_core::GPSConversion Gps;
static const double A = 6378137.0, E2 = 6.69437999014e-3;
inline Vector3d symv3(const char* n, double b) { double x = sym_real(n, -b, b), y = sym_real(n, -b, b), z = sym_real(n, -b, b); return Vector3d(x, y, z); }
static double lat() { return sym_real("lat", -80, 80); }
static double lon() { return sym_real("lon", -180, 180); }
static double alt() { return sym_real("alt", -400, 10000); }
// world coordinates: a point on the ellipsoid, and the height is measured along its normal
ENTRY(h_gps_ecef) {
  Gps g; double la = lat(), lo = lon(), h = alt(); Vector3d s = g.WGS84ToECEF(la, lo, 0), p = g.WGS84ToECEF(la, lo, h); double d = M_PI / 180;
  double f = (s(0) * s(0) + s(1) * s(1)) * (1 - E2) + s(2) * s(2) - A * A * (1 - E2); sym_assert((f < 100) & (f > -100), "height zero is on the ellipsoid"); Vector3d n(cos(la * d) * cos(lo * d), cos(la * d) * sin(lo * d), sin(la * d)); for (int i = 0; i < 3; i++) sym_eq(p(i) - s(i), h * n(i), "height is along the normal"); sym_reach("end");
}
struct Axes { Vector3d e, n, u; Axes(double la, double lo) { double d = M_PI / 180, sl = sin(la * d), cl = cos(la * d), so = sin(lo * d), co = cos(lo * d); e = Vector3d(-so, co, 0); n = Vector3d(-sl * co, -sl * so, cl); u = Vector3d(cl * co, cl * so, sl); } };
// local coordinates: metres east, north and up of the reference
ENTRY(h_gps_enu) {
  Gps g; double la = lat(), lo = lon(), h = alt(); g.InitReference(la, lo, h); Vector3d r = g.WGS84ToECEF(la, lo, h), d = symv3("d", 1000), x = g.ECEFToENU(Vector3d(r + d)); Axes a(la, lo);
  sym_eq(x(0), a.e.dot(d), "metres east"); sym_eq(x(1), a.n.dot(d), "metres north"); sym_eq(x(2), a.u.dot(d), "metres up"); sym_reach("end");
}
// geodetic and Cartesian routes agree, and the reference itself is the origin
ENTRY(h_gps_origin) {
  Gps g; double la = lat(), lo = lon(), h = alt(); g.InitReference(40, 20, 300); g.InitReference(la, lo, h); Vector3d o = g.WGS84ToENU(la, lo, h); for (int i = 0; i < 3; i++) sym_eq(o(i), 0, "the latest reference is the origin");
  sym_reach("end");
}
ENTRY(h_gps_route) {
  Gps g; g.InitReference(47.25, 8.5, 400); double la = lat(), lo = lon(), h = alt(); Vector3d a = g.WGS84ToENU(la, lo, h), b = g.ECEFToENU(g.WGS84ToECEF(la, lo, h)); for (int i = 0; i < 3; i++) sym_eq(a(i), b(i), "both routes agree"); sym_reach("end");
}
// a correction of the height moves every point by that much along the local vertical
ENTRY(h_gps_adjust) {
  static const double las[] = {47.25, -33, 0, 75}, los[] = {8.5, 151, 180, -70}; int k = sym_choice("ref", 4);
  Gps g; double la = las[k], lo = los[k], h = alt(); g.InitReference(la, lo, h); Vector3d r = g.WGS84ToECEF(la, lo, h), d = symv3("d", 1000), x = g.ECEFToENU(Vector3d(r + d)); double z = sym_real("z", -100, 100); g.AdjustReference(z); Vector3d y = g.ECEFToENU(Vector3d(r + d));
  Vector3d e = y - x + Vector3d(0, 0, z); bool ok = true; for (int i = 0; i < 3; i++) ok = ok & (e(i) < 1e-6) & (e(i) > -1e-6);
  sym_assert(ok, "the correction moves points along the local vertical only"); sym_reach("end");
}
