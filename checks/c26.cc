#include "pbt.h"
#include "gps.h"
#include <ros/ros.h>
#include <msf_core/gps_conversion.h>
typedef Eigen::Vector3d V3;
static V3 v3(const wgs::V& v) { return V3(v[0], v[1], v[2]); }
struct Fix { double lat, lon, alt; };
static Fix gfix(pbt::Ctx& c) {
  Fix f;
  f.lat = c.chance(15) ? c.oneof({0.0, 90.0, -90.0, 89.9999999, -45.0}) : c.sym(90);
  f.lon = c.chance(15) ? c.oneof({0.0, 180.0, -180.0, 90.0, -90.0, 179.9999999, 359.5}) : c.sym(180);
  f.alt = c.chance(15) ? c.oneof({0.0, -430.0, 8848.0}) : c.sym(20000);
  return f;
}
static Fix nearby(pbt::Ctx& c, const Fix& r) {  // within metres to kilometres
  double s = c.logu(1e-7, 0.3);
  Fix f = r;
  f.lat += c.sym(s); f.lon += c.sym(s); f.alt += c.sym(s * 1e5);
  if (f.lat > 90) f.lat = 180 - f.lat, f.lon += 180;
  if (f.lat < -90) f.lat = -180 - f.lat, f.lon += 180;
  return f;
}
PBT_TARGET(conversion, "references and fixes anywhere on the globe, many near each other, at poles, equator and the date line; non-trivial: fix differs from the reference") {
  Fix r = gfix(c);
  msf_core::GPSConversion g;
  if (c.chance(30)) { Fix r0 = gfix(c); g.InitReference(r0.lat, r0.lon, r0.alt); c.label("re-referenced"); }
  g.InitReference(r.lat, r.lon, r.alt);
  V3 o = g.WGS84ToENU(r.lat, r.lon, r.alt);
  PBT_REQUIRE(o.norm() < 1e-7, "reference fix maps to " << o.transpose());
  double adj = 0;
  if (c.chance(25)) {
    adj = c.sym(500);
    g.AdjustReference(adj);
    c.label("height-adjusted");
  }
  V3 prev_ecef, prev_enu;
  Fix pf;
  int n = 0;
  bool first = true, nt = false;
  do {
    Fix f = c.chance(70) ? nearby(c, r) : gfix(c);
    c.note() << "ref " << r.lat << "," << r.lon << "," << r.alt << " fix " << f.lat << "," << f.lon << "," << f.alt << " adjust " << adj << "\n";
    wgs::V e = wgs::ecef(f.lat, f.lon, f.alt);
    V3 ge = g.WGS84ToECEF(f.lat, f.lon, f.alt);
    PBT_REQUIRE((ge - v3(e)).norm() < 2e-8, "earth-centred coordinates " << ge.transpose() << " differ from the ellipsoid's by " << (ge - v3(e)).norm() << " m");
    wgs::V u = wgs::enu(r.lat, r.lon, r.alt, e);
    u[2] -= adj;  // a reference raised by adj lowers every local height by adj
    V3 gu = g.WGS84ToENU(f.lat, f.lon, f.alt), gu2 = g.ECEFToENU(ge);
    double d = (double)wgs::norm(u), tol = 2e-8 + 4e-15 * d;
    PBT_REQUIRE((gu - v3(u)).norm() < tol, "local coordinates " << gu.transpose() << ", expected " << v3(u).transpose());
    PBT_REQUIRE((gu - gu2).norm() == 0, "the two ways to local coordinates disagree");
    if (!first) {
      double a = (ge - prev_ecef).norm(), b = (gu - prev_enu).norm();
      PBT_REQUIRE(std::fabs(a - b) < 4e-8 + 1e-14 * a, "distance between two fixes is " << b << ", should be " << a);
    }
    if (f.lat != r.lat || f.lon != r.lon || f.alt != r.alt) nt = true;
    prev_ecef = ge; prev_enu = gu; first = false;
    c.evals(4);
  } while (c.more(n, 3, 12));
  c.nontrivial(nt);
}
