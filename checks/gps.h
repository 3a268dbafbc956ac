#pragma once
// Independent WGS-84 model in extended precision: geodetic -> earth-centred by
// the parametric (reduced) latitude, and the local east/north/up axes at a
// reference by differentiating that parametrisation.
#include <array>
#include <cmath>
namespace wgs {
typedef long double R;
typedef std::array<R, 3> V;
static const R A = 6378137.0L, E2 = 6.69437999014e-3L;
inline R rad(R d) { return d * 3.14159265358979323846264338327950288L / 180.0L; }
inline V ecef(R lat, R lon, R alt) {
  R b = A * std::sqrt(1 - E2), phi = rad(lat), lam = rad(lon);
  // reduced latitude: point on the ellipse is (A cos u, b sin u)
  R cu = std::cos(phi) * 1, su = (b / A) * std::sin(phi), n = std::hypot(cu, su);
  cu /= n; su /= n;
  R rho = A * cu + alt * std::cos(phi), z = b * su + alt * std::sin(phi);
  return V{{rho * std::cos(lam), rho * std::sin(lam), z}};
}
inline R dot(const V& a, const V& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline V sub(const V& a, const V& b) { return V{{a[0] - b[0], a[1] - b[1], a[2] - b[2]}}; }
inline R norm(const V& a) { return std::sqrt(dot(a, a)); }
inline V enu(R lat0, R lon0, R alt0, const V& p) {
  R phi = rad(lat0), lam = rad(lon0);
  V up{{std::cos(phi) * std::cos(lam), std::cos(phi) * std::sin(lam), std::sin(phi)}};
  V east{{-std::sin(lam), std::cos(lam), 0}};
  V north{{up[1] * east[2] - up[2] * east[1], up[2] * east[0] - up[0] * east[2], up[0] * east[1] - up[1] * east[0]}};
  V d = sub(p, ecef(lat0, lon0, alt0));
  return V{{dot(d, east), dot(d, north), dot(d, up)}};
}
}  // namespace wgs
