#include "pbt.h"
#include <msf_core/similaritytransform.h>
using namespace msf_core;
typedef Eigen::Vector3d V3; typedef Eigen::Quaterniond Q;
static V3 gv(pbt::Ctx& c, double a) { double x = c.sym(a), y = c.sym(a), z = c.sym(a); return V3(x, y, z); }
static Q gq(pbt::Ctx& c) { double w = c.sym(1), x = c.sym(1), y = c.sym(1), z = c.sym(1); Q q(w, x, y, z); if (q.norm() < 1e-3) return Q::Identity(); q.normalize(); return q; }
static similarity_transform::Pose msg(const V3& p, const Q& q) {
  similarity_transform::Pose m;
  m.pose.position.x = p[0]; m.pose.position.y = p[1]; m.pose.position.z = p[2];
  m.pose.orientation.w = q.w(); m.pose.orientation.x = q.x(); m.pose.orientation.y = q.y(); m.pose.orientation.z = q.z();
  return m;
}
struct Pair { V3 p1, p2; Q q1, q2; };
struct Res { bool ok; V3 p; Q q; double s, cond; };
static Res compute(const std::vector<Pair>& v, double eps = -1, bool optional = true, bool pairapi = false) {
  similarity_transform::From6DoF f;
  for (auto& x : v) { if (pairapi) f.AddMeasurement(similarity_transform::PosePair(msg(x.p1, x.q1), msg(x.p2, x.q2))); else f.AddMeasurement(msg(x.p1, x.q1), msg(x.p2, x.q2)); }
  similarity_transform::Pose o;
  Res r; r.s = r.cond = -1;
  if (eps < 0) r.ok = optional ? f.Compute(o, &r.s, &r.cond) : f.Compute(o);
  else r.ok = f.Compute(o, &r.s, &r.cond, eps);
  r.p = V3(o.pose.position.x, o.pose.position.y, o.pose.position.z);
  r.q = Q(o.pose.orientation.w, o.pose.orientation.x, o.pose.orientation.y, o.pose.orientation.z);
  return r;
}
// Sum of squared errors of  s p2 = p1 + q1 t, expressed in the first frame.
static double cost(const std::vector<Pair>& v, const V3& t, double s) { double e = 0; for (auto& x : v) e += (s * x.p2 - x.p1 - x.q1 * t).squaredNorm(); return e; }
static double align(const std::vector<Pair>& v, const Q& q) { double e = 0; for (auto& x : v) { Q d = x.q1.conjugate() * x.q2; double k = d.coeffs().dot(q.coeffs()); e += k * k; } return e; }
static double gap(const std::vector<Pair>& v, double* cond) {  // singular values of the normal matrix, independently
  Eigen::MatrixXd A(3 * v.size(), 4);
  for (size_t i = 0; i < v.size(); ++i) { A.block(3 * i, 0, 3, 3) = -Eigen::Matrix3d::Identity(); A.block(3 * i, 3, 3, 1) = v[i].q1.conjugate() * v[i].p2; }
  Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(A.transpose() * A);
  *cond = es.eigenvalues()[3] / std::max(es.eigenvalues()[0], 1e-300);
  return es.eigenvalues()[0];
}
PBT_TARGET(exact, "poses related exactly by a rotation, offset and scale, with random quaternion signs and order; non-trivial: well-conditioned") {
  Q q = gq(c); V3 t = gv(c, 3); double s = c.logu(0.05, 20);
  int n = c.i(2, 12);
  std::vector<Pair> v;
  for (int i = 0; i < n; ++i) {
    Pair x; x.q1 = gq(c); x.p1 = gv(c, 10);
    x.p2 = (x.p1 + x.q1 * t) / s; x.q2 = x.q1 * q;
    if (c.boolean()) x.q2.coeffs() = -x.q2.coeffs();
    if (c.chance(20)) x.q1.coeffs() = -x.q1.coeffs();
    v.push_back(x);
  }
  double cond; gap(v, &cond);
  c.note() << n << " pairs, scale " << s << " offset " << t.transpose() << " cond " << cond;
  Res r = compute(v, -1, true, c.boolean());
  PBT_REQUIRE(r.ok, "refused " << n << " pairs");
  if (cond > 1e9) { c.label("ill-conditioned"); return; }
  double tol = 1e-13 * cond * (20 + t.norm()) + 1e-9;
  PBT_REQUIRE(std::fabs(std::fabs(r.q.coeffs().dot(q.coeffs())) - 1) < 1e-12, "rotation differs");
  PBT_REQUIRE((r.p - t).norm() < tol, "offset " << r.p.transpose() << " instead of " << t.transpose());
  PBT_REQUIRE(std::fabs(r.s - s) < tol * (1 + s), "scale " << r.s << " instead of " << s);
  PBT_REQUIRE(std::fabs(r.cond / cond - 1) < 1e-4 + 1e-14 * cond, "condition number " << r.cond << " instead of " << cond);
  std::vector<Pair> w = v;
  for (size_t i = w.size(); i > 1; --i) std::swap(w[i - 1], w[c.u64(i)]);
  Res r2 = compute(w), r3 = compute(w, -1, false);
  PBT_REQUIRE((r2.p - r.p).norm() < 2 * tol && std::fabs(std::fabs(r2.q.coeffs().dot(r.q.coeffs())) - 1) < 1e-12, "result depends on the order of the pairs");
  PBT_REQUIRE(r3.ok && (r3.p - r2.p).norm() == 0 && (r3.q.coeffs() - r2.q.coeffs()).norm() == 0, "result depends on whether scale and condition are asked for");
  c.evals(7); c.nontrivial();
}
PBT_TARGET(noisy, "noisy poses: the result beats every nearby transform; non-trivial: well-conditioned and noise above rounding") {
  Q q = gq(c); V3 t = gv(c, 3); double s = c.logu(0.2, 5), noise = c.logu(1e-4, 0.5);
  int n = c.i(3, 12);
  std::vector<Pair> v;
  for (int i = 0; i < n; ++i) {
    Pair x; x.q1 = gq(c); x.p1 = gv(c, 10);
    x.p2 = (x.p1 + x.q1 * t) / s + gv(c, noise);
    V3 d = gv(c, noise * 0.5);
    x.q2 = x.q1 * q * Q(1, d[0], d[1], d[2]).normalized();
    v.push_back(x);
  }
  double cond; gap(v, &cond);
  c.note() << n << " pairs, noise " << noise << " cond " << cond;
  if (cond > 1e7) { c.label("ill-conditioned"); return; }
  Res r = compute(v);
  PBT_REQUIRE(r.ok && std::fabs(r.q.norm() - 1) < 1e-12, "no unit rotation");
  double e = cost(v, r.p, r.s), a = align(v, r.q);
  for (int k = 0; k < 8; ++k) {
    double h = c.logu(1e-4, 0.1);
    V3 dp = gv(c, h); double ds = c.sym(h); V3 dq = gv(c, h);
    PBT_REQUIRE(cost(v, r.p + dp, r.s + ds) >= e - 1e-10 * (1 + e), "offset or scale not optimal: error " << e << " falls to " << cost(v, r.p + dp, r.s + ds));
    Q q2 = r.q * Q(1, dq[0], dq[1], dq[2]).normalized();
    PBT_REQUIRE(align(v, q2) <= a + 1e-10, "rotation not optimal: agreement " << a << " rises to " << align(v, q2));
  }
  c.evals(16); c.nontrivial();
}
PBT_TARGET(degenerate, "fewer than two pairs, or pairs that leave scale and offset undetermined; non-trivial: undetermined pairs") {
  int n = c.i(0, 5);
  std::vector<Pair> v;
  Q q = gq(c), q1 = gq(c); V3 t = gv(c, 3), p1 = gv(c, 10); double s = c.logu(0.2, 5);
  for (int i = 0; i < n; ++i) { Pair x; x.q1 = q1; x.p1 = p1; x.p2 = (p1 + q1 * t) / s; x.q2 = q1 * q; v.push_back(x); }
  Res r = compute(v, 1e-6);
  c.note() << n << " identical pairs";
  PBT_REQUIRE(r.ok == (n >= 2), (r.ok ? "accepted " : "refused ") << n << " pairs");
  if (n < 2) return;
  PBT_REQUIRE(std::fabs(std::fabs(r.q.coeffs().dot(q.coeffs())) - 1) < 1e-12, "rotation differs");
  PBT_REQUIRE(cost(v, r.p, r.s) < 1e-12, "no consistent offset and scale: error " << cost(v, r.p, r.s));
  // smallest such solution
  V3 u = q1.conjugate() * v[0].p2, b = q1.conjugate() * p1;
  double sm = (u.dot(b)) / (1 + u.squaredNorm()); // minimises |s u - b|^2 + s^2
  PBT_REQUIRE(std::fabs(r.s - sm) < 1e-8 * (1 + std::fabs(sm)), "scale " << r.s << ", the smallest solution has " << sm);
  c.nontrivial();
}
