#include "pbt.h"
#include <Eigen/Dense>
#include <iostream>
#include <msf_core/eigen_utils.h>
#include <msf_core/eigen_conversions.h>
#include <msf_core/similaritytransform.h>
typedef Eigen::Vector3d V3; typedef Eigen::Vector4d V4; typedef Eigen::Quaterniond Q; typedef Eigen::Matrix3d M3;
static double g(pbt::Ctx& c) { return c.chance(15) ? c.oneof({0.0, 1.0, -1.0, 1e-8, 1e4}) : c.sym(1) * c.oneof({1.0, 1e-6, 30.0}); }
static V3 gv(pbt::Ctx& c) { double x = g(c), y = g(c), z = g(c); return V3(x, y, z); }
static Q gq(pbt::Ctx& c) { double w = c.sym(1), x = c.sym(1), y = c.sym(1), z = c.sym(1); Q q(w, x, y, z); if (q.norm() < 1e-3) return Q(1, 0, 0, 0); q.normalize(); return q; }
// Hamilton product written out.
static Q mul(const Q& a, const Q& b) {
  return Q(a.w() * b.w() - a.x() * b.x() - a.y() * b.y() - a.z() * b.z(), a.w() * b.x() + a.x() * b.w() + a.y() * b.z() - a.z() * b.y(),
           a.w() * b.y() - a.x() * b.z() + a.y() * b.w() + a.z() * b.x(), a.w() * b.z() + a.x() * b.y() - a.y() * b.x() + a.z() * b.w());
}
static V4 xyzw(const Q& q) { return V4(q.x(), q.y(), q.z(), q.w()); }
PBT_TARGET(skew, "vector pairs; non-trivial: both non-zero") {
  V3 a = gv(c), b = gv(c);
  c.note() << a.transpose() << " x " << b.transpose();
  V3 x(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]);
  double s = 1e-14 * a.norm() * b.norm();
  PBT_REQUIRE((Skew(a) * b - x).norm() <= s, "skew matrix times b is not the cross product");
  PBT_REQUIRE((Skew(a) + Skew(a).transpose()).norm() == 0, "not skew symmetric");
  PBT_REQUIRE((Skew(a.cast<float>().eval()).cast<double>() * b - x).norm() <= 1e-5 * a.norm() * b.norm(), "single precision");
  PBT_REQUIRE((Skew(2 * a) - 2 * Skew(a)).norm() <= 1e-14 * a.norm(), "of an expression");
  c.evals(4); c.nontrivial(a.norm() > 0 && b.norm() > 0);
}
PBT_TARGET(rate_matrices, "rates and attitudes; non-trivial: rate non-zero") {
  V3 w = gv(c); Q q = gq(c); Q p(0, w[0], w[1], w[2]);
  c.note() << "rate " << w.transpose() << " attitude " << q.coeffs().transpose();
  double s = 1e-14 * (1 + w.norm());
  PBT_REQUIRE((OmegaMatJPL(w) * xyzw(q) - xyzw(mul(q, p))).norm() <= s, "body-rate matrix does not multiply on the right");
  PBT_REQUIRE((OmegaMatHamilton(w) * xyzw(q) - xyzw(mul(p, q))).norm() <= s, "world-rate matrix does not multiply on the left");
  V4 qc = xyzw(q);
  Q o = gq(c);
  Eigen::Matrix<double, 4, 4> X; X << XiMat(qc), qc;
  V4 d = X.transpose() * xyzw(o), e = xyzw(mul(q.conjugate(), o));
  PBT_REQUIRE((d - e).norm() < 1e-13, "error quaternion matrix gives " << d.transpose() << ", the product " << e.transpose());
  c.evals(3); c.nontrivial(w.norm() > 0);
}
PBT_TARGET(small_angle, "rotation vectors from zero to beyond the small-angle range; non-trivial: non-zero") {
  V3 t = c.chance(70) ? V3(gv(c).normalized() * c.logu(1e-9, 1.0)) : gv(c);
  if (!(t.norm() > 0)) t.setZero();
  if (t.norm() > 1e6) t = t.normalized();
  c.note() << t.transpose();
  Q q = QuaternionFromSmallAngle(t);
  PBT_REQUIRE(std::fabs(q.norm() - 1) < 1e-14, "norm " << q.norm());
  PBT_REQUIRE(q.w() >= 0, "w negative");
  double n = t.norm();
  if (n > 0) PBT_REQUIRE(q.vec().normalized().dot(t / n) > 1 - 1e-12, "rotation axis changed");
  if (n <= 1) {
    double ang = 2 * std::atan2(q.vec().norm(), q.w());
    PBT_REQUIRE(std::fabs(ang - n) <= n * n * n / 20 + 1e-15, "rotation by " << ang << " for an angle of " << n);
    Q r = QuaternionFromSmallAngle(-t);
    PBT_REQUIRE((mul(q, r).vec()).norm() < 1e-15 * 10, "opposite rotations do not cancel");
  }
  Eigen::Vector3f tf = t.cast<float>();
  Eigen::Quaternionf qf = QuaternionFromSmallAngle(tf);
  PBT_REQUIRE((qf.coeffs().cast<double>() - q.coeffs()).norm() < 1e-3 || std::fabs(n - 2) < 1e-2, "single precision");
  c.evals(4); c.nontrivial(n > 0);
}
PBT_TARGET(conversions, "vectors, attitudes and covariance blocks through the message types; always non-trivial") {
  using namespace msf_core;
  V3 v = gv(c); Q q = gq(c);
  geometry_msgs::Quaternion mq, mq3; geometry_msgs::Point mp;
  eigen_conversions::QuaternionToMsg(q, mq);
  PBT_REQUIRE(mq.w == q.w() && mq.x == q.x() && mq.y == q.y() && mq.z == q.z(), "attitude to message");
  geometry_msgs::Quaternion mq2 = eigen_conversions::QuaternionToMsg(q);
  mq3 = EigenToGeometryMsgs(q);
  PBT_REQUIRE(mq2.w == q.w() && mq2.x == q.x() && mq2.y == q.y() && mq2.z == q.z() && mq3.w == q.w() && mq3.x == q.x() && mq3.y == q.y() && mq3.z == q.z(), "attitude to message");
  eigen_conversions::Vector3dToPoint(v, mp);
  PBT_REQUIRE(mp.x == v[0] && mp.y == v[1] && mp.z == v[2], "vector to message");
  geometry_msgs::Point mp2 = EigenToGeometryMsgs(v);
  PBT_REQUIRE(mp2.x == v[0] && mp2.y == v[1] && mp2.z == v[2], "vector to message");
  PBT_REQUIRE((GeometryMsgsToEigen(mp) - v).norm() == 0 && (GeometryMsgsToEigen(mq).coeffs() - q.coeffs()).norm() == 0, "message round trip");
  // covariance blocks: message entry (r,c) at 6 r + c
  geometry_msgs::PoseWithCovariance::_covariance_type cov;
  Eigen::Matrix<double, 6, 6> P = Eigen::Matrix<double, 6, 6>::Zero();
  for (int i = 0; i < 6; ++i) for (int j = i; j < 6; ++j) P(i, j) = P(j, i) = c.sym(5);
  for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) cov[6 * i + j] = P(i, j);
  for (int a = 0; a < 6; a += 3) for (int b = 0; b < 6; b += 3)
    PBT_REQUIRE((GeometryMsgsCovBlockToEigen(cov, a, b) - P.block(a, b, 3, 3)).norm() == 0, "covariance block " << a << "," << b << " read wrongly");
  geometry_msgs::PoseWithCovariance::_covariance_type out;
  for (int i = 0; i < 36; ++i) out[i] = 77;
  M3 pp = P.block(0, 0, 3, 3), qq = P.block(3, 3, 3, 3), pq = P.block(0, 3, 3, 3);
  EigenCovBlockToGeometryMsgs(out, pp, geometry_msgs::cov::p, geometry_msgs::cov::p);
  EigenCovBlockToGeometryMsgs(out, qq, geometry_msgs::cov::q, geometry_msgs::cov::q);
  if (c.boolean()) EigenCovBlockToGeometryMsgs(out, pq, geometry_msgs::cov::p, geometry_msgs::cov::q);
  else EigenCovBlockToGeometryMsgs(out, pq.transpose(), geometry_msgs::cov::q, geometry_msgs::cov::p);
  for (int i = 0; i < 36; ++i) PBT_REQUIRE(out[i] == cov[i], "covariance entry " << i << " written wrongly");
  c.evals(12); c.nontrivial();
}
