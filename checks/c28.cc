#include "pbt.h"
#include <random>
// The random source is under the control of the case.
static uint64_t g_seed;
std::random_device::result_type std::random_device::_M_getval() { return (result_type)pbt::splitmix(g_seed); }
#include <ros/ros.h>
#include <msf_core/msf_macros.h>
#include <msf_core/eigen_utils.h>
#include <msf_updates/PoseDistorter.h>
#include <memory>
typedef Eigen::Vector3d V3; typedef Eigen::Quaterniond Q;
using msf_updates::PoseDistorter;
static V3 gv(pbt::Ctx& c, double a) { double x = c.sym(a), y = c.sym(a), z = c.sym(a); return V3(x, y, z); }
static Q gq(pbt::Ctx& c) { double w = c.sym(1), x = c.sym(1), y = c.sym(1), z = c.sym(1); Q q(w, x, y, z); if (q.norm() < 1e-3) return Q::Identity(); q.normalize(); return q; }
static Q rot(const V3& r) { double n = r.norm(); return n < 1e-12 ? Q::Identity() : Q(Eigen::AngleAxisd(n, r / n)); }
PBT_TARGET(deterministic, "configured mean drift without noise, any mix of the three calls; non-trivial: some drift configured and three or more calls") {
  g_seed = c.u64(1u << 30);
  V3 mp = c.chance(25) ? V3(0, 0, 0) : gv(c, 2), ma = c.chance(25) ? V3(0, 0, 0) : gv(c, 0.5);
  double ms = c.chance(30) ? 0 : c.sym(0.1);
  PoseDistorter d(mp, V3(0, 0, 0), ma, V3(0, 0, 0), ms, 0);
  V3 drift(0, 0, 0); double scale = 1; Q att = Q::Identity();
  int n = 0, calls = 0;
  double slack = 0;
  c.note() << "drift p " << mp.transpose() << " a " << ma.transpose() << " s " << ms << "\n";
  do {
    double dt = c.chance(10) ? 0 : c.logu(1e-3, 0.3);
    V3 p = gv(c, 20), p0 = p; Q q = gq(c), q0 = q;
    int op = c.i(0, 2);
    c.note() << "op" << op << " dt " << dt << "\n";
    if (op == 0) d.Distort(p, q, dt); else if (op == 1) d.Distort(p, dt); else d.Distort(q, dt);
    ++calls;
    if (op != 2) { drift += mp * dt; scale += ms * dt; V3 e = (p0 + drift) * scale; PBT_REQUIRE((p - e).norm() < 1e-10, "position " << p.transpose() << ", expected " << e.transpose()); }
    else PBT_REQUIRE((p - p0).norm() == 0, "position changed");
    if (op != 1) {
      double a = ma.norm() * dt; slack += a * a * a / 10;
      att = att * rot(ma * dt);
      Q e = q0 * att;
      double err = 2 * std::acos(std::min(1.0, std::fabs(e.coeffs().dot(q.coeffs()))));
      PBT_REQUIRE(err < slack + 1e-6 && std::fabs(q.norm() - 1) < 1e-9, "attitude off by " << err);
    } else PBT_REQUIRE((q.coeffs() - q0.coeffs()).norm() == 0, "attitude changed");
    c.evals(2);
  } while (c.more(n, 6, 30));
  c.nontrivial(calls >= 3 && (mp.norm() > 0 || ma.norm() > 0 || ms != 0));
}
PBT_TARGET(moments, "many draws with configured means and strengths on every axis; non-trivial always") {
  g_seed = c.u64(1u << 30);
  const int N = 600;
  V3 mp = gv(c, 1), sp(c.logu(0.1, 2), c.logu(0.1, 2), c.logu(0.1, 2)), ma = gv(c, 0.2), sa(c.logu(0.02, 0.3), c.logu(0.02, 0.3), c.logu(0.02, 0.3));
  double ms = c.sym(0.2), ss = c.logu(0.05, 0.5), dt = c.logu(0.01, 0.2);
  PoseDistorter d(mp, sp, ma, sa, ms, ss);
  Eigen::Matrix<double, 7, 1> mean, sd, m1 = Eigen::Matrix<double, 7, 1>::Zero();
  mean << mp, ma, ms; sd << sp, sa, ss;
  Eigen::MatrixXd X(7, N);
  V3 last(0, 0, 0); double lscale = 1; Q latt = Q::Identity();
  for (int k = 0; k < N; ++k) {
    // Two probes far apart separate drift from scale; the second has no elapsed time.
    V3 a(0, 0, 0), b(1e3, 1e3, 1e3); Q q = Q::Identity();
    d.Distort(a, q, dt);
    d.Distort(b, 0);
    double scale = (b - a).mean() / 1e3;
    V3 drift = a / scale;
    Q dq = latt.conjugate() * q;
    if (dq.w() < 0) dq.coeffs() = -dq.coeffs();
    V3 r = 2 * dq.vec();
    X.col(k) << (drift - last) / dt, r / dt, (scale - lscale) / dt;
    last = drift; lscale = scale; latt = q;
    if (std::fabs(scale) < 1e-2) { c.label("scale-near-zero"); return; }
    m1 += X.col(k);
  }
  m1 /= N;
  c.note() << "mean " << mean.transpose() << " strength " << sd.transpose() << " dt " << dt;
  Eigen::MatrixXd Y = X.colwise() - m1;
  for (int i = 0; i < 7; ++i) {
    PBT_REQUIRE(std::fabs(m1[i] - mean[i]) < 8 * sd[i] / std::sqrt(N) + 1e-5, "mean of component " << i << " is " << m1[i] << ", configured " << mean[i] << " with strength " << sd[i]);
    double s = std::sqrt(Y.row(i).squaredNorm() / N);
    PBT_REQUIRE(s > 0.72 * sd[i] && s < 1.32 * sd[i], "strength of component " << i << " is " << s << ", configured " << sd[i]);
    for (int j = 0; j < i; ++j) {
      double rho = Y.row(i).dot(Y.row(j)) / (Y.row(i).norm() * Y.row(j).norm());
      PBT_REQUIRE(std::fabs(rho) < 0.35, "components " << j << " and " << i << " are correlated by " << rho);
    }
    double ac = Y.row(i).head(N - 1).dot(Y.row(i).tail(N - 1)) / Y.row(i).squaredNorm();
    PBT_REQUIRE(std::fabs(ac) < 0.35, "successive draws of component " << i << " are correlated by " << ac);
  }
  c.evals(N); c.nontrivial();
}
