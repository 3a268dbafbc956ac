#include "model.h"
using namespace model;
using namespace hist;
// Angles: inclination from the z axis and azimuth of p + C(q) p_ip; distance: its norm.
static V3 point(const State& s) { return V3(s.Get<D::p>()) + s.Get<D::q>() * V3(s.Get<D::p_ip>()); }
static Z hangle(const State& s) {
  V3 x = point(s);
  Z z; z.v.resize(2); z.wrap.push_back(1);
  z.v << std::atan2(std::sqrt(x[0] * x[0] + x[1] * x[1]), x[2]), std::atan2(x[1], x[0]);
  return z;
}
static Z hdist(const State& s) { Z z; z.v = Eigen::VectorXd::Constant(1, point(s).norm()); return z; }
static bool away(const State& s) { V3 x = point(s); return x.norm() > 0.4 && x.head<2>().norm() > 0.15 * x.norm(); }

PBT_TARGET(spherical, "random state around the sensor in every octant and on the axes, lever arm, covariance, noises, gate; angle and distance messages predicted from perturbed states; non-trivial: at least one applied update with a non-zero innovation") {
  world().reset();
  gen_core_params(c);
  ros::NodeHandle nh("~/spherical_position_sensor");
  Plan p;
  p.gate = c.chance(40); p.thr = c.logu(0.3, 6);
  nh.setParam("absolute_measurements", true);
  nh.setParam("enable_mah_outlier_rejection", p.gate);
  nh.setParam("mah_threshold", p.thr);
  Rig r;
  double sa = c.logu(0.02, 0.5), sd = c.logu(0.02, 1);
  auto cfg = r.cfg();
  cfg.angle_noise_meas = sa; cfg.distance_noise_meas = sd; cfg.angle_delay = cfg.distance_delay = 0; cfg.fixed_p_ip = false;
  r.setCfg(cfg);
  State init; gen_state(c, init);
  visit(init, [&](auto& v, int i, int) { if (i > D::b_a) fill(c, v.state_); });
  // Tracked point: any octant, sometimes exactly on an axis or in a coordinate plane.
  V3 x;
  for (int i = 0; i < 3; ++i) x[i] = c.chance(25) ? 0 : c.sym(1);
  if (x.norm() < 0.05) x = V3(-1, 0, 0);
  x *= c.logu(0.8, 30) / x.norm();
  bool still = c.chance(20);
  if (still) { init.Set<D::p_ip>(V3(0, 0, 0)); init.Set<D::v>(V3(0, 0, 0)); c.label("no-lever-arm"); }
  V3 p0 = x - G<D::q>(init) * V3(G<D::p_ip>(init));
  init.Set<D::p>(p0);
  init.P = gcov(c, 1e-3, 0.3);
  int kind = 0;
  p.h = [&](const State& s) { return kind ? hdist(s) : hangle(s); };
  p.R = [&]() -> Eigen::MatrixXd {
    kind = c.i(0, 1);
    c.label(kind ? "distance" : "angles");
    if (kind) return Eigen::MatrixXd::Constant(1, 1, sd * sd);
    return Eigen::MatrixXd::Identity(2, 2) * sa * sa;
  };
  p.smooth = away;
  int seq = 0;
  p.send = [&](int64_t t, const Z& z, const Eigen::MatrixXd&) {
    geometry_msgs::PointStamped m; m.header.stamp = rt(t); m.header.seq = ++seq;
    m.point.x = c.sym(9); m.point.y = c.sym(9); m.point.z = c.sym(9);
    if (kind) m.point.z = z.v[0];
    else {
      m.point.x = z.v[0]; m.point.y = z.v[1];
      if (c.chance(25) && z.v[1] < 0) { m.point.y += 2 * M_PI; c.label("azimuth-0-to-2pi"); }
    }
    world().deliver(kind ? "/msf_updates/distance_input" : "/msf_updates/angle_input", m);
  };
  c.nontrivial(drive(c, r, init, p));
}
// The residual at the branch cut and on the axes: a message that equals its prediction
// must not move a resting filter, whatever octant or axis the point is on.
PBT_TARGET(axes, "tracked point on or next to an axis or plane, message equal to the prediction up to a turn; non-trivial: on the negative x half plane") {
  world().reset();
  ros::NodeHandle nh("~/spherical_position_sensor");
  nh.setParam("absolute_measurements", true);
  Rig r;
  auto cfg = r.cfg();
  cfg.angle_noise_meas = 0.05; cfg.distance_noise_meas = 0.05; cfg.angle_delay = cfg.distance_delay = 0; cfg.fixed_p_ip = c.boolean();
  r.setCfg(cfg);
  State init;
  init.Set<D::q>(Q(1, 0, 0, 0));
  if (c.boolean()) init.Set<D::q>(gquat(c));
  V3 x;
  const double tiny[] = {0, -0.0, 1e-300, -1e-300, 1e-9, -1e-9, 1, -1};
  for (int i = 0; i < 3; ++i) x[i] = tiny[c.i(0, 7)];
  if (x.head<2>().norm() < 0.5) x[0] = -1;
  x *= c.logu(0.8, 30);
  init.Set<D::p>(x);
  init.P = gcov(c, 1e-3, 0.3);
  int64_t t = 50000000000ll;
  init.a_m = G<D::q>(init).conjugate() * V3(0, 0, 9.8); init.w_m.setZero();
  init_from(r.core(), t, init);
  for (int i = 1; i <= 5; ++i) r.imu(t + 4000000 * i, init.a_m, V3(0, 0, 0));
  t += 20000000;
  State before; copyvals(before, *r.at(t));
  V3 y = point(before);
  geometry_msgs::PointStamped m; m.header.stamp = rt(t); m.header.seq = 1;
  m.point.x = std::acos(y[2] / y.norm()); m.point.y = std::atan2(y[1], y[0]); m.point.z = 77;
  if (c.chance(30)) m.point.y += m.point.y > 0 ? -2 * M_PI : 2 * M_PI;
  world().deliver("/msf_updates/angle_input", m);
  PBT_REQUIRE(r.m->upd.size() == 1, "the angle message was not applied");
  EVec g = boxminus(*r.at(t), before);
  PBT_REQUIRE(g.cwiseAbs().maxCoeff() < 1e-6, "point " << y.transpose() << ": angles equal to their prediction moved the estimate by " << g.cwiseAbs().maxCoeff());
  m.point.z = y.norm(); m.header.seq = 2;
  r.imu(t + 4000000, init.a_m, V3(0, 0, 0));
  t += 4000000;
  copyvals(before, *r.at(t));
  m.header.stamp = rt(t); m.point.x = 5; m.point.y = 5; m.point.z = point(before).norm();
  world().deliver("/msf_updates/distance_input", m);
  PBT_REQUIRE(r.m->upd.size() == 2, "the distance message was not applied");
  g = boxminus(*r.at(t), before);
  PBT_REQUIRE(g.cwiseAbs().maxCoeff() < 1e-6, "a distance equal to its prediction moved the estimate by " << g.cwiseAbs().maxCoeff());
  if (x[0] < 0) c.nontrivial(true);
}
