#include "model.h"
using namespace model;
using namespace hist;
// Position update: z = p + C(q) p_ip.  Pressure update: z = p_z - b_p.
#if defined(APP_POSITION) || defined(APP_POSITIONPOSE)
static Z hpos(const State& s) { Z z; z.v = s.Get<D::p>() + s.Get<D::q>() * V3(s.Get<D::p_ip>()); return z; }
static void run(pbt::Ctx& c) {
  world().reset();
  gen_core_params(c);
  ros::NodeHandle nh("~/position_sensor");
  Plan p;
  p.h = hpos;
  p.gate = c.chance(45); p.thr = c.logu(0.3, 6);
  nh.setParam("position_absolute_measurements", true);
  nh.setParam("enable_mah_outlier_rejection", p.gate);
  nh.setParam("mah_threshold", p.thr);
  bool gps = c.chance(40);  // GPS fixes carry a full covariance, points use the configured noise
  nh.setParam("position_use_fixed_covariance", !gps);
  Rig r;
  double s = c.logu(0.02, 1);
  auto cfg = r.cfg();
  cfg.position_noise_meas = s; cfg.position_delay = 0; cfg.position_fixed_p_ip = false;
  r.setCfg(cfg);
  State init; gen_state(c, init);
  visit(init, [&](auto& v, int i, int) { if (i > D::b_a) fill(c, v.state_); });
#ifndef APP_POSITION
  init.Set<D::L>(Eigen::Matrix<double, 1, 1>::Constant(c.logu(1, 5)));  // a non-positive scale is reset after an update, see C12
#endif
  init.P = gcov(c, 1e-3, 0.3);
  msf_core::GPSConversion g;
  if (gps) {  // fixes near the equator, turned back from local coordinates below
    g.InitReference(0, 0, 0);
    sensor_msgs::NavSatFix m; m.header.stamp = rt(40000000000ll); m.latitude = m.longitude = m.altitude = 0;
    m.position_covariance_type = sensor_msgs::NavSatFix::COVARIANCE_TYPE_KNOWN;
    for (int i = 0; i < 9; ++i) m.position_covariance[i] = i % 4 ? 0 : 1;
    world().deliver("/msf_updates/navsatfix_input", m);
  }
  p.R = [&]() -> Eigen::MatrixXd { if (gps) return gspd(c, 3, 0.02, 0.8, false); return Eigen::MatrixXd::Identity(3, 3) * s * s; };
  int seq = 1;
  p.send = [&](int64_t t, const Z& z, const Eigen::MatrixXd& R) {
    if (!gps) {
      geometry_msgs::PointStamped m; m.header.stamp = rt(t); m.header.seq = seq++; m.point.x = z.v[0]; m.point.y = z.v[1]; m.point.z = z.v[2];
      world().deliver("/msf_updates/position_input", m);
    } else {
      // invert the local conversion by Newton steps; at the reference east, north, up = y, z, x
      double la = 0, lo = 0, al = 0;
      for (int k = 0; k < 30; ++k) {
        Eigen::Vector3d w = g.WGS84ToENU(la, lo, al), d = V3(z.v) - w;
        lo += d[0] / 111319.49; la += d[1] / 110574.3; al += d[2];
      }
      sensor_msgs::NavSatFix m; m.header.stamp = rt(t); m.header.seq = seq++; m.latitude = la; m.longitude = lo; m.altitude = al;
      m.position_covariance_type = c.oneof<int>({sensor_msgs::NavSatFix::COVARIANCE_TYPE_KNOWN, sensor_msgs::NavSatFix::COVARIANCE_TYPE_APPROXIMATED});
      for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m.position_covariance[3 * i + j] = R(i, j);
      world().deliver("/msf_updates/navsatfix_input", m);
    }
  };
  if (gps) { p.tol = 1e-5; p.zeroTol = 1e-5; c.label("gps"); }
  c.nontrivial(drive(c, r, init, p));
}
#ifdef APP_POSITION
PBT_TARGET(position, "random state, lever arm, covariance, noise source and gate; measurements are predictions of perturbed states; non-trivial: at least one applied update with a non-zero innovation") { run(c); }
#else
PBT_TARGET(position_in_position_pose, "as position, in the application that also has a pose sensor") { run(c); }
#endif
#else
PBT_TARGET(pressure, "random state, pressure bias, covariance, noise and gate; measurements are predictions of perturbed states; non-trivial: at least one applied update with a non-zero innovation") {
  world().reset();
  gen_core_params(c);
  ros::NodeHandle nh("~/pressure_sensor");
  Plan p;
  p.h = [](const State& s) { Z z; z.v = Eigen::VectorXd::Constant(1, s.Get<D::p>()[2] - s.Get<D::b_p>()[0]); return z; };
  p.gate = c.chance(45); p.thr = c.logu(0.3, 6);
  nh.setParam("enable_mah_outlier_rejection", p.gate);
  nh.setParam("mah_threshold", p.thr);
  Rig r;
  double s = c.logu(0.02, 1);
  auto cfg = r.cfg(); cfg.press_noise_meas_p = s; r.setCfg(cfg);
  State init; gen_state(c, init);
  visit(init, [&](auto& v, int i, int) { if (i > D::b_a) fill(c, v.state_); });
  init.Set<D::L>(Eigen::Matrix<double, 1, 1>::Constant(c.logu(1, 5)));
  init.P = gcov(c, 1e-3, 0.3);
  p.R = [&]() -> Eigen::MatrixXd { return Eigen::MatrixXd::Constant(1, 1, s * s); };
  int seq = 0;
  p.send = [&](int64_t t, const Z& z, const Eigen::MatrixXd&) {
    geometry_msgs::PointStamped m; m.header.stamp = rt(t); m.header.seq = seq += 10; m.point.x = c.sym(9); m.point.y = c.sym(9); m.point.z = z.v[0];
    world().deliver("/msf_updates/pressure_height", m);
  };
  c.nontrivial(drive(c, r, init, p));
}
#endif
