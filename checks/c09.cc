#include "model.h"
using namespace model;
using namespace hist;
// 6-DoF pose update of the pose applications against the documented model
//   z_p = C(q_wv) (p - p_wv + C(q) p_ic) L,   z_q = q_wv q q_ic.
static Z hpose(const State& s) {
  Z z;
  Q qwv = s.Get<D::q_wv>(), q = s.Get<D::q>(), qic = s.Get<D::q_ic>();
  V3 p = s.Get<D::p>() - s.Get<D::p_wv>() + q * V3(s.Get<D::p_ic>());
  z.v = (qwv * p) * s.Get<D::L>()[0];
  z.q.push_back(qwv * q * qic);
  return z;
}
static void run(pbt::Ctx& c) {
  world().reset();
  gen_core_params(c);
  ros::NodeHandle nh("~/pose_sensor");
  bool world_sensor = !c.chance(35), fixedcov = c.chance(40), gate = c.chance(45);
  const bool omit = c.boolean();  // leave out what is the default
  if (!world_sensor || !omit) nh.setParam("pose_measurement_world_sensor", world_sensor);
  if (fixedcov || !omit) nh.setParam("pose_use_fixed_covariance", fixedcov);
  nh.setParam("pose_measurement_minimum_dt", 0.0);
  if (gate || !omit) nh.setParam("enable_mah_outlier_rejection", gate);
  double thr = c.logu(0.3, 6);
  nh.setParam("mah_threshold", thr);
  Rig r;
  auto cfg = r.cfg();
  cfg.pose_fixed_scale = cfg.pose_fixed_p_ic = cfg.pose_fixed_q_ic = cfg.pose_fixed_p_wv = cfg.pose_fixed_q_wv = false;
  cfg.pose_delay = 0;
  double sp = cfg.pose_noise_meas_p = c.logu(0.03, 0.5), sq = cfg.pose_noise_meas_q = c.logu(0.03, 0.3);
  r.setCfg(cfg);
  State init;
  gen_state(c, init);
  visit(init, [&](auto& v, int i, int) { if (i > D::b_a) fill(c, v.state_); });
  if (c.chance(30)) init.Set<D::q_wv>(Q::Identity());
  Eigen::Matrix<double, 1, 1> L; L[0] = c.logu(0.3, 3); init.Set<D::L>(L);
  init.P = gcov(c, 1e-3, 0.2);
  init.a_m = V3(0, 0, 9.8); init.w_m.setZero();
  int64_t t = 50000000000ll + c.i(0, 1000000000);
  init_from(r.core(), t, init);
  std::vector<Imu> imus = gen_imus(c, t, init.a_m, init.w_m, 4, 2000000, 8000000);
  for (int i = 1; i <= 4; ++i) r.imu(imus[i].t, imus[i].a, imus[i].w);
  int n = 0, seq = 1;
  bool informative = false;
  do {
    t = imus.back().t;
    StatePtr now = r.at(t);
    PBT_REQUIRE(now->time == ts(t), "no state at the newest IMU reading");
    State before; copyvals(before, *now);
    // What is measured: the prediction of a perturbed state, plus noise.
    State truth; copyvals(truth, before);
    int mode = c.i(0, 3);
    EVec d = EVec::Zero();
    double a = mode == 0 ? 0 : mode == 1 ? 0.3 : mode == 2 ? 1.0 : 2.5;
    for (int i = 0; i < NE; ++i) d[i] = c.sym(1) * a * std::min(0.05, std::sqrt(before.P(i, i)));
    boxplus(truth, d);
    Z z = mode == 0 ? hpose(before) : hpose(truth);
    Eigen::MatrixXd R = Eigen::MatrixXd::Zero(6, 6);
    if (fixedcov) { for (int i = 0; i < 3; ++i) { R(i, i) = sp * sp; R(i + 3, i + 3) = sq * sq; } }
    else { R.block(0, 0, 3, 3) = gspd(c, 3, 0.03, 0.5, false); R.block(3, 3, 3, 3) = gspd(c, 3, 0.03, 0.3, !world_sensor); }
    geometry_msgs::PoseWithCovarianceStamped m;
    Q mq = z.q[0]; V3 mp = z.v; Eigen::MatrixXd M = R;
    if (!world_sensor) {   // the sensor reports the world seen from itself
      mq = z.q[0].conjugate(); mp = -(mq * V3(z.v));
      Eigen::MatrixXd C = mq.toRotationMatrix();
      M.block(0, 0, 3, 3) = C * R.block(0, 0, 3, 3) * C.transpose();
    }
    if (c.boolean()) mq.coeffs() = -mq.coeffs();
    m.header.stamp = rt(t); m.header.seq = seq++;
    m.pose.pose.position.x = mp[0]; m.pose.pose.position.y = mp[1]; m.pose.pose.position.z = mp[2];
    m.pose.pose.orientation.w = mq.w(); m.pose.pose.orientation.x = mq.x(); m.pose.pose.orientation.y = mq.y(); m.pose.pose.orientation.z = mq.z();
    if (!fixedcov) for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) m.pose.covariance[6 * i + j] = M(i, j);
    Expect e = expect(before, hpose, z, R);
    c.note() << (world_sensor ? "world-to-sensor" : "sensor-to-world") << (fixedcov ? ", fixed covariance" : ", message covariance") << (gate ? ", gated" : "") << ", L " << G<D::L>(before)[0] << ", distance " << e.mahal << " threshold " << thr << ", perturbation mode " << mode << "\n";
    if (!world_sensor) c.label("inverted"); if (fixedcov) c.label("fixed-covariance");
    PBT_REQUIRE(world().deliver("/msf_updates/pose_with_covariance_input", m) >= 1, "pose topic has no subscriber");
    StatePtr after = r.at(t);
    PBT_REQUIRE(after->time == ts(t), "state vanished after the update");
    if (mode == 0) {
      c.label("exact-prediction");
      EVec g = boxminus(*after, before);
      PBT_REQUIRE(g.cwiseAbs().maxCoeff() < 1e-6, "a measurement equal to its prediction moved the estimate by " << g.cwiseAbs().maxCoeff());
    }
    bool near = std::fabs(e.mahal - thr) < 2e-2 * thr;
    if (gate && near && mode != 0) { c.label("on-the-gate"); return; }
    if (G<D::L>(before)[0] + e.d[15] < 0.02) { c.label("scale-protection"); return; }
    if (gate && e.mahal > thr) { c.label("rejected"); check_unchanged(c, before, *after, "rejected pose"); }
    else { c.label("applied"); model::check(c, before, *after, e, "pose update"); if (mode) informative = true; }
    // move on
    V3 am = gvec(c, 2) + V3(0, 0, 9.8), wm = gvec(c, 0.5);
    int64_t t2 = t + 3000000 + c.i(0, 5000000);
    imus.push_back(Imu{t2, am, wm});
    r.imu(t2, am, wm);
  } while (c.more(n, 3, 8));
  c.nontrivial(informative);
}
#ifdef APP_POSE
PBT_TARGET(pose, "random extrinsics, scale, covariance, direction and covariance source; measurements are predictions of perturbed states; non-trivial: at least one applied update with a non-zero innovation") { run(c); }
#else
PBT_TARGET(position_pose, "as pose, in the application with an additional position sensor") { run(c); }
#endif
