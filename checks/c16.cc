#include "decode.h"
using namespace model;
using namespace hist;
using decode::Event;
// Every pose topic against the canonical pose message.
namespace {
void setq(geometry_msgs::Quaternion& o, const Q& q) { o.w = q.w(); o.x = q.x(); o.y = q.y(); o.z = q.z(); }
template <class V> void setv(V& o, const V3& p) { o.x = p[0]; o.y = p[1]; o.z = p[2]; }
void setP(geometry_msgs::PoseWithCovariance& o, const V3& p, const Q& q, const Eigen::MatrixXd* M) {
  setv(o.pose.position, p); setq(o.pose.orientation, q);
  if (M) for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) o.covariance[6 * i + j] = (*M)(i, j);
}
}  // namespace
PBT_TARGET(topics, "messages of the four pose types at random rates, delays, directions and covariance sources, with reconfigurations in between; against the same run with canonical messages; non-trivial: at least two messages take effect and at least two message types are used") {
  world().reset();
  gen_core_params(c);
  bool world_sensor = c.boolean(), fixedcov = c.chance(60);
  double min_dt = c.oneof({0.0, 0.02, 0.05, 0.05, 0.1}); bool omit = c.boolean();
  ros::NodeHandle nh("~/pose_sensor");
  auto params = [&](bool canonical) {
    // Values that are the defaults may be left out.
    if (canonical || !world_sensor || !omit) nh.setParam("pose_measurement_world_sensor", canonical || world_sensor);
    if (canonical || fixedcov || !omit) nh.setParam("pose_use_fixed_covariance", !canonical && fixedcov);
    if (canonical || min_dt != 0.05 || !omit) nh.setParam("pose_measurement_minimum_dt", canonical ? 0.0 : min_dt);
  };
  // configuration phases
  struct Phase { double sp, sq; int64_t delay; };
  auto gen_phase = [&] { Phase p; p.sp = c.logu(0.03, 0.5); p.sq = c.logu(0.03, 0.3); p.delay = c.chance(30) ? 0 : c.i(0, 60) * 1000000ll + c.i(0, 999) * 1000; return p; };
  std::vector<Phase> ph(1, gen_phase());
  State init; sens::gen_full_state(c, init);
  init.P = gcov(c, 1e-3, 0.2); init.a_m = V3(0, 0, 9.8); init.w_m.setZero();
  int64_t t0 = 50000000000ll + c.i(0, 1000000000);
  std::vector<Imu> imus = gen_imus(c, t0, init.a_m, init.w_m, 8 + c.i(0, 50), 4000000, 10000000);
  std::vector<int64_t> nodes; for (auto& u : imus) nodes.push_back(u.t);
  decode::Times times; times.nodes = &nodes;
  std::vector<Event> ev;
  int64_t last_used = -1000000000000ll, last_sent = t0;
  uint32_t seq = c.u64(200);
  int used = 0, dropped = 0; std::set<int> types;
  for (size_t k = 1; k < imus.size(); ++k) {
    Event e; e.imu = true; e.u = imus[k]; ev.push_back(e);
    if (k < 5 || k + 4 > imus.size() || !c.chance(45)) continue;
    if (c.chance(12)) {
      ph.push_back(gen_phase());
      Phase p = ph.back();
      Event g; g.imu = false;
      g.full = [p](Rig& r) { auto cfg = r.cfg(); cfg.pose_noise_meas_p = p.sp; cfg.pose_noise_meas_q = p.sq; cfg.pose_delay = p.delay * 1e-9; r.setCfg(cfg); };
      ev.push_back(g);
      c.note() << "after reading " << k << ": noise " << p.sp << "/" << p.sq << ", delay " << p.delay * 1e-9 << "\n";
    }
    const Phase p = ph.back();
    int64_t now = imus[k].t;
    // stamp: near what the delay makes useful; sometimes at the throttle interval
    int64_t st = now + p.delay - c.i(0, 40000000) + (c.chance(20) ? 8000000 : 0);
    if (c.chance(40)) st = last_sent + int64_t(min_dt * 1e9) + c.oneof<int64_t>({0, 0, 1000000, 5000000, -3000000, -8000000});
    st = st / 1000 * 1000;
    int64_t tm = st - p.delay;
    if (tm > now + 12000000 || tm < imus[1].t || !times.ok(tm)) continue;
    if (tm > imus[imus.size() - 3].t) continue;
    int type = c.i(0, 3);
    bool nocov = (type == 1 || type == 2) && !fixedcov;
    int64_t dt = std::llabs(st - last_used), lim = int64_t(min_dt * 1e9);
    if (dt > lim - 2000000 && dt < lim - 1000) continue;   // inside the tolerance of the throttle
    bool throttled = min_dt > 0 && dt < lim - 1000;
    if (st < last_used && throttled) continue;             // late message close to an earlier one
    last_sent = st;
    // value
    State x; copyvals(x, init);
    EVec d; for (int i = 0; i < NE; ++i) d[i] = c.sym(0.2);
    boxplus(x, d);
    Z z = sens::hpose(x);
    Q q = z.q[0], mq = q; V3 pz = z.v, mp = pz;
    Eigen::MatrixXd R = Eigen::MatrixXd::Zero(6, 6), M = R;
    if (fixedcov) for (int i = 0; i < 3; ++i) { R(i, i) = p.sp * p.sp; R(i + 3, i + 3) = p.sq * p.sq; }
    else { R.block(0, 0, 3, 3) = gspd(c, 3, 0.03, 0.5, false); R.block(3, 3, 3, 3) = gspd(c, 3, 0.03, 0.3, !world_sensor); }
    if (!world_sensor) { mq = q.conjugate(); mp = -(mq * pz); Eigen::MatrixXd C = mq.toRotationMatrix(); M = R; M.block(0, 0, 3, 3) = C * R.block(0, 0, 3, 3) * C.transpose(); }
    else M = R;
    if (fixedcov && c.boolean()) { M = Eigen::MatrixXd::Identity(6, 6) * c.logu(1e-4, 10); }   // a covariance in the message is not used then
    if (c.boolean()) mq.coeffs() = -mq.coeffs();
    seq += c.chance(80) ? 1 : c.i(0, 5);
    Event e2; e2.imu = false;
    e2.full = [=](Rig&) {
      if (type == 0) {
        geometry_msgs::PoseWithCovarianceStamped m; m.header.stamp = rt(st); m.header.seq = seq; setP(m.pose, mp, mq, &M);
        world().deliver("/msf_updates/pose_with_covariance_input", m);
      } else if (type == 1) {
        geometry_msgs::TransformStamped m; m.header.stamp = rt(st); m.header.seq = seq; setv(m.transform.translation, mp); setq(m.transform.rotation, mq);
        world().deliver("/msf_updates/transform_input", m);
      } else if (type == 2) {
        geometry_msgs::PoseStamped m; m.header.stamp = rt(st); m.header.seq = seq; setv(m.pose.position, mp); setq(m.pose.orientation, mq);
        world().deliver("/msf_updates/pose_input", m);
      } else {
        nav_msgs::Odometry m; m.header.stamp = rt(st); m.header.seq = seq; setP(m.pose, mp, mq, &M);
        setv(m.twist.twist.linear, V3(1, 2, 3));
        world().deliver("/msf_updates/odometry_input", m);
      }
    };
    bool use = !nocov && !throttled;
    static const char* names[4] = {"pose with covariance", "transform", "stamped pose", "odometry"};
    c.note() << "after reading " << k << ": " << names[type] << " stamped " << (st - t0) * 1e-9 << " effective at " << (tm - t0) * 1e-9 << (nocov ? ", no covariance" : throttled ? ", too fast" : "") << "\n";
    if (use) {
      if (st < last_used) c.label("late");
      last_used = st; times.taken.push_back(tm); ++used; types.insert(type);
      Eigen::MatrixXd Rc = R;
      e2.canon = [=](Rig&) {
        geometry_msgs::PoseWithCovarianceStamped m; m.header.stamp = rt(tm); m.header.seq = seq; setP(m.pose, pz, q, &Rc);
        world().deliver("/msf_updates/pose_with_covariance_input", m);
      };
    } else { ++dropped; c.label(nocov ? "no-covariance" : "throttled"); }
    ev.push_back(e2);
  }
  c.note() << (world_sensor ? "world-to-sensor" : "sensor-to-world") << (fixedcov ? ", fixed covariance" : ", message covariance") << ", minimum interval " << min_dt << ", first delay " << ph[0].delay * 1e-9 << "\n";
  decode::Trace a, b;
  for (int canonical = 0; canonical < 2; ++canonical) {
    params(canonical);
    Rig r;
    auto cfg = r.cfg();
    cfg.pose_fixed_scale = cfg.pose_fixed_p_ic = cfg.pose_fixed_q_ic = cfg.pose_fixed_p_wv = cfg.pose_fixed_q_wv = false;
    cfg.pose_noise_meas_p = canonical ? 0.77 : ph[0].sp; cfg.pose_noise_meas_q = canonical ? 0.77 : ph[0].sq; cfg.pose_delay = canonical ? 0 : ph[0].delay * 1e-9;
    r.setCfg(cfg);
    init_from(r.core(), t0, init);
    (canonical ? b : a) = decode::play(r, ev, canonical);
  }
  if (world_sensor) c.label("world-sensor"); if (fixedcov) c.label("fixed-covariance");
  decode::same(c, a, b);
  c.nontrivial(used >= 2 && types.size() >= 2);
}
