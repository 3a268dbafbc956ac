#include "sensors.h"
#include <geometry_msgs/PoseStamped.h>
#include <geometry_msgs/TransformStamped.h>
#include <nav_msgs/Odometry.h>
#include <sensor_msgs/NavSatFix.h>
#if defined(APP_POSE)
#include <sensor_fusion_comm/InitScale.h>
#include <sensor_fusion_comm/InitHeight.h>
#endif
using namespace model;
using namespace hist;
// Arbitrary input histories; built with the sanitizers, library assertions and
// log formatting on. Crash, sanitizer report, abort, escaped exception and
// endless loop are failures of the case (it runs in a child process).
namespace {
typedef sensor_fusion_comm::ExtEkf Ekf;
const double kNaN = std::numeric_limits<double>::quiet_NaN(), kInf = std::numeric_limits<double>::infinity();
struct Chaos {
  pbt::Ctx& c;
  int wild;  // percentage of extreme numbers
  double num(double sane) {
    if (!c.chance(wild)) return c.sym(sane);
    return c.oneof({0.0, -0.0, kNaN, kInf, -kInf, 1e300, -1e300, 1e-310, 1e18, -1e9, 4.3e9, 1e-12, 360.0, -91.0});
  }
  template <class P> void point(P& p, double sane) { p.x = num(sane); p.y = num(sane); p.z = num(sane); }
  template <class T> void quat(T& q) {
    if (c.chance(wild)) { if (c.chance(50)) { q.w = q.x = q.y = q.z = 0; } else { q.w = num(2); q.x = num(2); q.y = num(2); q.z = num(2); } return; }
    Q g = gquat(c); q.w = g.w(); q.x = g.x(); q.y = g.y(); q.z = g.z();
  }
  template <class A> void cov(A& a) {
    double s = c.logu(1e-4, 1);
    for (auto& x : a) x = c.chance(wild) ? num(1) : 0;
    size_t n = a.size() == 36 ? 6 : 3;
    if (!c.chance(wild)) for (size_t i = 0; i < n; ++i) a[i * (n + 1)] = s;
  }
};
struct Fill {  // every field of a configuration, within its documented range
  Chaos* h; int pct;
  void operator()(const char* name, double& v, uint32_t) const {
    pbt::Ctx& c = h->c;
    if (!c.chance(pct)) return;
    std::string n = name;
    if (n.find("delay") != std::string::npos) v = c.oneof({0.0, 0.02, 2.0, -2.0, 0.5, -0.3});
    else if (n.find("yaw") != std::string::npos) v = c.real(-180, 180);
    else if (n.find("scale") != std::string::npos && n.find("noise") == std::string::npos) v = c.logu(0.001, 30);
    else if (n.find("height") != std::string::npos) v = c.logu(0.1, 20);
    else v = c.oneof({0.0, 1e-6, 0.01, 0.1, 1.0, 10.0});
  }
  void operator()(const char*, bool& v, uint32_t) const { if (h->c.chance(pct)) v = h->c.boolean(); }
  void operator()(const char*, int& v, uint32_t) const { if (h->c.chance(pct)) v = h->c.i(0, 3); }
  void operator()(const char*, std::string&, uint32_t) const {}
};
const int64_t S = 1000000000ll, kLatest = 4294967290ll * S;
}  // namespace
PBT_TARGET(inputs, "histories of IMU messages, external states of any length, all sensor topics, services, reconfigurations and initialisations with regular, late, repeated, backward, far-off and extreme stamps, sequence numbers and values; afterwards initialised again and run on sane input; non-trivial: initialised during the history and at least five measurements delivered") {
  fakeros::log_enabled() = true;
  world().reset();
  gen_core_params(c);
  {
    ros::NodeHandle a("~/pose_sensor"), b("~/position_sensor"), d("~/spherical_position_sensor"), e("~core");
    if (c.chance(30)) a.setParam("pose_absolute_measurements", false);
    if (c.chance(30)) a.setParam("pose_measurement_world_sensor", false);
    a.setParam("pose_use_fixed_covariance", c.boolean()); a.setParam("pose_measurement_minimum_dt", c.oneof({0.0, 0.05}));
    b.setParam("position_use_fixed_covariance", c.boolean()); b.setParam("position_absolute_measurements", c.chance(70));
    for (auto* n : {&a, &b, &d}) { n->setParam("enable_mah_outlier_rejection", c.chance(20)); n->setParam("mah_threshold", c.oneof({100.0, 1e-3, 0.0})); n->setParam("absolute_measurements", true); }
    if (c.chance(20)) e.setParam("data_playback", true);
    if (c.chance(20)) world().default_subs = 0;
#if defined(HAS_POSE) || defined(HAS_POSITION)
    if (c.chance(15)) { a.setParam("distort_pose", true); a.setParam("distortpos_stddev", 0.01); a.setParam("distortatt_stddev", 0.01); a.setParam("distortscale_stddev", 0.01); }
#endif
  }
  Chaos h{c, c.chance(50) ? 0 : c.pick(std::vector<int>{2, 10, 40})};
  Rig r;
  app::Cfg cfg0 = r.cfg(); msf_core::MSF_CoreConfig core0 = r.coreCfg();
  ros::Time::setNow(rt(1000 * S));
  int64_t now = (1000 + c.i(0, 9)) * S;
  uint32_t seq = c.chance(10) ? c.oneof({0x7ffffff0u, 0xfffffff0u, 0x7fffffffu, 0xffffffffu}) : c.u64(20), imu_seq = c.chance(10) ? c.oneof({0x7ffffffau, 0xfffffffau}) : c.u64(5);
  bool jumps = c.chance(50);
  auto stamp = [&](bool imu) {
    int64_t t = now;
    switch (c.i(0, jumps ? 11 : 7)) {
      case 0: case 1: case 2: case 3: t = now - (imu ? 0 : c.i(0, 60) * 1000000ll); break;
      case 4: t = now - c.i(0, 3) * 300000ll; break;
      case 5: t = now + c.i(0, 30) * 1000000ll; break;
      case 6: t = now - c.i(0, 500) * 1000000ll; break;
      case 7: t = now; break;
      case 8: t = now - c.i(0, 100) * S; break;
      case 9: t = now + c.i(0, 100) * S; break;
      case 10: t = c.oneof<int64_t>({0, 1, 999999999, S, kLatest, 2147483647ll * S, 2147483648ll * S}); break;
      case 11: t = c.u64(4294967290ull) * S; break;
    }
    return std::min<int64_t>(kLatest, std::max<int64_t>(0, t));
  };
  c.note().precision(15);
  const std_msgs::Header* last = nullptr; const char* op = "";
  auto call = [&](std::function<void()> f) {
    c.note() << op; if (last) c.note() << " stamp " << last->stamp << " seq " << last->seq; c.note() << "\n"; last = nullptr;
    try { f(); } catch (std::exception& e) { c.fail(std::string("an exception left a callback and would end the node: ") + e.what()); }
  };
  int n = 0, delivered = 0, inits = 0, longest = c.chance(30) ? 160 : 60;
  while (c.more(n, longest / 2, longest)) {
    world().pub.clear(); world().tfs.clear(); r.m->upd.clear(); r.m->prop.clear();
    int what = c.i(0, 99);
    if (what < 45) {  // IMU
      now = std::min<int64_t>(kLatest, now + c.i(1, 12) * 1000000ll);
      if (jumps && c.chance(3)) now = std::min<int64_t>(kLatest, std::max<int64_t>(0, now + c.oneof<int64_t>({-2 * S, 3 * S, 90 * S, -500 * S, 10, 50 * 1000000})));
      sensor_msgs::Imu m;
      m.header.stamp = rt(c.chance(90) ? now : stamp(true)); m.header.seq = ++imu_seq;
      h.point(m.linear_acceleration, 3); m.linear_acceleration.z += 9.81; h.point(m.angular_velocity, 1);
      op = "IMU", last = &m.header; call([&] { world().deliver("/msf_core/imu_state_input", m); });
    } else if (what < 52) {
      now = std::min<int64_t>(kLatest, now + c.i(1, 12) * 1000000ll);
      Ekf m; m.header.stamp = rt(c.chance(80) ? now : stamp(true)); m.header.seq = ++imu_seq;
      h.point(m.linear_acceleration, 3); h.point(m.angular_velocity, 1);
      m.flag = c.i(0, 3);
      if (c.chance(h.wild)) m.flag = c.oneof({-1, 77, 2147483647});
      m.state.resize(c.chance(80) ? 16 : c.i(0, 20));
      for (auto& x : m.state) x = h.num(2);
      op = "external state", last = &m.header; call([&] { world().deliver("/msf_core/hl_state_input", m); });
    } else if (what < 85) {  // sensors
      seq += c.chance(90) ? 1 : c.i(0, 20);
      ++delivered;
      std_msgs::Header hd; hd.stamp = rt(stamp(false)); hd.seq = c.boolean() ? seq : seq / 10 * 10;
      int burst = c.chance(95) ? 1 : c.i(2, 12);
      std::string kind = std::to_string(c.i(0, 6));
      for (; burst > 0; --burst, ++hd.seq) switch (kind[0]) {
        case '0': { geometry_msgs::PoseWithCovarianceStamped m; m.header = hd; h.point(m.pose.pose.position, 5); h.quat(m.pose.pose.orientation); h.cov(m.pose.covariance); op = "pose_with_covariance_input", last = &m.header; call([&] { world().deliver("/msf_updates/pose_with_covariance_input", m); }); break; }
        case '1': { geometry_msgs::TransformStamped m; m.header = hd; h.point(m.transform.translation, 5); h.quat(m.transform.rotation); op = "transform_input", last = &m.header; call([&] { world().deliver("/msf_updates/transform_input", m); }); break; }
        case '2': { geometry_msgs::PoseStamped m; m.header = hd; h.point(m.pose.position, 5); h.quat(m.pose.orientation); op = "pose_input", last = &m.header; call([&] { world().deliver("/msf_updates/pose_input", m); }); break; }
        case '3': { nav_msgs::Odometry m; m.header = hd; h.point(m.pose.pose.position, 5); h.quat(m.pose.pose.orientation); h.cov(m.pose.covariance); op = "odometry_input", last = &m.header; call([&] { world().deliver("/msf_updates/odometry_input", m); }); break; }
        case '4': { sensor_msgs::NavSatFix m; m.header = hd; m.latitude = c.chance(h.wild) ? c.oneof({kNaN, kInf, 90.0, -90.0, 0.0}) : c.sym(90); m.longitude = c.chance(h.wild) ? c.oneof({kNaN, -kInf, 180.0, -180.0, 0.0}) : c.sym(180); m.altitude = c.chance(h.wild) ? c.oneof({kNaN, kInf, -400.0, 9000.0}) : c.sym(1000); h.cov(m.position_covariance); m.position_covariance_type = c.i(0, 3); m.status.status = c.i(-1, 2); op = "navsatfix_input", last = &m.header; call([&] { world().deliver("/msf_updates/navsatfix_input", m); }); break; }
        default: {
          geometry_msgs::PointStamped m; m.header = hd; h.point(m.point, 5);
          std::string t = c.pick(std::vector<std::string>{"position_input", "pressure_height", "angle_input", "distance_input"});
          op = t.c_str(), last = &m.header; call([&] { world().deliver("/msf_updates/" + t, m); });
        }
      }
    } else if (what < 90) {
      app::Cfg g = r.cfg(); Fill f{&h, 30}; g.visit(f);
      g.core_init_filter = false;
      op = "reconfigure"; call([&] { r.setCfg(g); });
    } else if (what < 92) {
      msf_core::MSF_CoreConfig g = r.coreCfg(); Fill f{&h, 30}; g.visit(f);
      op = "reconfigure core"; call([&] { r.setCore(g); });
    } else if (what < 98) {
      ros::Time::setNow(rt(c.chance(80) ? now : stamp(true)));
      int way = c.i(0, 3);
      ++inits; op = "initialise"; std_msgs::Header clock; clock.stamp = ros::Time::now(); last = &clock;
#ifdef APP_POSE
      if (way == 1) { sensor_fusion_comm::InitScale::Request q; sensor_fusion_comm::InitScale::Response a; q.scale = h.wild ? h.num(3) : c.logu(0.1, 10); call([&] { if (world().callService("/node/pose_sensor/initialize_msf_scale", q, a) < 0) world().callService("initialize_msf_scale", q, a); }); continue; }
      if (way == 2) { sensor_fusion_comm::InitHeight::Request q; sensor_fusion_comm::InitHeight::Response a; q.height = h.wild ? h.num(3) : c.sym(10); call([&] { if (world().callService("/node/pose_sensor/initialize_msf_height", q, a) < 0) world().callService("initialize_msf_height", q, a); }); continue; }
#endif
      app::Cfg g = r.cfg();
      g.core_init_filter = true;
#ifdef HAS_POSE
      if (way == 3) { g.core_init_filter = false; g.core_set_height = false; call([&] { r.setCfg(g); }); g.core_set_height = true; }
#endif
      call([&] { r.setCfg(g); });
    } else {  // straight into the filter
      now = std::min<int64_t>(kLatest, now + c.i(1, 3) * 1000000ll);
      ++inits;
      StatePtr s(new State); sens::gen_full_state(c, *s); s->P = gcov(c, 1e-3, 0.3); s->a_m = V3(0, 0, 9.81); s->w_m.setZero();
      op = "initialise from a state"; std_msgs::Header clock; clock.stamp = rt(now); last = &clock; call([&] { init_from(r.core(), now, *s); });
    }
  }
  c.note() << n << " inputs, " << delivered << " measurements, " << inits << " initialisations, extremes " << h.wild << " %, " << (jumps ? "jumping stamps" : "no jumps") << "\n";
  // And now a regular run.
  int64_t t = c.chance(70) ? std::min<int64_t>(now + c.i(1, 100) * S, 4294960000ll * S) : c.oneof<int64_t>({1000 * S, 5000 * S, 1600000000ll * S});
  fakeros::log_enabled() = false;
  sens::Sigma sg; cfg0.core_init_filter = false; sens::configure(cfg0, sg, 0);
  r.setCore(core0); r.setCfg(cfg0);
  auto sane = [&](sens::Kind k, int64_t at, const Z& z, uint32_t q) {
    if (k == sens::POSE) {
      geometry_msgs::PoseWithCovarianceStamped m; m.header.stamp = rt(at); m.header.seq = q; m.pose.covariance.fill(0); for (int i = 0; i < 6; ++i) m.pose.covariance[7 * i] = 0.0025;
      bool inv = !ros::NodeHandle("~/pose_sensor").param("pose_measurement_world_sensor", true);
      Q a = inv ? z.q[0].conjugate() : z.q[0]; V3 p = inv ? V3(-(a * V3(z.v))) : V3(z.v);
      m.pose.pose.position.x = p[0]; m.pose.pose.position.y = p[1]; m.pose.pose.position.z = p[2];
      m.pose.pose.orientation.w = a.w(); m.pose.pose.orientation.x = a.x(); m.pose.pose.orientation.y = a.y(); m.pose.pose.orientation.z = a.z();
      world().deliver("/msf_updates/pose_with_covariance_input", m);
    } else if (k == sens::POS && !ros::NodeHandle("~/position_sensor").param("position_use_fixed_covariance", false)) {
      sensor_msgs::NavSatFix m;  // a point carries no covariance and is not used then
      m.header.stamp = rt(at); m.header.seq = q; m.latitude = 47; m.longitude = 8; m.altitude = 500; m.position_covariance[0] = m.position_covariance[4] = m.position_covariance[8] = 0.01; m.position_covariance_type = 3;
      world().deliver("/msf_updates/navsatfix_input", m);
    } else sens::send(k, at, z, q);
  };
  uint32_t q = 10;
  auto truth = [&](sens::Kind k) {
    Z z;
    if (k == sens::POSE) { z.v = V3(1, 2, 3); z.q.push_back(Q(1, 0, 0, 0)); }
    else if (k == sens::POS) z.v = V3(1, 2, 3);
    else if (k == sens::PRESS) z.v = Eigen::VectorXd::Constant(1, 3);
    else if (k == sens::ANGLE) { z.v.resize(2); z.v << 1, 0.5; }
    else z.v = Eigen::VectorXd::Constant(1, 4);
    return z;
  };
  for (auto k : sens::kinds()) for (int i = 0; i < 2; ++i) { t += 120000000; sane(k, t, truth(k), q += 10); }  // twice: the first may fall to the rate limit
  t += 5000000;
  ros::Time::setNow(rt(t));
  size_t before = r.m->initial.size();
  cfg0.core_init_filter = true; r.setCfg(cfg0);
  PBT_REQUIRE(r.m->initial.size() == before + 1, "could not be initialised again");
  StatePtr s0 = r.at(t);
  PBT_REQUIRE(s0->time == ts(t), "no state after initialising again at " << ts(t));
  for (double v : values(*s0)) PBT_REQUIRE(std::isfinite(v), "the state after initialising again is not finite: " << [&] { std::ostringstream o; for (double x : values(*s0)) o << x << " "; return o.str(); }());
  State start; copyvals(start, *s0);
  int64_t ti = t;
  r.m->prop.clear();
  V3 am = s0->a_m;
  for (int i = 0; i < 10; ++i) { t += 10000000; r.imu(t, am, V3::Zero()); }
  PBT_REQUIRE(r.m->prop.size() >= 9, "the filter does not propagate after initialising again: " << r.m->prop.size() << " of 10 states published");
  StatePtr s = r.at(t);
  PBT_REQUIRE(s->time == ts(t), "the newest IMU message has no state after initialising again");
  {
    std::vector<double> a = values(start), b = values(*s);
    for (size_t i = 0; i < a.size(); ++i) PBT_REQUIRE(std::fabs(a[i] - b[i]) < 1e-2, "at rest, entry " << i << " of the state moves from " << a[i] << " to " << b[i] << " within " << (t - ti) * 1e-9 << " s of initialising again");
    PBT_REQUIRE(s->P.allFinite() && s->P.diagonal().minCoeff() >= 0, "the covariance after initialising again is not one");
  }
  for (auto k : sens::kinds()) {
    size_t u = r.m->upd.size(); 
    Z z = sens::hfun(k)(*r.at(t));
    for (int i = 0; i < 3; ++i) {
      for (int j = 0; j < 7; ++j) { t += 10000000; r.imu(t, am, V3::Zero()); }
      ros::Time::setNow(rt(t));
      sane(k, t - 3000000, z, q += 10);
    }
    for (int j = 0; j < 3; ++j) { t += 10000000; r.imu(t, am, V3::Zero()); }
    PBT_REQUIRE(r.m->upd.size() > u, "measurements of sensor " << k << " are not used after initialising again");
    StatePtr e = r.at(t);
    PBT_REQUIRE(e->time == ts(t), "the newest state is missing");
    for (double v : values(*e)) PBT_REQUIRE(std::isfinite(v), "a regular measurement of sensor " << k << " made the state non-finite after initialising again");
    PBT_REQUIRE(e->P.allFinite(), "a regular measurement of sensor " << k << " made the covariance non-finite after initialising again");
  }
  if (h.wild) c.label("extreme-values"); if (jumps) c.label("jumping-stamps");
  c.nontrivial(inits > 0 && delivered >= 5);
}
