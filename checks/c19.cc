#include "sensors.h"
#if defined(APP_POSE)
#include <sensor_fusion_comm/InitScale.h>
#include <sensor_fusion_comm/InitHeight.h>
#endif
using namespace model;
using namespace hist;
// Initialisation against the measurement models, and requests to be refused.
namespace {
const double kNaN = std::numeric_limits<double>::quiet_NaN(), kInf = std::numeric_limits<double>::infinity();
struct Ext { V3 p_ic, p_ip; Q q_ic; double qn; };
void set_ext(const Ext& e) {
  ros::NodeHandle n("~");
  const char* ax[3] = {"x", "y", "z"};
  for (int i = 0; i < 3; ++i) { n.setParam(std::string("pose_sensor/init/p_ic/") + ax[i], e.p_ic[i]); n.setParam(std::string("position_sensor/init/p_ip/") + ax[i], e.p_ip[i]); }
  n.setParam("pose_sensor/init/q_ic/w", e.q_ic.w() * e.qn); n.setParam("pose_sensor/init/q_ic/x", e.q_ic.x() * e.qn);
  n.setParam("pose_sensor/init/q_ic/y", e.q_ic.y() * e.qn); n.setParam("pose_sensor/init/q_ic/z", e.q_ic.z() * e.qn);
}
Ext gen_ext(pbt::Ctx& c) { Ext e; e.p_ic = gvec(c, 1); e.p_ip = gvec(c, 1); e.q_ic = gquat(c); e.qn = c.chance(70) ? 1 : c.logu(0.2, 5); return e; }
Z gen_z(pbt::Ctx& c, sens::Kind k) {
  Z z;
  if (k == sens::POSE) { z.v = gvec(c, 5); z.q.push_back(gquat(c)); }
  else if (k == sens::POS) z.v = gvec(c, 50);
  else if (k == sens::PRESS) z.v = Eigen::VectorXd::Constant(1, c.sym(100));
  else if (k == sens::ANGLE) { z.v.resize(2); z.v << c.real(0.15, 2.95), c.sym(3.14); z.wrap.push_back(1); }
  else z.v = Eigen::VectorXd::Constant(1, c.real(0.5, 30));
  if (k == sens::POSE && std::fabs(z.v[2]) < 1e-6) z.v[2] = 0.5;
  return z;
}
}  // namespace
PBT_TARGET(initialise, "rounds of random first measurements, extrinsics, yaw, scale or height through every way to initialise the application, before and in the middle of a run; non-trivial: an accepted initialisation with every sensor of the application received") {
  world().reset(); gen_core_params(c); sens::params();
  Ext ext = gen_ext(c);
  bool world_sensor = c.chance(70);
  if (c.chance(10)) { ext.p_ic.setZero(); ext.p_ip.setZero(); ext.q_ic.setIdentity(); ext.qn = 1; world_sensor = true; c.label("nothing configured"); }  // the defaults
  else { set_ext(ext); ros::NodeHandle("~/pose_sensor").setParam("pose_measurement_world_sensor", world_sensor); }
  Rig r;
  std::map<int, Z> last;
  std::vector<sens::Kind> ks = sens::kinds();
  int64_t t = 40000000000ll + c.i(0, 1000000000);
  uint32_t seq = 0; int rounds = 0; bool inited = false, full = false;
  double yaw = 0; StatePtr newest;
  int64_t tn = 0;
  do {
    for (auto k : ks) if (c.chance(80)) {
      int n = c.i(1, 3);
      for (int i = 0; i < n; ++i) {
        Z z = gen_z(c, k), s = z;
        if (k == sens::POSE && world_sensor && c.chance(8)) { z.v[2] = 0; s = z; }
        if (k == sens::POSE && !world_sensor) { s.q[0] = z.q[0].conjugate(); s.v = -(s.q[0] * V3(z.v)); }
        t += 1000000 + c.i(0, 50000000);
        sens::send(k, t, s, ++seq); last[k] = z;
      }
    }
    if (rounds && c.chance(40)) { ext = gen_ext(c); set_ext(ext); }
    t += 1000000 + c.i(0, 3000000);
    ros::Time::setNow(rt(t));
    // the request
    double scale = 1; bool refuse = false; int ok = -1;
    size_t ni = r.m->initial.size(), np = r.m->prop.size(), nu = r.m->upd.size();
    State before; bool have = inited && newest;
    if (have) { copyvals(before, *r.at(tn)); before.P = r.at(tn)->P; }
    auto cfg = r.cfg();
#if defined(APP_POSITION) || defined(APP_POSITIONPOSE)
    cfg.position_yaw_init = c.chance(20) ? c.oneof({0.0, 90.0, -180.0, 180.0}) : c.sym(180); yaw = cfg.position_yaw_init / 180 * M_PI;
#elif defined(APP_SPHERICAL)
    cfg.yaw_init = c.sym(180); yaw = cfg.yaw_init / 180 * M_PI;
#endif
    std::string how;
#ifdef HAS_POSE
    double pz = last.count(sens::POSE) ? last[sens::POSE].v[2] : 0;
    int ways =
#ifdef APP_POSE
        5;
#else
        2;
#endif
    int way = c.i(0, ways - 1);
    if (way == 0) {
      how = "configuration flag"; scale = cfg.pose_initial_scale = c.logu(0.01, 20); cfg.core_init_filter = true; cfg.core_set_height = false; r.setCfg(cfg);
    } else if (way == 1) {
      how = "configured height"; cfg.core_init_filter = false; cfg.core_set_height = false; r.setCfg(cfg);
      cfg.core_height = c.logu(0.1, 20); cfg.core_set_height = true; scale = pz / cfg.core_height; refuse = !(pz > 0);
      r.setCfg(cfg);
    }
#ifdef APP_POSE
    else if (way == 2) {
      how = "scale service";
      sensor_fusion_comm::InitScale::Request q; sensor_fusion_comm::InitScale::Response a;
      q.scale = c.chance(70) ? c.logu(0.01, 20) : c.oneof({0.0, -1.0, -0.0, kNaN, kInf, -kInf, -1e-3});
      scale = q.scale; refuse = !(scale > 0) || std::isinf(scale);
      ok = world().callService("initialize_msf_scale", q, a);
      if (ok < 0) ok = world().callService("/node/pose_sensor/initialize_msf_scale", q, a);
    } else {
      how = "height service";
      sensor_fusion_comm::InitHeight::Request q; sensor_fusion_comm::InitHeight::Response a;
      double sgn = pz < 0 ? -1 : 1;
      q.height = c.chance(70) ? sgn * c.logu(0.02, 20) : c.oneof({0.0, 0.005, -0.009, 0.0099, kNaN, -sgn * 2.0, 0.0});
      double h = q.height; scale = pz / h; refuse = !(std::fabs(h) > 0.01) || !(scale > 0);
      if (std::fabs(std::fabs(h) - 0.01) < 1e-6) refuse = true;
      ok = world().callService("initialize_msf_height", q, a);
      if (ok < 0) ok = world().callService("/node/pose_sensor/initialize_msf_height", q, a);
      how += " with height " + std::to_string(h);
    }
    if (way >= 2) PBT_REQUIRE(ok == (refuse ? 0 : 1), how << " (scale " << scale << ") answered " << ok << ", expected " << (refuse ? "a refusal" : "success"));
#endif
#else
    how = "configuration flag"; cfg.core_init_filter = true; r.setCfg(cfg);
#endif
    c.note() << how << ", scale " << scale << (refuse ? ", to be refused" : "") << ", sensors received " << last.size() << " of " << ks.size() << "\n";
    if (refuse) {
      c.label("refused");
      PBT_REQUIRE(r.m->initial.size() == ni, how << " (scale " << scale << ") should have been refused but initialised the filter");
      PBT_REQUIRE(r.m->upd.size() == nu && r.m->prop.size() == np, "a refused request published a state");
      if (have) {
        StatePtr s = r.at(tn);
        PBT_REQUIRE(s->time == before.time && statediff(*s, before) == 0 && (s->P.array() == before.P.array()).all(), "a refused request changed the filter");
      } else {
        r.imu(t + 1000000, V3(0, 0, 9.8), V3(0, 0, 0));
        PBT_REQUIRE(r.m->prop.size() == np, "a refused request started the filter");
      }
    } else {
      c.label(how.substr(0, how.find(" with")));
      PBT_REQUIRE(r.m->initial.size() == ni + 1, how << " did not initialise the filter (once): " << r.m->initial.size() - ni);
      inited = true; tn = t;
      StatePtr s = r.at(t); newest = s;
      PBT_REQUIRE(s->time == ts(t), "the initial state has time " << s->time << " instead of now, " << ts(t));
      const State& x = *s;
      for (auto k : ks) {
        bool got = last.count(k); if (k == sens::ANGLE || k == sens::DIST) got = last.count(sens::ANGLE) && last.count(sens::DIST);
        if (!got) continue;
        Z p = sens::hfun(k)(x);
        double e = minus(p, last[k]).cwiseAbs().maxCoeff(), tol = 1e-8 * (1 + last[k].v.cwiseAbs().maxCoeff());
        PBT_REQUIRE(e < tol, "after initialisation by " << how << " sensor " << k << " is predicted as " << p.v.transpose() << ", last received " << last[k].v.transpose() << " (difference " << e << ")");
      }
      if (last.size() == ks.size()) full = true;
      PBT_REQUIRE(G<D::v>(x).norm() == 0 && G<D::b_w>(x).norm() == 0 && G<D::b_a>(x).norm() == 0, "velocity or biases do not start at zero");
      PBT_REQUIRE(std::fabs(G<D::q>(x).norm() - 1) < 1e-9, "initial attitude is not normalised");
      PBT_REQUIRE(x.w_m.norm() == 0 && (x.a_m - G<D::q>(x).conjugate() * V3(0, 0, 9.81)).norm() < 1e-2, "initial readings are not those of rest");
#ifdef HAS_POSE
      PBT_REQUIRE(std::fabs(G<D::L>(x)[0] - scale) <= 1e-9 * scale, "scale is " << G<D::L>(x)[0] << " instead of " << scale);
      PBT_REQUIRE((G<D::p_ic>(x) - ext.p_ic).norm() < 1e-12, "p_ic is not the configured one");
      PBT_REQUIRE(logq(G<D::q_ic>(x).conjugate() * ext.q_ic).norm() < 1e-7 && std::fabs(G<D::q_ic>(x).norm() - 1) < 1e-9, "q_ic is not the configured one");
#endif
#if defined(APP_POSITION) || defined(APP_POSITIONPOSE) || defined(APP_SPHERICAL)
      PBT_REQUIRE((G<D::p_ip>(x) - ext.p_ip).norm() < 1e-12, "p_ip is not the configured one");
      PBT_REQUIRE(logq(G<D::q>(x).conjugate() * expq(V3(0, 0, yaw))).norm() < 1e-7, "attitude does not start at the configured yaw");
#endif
      double asym = (x.P - x.P.transpose()).cwiseAbs().maxCoeff();
      PBT_REQUIRE(asym <= 1e-12 * (1 + x.P.cwiseAbs().maxCoeff()), "initial covariance is not symmetric by " << asym);
      PBT_REQUIRE(x.P.diagonal().minCoeff() >= 0 && mineig_scaled(x.P) > -1e-7, "initial covariance is not one: smallest variance " << x.P.diagonal().minCoeff() << ", smallest scaled eigenvalue " << mineig_scaled(x.P));
      if (c.chance(30)) {  // other settings do not initialise again
        auto g = r.cfg(); sens::Sigma sg; sg.p = c.logu(0.02, 1); sg.pos = sg.press = sg.ang = sg.dist = sg.p; sens::configure(g, sg); r.setCfg(g);
        PBT_REQUIRE(r.m->initial.size() == ni + 1, "changing a noise initialised the filter again");
      }
    }
    // run on for a while
    int n = c.i(0, 6);
    for (int i = 0; i < n && inited; ++i) { t += 5000000; size_t q = r.m->prop.size(); if (t > tn) { r.imu(t, V3(0, 0, 9.8), gvec(c, 0.3)); PBT_REQUIRE(t - tn > 90000000 || r.m->prop.size() == q + 1, "the filter stopped"); newest = r.at(t); if (newest->time == ts(t)) tn = t; } }
  } while (c.more(++rounds, 2, 5));
  c.nontrivial(full);
}
