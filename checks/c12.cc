#include <set>
#include "sensors.h"
using namespace model;
using namespace hist;
// Which states the application offers to fix, with their configuration flag.
struct Flag { int state; bool app::Cfg::*field; sens::Kind sensor; };
static std::vector<Flag> flags() {
  std::vector<Flag> v;
#ifdef HAS_POSE
  v.push_back({D::L, &app::Cfg::pose_fixed_scale, sens::POSE}); v.push_back({D::p_ic, &app::Cfg::pose_fixed_p_ic, sens::POSE}); v.push_back({D::q_ic, &app::Cfg::pose_fixed_q_ic, sens::POSE});
  v.push_back({D::p_wv, &app::Cfg::pose_fixed_p_wv, sens::POSE}); v.push_back({D::q_wv, &app::Cfg::pose_fixed_q_wv, sens::POSE});
#endif
#ifdef HAS_POSITION
  v.push_back({D::p_ip, &app::Cfg::position_fixed_p_ip, sens::POS});
#endif
#ifdef APP_SPHERICAL
  v.push_back({D::p_ip, &app::Cfg::fixed_p_ip, sens::ANGLE});
#endif
  return v;
}
// Error-state index range of each state.
static std::pair<int, int> range(int state) {
  State s; int idx = 0; std::pair<int, int> r(0, 0);
  visit(s, [&](auto& v, int i, int) { if (i == state) r = std::make_pair(idx, int(v.sizeInCorrection_)); idx += v.sizeInCorrection_; });
  return r;
}
struct Setup { std::set<int> fixed; bool bias; sens::Sigma sig; };
static Setup setup(pbt::Ctx& c, Rig& r) {
  Setup s;
  auto cfg = r.cfg();
  int mode = c.i(0, 3);  // none, one, all, random
  std::vector<Flag> fs = flags();
  int one = c.i(0, fs.size() - 1);
  for (size_t k = 0; k < fs.size(); ++k) {
    bool f = mode == 0 ? false : mode == 1 ? int(k) == one : mode == 2 ? true : c.boolean();
    cfg.*fs[k].field = f;
    if (f) s.fixed.insert(fs[k].state);
    c.note() << (f ? "fixed state " : "free state ") << fs[k].state << "\n";
  }
  s.sig.p = c.logu(0.03, 0.5); s.sig.q = c.logu(0.03, 0.3); s.sig.pos = c.logu(0.03, 0.5); s.sig.press = c.logu(0.03, 1); s.sig.ang = c.logu(0.03, 0.3); s.sig.dist = c.logu(0.03, 1);
  sens::configure(cfg, s.sig);
  r.setCfg(cfg);
  auto cc = r.coreCfg(); cc.core_fixed_bias = s.bias = c.chance(40); r.setCore(cc);
  return s;
}
// The error-state columns a measurement of this kind must not use.
static void clear_fixed(const Setup& s, sens::Kind k, State& x, Eigen::MatrixXd* H) {
  for (auto& f : flags()) {
    bool pose = f.sensor == sens::POSE, mine = pose == (k == sens::POSE) && k != sens::PRESS;
    if (!s.fixed.count(f.state) || !mine) continue;
    std::pair<int, int> r = range(f.state);
    for (int i = r.first; i < r.first + r.second; ++i) {
      if (H) H->col(i).setZero();
      for (int j = 0; j < NE; ++j) if (j < r.first || j >= r.first + r.second) x.P(i, j) = x.P(j, i) = 0;
    }
  }
}
static double moved(const State& a, const State& b, const std::set<int>& fixed, bool bias, int* which) {
  double worst = 0;
  EVec d = boxminus(a, b);
  int idx = 0;
  visit(const_cast<State&>(a), [&](auto& v, int i, int) {
    bool f = fixed.count(i) || (bias && (i == D::b_w || i == D::b_a));
    for (int k = 0; k < v.sizeInCorrection_; ++k) if (f && !(std::fabs(d[idx + k]) <= worst)) { worst = std::fabs(d[idx + k]); *which = i; }
    idx += v.sizeInCorrection_;
  });
  return worst;
}
// No history moves a fixed state.
PBT_TARGET(history, "random fix flags, then IMU readings and (delayed) measurements of every sensor; initialised by the application or with a random covariance without cross terms to fixed states; non-trivial: at least one fixed state and three updates") {
  world().reset(); gen_core_params(c); sens::params();
  Rig r;
  Setup s = setup(c, r);
  int64_t t = 50000000000ll + c.i(0, 1000000000);
  V3 a0(0, 0, 9.81), w0(0, 0, 0);
  State init;
  if (c.chance(30)) {
    ros::Time::setNow(rt(t));
    app::Cfg cfg = r.cfg();
    cfg.core_init_filter = true;
    fakeros::server<app::Cfg>(app::kNs)->reconfigure(cfg);
    StatePtr x = r.at(t);
    PBT_REQUIRE(x->time == ts(t), "initialisation left no state");
    copyvals(init, *x); init.P = x->P;
    c.label("application-init");
  } else {
    sens::gen_full_state(c, init);
    init.P = gcov(c, 1e-3, 0.3);
    for (int f : s.fixed) { std::pair<int, int> g = range(f); for (int i = g.first; i < g.first + g.second; ++i) for (int j = 0; j < NE; ++j) if (j < g.first || j >= g.first + g.second) init.P(i, j) = init.P(j, i) = 0; }
    init.a_m = a0; init.w_m = w0;
    init_from(r.core(), t, init);
  }
  std::vector<Imu> im = gen_imus(c, t, a0, w0, 5, 4000000, 10000000);
  for (int i = 1; i <= 5; ++i) r.imu(im[i].t, im[i].a, im[i].w);
  std::vector<sens::Kind> ks = sens::kinds();
  int n = 0, seq = 0;
  do {
    if (c.chance(55)) {
      sens::Kind k = ks[c.i(0, ks.size() - 1)];
      int back = c.i(0, std::min<int>(4, im.size() - 2));
      int64_t tm = im[im.size() - 1 - back].t;
      if (c.chance(40)) tm -= c.i(0, 3900000);
      State truth; copyvals(truth, *r.at(im[im.size() - 1 - back].t));
      EVec d; double amp = c.oneof({0.0, 0.02, 0.1, 1.0});
      for (int i = 0; i < NE; ++i) d[i] = c.sym(amp);
      boxplus(truth, d);
#ifdef APP_SPHERICAL
      V3 x = sens::point(*r.at(im[im.size() - 1 - back].t));
      if (x.head<2>().norm() < 0.2) continue;  // azimuth is not defined
#endif
      Z z = sens::hfun(k)(truth);
      int before = r.m->upd.size();
      sens::send(k, tm, z, ++seq);
      c.note() << "measurement of sensor " << k << ", " << back << " readings back, perturbation " << amp << (int(r.m->upd.size()) > before ? "" : " (not used)") << "\n";
    } else {
      Imu x; x.t = im.back().t + 4000000 + c.i(0, 10000000); x.a = V3(0, 0, 9.81) + gvec(c, 3); x.w = gvec(c, 1);
      im.push_back(x); r.imu(x.t, x.a, x.w);
      c.note() << "reading\n";
    }
    int from = std::max<int>(1, im.size() - 6), which = -1;
    for (size_t i = from; i < im.size(); ++i) {
      StatePtr x = r.at(im[i].t);
      double m = moved(*x, init, s.fixed, s.bias, &which);
      PBT_REQUIRE(m < 1e-9, "fixed state " << which << " moved by " << m << " at reading " << i);
    }
    // and what was published last
    if (!r.m->upd.empty()) { double m = moved(*r.m->upd.back(), init, s.fixed, s.bias, &which); PBT_REQUIRE(m < 1e-9, "published fixed state " << which << " moved by " << m); }
    c.evals(1);
  } while (c.more(n, 10, 40));
  c.nontrivial((!s.fixed.empty() || s.bias) && r.m->upd.size() >= 3);
}
// The other states are estimated: the update is the Kalman update of a model in
// which the fixed states are known.
PBT_TARGET(update, "random fix flags, state and fully correlated covariance; each measurement against the Kalman update with the fixed states taken as known; non-trivial: at least one fixed state and one applied update with non-zero innovation") {
  world().reset(); gen_core_params(c); sens::params();
  Rig r;
  Setup s = setup(c, r);
  int64_t t = 50000000000ll + c.i(0, 1000000000);
  State init; sens::gen_full_state(c, init);
#ifdef APP_SPHERICAL
  V3 p0 = G<D::p>(init); if (p0.head<2>().norm() < 4) { p0[0] += 5; init.Set<D::p>(p0); }
#endif
  init.P = gcov(c, 1e-3, 0.2);
  init.a_m = V3(0, 0, 9.8); init.w_m.setZero();
  init_from(r.core(), t, init);
  std::vector<Imu> im = gen_imus(c, t, init.a_m, init.w_m, 4, 2000000, 8000000);
  for (int i = 1; i <= 4; ++i) r.imu(im[i].t, im[i].a, im[i].w);
  std::vector<sens::Kind> ks = sens::kinds();
  int n = 0, seq = 0; bool informative = false;
  do {
    t = im.back().t;
    sens::Kind k = ks[c.i(0, ks.size() - 1)];
    HFun h = sens::hfun(k);
    State before; copyvals(before, *r.at(t)); before.P = r.at(t)->P;
    State truth; copyvals(truth, before);
    EVec d;
    for (int i = 0; i < NE; ++i) d[i] = c.sym(1) * std::min(0.05, std::sqrt(before.P(i, i)));
    boxplus(truth, d);
#ifdef APP_SPHERICAL
    if (sens::point(before).head<2>().norm() < 0.3 * sens::point(before).norm()) { c.label("near-pole"); break; }
#endif
    Z z = h(truth);
    Eigen::MatrixXd R = sens::noise(k, s.sig), H = jacobian(before, h);
    Z z0 = h(before);
    clear_fixed(s, k, before, &H);
    Expect e;
    Eigen::VectorXd dg;
    kalman(before.P, H, minus(z, z0), R, &e.d, &e.P);
    kalman(before.P, H, minus(z, z0, true), R, &dg, &e.P);
    e.slack = (e.d - dg).cwiseAbs(); e.d = 0.5 * (e.d + dg);
    if (s.bias) { e.d.segment(9, 6).setZero(); e.slack.segment(9, 6).setZero(); }
    size_t nu = r.m->upd.size();
    sens::send(k, t, z, ++seq);
    PBT_REQUIRE(r.m->upd.size() == nu + 1, "the measurement led to " << r.m->upd.size() - nu << " updates");
#ifdef HAS_POSE
    if (G<D::L>(before)[0] + e.d[15] < 0.02) { c.label("scale-protection"); break; }
#endif
    check(c, before, *r.at(t), e, "update with fixed states");
    if ((!s.fixed.empty() || s.bias)) informative = true;
    Imu x; x.t = t + 4000000 + c.i(0, 5000000); x.a = V3(0, 0, 9.8) + gvec(c, 2); x.w = gvec(c, 0.5);
    im.push_back(x); r.imu(x.t, x.a, x.w);
  } while (c.more(n, 3, 8));
  c.nontrivial(informative);
}
