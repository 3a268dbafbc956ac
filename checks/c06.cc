#include <set>
#include "history.h"
using namespace hist;
// The configured drift noise of each calibration state of each application.
struct Noise { int state; double app::Cfg::*field; };
static std::vector<Noise> noises() {
  std::vector<Noise> v;
#if defined(APP_POSE) || defined(APP_POSEPRESSURE) || defined(APP_POSITIONPOSE)
  v.push_back({D::L, &app::Cfg::pose_noise_scale}); v.push_back({D::q_wv, &app::Cfg::pose_noise_q_wv}); v.push_back({D::p_wv, &app::Cfg::pose_noise_p_wv});
  v.push_back({D::q_ic, &app::Cfg::pose_noise_q_ic}); v.push_back({D::p_ic, &app::Cfg::pose_noise_p_ic});
#endif
#if defined(APP_POSITION) || defined(APP_POSITIONPOSE)
  v.push_back({D::p_ip, &app::Cfg::position_noise_p_ip});
#endif
#ifdef APP_SPHERICAL
  v.push_back({D::p_ip, &app::Cfg::noise_p_ip});
#endif
#ifdef APP_POSEPRESSURE
  v.push_back({D::b_p, &app::Cfg::press_noise_bias_p});
#endif
  return v;
}
// Variance rate of every error-state entry beyond the core states.
static EVec rates(const app::Cfg& cfg) {
  EVec q = EVec::Constant(-1);
  State s; int idx = 0;
  std::vector<Noise> ns = noises();
  visit(s, [&](auto& v, int i, int) {
    for (auto& n : ns) if (n.state == i) q.segment(idx, v.sizeInCorrection_).setConstant((cfg.*n.field) * (cfg.*n.field));
    idx += v.sizeInCorrection_;
  });
  for (int i = 0; i < 15; ++i) q[i] = 0;
  for (int i = 0; i < NE; ++i) if (q[i] < 0) { std::fprintf(stderr, "unmapped state\n"); std::abort(); }
  return q;
}
static double gen_noise(pbt::Ctx& c) { return c.chance(30) ? 0.0 : c.logu(1e-4, 10); }
static void reconf(pbt::Ctx& c, Rig& r) {
  app::Cfg cfg = r.cfg();
  std::vector<Noise> ns = noises();
  bool all = c.chance(50);
  for (auto& n : ns) if (all || c.chance(40)) cfg.*n.field = gen_noise(c);
#if defined(APP_POSE) || defined(APP_POSEPRESSURE) || defined(APP_POSITIONPOSE)
  if (c.chance(50)) { cfg.pose_fixed_scale = c.boolean(); cfg.pose_fixed_p_ic = c.boolean(); cfg.pose_fixed_q_ic = c.boolean(); cfg.pose_fixed_p_wv = c.boolean(); cfg.pose_fixed_q_wv = c.boolean(); cfg.pose_noise_meas_p = gen_noise(c); cfg.pose_noise_meas_q = gen_noise(c); }
#endif
#if defined(APP_POSITION) || defined(APP_POSITIONPOSE)
  if (c.chance(50)) { cfg.position_fixed_p_ip = c.boolean(); cfg.position_noise_meas = gen_noise(c); }
#endif
#ifdef APP_SPHERICAL
  if (c.chance(50)) { cfg.fixed_p_ip = c.boolean(); cfg.angle_noise_meas = gen_noise(c); cfg.distance_noise_meas = gen_noise(c); }
#endif
#ifdef APP_POSEPRESSURE
  if (c.chance(50)) cfg.press_noise_meas_p = gen_noise(c);
#endif
  r.setCfg(cfg);
  if (c.chance(30)) { auto cc = r.coreCfg(); cc.core_noise_acc = gen_noise(c); cc.core_noise_gyr = gen_noise(c); cc.core_noise_accbias = gen_noise(c); cc.core_noise_gyrbias = gen_noise(c); r.setCore(cc); }
}
static void compare(pbt::Ctx& c, const PMat& P0, const PMat& P1, double dt, const EVec& q, const char* where) {
  for (int i = 15; i < NE; ++i) for (int j = 15; j < NE; ++j) {
    double want = i == j ? q[i] * dt : 0, got = P1(i, j) - P0(i, j);
    double tol = 1e-9 * want + 1e-11 * std::sqrt(std::fabs(P0(i, i) * P0(j, j)) + q[i] * q[j] * dt * dt) + 1e-18;
    PBT_REQUIRE(std::fabs(got - want) <= tol, where << ": covariance entry (" << i << "," << j << ") grew by " << got << " in " << dt << " s, the configured drift noise gives " << want);
  }
}
PBT_TARGET(growth, "random state and covariance, IMU readings, reconfigurations of all noises and flags and delayed updates at random points; non-trivial: at least two reconfigurations and three predictions") {
  world().reset(); gen_core_params(c);
  Rig r;
  State init; gen_state(c, init);
  visit(init, [&](auto& v, int i, int) { if (i > D::b_a) fill(c, v.state_); });
  int64_t t = 50000000000ll + c.i(0, 1000000000);
  init.a_m = V3(0, 0, 9.8); init.w_m.setZero();
  init.P = gcov(c, 1e-3, 0.5);
  if (c.chance(30)) reconf(c, r);
  init_from(r.core(), t, init);
  std::vector<Imu> im = gen_imus(c, t, init.a_m, init.w_m, 4, 2000000, 20000000);
  for (int i = 1; i <= 4; ++i) r.imu(im[i].t, im[i].a, im[i].w);
  r.at(im[4].t);
  std::set<int> used;
  int ops = 0, nre = 0, npred = 0;
  EVec q = rates(r.cfg());
  do {
    switch (c.i(0, 3)) {
      case 0: reconf(c, r); q = rates(r.cfg()); ++nre; c.note() << "reconfigure\n"; break;
      case 1: {  // delayed update: everything behind it is predicted again, with the current settings
        int k = c.i(std::max<int>(1, im.size() - 6), im.size() - 1);
        if (!used.insert(k).second) break;  // one measurement per stamp
        MeasPtr m(new Meas(0, false, 0)); m->kind = c.i(0, 3); m->sigma = c.logu(0.05, 1);
        m->z = gvec(c, 20); m->z2 = gvec(c, 3); m->zq = gquat(c); m->time = ts(im[k].t);
        size_t nu = r.m->upd.size();
        r.core().AddMeasurement(m);
        PBT_REQUIRE(r.m->upd.size() == nu + 1, "measurement at an IMU time was not applied");
        c.note() << "update at reading " << k << " of " << im.size() << "\n";
        for (size_t i = k; i + 1 < im.size(); ++i) {
          StatePtr a = r.at(im[i].t), b = r.at(im[i + 1].t);
          PBT_REQUIRE(a->time == ts(im[i].t) && b->time == ts(im[i + 1].t), "states vanished from the buffer");
          // another update may sit at the later state: only judge up to the next one
          if (used.count(i + 1)) continue;
          compare(c, a->P, b->P, b->time - a->time, q, "after a delayed update");
          ++npred;
        }
        break;
      }
      default: {
        StatePtr a = r.at(im.back().t);
        State keep; copyvals(keep, *a); keep.P = a->P;
        Imu x = im.back(); x.t += 2000000 + c.i(0, 30000000); x.a = V3(0, 0, 9.8) + gvec(c, 5); x.w = gvec(c, 2);
        im.push_back(x);
        r.imu(x.t, x.a, x.w);
        StatePtr b = r.at(x.t);
        PBT_REQUIRE(b->time == ts(x.t), "no state at the newest IMU reading");
        compare(c, keep.P, b->P, b->time - keep.time, q, "prediction");
        ++npred;
      }
    }
  } while (c.more(ops, 6, 20));
  c.evals(npred);
  c.nontrivial(nre >= 2 && npred >= 3);
}
// Same prediction under two configurations: only the blocks of the states
// whose drift noise differs may differ.
PBT_TARGET(separation, "one prediction under two configurations that differ in a random subset of drift noises; non-trivial: at least one noise differs") {
  world().reset(); gen_core_params(c);
  Rig r;
  StatePtr o(new State), n(new State);
  gen_state(c, *o);
  visit(*o, [&](auto& v, int i, int) { if (i > D::b_a) fill(c, v.state_); });
  o->P = gcov(c, 1e-3, 0.5);
  if (c.chance(30)) o->P.setZero();
  o->a_m = gvec(c, 5) + V3(0, 0, 9.8); n->a_m = o->a_m + gvec(c, 2); o->w_m = gvec(c, 2); n->w_m = o->w_m + gvec(c, 0.3);
  o->time = 100; n->time = 100 + c.logu(1e-3, 0.2);
  app::Cfg cfg = r.cfg();
  for (auto& x : noises()) cfg.*x.field = gen_noise(c);
  r.setCfg(cfg);
  EVec q1 = rates(r.cfg());
  StatePtr a(new State(*n)), b(new State(*n));
  r.core().PropagateState(o, a); r.core().PredictProcessCovariance(o, a);
  for (auto& x : noises()) if (c.chance(40)) cfg.*x.field = gen_noise(c);
  r.setCfg(cfg);
  EVec q2 = rates(r.cfg());
  r.core().PropagateState(o, b); r.core().PredictProcessCovariance(o, b);
  double dt = n->time - o->time;
  PBT_REQUIRE(statediff(*a, *b) == 0, "a drift noise changed the predicted state");
  for (int i = 0; i < NE; ++i) for (int j = 0; j < NE; ++j) {
    if (i == j && q1[i] != q2[i]) {
      double want = (q2[i] - q1[i]) * dt, got = b->P(i, i) - a->P(i, i);
      PBT_REQUIRE(std::fabs(got - want) <= 1e-9 * (std::fabs(a->P(i, i)) + std::fabs(b->P(i, i))), "variance " << i << " grew by " << got << " more instead of " << want);
    } else PBT_REQUIRE(std::fabs(a->P(i, j) - b->P(i, j)) <= 1e-13 * std::sqrt(std::fabs(a->P(i, i) * a->P(j, j))), "changing other drift noises changed the predicted covariance at (" << i << "," << j << ") by " << b->P(i, j) - a->P(i, j));
  }
  c.nontrivial(q1 != q2);
}
