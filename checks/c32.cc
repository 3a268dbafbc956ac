#include "sensors.h"
using namespace model;
using namespace hist;
// The visual scale under adversarial measurements.
namespace {
int eidx(int state) { State s; int idx = 0, r = -1; visit(s, [&](auto& v, int i, int) { if (i == state) r = idx; idx += v.sizeInCorrection_; }); return r; }
double scale(const State& s) { return s.Get<D::L>()[0]; }
void setScale(State& s, double x) { s.Set<D::L>(Eigen::Matrix<double, 1, 1>::Constant(x)); }
// A state whose scale is badly known.
void gen_init(pbt::Ctx& c, State& s) {
  sens::gen_full_state(c, s);
  setScale(s, c.logu(0.03, 3));
  s.P = gcov(c, 1e-3, 0.1);
  int l = eidx(D::L);
  double k = c.logu(0.05, 2) / std::sqrt(s.P(l, l));
  if (c.chance(40)) { s.P.row(l) *= k; s.P.col(l) *= k; }  // keeps correlations
  else { s.P.row(l).setZero(); s.P.col(l).setZero(); s.P(l, l) = k * k * 1e-3; }
  if (s.P(l, l) > 4) { double f = 2 / std::sqrt(s.P(l, l)); s.P.row(l) *= f; s.P.col(l) *= f; }
  s.a_m = V3(0, 0, 9.8); s.w_m.setZero();
}
}  // namespace
PBT_TARGET(update, "an update by any sensor with measurements implying a scale between -4 and 4 times the estimate, compared with the Kalman update: scale protected only when driven below zero, everything else as updated; non-trivial: at least one update drives the scale below zero and at least one leaves it positive") {
  world().reset();
  gen_core_params(c);
  sens::params();
  Rig r;
  auto cfg = r.cfg();
  cfg.pose_fixed_scale = cfg.pose_fixed_p_ic = cfg.pose_fixed_q_ic = cfg.pose_fixed_p_wv = cfg.pose_fixed_q_wv = false;
  sens::Sigma sg; sg.p = c.logu(0.05, 0.5); sg.q = c.logu(0.05, 0.3); sg.pos = sg.press = c.logu(0.05, 0.5);
  sens::configure(cfg, sg); r.setCfg(cfg);
  State init; gen_init(c, init);
  int64_t t = 50000000000ll + c.i(0, 1000000000);
  init_from(r.core(), t, init);
  std::vector<Imu> imus = gen_imus(c, t, init.a_m, init.w_m, 4, 2000000, 8000000);
  for (int i = 1; i <= 4; ++i) r.imu(imus[i].t, imus[i].a, imus[i].w);
  const int l = eidx(D::L);
  int n = 0, seq = 1; bool neg = false, pos = false;
  do {
    t = imus.back().t;
    StatePtr now = r.at(t);
    PBT_REQUIRE(now->time == ts(t), "no state at the newest IMU reading");
    State before; copyvals(before, *now);
    State truth; copyvals(truth, before);
    EVec d = EVec::Zero();
    for (int i = 0; i < NE; ++i) d[i] = c.sym(1) * std::min(0.05, std::sqrt(before.P(i, i)));
    boxplus(truth, d);
    setScale(truth, scale(before) * c.real(-4, 4));
    sens::Kind k = c.chance(75) ? sens::POSE : c.pick(sens::kinds());
    Z z = sens::hfun(k)(truth);
    Eigen::MatrixXd R = sens::noise(k, sg);
    Expect e = expect(before, sens::hfun(k), z, R);
    double lnew = scale(before) + e.d[l];
    c.note() << "update " << n << " sensor " << k << ": scale " << scale(before) << " -> " << lnew << "\n";
    size_t nu = r.m->upd.size();
    sens::send(k, t, z, seq++);
    PBT_REQUIRE(r.m->upd.size() == nu + 1, "the measurement led to " << r.m->upd.size() - nu << " updates");
    StatePtr after = r.at(t);
    PBT_REQUIRE(after->time == ts(t), "state vanished after the update");
    PBT_REQUIRE(scale(*after) > 0, "scale is " << scale(*after) << " after an update");
    PBT_REQUIRE(scale(*r.m->upd.back()) > 0, "published scale is " << scale(*r.m->upd.back()));
    double margin = 1e-3 * (1 + std::fabs(e.d[l])) + 2 * e.slack[l];
    if (std::fabs(lnew) < margin) { c.label("on-the-edge"); return; }
    if (lnew < 0) {
      neg = true; c.label("driven-negative");
      PBT_REQUIRE(scale(*after) <= 0.5, "an update to scale " << lnew << " was reset to " << scale(*after) << ", not to a small value");
      State cmp; copyvals(cmp, *after); setScale(cmp, lnew); cmp.P = after->P;
      check(c, before, cmp, e, "update with protected scale", 2e-4, 2e-3);
    } else { pos = true; c.label("stays-positive"); check(c, before, *after, e, "update", 2e-4, 2e-3); }
    V3 am = gvec(c, 2) + V3(0, 0, 9.8), wm = gvec(c, 0.5);
    int64_t t2 = t + 3000000 + c.i(0, 5000000);
    imus.push_back(Imu{t2, am, wm});
    r.imu(t2, am, wm);
    StatePtr next = r.at(t2);
    PBT_REQUIRE(scale(*next) == scale(*after), "prediction changed the scale from " << scale(*after) << " to " << scale(*next));
  } while (c.more(n, 3, 8));
  c.nontrivial(neg && pos);
}
PBT_TARGET(history, "delayed, early and out-of-order measurements of all sensors and of a harness sensor, with values implying any scale, and scale initialisation by service; every buffered and published scale is positive at all times; non-trivial: at least one reset of the scale") {
  world().reset();
  gen_core_params(c);
  sens::params();
  bool gate = c.chance(20);
  { ros::NodeHandle nh("~/pose_sensor"); nh.setParam("pose_absolute_measurements", !c.chance(20)); nh.setParam("enable_mah_outlier_rejection", gate); nh.setParam("mah_threshold", c.logu(1, 50)); }
  Rig r;
  auto cfg = r.cfg();
  cfg.pose_fixed_scale = c.chance(5);
  cfg.pose_fixed_p_ic = c.boolean(); cfg.pose_fixed_q_ic = c.boolean(); cfg.pose_fixed_p_wv = c.boolean(); cfg.pose_fixed_q_wv = c.boolean();
  sens::Sigma sg; sg.p = c.logu(0.05, 0.5); sg.q = c.logu(0.05, 0.3); sg.pos = sg.press = c.logu(0.05, 0.5);
  sens::configure(cfg, sg, c.boolean() ? 0 : 0.02); r.setCfg(cfg);
  int64_t t0 = 50000000000ll + c.i(0, 1000000000);
  State init; gen_init(c, init);
  std::string how = "published";
  double worst = 1e9; int resets = 0; const char* where = "";
  auto look = [&](const State& s, const char* w) { double l = scale(s); if (!(l > 0) && !(worst <= 0)) { worst = l; where = w; } };
  r.m->hook = [&](char k, const State& s) { look(s, k == 'u' ? "published after an update" : k == 'p' ? "published after a prediction" : "published at initialisation"); if (k == 'u' && scale(s) == 0.1) ++resets; };
  if (c.chance(85)) init_from(r.core(), t0, init); else r.init(t0, c.logu(0.05, 3));
  int n = 10 + c.i(0, 40);
  std::vector<Imu> imus = gen_imus(c, t0, init.a_m, init.w_m, n, 3000000, 10000000);
  std::vector<int64_t> times; times.push_back(t0);
  uint32_t seq = 1;
  auto sweep = [&]() {
    for (int64_t t : times) { StatePtr s = r.at(t); if (s->time != msf_core::constants::INVALID_TIME) look(*s, "in the history"); }
    PBT_REQUIRE(worst > 0, "scale " << worst << " " << where);
    c.evals(1);
  };
  for (int k = 1; k <= n; ++k) {
    r.imu(imus[k].t, imus[k].a, imus[k].w); times.push_back(imus[k].t);
    if (k < 4) continue;
    for (int rep = 0; rep < 2; ++rep) {
      if (!c.chance(35)) continue;
      int64_t st = imus[k].t - c.i(0, 60000000) + (c.chance(15) ? 15000000 : 0);
      State truth; copyvals(truth, init);
      EVec d = EVec::Zero(); for (int i = 0; i < NE; ++i) d[i] = c.sym(0.3);
      boxplus(truth, d);
      setScale(truth, c.sym(5));
      if (c.chance(80)) {
        sens::Kind kd = c.chance(60) ? sens::POSE : c.pick(sens::kinds());
        sens::send(kd, st, sens::hfun(kd)(truth), seq++);
        times.push_back(st); times.push_back(st - 20000000);
        c.note() << "sensor " << kd << " at +" << (st - t0) / 1000 << "us implying scale " << scale(truth) << ", newest reading +" << (imus[k].t - t0) / 1000 << "us\n";
      } else {
        MeasPtr m(new Meas(20, false, 100)); m->time = ts(st); m->kind = c.i(0, 3); m->sigma = c.logu(0.05, 1);
        m->z = (m->kind == 1 ? G<D::v>(init) : G<D::p>(init)) + gvec(c, 4); m->z2 = G<D::v>(init) + gvec(c, 4); m->zq = G<D::q>(init) * expq(gvec(c, 0.5));
        r.core().AddMeasurement(m); times.push_back(st);
        c.note() << "harness sensor at +" << (st - t0) / 1000 << "us\n";
      }
      sweep();
    }
  }
  sweep();
  if (resets) c.label("reset");
  c.nontrivial(resets > 0);
}
