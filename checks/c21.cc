#include "sensors.h"
using namespace hist;
// External propagation: a model holding the history as a list of nodes, fed
// with the same external states, readings and measurements.
namespace {
typedef sensor_fusion_comm::ExtEkf Ekf;
struct N { StatePtr s; std::vector<MeasPtr> ms; };
struct Model {
  Core* core; std::vector<N> h; bool started = false, alive = true;
  StatePtr last() { return h.back().s; }
  static StatePtr fresh(double t, const V3& a, const V3& w) { StatePtr s(new State); s->time = t; s->a_m = a; s->w_m = w; return s; }
  static void aux(State& d, const State& from) {  // biases and auxiliary states
    V3 p = G<D::p>(d), v = G<D::v>(d); Q q = G<D::q>(d);
    d.statevars = from.statevars;
    d.Set<D::p>(p); d.Set<D::v>(v); d.Set<D::q>(q);
  }
  void propagate(size_t k) { core->PropagateState(h[k - 1].s, h[k].s); core->PredictProcessCovariance(h[k - 1].s, h[k].s); }
  // returns whether the state is used
  bool external(double t, V3 a, const V3& w, bool use, const V3& p, const V3& v, const Q& q) {
    StatePtr l = last();
    if (a.norm() > 50) a = l->a_m;
    if (!started && std::fabs(t - l->time) > 5) { l->time = t; return false; }
    if (started && t <= l->time) { if (t - l->time < -0.01) alive = false; return false; }
    StatePtr s = fresh(t, a, w);
    if (use) { s->Set<D::p>(p); s->Set<D::v>(v); s->Set<D::q>(q); aux(*s, *l); }
    else core->PropagateState(l, s);
    if (!started) { s->P = l->P; h.clear(); started = true; }
    N n; n.s = s; h.push_back(n);
    if (h.size() > 1) core->PredictProcessCovariance(h[h.size() - 2].s, h[h.size() - 1].s);
    return true;
  }
  void imu(double t, V3 a, const V3& w) {
    if (a.norm() > 50) a = last()->a_m;
    N n; n.s = fresh(t, a, w); h.push_back(n);
    propagate(h.size() - 1);
  }
  void measure(const MeasPtr& m) {
    size_t k = 0;
    for (size_t i = 1; i < h.size(); ++i) if (std::fabs(h[i].s->time - m->time) < std::fabs(h[k].s->time - m->time)) k = i;
    if (std::fabs(h[k].s->time - m->time) > 0.001) {
      size_t hi = 1; while (h[hi].s->time < m->time) ++hi;
      const State &x = *h[hi - 1].s, &y = *h[hi].s;
      double f = (m->time - x.time) / (y.time - x.time);
      N n; n.s = fresh(m->time, x.a_m + (y.a_m - x.a_m) * f, x.w_m + (y.w_m - x.w_m) * f);
      h.insert(h.begin() + hi, n);
      propagate(hi);
      k = hi;
    }
    h[k].ms.push_back(m);
    ref_update(*h[k].s, *m);
    for (size_t j = k + 1; j < h.size(); ++j) { propagate(j); for (auto& x : h[j].ms) ref_update(*h[j].s, *x); }
  }
};
Ekf msg(int64_t t, const V3& a, const V3& w, const V3& p, const V3& v, const Q& q, int flag) {
  Ekf m; m.header.stamp = rt(t);
  m.linear_acceleration.x = a[0]; m.linear_acceleration.y = a[1]; m.linear_acceleration.z = a[2];
  m.angular_velocity.x = w[0]; m.angular_velocity.y = w[1]; m.angular_velocity.z = w[2];
  m.state.assign(16, 0.f);
  for (int i = 0; i < 3; ++i) { m.state[i] = p[i]; m.state[3 + i] = v[i]; }
  m.state[6] = q.w(); m.state[7] = q.x(); m.state[8] = q.y(); m.state[9] = q.z();
  m.flag = flag;
  return m;
}
}  // namespace
PBT_TARGET(external, "streams of external states (own states, ignored states, undefined states, acceleration spikes, gaps and jumps before the first one, stale ones), readings in between and delayed measurements; against a model of the history; non-trivial: at least five external states are taken over and at least one measurement is applied") {
  world().reset();
  gen_core_params(c);
  bool playback = c.chance(10);
  { ros::NodeHandle nh("~core"); nh.setParam("data_playback", playback); }
  Rig refr;
  Rig r;
  StatePtr init(new State);
  sens::gen_full_state(c, *init);
  init->P = gcov(c, 1e-3, 0.3);
#ifdef HAS_POSE  // keep scale and drift attitude out of the updates: their protections are not part of this
  { int idx = 0; visit(*init, [&](auto& v, int i, int) { int k = v.sizeInCorrection_; if (i == D::L || i == D::q_wv) for (int a = idx; a < idx + k; ++a) for (int b = 0; b < NE; ++b) if (a != b) init->P(a, b) = init->P(b, a) = 0; idx += k; }); }
#endif
  init->a_m = V3(0, 0, 9.8) + gvec(c, 1); init->w_m = gvec(c, 0.2);
  int64_t t0 = 2000000000000ll + static_cast<int64_t>(c.u64(1000000000));
  init->time = ts(t0);
  init_from(refr.core(), t0, *init);
  init_from(r.core(), t0, *init);
  Model m; m.core = &refr.core();
  { N n; n.s.reset(new State); copyvals(*n.s, *init); n.s->time = ts(t0); m.h.push_back(n); }
  auto compare = [&](const char* what, bool all) {
    for (size_t i = all ? 0 : m.h.size() - 1; i < m.h.size(); ++i) {
      StatePtr s = r.at(std::llround(m.h[i].s->time * 1e9));
      PBT_REQUIRE(s->time != msf_core::constants::INVALID_TIME, "after " << what << " no state is held at " << m.h[i].s->time);
      double ds = statediff(*s, *m.h[i].s);
      PBT_REQUIRE(ds < 2e-6, "after " << what << " the state at " << s->time << " differs by " << ds << "\n  got  " << dump(*s) << "\n  want " << dump(*m.h[i].s));
      PBT_REQUIRE((s->a_m - m.h[i].s->a_m).norm() < 1e-9 && (s->w_m - m.h[i].s->w_m).norm() < 1e-9, "after " << what << " the state at " << s->time << " does not carry the expected readings");
      double dp = covdiff(s->P, m.h[i].s->P);
      PBT_REQUIRE(dp < 1e-5, "after " << what << " the covariance at " << s->time << " differs by " << dp);
      c.evals(1);
    }
  };
  auto gone = [&](const char* what, int64_t t) { PBT_REQUIRE(r.at(t)->time == msf_core::constants::INVALID_TIME, "after " << what << " the state at " << ts(t) << " is still held"); };
  int n = 6 + c.i(0, 30);
  Ekf ext; bool have = false;
  int64_t t = t0; int taken = 0, applied = 0, cnt = 0;
  V3 vel = G<D::v>(init);
  std::vector<int64_t> stamps;
  bool mixed = c.chance(30), gaps = c.chance(50), back = c.chance(30);
  for (int k = 0; k < n && m.alive; ++k) {
    V3 a = gvec(c, 3) + V3(0, 0, 9.8), w = gvec(c, 1);
    if (c.chance(6)) a = gvec(c, 200);
    if (std::fabs(a.norm() - 50) < 0.1) a *= 0.5;
    int64_t dt = 4000000 + c.i(0, 12000000);
    if (!m.started && gaps && c.chance(60)) dt = c.pick(std::vector<int64_t>{100000000, 1000000000, 4900000000ll, 5100000000ll, 60000000000ll});
    if (!m.started && back && c.chance(50)) dt = -c.pick(std::vector<int64_t>{1000000, 1000000000, 4900000000ll, 5100000000ll, 50000000000ll});
    if (m.started && c.chance(3)) dt = c.pick(std::vector<int64_t>{60000000, 90000000});
    if (m.started && c.chance(3)) dt = c.pick(std::vector<int64_t>{0, -1000000, -9000000, -20000000, -10000000000ll});
    int64_t tn = t + dt;
      if (m.started && mixed && dt > 0 && c.chance(30)) {
      r.imu(tn, a, w); m.imu(ts(tn), a, w); t = tn;
      c.note() << "reading at " << tn << "\n"; compare("a reading", false); stamps.push_back(tn);
    } else {
      V3 p = G<D::p>(m.last()) + gvec(c, 0.5), v = G<D::v>(m.last()) + gvec(c, 0.5);
      Q q = G<D::q>(m.last()) * expq(gvec(c, 0.2)); q.normalize();
      if (c.boolean()) q.coeffs() = -q.coeffs();
      int kind = c.chance(80) ? 0 : c.i(1, 3);   // own state, ignore, undefined value, other flag
      if (dt < 0 && !m.started) kind = 0;
      Ekf x = msg(tn, a, w, p, v, q, kind == 1 ? Ekf::ignore_state : kind == 3 ? c.oneof<int>({2, 3, 7}) : Ekf::current_state);
      if (kind == 2) x.state[c.i(0, 9)] = c.boolean() ? NAN : INFINITY;
      bool use = (kind == 0) && !playback;
      V3 fp(x.state[0], x.state[1], x.state[2]), fv(x.state[3], x.state[4], x.state[5]);
      Q fq(x.state[6], x.state[7], x.state[8], x.state[9]); fq.normalize();
      bool was = m.started; int64_t before = std::llround(m.last()->time * 1e9);
      c.note() << "external state kind " << kind << " at " << tn << " (" << dt / 1000 << " us later)\n";
      world().deliver("/msf_core/hl_state_input", x);
      ext = x; have = kind != 2;
      if (m.external(ts(tn), a, w, use, fp, fv, fq)) { t = tn; stamps.push_back(tn); if (use) ++taken; if (!was && tn != before) gone("the first external state", before); }
      else if (!m.started) { t = tn; if (before != tn) gone("a gap before the first external state", before); c.label("gap"); }
      else if (m.alive) c.label("stale");
      if (!m.alive) break;
      compare("an external state", false);
    }
    if (m.started && m.h.size() >= 3 && c.chance(35)) {
      int64_t newest = t, oldest = std::llround(m.h.front().s->time * 1e9);
      int64_t tm = newest - c.i(0, 60000000);
      if (c.chance(25)) tm = c.pick(stamps) + c.i(-900000, 900000);
      bool ok = tm > oldest && tm <= newest;
      double near = 1e9; size_t hi = 1;
      for (auto& x : m.h) { double d = std::fabs(x.s->time - ts(tm)); near = std::min(near, d); for (auto& y : x.ms) if (std::fabs(y->time - ts(tm)) < 0.0025) ok = false; }
      if ((near > 0.00095 && near < 0.00105) || near > 0.095) ok = false;
      if (ok) {
        MeasPtr z(new Meas(cnt % 3, false, 100));
        z->time = ts(tm); z->kind = c.i(0, 3); z->sigma = c.logu(0.03, 1);
        z->z = (z->kind == 1 ? G<D::v>(m.last()) : G<D::p>(m.last())) + gvec(c, 1); z->z2 = G<D::v>(m.last()) + gvec(c, 1);
        z->zq = G<D::q>(m.last()) * expq(gvec(c, 0.4));
        ++cnt;
        MeasPtr z2(new Meas(*z));
        c.note() << "measurement kind " << z->kind << " at " << tm << "\n";
        size_t np = world().pub.size();
        r.core().AddMeasurement(z); m.measure(z2);
        if (have) {  // the correction for the external propagator
          boost::shared_ptr<const Ekf> k16;
          for (size_t i = np; i < world().pub.size(); ++i) if (world().pub[i].topic == "/msf_core/correction") k16 = boost::static_pointer_cast<const Ekf>(world().pub[i].msg);
          PBT_REQUIRE(k16, "no correction was sent after a measurement");
          if (playback) { PBT_REQUIRE(k16->flag != int(Ekf::state_correction), "a correction was sent during playback"); }
          else {
            PBT_REQUIRE(k16->flag == int(Ekf::state_correction) && k16->state.size() == 16, "malformed correction");
            V3 ep = G<D::p>(m.last()), ev = G<D::v>(m.last()); Q eq = G<D::q>(m.last());
            for (int i = 0; i < 3; ++i) {
              PBT_REQUIRE(std::fabs(double(ext.state[i]) + k16->state[i] - ep[i]) < 1e-5 * (1 + std::fabs(ep[i])), "the correction does not lead from the external position to the estimate (component " << i << ")");
              PBT_REQUIRE(std::fabs(double(ext.state[3 + i]) + k16->state[3 + i] - ev[i]) < 1e-5 * (1 + std::fabs(ev[i])), "the correction does not lead from the external velocity to the estimate (component " << i << ")");
            }
            Q h(ext.state[6], ext.state[7], ext.state[8], ext.state[9]), d(k16->state[6], k16->state[7], k16->state[8], k16->state[9]);
            h.normalize(); d.normalize();
            PBT_REQUIRE(logq((h * d).conjugate() * eq).norm() < 1e-5, "the correction does not lead from the external attitude to the estimate");
          }
        }
        ++applied;
        compare("a measurement", false);
      }
    }
  }
  if (!m.alive) {
    // a state from far in the past stops the filter until it is initialised again
    c.label("reset");
    size_t np = r.m->prop.size(), nu = r.m->upd.size();
    world().deliver("/msf_core/hl_state_input", msg(t + 20000000, V3(0, 0, 9.8), V3(0, 0, 0), V3(0, 0, 0), V3(0, 0, 0), Q::Identity(), Ekf::current_state));
    PBT_REQUIRE(r.m->prop.size() == np && r.m->upd.size() == nu, "the filter continued after an external state from the past");
    return;
  }
  compare("the run", true);
  if (taken >= 5 && applied >= 1) c.nontrivial();
}
