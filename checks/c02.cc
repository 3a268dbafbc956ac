#include <geometry_msgs/PoseStamped.h>
#include <geometry_msgs/TransformStamped.h>
#include <nav_msgs/Odometry.h>
#include "sensors.h"
using namespace model;
using namespace hist;
// The same messages on the same topics, in two orders of arrival.
namespace {
struct M { sens::Kind k; int64_t t, tm; Z z; uint32_t seq; int how; int due, arrive[2], tie[2]; };
int post(const M& m, double sp, double sq) {
  if (m.k == sens::POSE && m.how) {
    geometry_msgs::Pose p; p.position.x = m.z.v[0]; p.position.y = m.z.v[1]; p.position.z = m.z.v[2];
    p.orientation.w = m.z.q[0].w(); p.orientation.x = m.z.q[0].x(); p.orientation.y = m.z.q[0].y(); p.orientation.z = m.z.q[0].z();
    std_msgs::Header h; h.stamp = rt(m.t); h.seq = m.seq;
    if (m.how == 1) { geometry_msgs::PoseStamped x; x.header = h; x.pose = p; return world().deliver("/msf_updates/pose_input", x); }
    if (m.how == 2) { nav_msgs::Odometry x; x.header = h; x.pose.pose = p; return world().deliver("/msf_updates/odometry_input", x); }
#ifndef HAS_POSITION  // the position sensor listens to the transforms as well
    geometry_msgs::TransformStamped x; x.header = h; x.transform.translation.x = p.position.x; x.transform.translation.y = p.position.y; x.transform.translation.z = p.position.z; x.transform.rotation = p.orientation;
    return world().deliver("/msf_updates/transform_input", x);
#endif
  }
  return sens::send(m.k, m.t, m.z, m.seq);
}
}  // namespace
PBT_TARGET(orders, "one set of IMU messages and up to 12 stamped messages of all sensors with their delays, delivered to two instances in two orders: late, overtaking each other, ahead of the IMU; non-trivial: at least two sensor messages whose effective times are in the opposite order of their arrival in one of the two") {
  world().reset(); gen_core_params(c); sens::params();
  StatePtr init(new State);
  sens::gen_full_state(c, *init);
  init->Set<D::v>(gvec(c, 1));
#ifdef APP_SPHERICAL
  init->Set<D::p>(V3(c.real(3, 10), c.real(3, 10), c.real(3, 10)));
#endif
  init->P = gcov(c, 1e-3, 0.3);
  int64_t t0 = 100000000000ll + static_cast<int64_t>(c.u64(1000000000));
  init->time = ts(t0);
  init->a_m = G<D::q>(init).conjugate() * V3(0, 0, 9.81) + G<D::b_a>(init); init->w_m = G<D::b_w>(init);
  int n = 6 + c.i(0, 40);
  std::vector<Imu> imus; imus.push_back(Imu{t0, init->a_m, init->w_m});
  for (int k = 0; k < n; ++k) imus.push_back(Imu{imus.back().t + 4000000 + c.i(0, 6000000), init->a_m + gvec(c, 1), init->w_m + gvec(c, 0.3)});
  sens::Sigma sg; sg.p = c.real(0.05, 0.5); sg.q = c.real(0.05, 0.3); sg.pos = c.real(0.05, 0.5); sg.press = c.real(0.05, 0.5); sg.ang = c.real(0.05, 0.2); sg.dist = c.real(0.05, 0.5);
  double d1 = c.oneof({0.0, 0.02, 0.004, -0.01, 0.05}), d2 = c.oneof({0.0, 0.02, 0.007, -0.005, 0.1});
  std::vector<M> ms; int cnt = 0;
  bool shared = false, future = false, late = false, crossed = false, kinds2 = false;
  std::vector<sens::Kind> ks = sens::kinds();
  auto node = [&](int64_t x) { for (int q = 1; q <= n; ++q) if (std::llabs(imus[q].t - x) < 940000) return q; return -1; };
  while (c.more(cnt, 6, 12)) {
    M m; m.k = c.pick(ks); m.how = c.i(0, 3); m.seq = 100 + cnt;
    int k = c.i(1, n);
    int64_t a = imus[k - 1].t, b = imus[k].t;
    m.tm = c.chance(35) ? (c.boolean() ? a : b) + c.i(-900000, 900000) : a + static_cast<int64_t>(c.u64(static_cast<uint64_t>(b - a)));
    double d = m.k == sens::POSE ? d1 : m.k == sens::POS ? d2 : m.k == sens::PRESS ? 0 : m.k == sens::ANGLE ? d1 : d2;
    m.t = m.tm + static_cast<int64_t>(std::llround(d * 1e9));
    if (m.tm <= imus[0].t + 1100000 || m.tm >= imus[n].t) continue;
    bool ok = true;
    for (auto& o : ms) if (std::llabs(o.tm - m.tm) < 2500000) { if (std::llabs(o.tm - m.tm) < 3000 || node(o.tm) < 0 || node(o.tm) != node(m.tm)) ok = false; else shared = true; }
    for (auto& im : imus) { int64_t x = std::llabs(im.t - m.tm); if ((x > 950000 && x < 1050000) || x < 2000) ok = false; }
    if (!ok) continue;
    State x; copyvals(x, *init); EVec e; for (int i = 0; i < NE; ++i) e[i] = c.sym(0.1); boxplus(x, e);
    x.Set<D::p>(V3(G<D::p>(x) + G<D::v>(init) * ((m.tm - t0) * 1e-9)));
    m.z = sens::hfun(m.k)(x);
    int kk = 1; while (imus[kk].t < m.tm) ++kk;
    m.due = std::max(4, kk);
    for (int o = 0; o < 2; ++o) {
      int w = c.i(0, 99);
      m.arrive[o] = std::min(n, std::max(4, w < 30 ? m.due : w < 50 ? kk - c.i(1, 5) : w < 85 ? m.due + c.i(0, 10) : m.due + c.i(0, n)));
      m.tie[o] = c.i(0, 1000);
      if (m.arrive[o] < kk) future = true; if (m.arrive[o] > m.due + 1) late = true;
    }
    ms.push_back(m);
  }
  for (auto& m : ms) for (auto& o : ms) { for (int i = 0; i < 2; ++i) if (m.tm < o.tm && std::make_pair(m.arrive[i], m.tie[i]) > std::make_pair(o.arrive[i], o.tie[i])) crossed = true; if (m.k != o.k) kinds2 = true; }
  c.note() << n << " samples, delays " << d1 << " " << d2 << ", messages (sensor: effective ms after start, arrivals after sample):";
  for (auto& m : ms) c.note() << " (" << m.k << ": " << (m.tm - t0) / 1e6 << ", " << m.arrive[0] << "/" << m.arrive[1] << ")";
  c.note() << "\nsamples at ms:"; for (auto& im : imus) c.note() << ' ' << (im.t - t0) / 1e6; c.note() << "\n";
  if (shared) c.label("same-state"); if (future) c.label("ahead-of-imu"); if (late) c.label("late"); if (crossed) c.label("overtaking"); if (kinds2) c.label("several-sensors");
  for (size_t k = 0; k < 2 * ms.size() + 8; ++k) imus.push_back(Imu{imus.back().t + 5000000, imus[n].a, imus[n].w});
  std::vector<StatePtr> got[2]; StatePtr published[2];
  for (int o = 0; o < 2; ++o) {
    Rig r;
    r.m->fuzzy = 1e9;
    auto g = r.cfg(); sens::configure(g, sg, 0);
#ifdef HAS_POSE
    g.pose_delay = d1;
#endif
#ifdef HAS_POSITION
    g.position_delay = d2;
#endif
#ifdef APP_SPHERICAL
    g.angle_delay = d1; g.distance_delay = d2;
#endif
    r.setCfg(g);
    init_from(r.core(), t0, *init);
    std::stable_sort(ms.begin(), ms.end(), [&](const M& a, const M& b) { return std::make_pair(a.arrive[o], a.tie[o]) < std::make_pair(b.arrive[o], b.tie[o]); });
    size_t next = 0;
    for (size_t k = 1; k < imus.size(); ++k) {
      r.imu(imus[k].t, imus[k].a, imus[k].w);
      for (; next < ms.size() && ms[next].arrive[o] <= static_cast<int>(k); ++next) PBT_REQUIRE(post(ms[next], sg.p, sg.q) >= 1, "nobody listens to the topic of sensor " << ms[next].k);
    }
    for (auto& im : imus) { StatePtr s = r.at(im.t); PBT_REQUIRE(s->time == ts(im.t), "no state at +" << (im.t - t0) / 1e6 << " ms"); StatePtr y(new State); copyvals(*y, *s); got[o].push_back(y); }
    StatePtr l = r.m->prop.back(); published[o].reset(new State); copyvals(*published[o], *l);
    PBT_REQUIRE(ms.empty() || r.m->upd.size() > 0, "no message had an effect");
  }
  for (size_t i = 0; i < got[0].size(); ++i) {
    double mag = 1; for (double x : values(*got[0][i])) mag = std::max(mag, std::fabs(x));
    double d = statediff(*got[0][i], *got[1][i]), p = covdiff(got[0][i]->P, got[1][i]->P);
    PBT_REQUIRE(d < 1e-6 * mag, "the state at +" << (imus[i].t - t0) / 1e6 << " ms differs by " << d << " between the two orders of arrival\n  " << dump(*got[0][i]) << "\n  " << dump(*got[1][i]));
    PBT_REQUIRE(p < 1e-5, "the covariance at +" << (imus[i].t - t0) / 1e6 << " ms differs by " << p << " between the two orders of arrival");
  }
  double mag = 1; for (double x : values(*published[0])) mag = std::max(mag, std::fabs(x));
  PBT_REQUIRE(statediff(*published[0], *published[1]) < 1e-6 * mag, "the last published state differs between the two orders of arrival");
  c.evals(got[0].size());
  c.nontrivial(crossed && ms.size() >= 2);
}
