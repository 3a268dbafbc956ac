#include <geometry_msgs/PoseStamped.h>
#include <geometry_msgs/TransformStamped.h>
#include "decode.h"
using namespace model;
using namespace hist;
using decode::Event;
// A run with unusable measurements injected against the same run without them.
namespace {
void fillpose(geometry_msgs::Pose& o, const Z& z) {
  o.position.x = z.v[0]; o.position.y = z.v[1]; o.position.z = z.v[2];
  o.orientation.w = z.q[0].w(); o.orientation.x = z.q[0].x(); o.orientation.y = z.q[0].y(); o.orientation.z = z.q[0].z();
}
// A message of this sensor with covariance where the topic offers one.
void deliver(sens::Kind k, int64_t t, const Z& z, uint32_t seq, double s) {
  if (k == sens::POSE) {
    geometry_msgs::PoseWithCovarianceStamped m;
    m.header.stamp = rt(t); m.header.seq = seq; fillpose(m.pose.pose, z);
    for (int i = 0; i < 6; ++i) m.pose.covariance[7 * i] = s * s;
    world().deliver("/msf_updates/pose_with_covariance_input", m);
    return;
  }
  sens::send(k, t, z, seq);
}
// Topics whose messages carry no covariance.
void nocov(sens::Kind k, int64_t t, const Z& z, uint32_t seq, int variant) {
  if (k == sens::POSE && variant == 0) { geometry_msgs::PoseStamped m; m.header.stamp = rt(t); m.header.seq = seq; fillpose(m.pose, z); world().deliver("/msf_updates/pose_input", m); return; }
  if (k == sens::ANGLE || k == sens::DIST || (k == sens::POS && variant == 0)) { sens::send(k, t, z, seq); return; }
  geometry_msgs::TransformStamped m; m.header.stamp = rt(t); m.header.seq = seq * 5;
  m.transform.translation.x = z.v[0]; m.transform.translation.y = z.v[1]; m.transform.translation.z = z.v[2];
  Q q = k == sens::POSE ? z.q[0] : Q::Identity();
  m.transform.rotation.w = q.w(); m.transform.rotation.x = q.x(); m.transform.rotation.y = q.y(); m.transform.rotation.z = q.z();
  world().deliver("/msf_updates/transform_input", m);
}
}  // namespace
PBT_TARGET(injected, "runs with gaps in the IMU stream, delayed measurements over the topics and from a harness sensor, and injected unusable ones: before initialisation or prediction, older than the history, at the stamp of a held measurement, without the required covariance, inside a gap; against the run without them; non-trivial: at least one unusable measurement is injected after prediction started and at least one usable one arrives after it") {
  world().reset();
  gen_core_params(c);
  sens::params();
  bool fixedcov = c.chance(65);
  { ros::NodeHandle a("~/pose_sensor"), b("~/position_sensor"), d("~/spherical_position_sensor"); a.setParam("pose_use_fixed_covariance", fixedcov); d.setParam("use_fixed_covariance", fixedcov); b.setParam("position_use_fixed_covariance", fixedcov); }
  State init; sens::gen_full_state(c, init);
  init.P = gcov(c, 1e-3, 0.2); init.a_m = V3(0, 0, 9.8); init.w_m.setZero();
  int64_t t0 = 500000000000ll + c.i(0, 1000000000);
  int n = 8 + c.i(0, 40);
  std::vector<Imu> imus = gen_imus(c, t0, init.a_m, init.w_m, n, 4000000, 10000000);
  std::vector<std::pair<int64_t, int64_t>> gaps; std::vector<int> gapk;
  for (int k = 5; k < n; ++k) if (c.chance(5)) {
    int64_t g = c.pick(std::vector<int64_t>{215000000, 250000000, 400000000, 1000000000, 3000000000ll});
    for (int j = k; j <= n; ++j) imus[j].t += g;
    for (int j = k; j <= n && j < k + 2; ++j) { imus[j].a = V3(0, 0, 9.8); imus[j].w *= 0.1; }
    imus[k - 1].a = V3(0, 0, 9.8); imus[k - 1].w *= 0.1;
    gaps.push_back({imus[k - 1].t, imus[k].t}); gapk.push_back(k);
  }
  std::vector<int64_t> nodes; for (auto& u : imus) nodes.push_back(u.t);
  decode::Times times; times.nodes = &nodes;
  std::vector<Event> ev;
  uint32_t seq = 1; int cnt = 0, injected = 0, after = 0;
  struct Held { int64_t t; bool topic; sens::Kind k; int sensor; };
  std::vector<Held> held;
  auto value = [&](sens::Kind k) { State x; copyvals(x, init); EVec d; for (int i = 0; i < NE; ++i) d[i] = c.sym(0.2); boxplus(x, d); return sens::hfun(k)(x); };
  auto topic_ok = [&](sens::Kind k) { return fixedcov || k == sens::POSE || k == sens::PRESS; };
  // what a harness measurement looks like
  struct H { int64_t t; int kind, sensor; double sigma; V3 z, z2; Q zq; };
  auto genH = [&](int64_t t) { H h; h.t = t; h.kind = c.i(0, 3); h.sensor = 20 + c.i(0, 1); h.sigma = c.logu(0.03, 1); h.z = (h.kind == 1 ? G<D::v>(init) : G<D::p>(init)) + gvec(c, 1); h.z2 = G<D::v>(init) + gvec(c, 1); h.zq = G<D::q>(init) * expq(gvec(c, 0.4)); return h; };
  auto sendH = [](Rig& r, const H& h) { MeasPtr m(new Meas(h.sensor, false, 100)); m->time = ts(h.t); m->kind = h.kind; m->sigma = h.sigma; m->z = h.z; m->z2 = h.z2; m->zq = h.zq; r.core().AddMeasurement(m); };
  auto any = [&](int64_t t) -> std::function<void(Rig&)> {   // any measurement at t
    if (c.boolean()) { H h = genH(t); return [=](Rig& r) { sendH(r, h); }; }
    sens::Kind k = c.pick(sens::kinds()); Z z = value(k); uint32_t s = seq++;
    return [=](Rig&) { deliver(k, t, z, s, 0.1); };
  };
  auto inject = [&](const char* what, std::function<void(Rig&)> f, int64_t t) {
    Event e; e.imu = false; e.full = f; ev.push_back(e);
    c.note() << "  unusable (" << what << ") at " << t << "\n"; c.label(what);
  };
  // before initialisation
  for (int k = c.i(0, 2); k > 0; --k) { int64_t t = t0 + c.i(-50, 50) * 1000000ll; inject("not initialised", any(t), t); }
  { Event e; e.imu = false; e.full = e.canon = [&](Rig& r) { init_from(r.core(), t0, init); }; ev.push_back(e); }
  for (int k = 1; k <= n; ++k) {
    if (k <= 3 && c.chance(20)) { int64_t t = t0 + c.i(-20, 60) * 1000000ll; inject("no prediction yet", any(t), t); }
    Event e; e.imu = true; e.u = imus[k]; ev.push_back(e);
    c.note() << "reading at " << imus[k].t << "\n";
    if (k < 5) continue;
    int64_t now = imus[k].t;
    for (int rep = 0; rep < 2; ++rep) {
      if (!c.chance(40)) continue;
      bool bad = c.chance(45);
      if (bad) {
        int type = c.i(0, 4);
        if (type == 0) { int64_t t = t0 - c.pick(std::vector<int64_t>{1000000, 50000000, 99000000, 120000000, 1000000000, 100000000000ll, 499000000000ll}); inject("too old", any(t), t); ++injected; }
        else if ((type == 1 || type == 2) && !held.empty()) {
          Held h = c.pick(held);
          if (h.topic) { Z z = value(h.k); uint32_t s = seq++; inject("same stamp", [=](Rig&) { deliver(h.k, h.t, z, s, 0.1); }, h.t); }
          else { H x = genH(h.t); x.sensor = h.sensor; inject("same stamp", [=](Rig& r) { sendH(r, x); }, h.t); }
          ++injected;
        } else if (type == 3 && !fixedcov) {
          std::vector<sens::Kind> ks; for (auto kd : sens::kinds()) if (kd != sens::PRESS) ks.push_back(kd);
          if (!ks.empty()) {
            sens::Kind kd = c.pick(ks); Z z = value(kd); uint32_t s = seq++; int variant = c.i(0, 1); int64_t t = now - c.i(0, 40000000);
            inject("no covariance", [=](Rig&) { nocov(kd, t, z, s, variant); }, t); ++injected;
          }
        } else if (type == 4 && !gaps.empty()) {
          size_t g = c.i(0, gaps.size() - 1);
          if (gapk[g] <= k) {
            int64_t lo = gaps[g].first + 102000000, hi = gaps[g].second - 102000000;
            if (hi > lo) {
              int64_t t = lo + c.u64(hi - lo + 1);
              // a usable measurement inside the gap puts a state there
              bool clear = true; for (auto& h : held) clear = clear && std::llabs(h.t - t) > 102000000;
              if (clear) { inject("inside a gap", any(t), t); ++injected; }
            }
          }
        }
        continue;
      }
      // usable
      int64_t st = now - (c.chance(70) ? c.i(0, 40000000) : c.i(0, 1000000000));
      if (!gaps.empty() && c.chance(30)) { size_t g = c.i(0, gaps.size() - 1); st = (c.boolean() ? gaps[g].first - c.i(0, 40000000) : c.boolean() ? gaps[g].first + c.i(0, 95000000) : gaps[g].second - c.i(0, 95000000)); }
      if (st > now || st <= imus[1].t || !times.ok(st)) continue;
      int64_t near = INT64_MAX; for (auto& x : nodes) near = std::min<int64_t>(near, std::llabs(x - st));
      if (near > 95000000) continue;
      times.taken.push_back(st);
      Event e2; e2.imu = false; Held hd; hd.t = st;
      sens::Kind kd = c.pick(sens::kinds());
      if (topic_ok(kd) && c.chance(60)) {
        Z z = value(kd); uint32_t s = seq++;
        e2.full = e2.canon = [=](Rig&) { deliver(kd, st, z, s, 0.1); };
        hd.topic = true; hd.k = kd;
      } else {
        H h = genH(st);
        e2.full = e2.canon = [=](Rig& r) { sendH(r, h); };
        hd.topic = false; hd.sensor = h.sensor;
      }
      ev.push_back(e2); held.push_back(hd); ++cnt;
      if (injected) ++after;
      c.note() << "usable measurement at " << st << "\n";
    }
  }
  decode::Trace full, canon;
  sens::Sigma sig; sig.p = sig.q = sig.pos = sig.press = sig.ang = sig.dist = 0.1;
  { Rig r; auto g = r.cfg(); sens::configure(g, sig); r.setCfg(g); full = decode::play(r, ev, false); }
  world().pub.clear(); world().tfs.clear();
  { Rig r; auto g = r.cfg(); sens::configure(g, sig); r.setCfg(g); canon = decode::play(r, ev, true); }
  decode::same(c, full, canon, 1e-9, 1e-9);
  if (injected && after) c.nontrivial();
}
