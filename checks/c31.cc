#include "sensors.h"
using namespace hist;
// Long streams: what is kept, what is not, and that clean-up changes nothing.
namespace {
typedef sensor_fusion_comm::ExtEkf Ekf;
// A harness measurement that reports being alive and being applied.
struct Info { bool alive = true; int applied = 0; int64_t t; };
typedef std::shared_ptr<Info> InfoPtr;
struct L : public Meas {
  InfoPtr i;
  L(const MeasPtr& m, const InfoPtr& i) : Meas(*m), i(i) {}
  ~L() { i->alive = false; }
  virtual void Apply(boost::shared_ptr<State> s, Core& core) { ++i->applied; Meas::Apply(s, core); }
};
struct Rng { uint64_t s; uint64_t next() { s += 0x9e3779b97f4a7c15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); } int64_t in(int64_t a, int64_t b) { return a + int64_t(next() % uint64_t(b - a + 1)); } double sym(double x) { return x * (2 * ((next() >> 11) * 0x1p-53) - 1); } bool pct(int p) { return in(0, 99) < p; } };
const int64_t S = 1000000000ll, W = 60 * S, SLACK = 30 * S;
struct Sent { MeasPtr m; InfoPtr i; int arrive; int64_t t; };
}  // namespace
PBT_TARGET(stream, "1-3.5 minutes of readings (IMU, or external states) with phases of no, sparse, dense and ahead-of-the-IMU measurements, single measurements almost a minute late, older than the window and far in the future; after every stretch: nothing older than a minute and a half is kept, every state of the last minute is, and the estimate equals that of a filter without any clean-up; non-trivial: the stream is longer than 90 s and has a phase without measurements or a measurement more than 30 s late") {
  world().reset();
  gen_core_params(c);
  { ros::NodeHandle nh("~core"); nh.setParam("core_noise_acc", c.logu(1e-3, 0.05)); nh.setParam("core_noise_gyr", c.logu(1e-4, 0.01)); nh.setParam("core_noise_accbias", c.logu(1e-6, 1e-3)); nh.setParam("core_noise_gyrbias", c.logu(1e-6, 1e-4)); }
  Rig refr, r;
  StatePtr init(new State);
  gen_state(c, *init);
  init->P = gcov(c, 1e-3, 0.1);
  init->a_m = G<D::q>(init).conjugate() * V3(0, 0, 9.80834) + G<D::b_a>(init); init->w_m = G<D::b_w>(init);
  int64_t t0 = 100 * S + static_cast<int64_t>(c.u64(1000000000));
  bool ext = c.chance(25);
  int64_t dt = c.i(55, 90) * 1000000ll;
  int n = std::max<int>(60, std::min<int64_t>(2600, c.i(5, c.chance(80) ? 190 : 60) * S * 20 / 17 / dt));
  Rng g{c.u64(1ull << 32)};
  init->time = ts(t0);
  init_from(refr.core(), t0, *init);
  std::vector<Imu> imus; imus.push_back(Imu{t0, init->a_m, init->w_m});
  for (int k = 1; k <= n; ++k) imus.push_back(Imu{imus.back().t + g.in(dt * 7 / 10, dt), init->a_m + V3(g.sym(0.1), g.sym(0.1), g.sym(0.1)), init->w_m + V3(g.sym(0.02), g.sym(0.02), g.sym(0.02))});
  const int drain = 20;
  for (int k = 0; k < drain; ++k) imus.push_back(Imu{imus.back().t + 20000000, init->a_m, init->w_m});
  // Phases: measurements per 100 readings, and how they arrive.
  std::vector<Sent> sent;
  std::vector<int64_t> used;
  int np = 1 + c.i(0, 3); bool pause = false, late = false, future = false;
  std::vector<int> cut; for (int i = 0; i < np; ++i) cut.push_back(c.i(1, n)); cut.push_back(n); std::sort(cut.begin(), cut.end());
  auto free = [&](int64_t t) {
    auto it = std::lower_bound(used.begin(), used.end(), t);
    if (it != used.end() && *it - t < 2500000) return false;
    if (it != used.begin() && t - *(it - 1) < 2500000) return false;
    size_t lo = std::lower_bound(imus.begin(), imus.end(), t, [](const Imu& a, int64_t x) { return a.t < x; }) - imus.begin();
    for (size_t j = lo > 0 ? lo - 1 : 0; j <= lo && j < imus.size(); ++j) { int64_t d = std::llabs(imus[j].t - t); if (d > 900000 && d < 1100000) return false; }
    return true;
  };
  auto add = [&](int64_t t, int arrive) {
    if (t <= imus[1].t || !free(t)) return;
    used.insert(std::lower_bound(used.begin(), used.end(), t), t);
    Sent s; s.m.reset(new Meas(g.in(0, 2), false, 100)); s.t = t;
    s.m->time = ts(t); s.m->kind = g.in(0, 3); s.m->sigma = 0.05 + 0.5 * std::fabs(g.sym(1));
    // the platform keeps its velocity and attitude
    s.m->z = (s.m->kind == 1 ? G<D::v>(init) : V3(G<D::p>(init) + G<D::v>(init) * ((t - t0) * 1e-9))) + V3(g.sym(.1), g.sym(.1), g.sym(.1)); s.m->z2 = G<D::v>(init) + V3(g.sym(.1), g.sym(.1), g.sym(.1)); s.m->zq = G<D::q>(init) * expq(V3(g.sym(.02), g.sym(.02), g.sym(.02)));
    s.i.reset(new Info); s.i->t = t; s.arrive = std::max(arrive, 4);
    sent.push_back(s);
  };
  int from = 1;
  for (int to : cut) {
    int rate = c.pick(std::vector<int>{0, 2, 20, 60, 200}); int style = c.i(0, 2);  // in time, up to a second late, ahead of the IMU
    if (to - from > 400 && !rate) pause = true;
    if (rate == 200 && to - from > 500) rate = 60;
    if (style == 2 && rate) future = true;
    c.note() << "readings " << from << " to " << to << ": " << rate << " measurements per 100 readings" << (style == 1 ? ", late" : style == 2 ? ", ahead of the readings" : "") << "\n";
    for (int k = from; k < to; ++k) for (int q = rate; q > 0; q -= 100) {
      if (!g.pct(std::min(q, 100))) continue;
      int64_t t = g.pct(10) ? imus[k].t : g.in(imus[k - 1].t + 1, imus[k].t);
      add(t, style == 0 ? k : style == 1 ? std::min<int>(n, k + g.in(0, S / dt)) : std::max<int>(1, k - g.in(1, 3)));
    }
    from = to;
  }
  int cnt = 0;
  while (c.more(cnt, 3, 6)) {  // single late ones
    int k = c.i(5, n); int64_t d = c.pick(std::vector<int64_t>{5 * S, 30 * S + S / 2, 50 * S, 59 * S, 91 * S, 120 * S}) - c.i(0, 300) * 1000000ll;
    if (imus[k].t - d > imus[1].t) { if (d > 30 * S && d < W) late = true; c.note() << "a measurement " << d * 1e-9 << " s late at reading " << k << "\n"; add(imus[k].t - d, k); }
  }
  int far = 0;
  while (c.more(far, 1, 3)) { int k = c.i(4, n); int64_t d = c.pick(std::vector<int64_t>{100 * S, 1000 * S, 1000000 * S}); c.note() << "a measurement " << d / S << " s ahead of reading " << k << "\n"; add(imus[k].t + d, k); }
  std::stable_sort(sent.begin(), sent.end(), [](const Sent& a, const Sent& b) { return a.arrive < b.arrive; });
  c.note() << (ext ? "external states" : "IMU readings") << ": " << n << " over " << (imus[n].t - t0) * 1e-9 << " s, " << sent.size() << " measurements\n";
  if (pause) c.label("pause"); if (late) c.label("very-late"); if (future) c.label("ahead-of-imu"); if (ext) c.label("external");
  if (ext) c.note() << "external mode\n";
  r.m->upd.clear();
  init_from(r.core(), t0, *init);
  size_t next = 0;
  std::vector<int64_t> newest_meas(1, t0);  // per reading
  int next_check = 50;
  auto check = [&](int k) {
    int64_t now = imus[k].t, held = newest_meas[std::max(0, k - 300)];
    for (int j = ext ? 4 : 1; j <= k; ++j) {
      bool there = r.at(imus[j].t)->time == ts(imus[j].t);
      if (imus[j].t >= now - W) PBT_REQUIRE(there, "the state of " << (now - imus[j].t) * 1e-9 << " s ago is gone (reading " << k << ")");
      if (imus[j].t < now - W - SLACK) PBT_REQUIRE(!there, "the state of " << (now - imus[j].t) * 1e-9 << " s ago is still kept (reading " << k << ")");
    }
    int stale = 0;  // at most one measurement from before the window is kept
    for (size_t j = 0; j < next; ++j) {
      if (!sent[j].i->alive) continue;
      PBT_REQUIRE(sent[j].t >= held - W - SLACK || ++stale <= 1, "a second measurement " << (held - sent[j].t) * 1e-9 << " s older than a newer one is still kept (reading " << k << ")");
      PBT_REQUIRE(sent[j].t <= now + W + SLACK, "a measurement " << (sent[j].t - now) * 1e-9 << " s in the future is kept (reading " << k << ")");
    }
    c.evals(1);
  };
  for (int k = 1; k <= n + drain; ++k) {
    r.m->upd.clear(); r.m->prop.clear(); world().pub.clear(); world().tfs.clear();
    if (!ext) r.imu(imus[k].t, imus[k].a, imus[k].w);
    else {
      Ekf m; m.header.stamp = rt(imus[k].t); m.header.seq = k;
      m.linear_acceleration.x = imus[k].a[0]; m.linear_acceleration.y = imus[k].a[1]; m.linear_acceleration.z = imus[k].a[2];
      m.angular_velocity.x = imus[k].w[0]; m.angular_velocity.y = imus[k].w[1]; m.angular_velocity.z = imus[k].w[2];
      m.flag = Ekf::ignore_state; m.state.resize(16, 0); m.state[6] = 1;
      world().deliver("/msf_core/hl_state_input", m);
    }
    newest_meas.push_back(newest_meas.back());
    while (next < sent.size() && sent[next].arrive <= k) {
      Sent& s = sent[next++];
      boost::shared_ptr<L> m(new L(s.m, s.i));
      if (s.t <= imus[k].t + W) newest_meas.back() = std::max(newest_meas.back(), s.t);
      r.core().AddMeasurement(m);
    }
    // measurements from ahead of the readings do not pile up
    for (size_t j = 0; j < next; ++j) {
      if (sent[j].t < imus[std::max(0, k - 60)].t || sent[j].t > imus[k].t || sent[j].i->applied || sent[j].arrive < k - 60 || sent[j].t - imus[sent[j].arrive].t > W - S / 2) continue;
      int due = std::lower_bound(imus.begin(), imus.end(), sent[j].t, [](const Imu& a, int64_t x) { return a.t < x; }) - imus.begin();
      PBT_REQUIRE(k - std::max(due, sent[j].arrive) < 50, "a measurement due at reading " << due << " was not used by reading " << k);
    }
    if (k == next_check) { check(k); next_check += 150; }
  }
  int last = n + drain;
  check(last);
  for (auto& s : sent) {
    int64_t age = imus[s.arrive].t - s.t;
    if (s.t <= imus[last].t && age <= W - S / 2 && age > -W + S / 2 && s.arrive <= n) PBT_REQUIRE(s.i->applied > 0, "a measurement that was " << age * 1e-9 << " s old when it arrived at reading " << s.arrive << " was never used");
  }
  if (!ext) {
    std::vector<MeasPtr> ms;
    for (auto& s : sent) if (s.i->applied) ms.push_back(s.m);
    std::vector<Node> ref = reference(refr.core(), *init, imus, last + 1, ms);
    for (size_t i = 0; i < ref.size(); ++i) {
      if (ref[i].t < imus[last].t - 45 * S) continue;
      StatePtr s = r.at(ref[i].t);
      PBT_REQUIRE(s->time != msf_core::constants::INVALID_TIME, "no state at a node of the last seconds");
      double ds = statediff(*s, *ref[i].s), dp = covdiff(s->P, ref[i].s->P);
      double mag = 1; for (double x : values(*ref[i].s)) mag = std::max(mag, std::fabs(x));
      PBT_REQUIRE(ds < 1e-5 * mag, "state differs from that of a filter which keeps everything by " << ds << " " << (imus[last].t - ref[i].t) * 1e-9 << " s before the end");
      PBT_REQUIRE(dp < 1e-4, "covariance differs from that of a filter which keeps everything by " << dp << " " << (imus[last].t - ref[i].t) * 1e-9 << " s before the end");
    }
  }
  c.nontrivial(imus[n].t - t0 > 90 * S && (pause || late));
}
