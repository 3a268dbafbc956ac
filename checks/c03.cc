#include "history.h"
using namespace hist;
// After any arrival schedule of measurements (late, out of order, ahead of the
// IMU), the buffered states and covariances equal those of a filter that
// processed the whole history once, in time order.
static void run(pbt::Ctx& c, int maxdelay) {
  world().reset();
  gen_core_params(c);
  Rig refr;           // standalone primitives
  Rig r;
  StatePtr init(new State);
  gen_state(c, *init);
  init->P = gcov(c, 1e-3, 0.5);
  int64_t t0 = 100000000000ll + static_cast<int64_t>(c.u64(1000000000));
  int n = 6 + c.i(0, 44);
  init->a_m = V3(0, 0, 9.8) + gvec(c, 1); init->w_m = gvec(c, 0.2);
  std::vector<Imu> imus = gen_imus(c, t0, init->a_m, init->w_m, n, 4000000, c.chance(20) ? 40000000 : 10000000);
  init->time = ts(t0);
  // Predict needs an initialised reference core only for its parameters.
  init_from(refr.core(), t0, *init);
  init_from(r.core(), t0, *init);
  // Measurement stamps.
  struct Ev { int arrive; int order; MeasPtr m; };
  std::vector<Ev> evs;
  std::vector<int64_t> used;
  int cnt = 0;
  bool shared = false, late = false, future = false, snapped = false, interp = false, reorder = false;
  while (c.more(cnt, 5, 14)) {
    int k = c.i(1, n);
    int64_t a = imus[k - 1].t, b = imus[k].t, t;
    if (c.chance(30)) t = (c.boolean() ? a : b) + c.i(-900000, 900000);
    else if (c.chance(10)) t = b;
    else t = a + static_cast<int64_t>(c.u64(static_cast<uint64_t>(b - a)));
    if (t <= imus[0].t || t >= imus[n].t) continue;
    bool ok = true;
    auto node = [&](int64_t x) { for (int q = 1; q <= n; ++q) if (std::llabs(imus[q].t - x) < 950000) return q; return -1; };  // closer than 1 ms: applied to that sample's state
    for (int64_t u : used) if (std::llabs(u - t) < 2500000) { if (std::llabs(u - t) < 2000 || node(u) < 0 || node(u) != node(t)) ok = false; else shared = true; }
    int64_t near = INT64_MAX;
    for (auto& im : imus) near = std::min<int64_t>(near, std::llabs(im.t - t));
    if (near > 950000 && near < 1050000) ok = false;
    if (!ok) { c.label("stamp-skipped"); continue; }
    used.push_back(t);
    bool gate = c.chance(15);
    MeasPtr m(new Meas(cnt % 3, gate, gate ? c.real(0.2, 4) : 100));
    m->time = ts(t);
    m->kind = c.i(0, 3);
    m->sigma = c.logu(0.02, 1.0);
    m->z = G<D::p>(init) + gvec(c, 5); m->z2 = gvec(c, 5); m->zq = gquat(c);
    if (m->kind == 1) m->z = gvec(c, 5);
    int kk = 1; while (imus[kk].t < t) ++kk;   // first IMU sample at or after the stamp
    int arrive = std::max(4, kk + (c.chance(25) ? -c.i(0, 5) : c.i(0, maxdelay)));
    arrive = std::min(arrive, n);
    if (arrive < kk) future = true;
    if (arrive > kk + 1) late = true;
    (near <= 1000000 ? snapped : interp) = true;
    evs.push_back(Ev{arrive, c.i(0, 1000), m});
  }
  std::stable_sort(evs.begin(), evs.end(), [](const Ev& a, const Ev& b) { return a.arrive != b.arrive ? a.arrive < b.arrive : a.order < b.order; });
  for (size_t i = 1; i < evs.size(); ++i) if (evs[i].m->time < evs[i - 1].m->time) reorder = true;
  // Enough trailing samples to drain everything that arrived early.
  int extra = static_cast<int>(evs.size()) * 2 + 8;
  { V3 a = imus.back().a, w = imus.back().w; int64_t t = imus.back().t; for (int i = 0; i < extra; ++i) imus.push_back(Imu{t += 5000000, a, w}); }
  c.note() << "imu samples " << n << " (+" << extra << "), measurements (stamp us after start, arrives after sample, kind):";
  for (auto& e : evs) c.note() << " (" << (ns_of(*e.m) - t0) / 1000 << "," << e.arrive << "," << e.m->kind << ")";
  c.note() << "\nimu us:";
  for (auto& im : imus) c.note() << ' ' << (im.t - t0) / 1000;
  c.note() << "\n";
  if (shared) c.label("same-state"); if (late) c.label("late"); if (future) c.label("ahead-of-imu"); if (reorder) c.label("out-of-order");
  if (snapped) c.label("snapped"); if (interp) c.label("interpolated");
  c.nontrivial(reorder || (late && evs.size() >= 2));

  std::vector<MeasPtr> got;
  size_t ei = 0;
  int safe = 0;
  auto compare = [&](size_t nimu, bool all) {
    std::vector<Node> ref = reference(refr.core(), *init, imus, nimu, got);
    if (gate_ambiguous()) return;
    for (size_t i = all ? 0 : ref.size() - 1; i < ref.size(); ++i) {
      StatePtr s = r.core().GetStateAtTime(ts(ref[i].t));
      PBT_REQUIRE(s->time != msf_core::constants::INVALID_TIME, "no state buffered at node " << i << " t=" << (ref[i].t - t0) / 1000 << "us after " << nimu << " samples");
      double ds = statediff(*s, *ref[i].s), dp = covdiff(s->P, ref[i].s->P);
      PBT_REQUIRE(ds < 1e-6, "state differs from the in-order filter by " << ds << " at node " << i << "/" << ref.size() << " t=+" << (ref[i].t - t0) / 1000 << "us (sample " << nimu << ")\n got " << dump(*s) << "\n ref " << dump(*ref[i].s));
      PBT_REQUIRE(dp < 1e-5, "covariance differs from the in-order filter by " << dp << " at node " << i << "/" << ref.size() << " t=+" << (ref[i].t - t0) / 1000 << "us (sample " << nimu << ")");
      c.evals(1);
    }
  };
  for (size_t k = 1; k < imus.size(); ++k) {
    int d = r.imu(imus[k].t, imus[k].a, imus[k].w);
    PBT_REQUIRE(d >= 1, "IMU topic has no subscriber");
    bool any = false;
    while (ei < evs.size() && evs[ei].arrive == static_cast<int>(k)) {
      got.push_back(evs[ei].m);
      r.core().AddMeasurement(evs[ei].m);
      int64_t t = ns_of(*evs[ei].m);
      if (t > imus[k].t) { int kk = k; while (imus[kk].t < t) ++kk; safe = std::max<int>(safe, kk + static_cast<int>(ei) + 2); }
      ++ei; any = true;
    }
    if (any && static_cast<int>(k) >= safe) compare(k + 1, false);
  }
  compare(imus.size(), true);
  if (gate_ambiguous()) c.label("gate-on-the-edge");
  if (gate_rejections()) c.label("gate-rejected");
}
PBT_TARGET(schedules, "random IMU stream and up to 14 measurements of 4 kinds with arbitrary arrival points; non-trivial: at least two measurements with one arriving out of stamp order or later than the next IMU sample") { run(c, 12); }
