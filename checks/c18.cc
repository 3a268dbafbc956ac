#include <deque>
#include "decode.h"
using namespace model;
using namespace hist;
using decode::Event;
// Pressure heights: which ones are used, how, and what the handler remembers.
namespace {
struct Direct : public msf_core::MSF_MeasurementBase<State> {
  double z, s;
  Direct() : msf_core::MSF_MeasurementBase<State>(true, 0, false, 1e9) {}
  virtual std::string Type() { return "direct height"; }
  virtual void Apply(boost::shared_ptr<State> st, Core& core) {
    const State& x = *st;
    int ib = 0, idx = 0;
    visit(*st, [&](auto& v, int i, int) { if (i == D::b_p) ib = idx; idx += v.sizeInCorrection_; });
    Eigen::Matrix<double, 1, NE> H; H.setZero(); H(0, 2) = 1; H(0, ib) = -1;
    Eigen::Matrix<double, 1, 1> r, R; r[0] = z - (x.Get<D::p>()[2] - x.Get<D::b_p>()[0]); R[0] = s * s;
    CalculateAndApplyCorrection(st, core, H, r, R);
  }
};
int send(int64_t t, uint32_t seq, double z) {
  geometry_msgs::PointStamped m; m.header.stamp = rt(t); m.header.seq = seq; m.point.x = z * 3 + 1; m.point.y = -z; m.point.z = z;
  return world().deliver("/msf_updates/pressure_height", m);
}
}  // namespace
PBT_TARGET(updates, "heights with arbitrary sequence numbers and arrival times, reconfigured noise; against the same run with updates made by the harness for every tenth sequence number; non-trivial: at least two heights take effect and one does not") {
  world().reset(); gen_core_params(c);
  State init; sens::gen_full_state(c, init);
  init.P = gcov(c, 1e-3, 0.3); init.a_m = V3(0, 0, 9.8); init.w_m.setZero();
  int64_t t0 = 50000000000ll + c.i(0, 1000000000);
  std::vector<Imu> imus = gen_imus(c, t0, init.a_m, init.w_m, 8 + c.i(0, 50), 4000000, 10000000);
  std::vector<int64_t> nodes; for (auto& u : imus) nodes.push_back(u.t);
  decode::Times times; times.nodes = &nodes;
  std::vector<Event> ev;
  double noise = c.logu(0.03, 1), noise0 = noise, pd = c.chance(50) ? 0.0 : c.real(0, 0.05);
  uint32_t seq = c.u64(30); int used = 0, skipped = 0;
  for (size_t k = 1; k < imus.size(); ++k) {
    Event e; e.imu = true; e.u = imus[k]; ev.push_back(e);
    if (k < 5 || k + 4 > imus.size()) continue;
    if (c.chance(8)) {
      double n = noise = c.logu(0.03, 1);
      Event g; g.imu = false; g.full = [n](Rig& r) { auto cfg = r.cfg(); cfg.press_noise_meas_p = n; r.setCfg(cfg); };
      ev.push_back(g);
    }
    while (c.chance(45)) {
      seq += c.oneof<uint32_t>({1, 1, 2, 5, 10, 10, 10, 7});
      if (c.chance(40)) seq = (seq + 9) / 10 * 10;
      int64_t t = (imus[k].t - c.i(0, 40000000) + (c.chance(20) ? 8000000 : 0)) / 1000 * 1000;
      bool use = seq % 10 == 0;
      if (t > imus[k].t + 12000000 || t < imus[1].t || t > imus[imus.size() - 3].t || !times.ok(t)) continue;
      double z = G<D::p>(init)[2] - G<D::b_p>(init)[0] + c.sym(2), s = noise;
      uint32_t sq = seq;
      Event m; m.imu = false; m.full = [=](Rig&) { send(t, sq, z); };
      if (use) { ++used; times.taken.push_back(t); m.canon = [=](Rig& r) { boost::shared_ptr<Direct> d(new Direct); d->z = z; d->s = s; d->time = ts(t); r.core().AddMeasurement(d); }; }
      else ++skipped;
      c.note() << "after reading " << k << ": height " << z << " number " << sq << " at " << (t - t0) * 1e-9 << " noise " << s << "\n";
      ev.push_back(m);
    }
  }
  decode::Trace a, b;
  for (int canonical = 0; canonical < 2; ++canonical) {
    Rig r;
    auto cfg = r.cfg(); cfg.press_noise_meas_p = noise0; cfg.pose_delay = pd; r.setCfg(cfg);
    init_from(r.core(), t0, init);
    (canonical ? b : a) = decode::play(r, ev, canonical);
  }
  decode::same(c, a, b);
  c.nontrivial(used >= 2 && skipped >= 1);
}
PBT_TARGET(memory, "the handler's last and averaged height after arbitrary message sequences, in memory that holds other data before; non-trivial: more than ten heights used") {
  world().reset();
  typedef msf_pressure_sensor::PressureSensorHandler H;
  Rig r;
  void* mem = std::malloc(sizeof(H) + 64);
  std::memset(mem, c.oneof({0xCD, 0x40, 0xFF}), sizeof(H) + 64);
  H* h = new (reinterpret_cast<void*>((reinterpret_cast<uintptr_t>(mem) + 31) / 32 * 32)) H(*r.m, "", "pressure_sensor");
  PBT_REQUIRE(h->GetPressureMeasurement()[0] == 0 && h->GetAveragedPressureMeasurement()[0] == 0, "before the first message the handler reports height " << h->GetPressureMeasurement()[0] << " and average " << h->GetAveragedPressureMeasurement()[0]);
  std::deque<double> last; double newest = 0; int used = 0, n = 0; uint32_t seq = c.u64(20); int64_t t = 5000000000ll;
  bool any = false;
  do {
    seq += c.oneof<uint32_t>({1, 10, 10, 10, 3}); if (c.chance(50)) seq = (seq + 9) / 10 * 10;
    double z = c.sym(c.oneof({1.0, 100.0, 8000.0})); t += 1000000 + c.i(0, 100000000);
    send(t, seq, z); any = true;
    if (seq % 10 == 0) { newest = z; last.push_back(z); if (last.size() > 10) last.pop_front(); ++used; }
    PBT_REQUIRE(h->ReceivedFirstMeasurement() == any, "the handler does not report its first message");
    PBT_REQUIRE(h->GetPressureMeasurement()[0] == newest, "last height is " << h->GetPressureMeasurement()[0] << ", the last one used was " << newest);
    if (last.size() == 10) {
      double m = 0, s = 0; for (double x : last) { m += x; s += std::fabs(x); } m /= 10;
      PBT_REQUIRE(std::fabs(h->GetAveragedPressureMeasurement()[0] - m) <= 1e-12 * (s + 1), "average height is " << h->GetAveragedPressureMeasurement()[0] << ", that of the last ten used is " << m);
      c.evals(1);
    }
  } while (c.more(++n, 30, 80));
  c.note() << used << " of " << n << " heights used\n";
  h->~H(); std::free(mem);
  c.nontrivial(used > 10);
}
