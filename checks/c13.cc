#include <limits>
#include "history.h"
using namespace hist;
// A stream with acceleration spikes against the same stream in which every
// spike is the last plausible reading.
namespace {
struct In { int64_t t; V3 a, held, w; int kind; V3 p, v; Q q; bool spike; };  // kind 0 IMU topic, 1 external without state, 2 external with state
struct Out { std::vector<StatePtr> prop, upd; std::vector<std::string> dumps; };
V3 gen_spike(pbt::Ctx& c) {
  V3 d;
  for (int i = 0; i < 3; ++i) d[i] = c.chance(40) ? 0 : c.sym(1);
  if (d.norm() < 1e-3) d = V3(0, 0, c.boolean() ? 1 : -1);
  d.normalize();
  double m = c.oneof({50.001, 51.0, 60.0, 200.0, 1e4, 1e12});
  if (c.chance(5)) return V3(0, std::numeric_limits<double>::infinity(), 0);
  return d * m;
}
V3 gen_plausible(pbt::Ctx& c) {
  switch (c.i(0, 7)) {
    case 0: return V3(30, -40, 0);        // exactly at the limit
    case 1: return V3(0, 0, -50);
    case 2: return V3(0, 0, 49.999);
    case 3: return V3(0, 0, 0);
    default: return V3(0, 0, 9.8) + gvec(c, 15);
  }
}
void feed(Rig& r, const In& x, const V3& a, uint32_t seq) {
  if (x.kind == 0) { r.imu(x.t, a, x.w); return; }
  sensor_fusion_comm::ExtEkf m;
  m.header.stamp = rt(x.t); m.header.seq = seq;
  m.linear_acceleration.x = a[0]; m.linear_acceleration.y = a[1]; m.linear_acceleration.z = a[2];
  m.angular_velocity.x = x.w[0]; m.angular_velocity.y = x.w[1]; m.angular_velocity.z = x.w[2];
  m.state.resize(16);
  const float s[16] = {float(x.p[0]), float(x.p[1]), float(x.p[2]), float(x.v[0]), float(x.v[1]), float(x.v[2]), float(x.q.w()), float(x.q.x()), float(x.q.y()), float(x.q.z()), 0, 0, 0, 0, 0, 0};
  for (int i = 0; i < 16; ++i) m.state[i] = s[i];
  m.flag = x.kind == 1 ? sensor_fusion_comm::ExtEkf::ignore_state : sensor_fusion_comm::ExtEkf::current_state;
  world().deliver("/msf_core/hl_state_input", m);
}
}  // namespace
PBT_TARGET(spikes, "random streams on the IMU or the external-state topic with spikes of any size, direction, run length and position, plausible readings up to exactly the limit, and delayed measurements; non-trivial: at least two spikes, one of them following a spike or the initialisation") {
  world().reset(); gen_core_params(c);
  State init; gen_state(c, init);
  visit(init, [&](auto& v, int i, int) { if (i > D::b_a) fill(c, v.state_); });
  init.P = gcov(c, 1e-3, 0.3);
  init.a_m = c.chance(50) ? V3(0, 0, 9.8) : V3(0, 0, 9.8) + gvec(c, 10); init.w_m.setZero();
  int64_t t0 = 50000000000ll + c.i(0, 1000000000), t = t0;
  int mode = c.i(0, 3);  // mostly one topic
  std::vector<In> in;
  V3 held = init.a_m;
  int n = 0, spikes = 0; bool consecutive = false;
  do {
    In x;
    t += 3000000 + c.i(0, 60000000);
    x.t = t; x.kind = mode == 3 ? 0 : mode == 0 ? 0 : mode; x.w = gvec(c, 1);
    x.p = gvec(c, 10); x.v = gvec(c, 3); x.q = gquat(c);
    x.spike = c.chance(in.empty() || in.back().spike ? 45 : 25);
    x.a = x.spike ? gen_spike(c) : gen_plausible(c);
    if (!x.spike) held = x.a;
    x.held = held;
    if (x.spike) { ++spikes; if (in.empty() || in.back().spike) consecutive = true; }
    in.push_back(x);
  } while (c.more(n, 12, 40));
  struct M { size_t after; int64_t t; V3 z; int kind; double s; };
  std::vector<M> ms;
  for (size_t i = 4; i < in.size(); ++i) if (c.chance(25)) { M m; m.after = i; m.t = in[i - c.i(0, 3)].t; m.z = gvec(c, 10); m.kind = c.i(0, 1); m.s = c.logu(0.05, 1); ms.push_back(m); }
  for (auto& x : in) c.note() << (x.kind == 0 ? "imu" : x.kind == 1 ? "external reading" : "external state") << (x.spike ? " SPIKE " : " ") << x.a.transpose() << "\n";
  Out out[2];
  bool spiked_first = c.boolean();
  for (int pass = 0; pass < 2; ++pass) {
    bool spiked = (pass == 0) == spiked_first;
    Out& o = out[spiked];
    std::map<std::string, std::string> saved;
    Rig r;
    init_from(r.core(), t0, init);
    size_t k = 0;
    for (size_t i = 0; i < in.size(); ++i) {
      feed(r, in[i], spiked ? in[i].a : in[i].held, i + 1);
      StatePtr s = r.at(in[i].t);
      PBT_REQUIRE(s->time == ts(in[i].t), "no state for reading " << i);
      PBT_REQUIRE(s->a_m == in[i].held, (spiked ? "with" : "without") << " spikes: reading " << i << " entered the estimate as " << s->a_m.transpose() << " instead of " << in[i].held.transpose());
      for (; k < ms.size() && ms[k].after == i; ++k) {
        MeasPtr m(new Meas(0, false, 0)); m->kind = ms[k].kind; m->sigma = ms[k].s; m->z = ms[k].z; m->time = ts(ms[k].t);
        r.core().AddMeasurement(m);
      }
    }
    for (auto& x : in) { StatePtr s = r.at(x.t), y(new State); copyvals(*y, *s); y->time = s->time; y->P = s->P; y->a_m = s->a_m; y->w_m = s->w_m; o.prop.push_back(y); }
    for (auto& s : r.m->prop) o.upd.push_back(s);
    for (auto& s : r.m->upd) o.upd.push_back(s);
  }
  for (size_t i = 0; i < in.size(); ++i) {
    double d = statediff(*out[0].prop[i], *out[1].prop[i]);
    PBT_REQUIRE(d == 0, "estimate at reading " << i << " differs by " << d << " between spikes and held readings");
    PBT_REQUIRE((out[0].prop[i]->P.array() == out[1].prop[i]->P.array()).all(), "covariance at reading " << i << " differs between spikes and held readings");
  }
  PBT_REQUIRE(out[0].upd.size() == out[1].upd.size(), "different number of published states");
  for (size_t i = 0; i < out[0].upd.size(); ++i) {
    PBT_REQUIRE(statediff(*out[0].upd[i], *out[1].upd[i]) == 0 && out[0].upd[i]->a_m == out[1].upd[i]->a_m, "published state " << i << " differs between spikes and held readings");
  }
  c.evals(in.size());
  c.nontrivial(spikes >= 2 && consecutive);
}
