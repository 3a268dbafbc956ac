#include "sensors.h"
using namespace model;
using namespace hist;
// The filter after a clock jump or a re-initialisation against a filter that
// never saw anything else.
namespace {
struct In { int type; int64_t t; V3 a, w, p, v; Q q; uint64_t salt; };  // 0 imu, 1 external reading, 2 external state, 3 sensor, 4 harness measurement
struct Snap { StatePtr s; };
StatePtr snap(const State& s) { StatePtr y(new State); copyvals(*y, s); y->time = s.time; y->P = s.P; y->a_m = s.a_m; y->w_m = s.w_m; return y; }
void ext(int64_t t, const In& x, uint32_t seq) {
  sensor_fusion_comm::ExtEkf m;
  m.header.stamp = rt(t); m.header.seq = seq;
  m.linear_acceleration.x = x.a[0]; m.linear_acceleration.y = x.a[1]; m.linear_acceleration.z = x.a[2];
  m.angular_velocity.x = x.w[0]; m.angular_velocity.y = x.w[1]; m.angular_velocity.z = x.w[2];
  m.state.resize(16);
  const float s[10] = {float(x.p[0]), float(x.p[1]), float(x.p[2]), float(x.v[0]), float(x.v[1]), float(x.v[2]), float(x.q.w()), float(x.q.x()), float(x.q.y()), float(x.q.z())};
  for (int i = 0; i < 10; ++i) m.state[i] = s[i];
  m.flag = x.type == 1 ? sensor_fusion_comm::ExtEkf::ignore_state : sensor_fusion_comm::ExtEkf::current_state;
  world().deliver("/msf_core/hl_state_input", m);
}
// Input list starting behind t0; readings of one type, sensors in between,
// late by up to a few readings or up to 30 ms early.
std::vector<In> gen_inputs(pbt::Ctx& c, int64_t t0, int avg, int type, int64_t* last) {
  std::vector<In> v;
  int n = 0; int64_t t = t0;
  bool gap = false;
  do {
    In x; x.type = type; t += 4000000 + c.i(0, 8000000);
    if (c.chance(3)) { t += 90000000 + c.i(0, 20000000); gap = true; }
    x.t = t; x.a = V3(0, 0, 9.8) + gvec(c, 3); x.w = gvec(c, 1); x.p = gvec(c, 10); x.v = gvec(c, 2); x.q = gquat(c); x.salt = 0;
    v.push_back(x);
    if (n >= 3 && c.chance(35)) {
      In m; m.type = 3 + c.i(0, 1); m.t = t - c.i(0, 60000000) + (c.chance(20) ? 30000000 : 0);
      m.salt = c.u64(1000000); m.p = gvec(c, 5); m.q = gquat(c); m.a = m.w = m.v = V3(0, 0, 0);
      v.push_back(m);
    }
  } while (c.more(n, avg, 60));
  *last = t;
  return v;
}
struct Feeder {
  Rig& r; uint32_t seq = 0, iseq = 0;
  explicit Feeder(Rig& rr) : r(rr) {}
  void operator()(const In& x) {
    if (x.type == 0) { r.imu(x.t, x.a, x.w); return; }
    if (x.type <= 2) { ext(x.t, x, ++iseq); return; }
    if (x.type == 4) {
      MeasPtr m(new Meas(0, false, 0)); m->kind = x.salt % 4; m->sigma = 0.05 + (x.salt % 97) * 0.01; m->z = x.p; m->z2 = x.p * 0.3; m->zq = x.q; m->time = ts(x.t);
      r.core().AddMeasurement(m);
      return;
    }
    std::vector<sens::Kind> ks = sens::kinds();
    State s; s.Set<D::p>(x.p); s.Set<D::q>(x.q);
#ifdef HAS_POSE
    s.Set<D::L>(Eigen::Matrix<double, 1, 1>::Constant(1.3));
#endif
    sens::Kind k = ks[x.salt % ks.size()];
    sens::send(k, x.t, sens::hfun(k)(s), ++seq);
  }
};
struct Record { std::vector<StatePtr> nodes, pub; };
Record play(Rig& r, Feeder& f, const std::vector<In>& in) {
  Record o;
  size_t p0 = r.m->prop.size(), u0 = r.m->upd.size();
  for (auto& x : in) f(x);
  for (auto& x : in) if (x.type <= 2) { StatePtr s = r.at(x.t); o.nodes.push_back(snap(*s)); }
  for (size_t i = p0; i < r.m->prop.size(); ++i) o.pub.push_back(snap(*r.m->prop[i]));
  for (size_t i = u0; i < r.m->upd.size(); ++i) o.pub.push_back(snap(*r.m->upd[i]));
  return o;
}
void same(pbt::Ctx& c, const Record& a, const Record& b, const char* what) {
  PBT_REQUIRE(a.pub.size() == b.pub.size(), what << ": " << a.pub.size() << " states were published, a fresh filter publishes " << b.pub.size());
  for (size_t i = 0; i < a.nodes.size() + a.pub.size(); ++i) {
    const State& x = *(i < a.nodes.size() ? a.nodes[i] : a.pub[i - a.nodes.size()]);
    const State& y = *(i < b.nodes.size() ? b.nodes[i] : b.pub[i - b.nodes.size()]);
    PBT_REQUIRE(x.time == y.time, what << ": " << (i < a.nodes.size() ? "buffered" : "published") << " state " << i << " has time " << x.time << ", a fresh filter's has " << y.time);
    std::vector<double> vx = values(x), vy = values(y);
    bool eq = true, peq = true;
    for (size_t k = 0; k < vx.size(); ++k) eq = eq && (vx[k] == vy[k] || (std::isnan(vx[k]) && std::isnan(vy[k])));
    for (int k = 0; k < x.P.size(); ++k) peq = peq && (x.P.data()[k] == y.P.data()[k] || (std::isnan(x.P.data()[k]) && std::isnan(y.P.data()[k])));
    double d = statediff(x, y);
    if (std::isnan(vx[0] + vx[8])) c.label("not-finite");
    PBT_REQUIRE(eq, what << ": " << (i < a.nodes.size() ? "buffered" : "published") << " state " << i << " differs from a fresh filter's by " << d);
    PBT_REQUIRE(peq, what << ": covariance of state " << i << " differs from a fresh filter's");
  }
  c.evals(a.nodes.size() + a.pub.size());
}
State gen_init(pbt::Ctx& c) {
  State s; sens::gen_full_state(c, s);
  s.P = gcov(c, 1e-3, 0.3); s.a_m = V3(0, 0, 9.8) + gvec(c, 1); s.w_m = gvec(c, 0.1);
  return s;
}
void setup(pbt::Ctx& c) {
  gen_core_params(c); sens::params();
  ros::NodeHandle("~/pose_sensor").setParam("pose_measurement_minimum_dt", 0.01);
}
}  // namespace
PBT_TARGET(restart, "an arbitrary earlier run (readings or external states, measurements, some still pending), then a backward clock jump of 11 ms to hours or a plain re-initialisation at any moment, then new data; against a fresh filter with the new data; non-trivial: earlier run with at least 5 readings and new data with at least 5 readings and one update") {
  world().reset(); setup(c);
  int64_t t0 = 5000000000000ll + c.i(0, 1000000000), told;
  State init1 = gen_init(c), init2 = gen_init(c);
  int type1 = c.i(0, 3), type2 = c.i(0, 3);
  if (type1 == 3) type1 = 0; if (type2 == 3) type2 = 0;
  std::vector<In> old = gen_inputs(c, t0, c.oneof({2, 8, 25}), type1, &told);
  bool jump = c.chance(60);
  int64_t step = jump ? -c.oneof<int64_t>({11000000, 25000000, 50000000, 200000000, 3000000000ll, 60000000000ll, 3600000000000ll}) : c.oneof<int64_t>({0, 1000000, 200000000, 7000000000ll});
  int64_t t1 = told + step, tnew;
  std::vector<In> neu = gen_inputs(c, t1, c.oneof({6, 15, 50}), type2, &tnew);
  // The throttle of the pose topic looks at message stamps, whatever the filter does.
  for (size_t i = 0; i < neu.size();) {
    bool clash = false;
    if (neu[i].type == 3) for (auto& x : old) if (x.type == 3 && std::llabs(x.t - neu[i].t) < 12000000) clash = true;
    if (clash) neu.erase(neu.begin() + i); else ++i;
  }
  c.note() << (jump ? "jump by " : "re-initialisation after ") << step * 1e-9 << " s; earlier inputs " << old.size() << " of type " << type1 << ", new inputs " << neu.size() << " of type " << type2 << "\n";
  c.label(jump ? "jump" : "reinit");
  if (type1 != type2) c.label("other-input-kind");
  Record fresh, again;
  {
    Rig r; Feeder f(r);
    init_from(r.core(), t1, init2);
    fresh = play(r, f, neu);
  }
  Rig r; Feeder f(r);
  init_from(r.core(), t0, init1);
  for (auto& x : old) f(x);
  size_t readings = 0; for (auto& x : old) readings += x.type <= 2;
  if (jump) {
    // The reading behind the jump and the ones after it must not touch anything.
    bool predicted = r.m->prop.size() > (type1 == 0 ? 3u : 0u);
    size_t np = r.m->prop.size(), nu = r.m->upd.size();
    int k = 0;
    for (In x : neu) { if (++k > 8) break; if (x.type == 3) x.type = 4; f(x); }
    if (predicted && neu[0].t < told - 10001000) {
      PBT_REQUIRE(r.m->prop.size() == np && r.m->upd.size() == nu, "after a backward jump of " << (told - neu[0].t) * 1e-9 << " s the filter went on without being initialised");
      c.label("stopped");
    }
  }
  init_from(r.core(), t1, init2);
  again = play(r, f, neu);
  same(c, again, fresh, jump ? "after a clock jump" : "after re-initialisation");
  size_t nn = 0; for (auto& x : neu) nn += x.type <= 2;
  c.nontrivial(readings >= 5 && nn >= 5 && r.m->upd.size() > 0);
}
PBT_TARGET(late_readings, "a run with additional readings that carry the time of the newest reading or are up to 9 ms older, at any position, against the run without them; non-trivial: at least two late readings and one update") {
  world().reset(); setup(c);
  int64_t t0 = 5000000000000ll + c.i(0, 1000000000), t1;
  State init = gen_init(c);
  int type = c.i(0, 2);
  std::vector<In> in = gen_inputs(c, t0, c.oneof({6, 15}), type, &t1), with;
  int late = 0, nr = 0; int64_t newest = t0;
  for (auto& x : in) {
    with.push_back(x);
    if (x.type <= 2) { newest = x.t; ++nr; }
    // before the first external state there is no newest reading
    if (x.type <= 2 || nr > 0) while (c.chance(20)) {
      In y = x; y.type = type; y.t = newest - c.oneof<int64_t>({0, 1000, 1000000, 3000000, 9000000});
      if (y.t < t0) y.t = t0;
      y.a = V3(0, 0, 9.8) + gvec(c, 10); y.w = gvec(c, 2); y.p = gvec(c, 10); y.v = gvec(c, 2); y.q = gquat(c);
      with.push_back(y); ++late;
      c.note() << "late by " << (newest - y.t) * 1e-9 << " s behind reading " << nr << "\n";
    }
  }
  c.label(type == 0 ? "imu" : "external");
  Record a, b;
  { Rig r; Feeder f(r); init_from(r.core(), t0, init); b = play(r, f, in); }
  Rig r; Feeder f(r); init_from(r.core(), t0, init);
  size_t p0 = r.m->prop.size();
  for (auto& x : with) f(x);
  for (auto& x : in) if (x.type <= 2) a.nodes.push_back(snap(*r.at(x.t)));
  for (size_t i = p0; i < r.m->prop.size(); ++i) a.pub.push_back(snap(*r.m->prop[i]));
  for (auto& s : r.m->upd) a.pub.push_back(snap(*s));
  same(c, a, b, "with late readings");
  c.nontrivial(late >= 2 && !r.m->upd.empty());
}
PBT_TARGET(jump_before_prediction, "clock jumps back (or far ahead) within the first three readings, without re-initialisation; the filter continues at the new time from the last state and nothing of the old time base is left; non-trivial: at least one reading before the jump and one update after it") {
  world().reset(); setup(c);
  int64_t t0 = 5000000000000ll + c.i(0, 1000000000), t = t0;
  State init = gen_init(c);
  Rig r; Feeder f(r);
  init_from(r.core(), t0, init);
  int k = c.i(0, 2);
  for (int i = 0; i < k; ++i) { t += 5000000; r.imu(t, V3(0, 0, 9.8) + gvec(c, 2), gvec(c, 1)); }
  State last; copyvals(last, *r.at(t)); last.P = r.at(t)->P;
  int64_t step = c.oneof<int64_t>({-101000000, -500000000, -60000000000ll, -3600000000000ll, 101000000, 5000000000ll});
  t += step; int64_t tj = t;
  r.imu(t, V3(0, 0, 9.8), V3(0, 0, 0));
  StatePtr s = r.at(t);
  PBT_REQUIRE(s->time == ts(t), "no state at the time behind the jump");
  PBT_REQUIRE(statediff(*s, last) == 0 && (s->P.array() == last.P.array()).all(), "the last state changed when it was moved behind the jump");
  int n = 0, nm = 0;
  do {
    t += 5000000; r.imu(t, V3(0, 0, 9.8) + gvec(c, 2), gvec(c, 1));
    if (n >= 5 && c.chance(40)) {
      In m; m.type = 4; m.t = t - c.i(0, 10000000); if (m.t <= tj + 2000000) m.t = t; m.salt = c.u64(1000); m.p = gvec(c, 5); m.q = gquat(c);
      size_t nu = r.m->upd.size();
      f(m);
      if (r.m->upd.size() == nu + 1) {
        ++nm;
        PBT_REQUIRE(r.m->upd.back()->time == ts(t), "an update published the state at " << r.m->upd.back()->time << " although the newest reading is from " << ts(t));
      }
      PBT_REQUIRE(r.m->upd.size() == nu + 1, "a measurement inside the new time base was not applied");
    }
    PBT_REQUIRE(r.at(t)->time == ts(t), "no state at the newest reading");
  } while (c.more(n, 8, 25));
  // nothing of the old time base is left
  StatePtr l = r.at(t + 3600000000000ll * 2);
  PBT_REQUIRE(l->time == msf_core::constants::INVALID_TIME || l->time <= ts(t), "a state at " << l->time << " is left although the newest reading is from " << ts(t));
  c.nontrivial(k >= 1 && nm >= 1);
}
