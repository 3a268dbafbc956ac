#pragma once
// Differential check of sensor topics: the same run once with the messages as
// generated and once with every message that has to take effect replaced by
// its canonical form (plain message type, explicit covariance, no delay).
#include <functional>
#include <set>
#include "sensors.h"
namespace decode {
using namespace rig;
struct Event {
  bool imu; hist::Imu u;
  std::function<void(Rig&)> full, canon;  // canon empty: the message has no effect
};
struct Trace { std::vector<size_t> counts; std::vector<StatePtr> states; };
inline StatePtr snap(const State& s) { StatePtr y(new State); copyvals(*y, s); return y; }
inline Trace play(Rig& r, const std::vector<Event>& ev, bool canonical) {
  Trace t;
  for (auto& e : ev) {
    size_t n = r.m->upd.size();
    if (e.imu) r.imu(e.u.t, e.u.a, e.u.w);
    else if (!canonical) e.full(r);
    else if (e.canon) e.canon(r);
    t.counts.push_back(r.m->upd.size() - n);
  }
  for (auto& e : ev) if (e.imu) t.states.push_back(snap(*r.at(e.u.t)));
  for (auto& s : r.m->prop) t.states.push_back(snap(*s));
  for (auto& s : r.m->upd) t.states.push_back(snap(*s));
  return t;
}
inline void same(pbt::Ctx& c, const Trace& a, const Trace& b, double tol = 1e-6, double ptol = 1e-6) {
  for (size_t i = 0; i < a.counts.size(); ++i)
    PBT_REQUIRE(a.counts[i] == b.counts[i], "event " << i << " led to " << a.counts[i] << " update(s), expected " << b.counts[i]);
  PBT_REQUIRE(a.states.size() == b.states.size(), "number of published states differs");
  for (size_t i = 0; i < a.states.size(); ++i) {
    PBT_REQUIRE(a.states[i]->time == b.states[i]->time, "state " << i << " has time " << a.states[i]->time << ", expected " << b.states[i]->time);
    double d = statediff(*a.states[i], *b.states[i]);
    if (!std::isfinite(d) && !std::isfinite(values(*b.states[i])[0])) { c.label("diverged"); return; }
    PBT_REQUIRE(d < tol, "state " << i << " at " << a.states[i]->time << " differs by " << d << " from the one after the canonical messages\n  got  " << dump(*a.states[i]) << "\n  want " << dump(*b.states[i]));
    double pd = covdiff(a.states[i]->P, b.states[i]->P);
    PBT_REQUIRE(pd < ptol, "covariance of state " << i << " differs by " << pd << " from the one after the canonical messages");
  }
  c.evals(a.states.size());
}
// A stamp `t` for a measurement taking effect at t - delay: not on a boundary
// where rounding decides how it is applied, not next to another measurement.
struct Times {
  std::vector<int64_t> taken; const std::vector<int64_t>* nodes;
  bool ok(int64_t tm) const {
    for (auto x : taken) if (std::llabs(x - tm) < 2500000) return false;
    for (auto x : *nodes) { int64_t d = std::llabs(x - tm); if (d < 20000 || (d > 950000 && d < 1050000)) return false; }
    return true;
  }
};
}  // namespace decode
