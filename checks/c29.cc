#include "pbt.h"
#include <msf_timing/Timer.h>
#include <chrono>
#include <deque>
#include <iterator>
#include <map>
#include <memory>
#include <sstream>
// The clock the timers read is under the control of the case.
static int64_t g_now = 1700000000000000000ll;
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration_cast<duration>(nanoseconds(g_now))); }
}}}
using namespace msf_timing;
struct Model {
  long n = 0; long double sum = 0; double mn = std::numeric_limits<double>::infinity(), mx = -std::numeric_limits<double>::infinity();
  std::deque<double> win;
  void add(double s, size_t N = 50) { ++n; sum += s; mn = std::min(mn, s); mx = std::max(mx, s); win.push_back(s); if (win.size() > N) win.pop_front(); }
  long double wmean() const { long double t = 0; for (double x : win) t += x; return t / win.size(); }
  long double wvar() const { long double m = wmean(), t = 0; for (double x : win) t += (x - m) * (x - m); return win.empty() ? 0 : t / win.size(); }
  long double scale() const { return std::max(std::fabs((long double)mn), std::fabs((long double)mx)); }
};
static bool close(double a, long double b, long double scale, double rel = 1e-11) { return std::fabs((long double)a - b) <= rel * scale + 1e-300; }
template <class A> static void compare(pbt::Ctx& c, const A& a, const Model& m) {
  long double S = m.scale() * m.n;
  PBT_REQUIRE(a.TotalSamples() == m.n, "count " << a.TotalSamples() << " of " << m.n);
  PBT_REQUIRE(close(a.Sum(), m.sum, S), "sum " << a.Sum() << ", expected " << (double)m.sum);
  PBT_REQUIRE(close(a.Mean(), m.sum / m.n, m.scale()), "mean " << a.Mean() << ", expected " << (double)(m.sum / m.n));
  PBT_REQUIRE(a.Min() == m.mn, "minimum " << a.Min() << ", expected " << m.mn);
  PBT_REQUIRE(a.Max() == m.mx, "maximum " << a.Max() << ", expected " << m.mx);
  PBT_REQUIRE(close(a.RollingMean(), m.wmean(), S), "rolling mean " << a.RollingMean() << ", expected " << (double)m.wmean());
  PBT_REQUIRE(close(a.LazyVariance(), m.wvar(), S * m.scale(), 1e-9), "variance " << a.LazyVariance() << ", expected " << (double)m.wvar());
  c.evals(7);
}
template <int N> static void acc(pbt::Ctx& c) {
  Accumulator<double, double, N> a;
  Model m;
  PBT_REQUIRE(a.TotalSamples() == 0 && a.LazyVariance() == 0, "statistics before the first sample");
  int mode = c.i(0, 3), n = 0;
  bool neg = false;
  do {
    double s = mode == 0 ? c.unit() : mode == 1 ? c.logu(1e-9, 1e4) : mode == 2 ? c.sym(1.0) : (c.boolean() ? 0.0 : -c.unit());
    if (s < 0) neg = true;
    a.Add(s); m.add(s, N);
    if (c.chance(40)) compare(c, a, m);
  } while (c.more(n, N + 20, 400));
  c.note() << "window " << N << ", " << m.n << " samples, mode " << mode;
  compare(c, a, m);
  if (neg) c.label("negative-duration");
  if (m.n > N) c.label("window-wrapped");
  c.nontrivial(m.n > 2);
}
PBT_TARGET(accumulator, "sequences of durations, window sizes 1, 3, 50; non-trivial: more than two samples") {
  switch (c.i(0, 2)) { case 0: acc<50>(c); break; case 1: acc<3>(c); break; default: acc<1>(c); }
}
PBT_TARGET(timers, "interleaved start/stop/destroy of timers with several tags on a controlled clock; non-trivial: two tags with samples") {
  std::vector<std::string> tags = {"a", "b", "longer tag", "", "A"};
  std::map<std::string, Model> model;
  std::map<std::string, size_t> handles;
  struct Live { std::unique_ptr<Timer> t; std::string tag; int64_t since; bool on; };
  std::vector<Live> live;
  int n = 0;
  g_now += c.i(0, 1000000);
  do {
    int64_t step = c.chance(20) ? 0 : c.chance(10) ? (int64_t)c.i(0, 2000000000) * 3600 : c.i(1, 2000000000);
    g_now += step;
    int op = c.i(0, 6);
    if (op <= 1 || live.empty()) {
      Live l; l.tag = c.pick(tags); l.since = g_now;
      bool stopped = c.chance(30), byhandle = c.chance(40);
      if (byhandle) l.t.reset(new Timer(Timing::GetHandle(l.tag), stopped)); else l.t.reset(new Timer(l.tag, stopped));
      l.on = !stopped;
      c.note() << "+" << (stopped ? "stopped " : "running ") << l.tag << "; ";
      live.push_back(std::move(l));
    } else {
      size_t k = c.u64(live.size());
      Live& l = live[k];
      if (op <= 3) { if (l.on) { l.t->Stop(); model[l.tag].add((g_now - l.since) * 1e-9); l.on = false; } }
      else if (op == 4) { l.t->Start(); l.on = true; l.since = g_now; }
      else { l.t.reset(); if (l.on) model[l.tag].add((g_now - l.since) * 1e-9); live.erase(live.begin() + k); }
      c.note() << "op" << op << "#" << k << " after " << step << " ns; ";
    }
    for (auto& l : live) PBT_REQUIRE(l.t->IsTiming() == l.on, "running flag");
    if (c.chance(3)) {  // forgetting the tags starts new statistics; running timers still stop cleanly
      live.clear(); Timing::Reset(); model.clear(); handles.clear();
      PBT_REQUIRE(Timing::Print().empty(), "table not empty after a reset");
      c.label("reset");
    }
  } while (c.more(n, 15, 60));
  for (auto& l : live) { bool on = l.on; l.t.reset(); if (on) model[l.tag].add((g_now - l.since) * 1e-9); }
  int with = 0;
  std::vector<size_t> hs;
  for (auto& kv : model) {
    const std::string& t = kv.first; const Model& m = kv.second;
    size_t h = Timing::GetHandle(t);
    for (size_t o : hs) PBT_REQUIRE(o != h, "two tags share handle " << h);
    hs.push_back(h);
    PBT_REQUIRE(Timing::GetTag(h) == t, "handle of '" << t << "' names '" << Timing::GetTag(h) << "'");
    PBT_REQUIRE((long)Timing::GetNumSamples(t) == m.n && (long)Timing::GetNumSamples(h) == m.n, "tag '" << t << "': " << Timing::GetNumSamples(t) << " samples, expected " << m.n);
    if (!m.n) continue;
    ++with;
    long double S = m.scale() * m.n;
    PBT_REQUIRE(close(Timing::GetTotalSeconds(t), m.sum, S) && close(Timing::GetTotalSeconds(h), m.sum, S), "total of '" << t << "' is " << Timing::GetTotalSeconds(t) << ", expected " << (double)m.sum);
    PBT_REQUIRE(close(Timing::GetMeanSeconds(t), m.sum / m.n, m.scale()) && close(Timing::GetMeanSeconds(h), m.sum / m.n, m.scale()), "mean of '" << t << "'");
    PBT_REQUIRE(close(Timing::GetMinSeconds(t), m.mn, m.scale()) && close(Timing::GetMinSeconds(h), m.mn, m.scale()), "minimum of '" << t << "' is " << Timing::GetMinSeconds(t) << ", expected " << m.mn);
    PBT_REQUIRE(close(Timing::GetMaxSeconds(t), m.mx, m.scale()) && close(Timing::GetMaxSeconds(h), m.mx, m.scale()), "maximum of '" << t << "' is " << Timing::GetMaxSeconds(t) << ", expected " << m.mx);
    PBT_REQUIRE(close(Timing::GetVarianceSeconds(t), m.wvar(), S * m.scale(), 1e-9) && close(Timing::GetVarianceSeconds(h), m.wvar(), S * m.scale(), 1e-9), "variance of '" << t << "'");
    if (m.wmean() > 0) PBT_REQUIRE(std::fabs(Timing::GetHz(t) * (double)m.wmean() - 1) < 1e-6 && Timing::GetHz(h) == Timing::GetHz(t), "rate of '" << t << "'");
    c.evals(8);
  }
  c.nontrivial(with >= 2);
}
#ifndef SM_TIMING_SHOW_HOURS
#define HOURS 0
#else
#define HOURS 1
#endif
#ifndef SM_TIMING_SHOW_MINUTES
#define MINUTES 0
#else
#define MINUTES 1
#endif
PBT_TARGET(format, "durations from microseconds to days; non-trivial: at least a minute") {
  long us = c.chance(40) ? (long)c.u64(200000000) : (long)(c.u64(100) * 3600000000ull + c.u64(60) * 60000000ull + c.u64(60) * 1000000ull + c.u64(1000000));
  std::string s = Timing::SecondsToTimeString(us * 1e-6);
  c.note() << us << " us -> " << s;
  // Reading the printed fields back gives the duration.
  std::vector<double> f; std::stringstream ss(s); std::string part;
  while (std::getline(ss, part, ':')) f.push_back(atof(part.c_str()));
  PBT_REQUIRE(f.size() >= 1 && f.size() <= 3, "unreadable duration " << s);
  double v = 0;
  for (double x : f) v = v * 60 + x;
  PBT_REQUIRE(std::fabs(v - us * 1e-6) < 1.5e-6, us << " microseconds are printed as " << s);
  c.nontrivial(us >= 60000000);
}
