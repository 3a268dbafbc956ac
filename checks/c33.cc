#include "pbt.h"
#include <Eigen/Dense>
#include <algorithm>
#include <chrono>
#include <iostream>
#include <msf_core/eigen_utils.h>
#include <msf_core/msf_tools.h>
// Statements are logged through these, so firings can be counted.
static int g_info, g_warn, g_error;
#define MSF_INFO_STREAM(x) do { ++g_info; std::ostringstream o_; o_ << x; } while (0)
#define MSF_WARN_STREAM(x) do { ++g_warn; std::ostringstream o_; o_ << x; } while (0)
#define MSF_ERROR_STREAM(x) do { ++g_error; std::ostringstream o_; o_ << x; } while (0)
#undef ROS_PACKAGE_NAME
#include <msf_core/msf_macros.h>
static int64_t g_now;
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration_cast<duration>(nanoseconds(g_now))); }
}}}
static double g_rate;
static bool g_cond;
static bool site(int k) {
  int before = g_info + g_warn + g_error;
  switch (k) {
    case 0: MSF_INFO_STREAM_ONCE("a"); break;
    case 1: MSF_WARN_STREAM_ONCE("b" << 1); break;
    case 2: MSF_ERROR_STREAM_ONCE("c"); break;
    case 3: MSF_ERROR_STREAM_ONCE("c"); break;
    case 4: MSF_LOG_STREAM_THROTTLE(g_rate, "d"); break;
    case 5: MSF_WARN_STREAM_THROTTLE(g_rate, "e"); break;
    case 6: MSF_ERROR_STREAM_THROTTLE(g_rate, "f"); break;
    case 7: MSF_ERROR_STREAM_THROTTLE(g_rate, "f"); break;
    case 8: MSF_INFO_STREAM_COND(g_cond, "g"); break;
    case 9: MSF_WARN_STREAM_COND(g_cond, "h"); break;
    case 10: MSF_ERROR_STREAM_COND(g_cond, "i"); break;
  }
  return g_info + g_warn + g_error > before;
}
static const int kKind[] = {0, 1, 2, 2, 0, 1, 2, 2, 0, 1, 2};
PBT_TARGET(log_macros, "random calls of eleven log statements on a controlled clock; non-trivial: a throttled statement fires twice") {
  g_rate = c.oneof({0.1, 0.5, 1.0, 2.0, 3.3, 10.0});
  g_now = 1600000000000000000ll + (int64_t)c.u64(3000000000ull);
  bool once[4] = {};
  int64_t last[11] = {};
  int n = 0, fired = 0;
  c.note() << "period " << g_rate << ": ";
  do {
    g_now += c.chance(30) ? (int64_t)c.u64((uint64_t)(g_rate * 2.2e9)) : (int64_t)c.u64((uint64_t)(g_rate * 3e8));
    int k = c.i(0, 10);
    g_cond = c.boolean();
    int count[3] = {g_info, g_warn, g_error};
    bool f = site(k);
    c.note() << "#" << k << "@" << (g_now % 1000000000000ll) * 1e-9 << (f ? "! " : " ");
    int now[3] = {g_info, g_warn, g_error};
    for (int j = 0; j < 3; ++j) PBT_REQUIRE(now[j] - count[j] == (f && j == kKind[k] ? 1 : 0), "statement " << k << " logged at the wrong level or more than once");
    if (k < 4) { PBT_REQUIRE(f == !once[k], "once-only statement " << k << (f ? " fired again" : " did not fire at its first occurrence")); once[k] = true; }
    else if (k < 8) {
      double since = (g_now - last[k]) * 1e-9;
      if (!last[k]) PBT_REQUIRE(f, "throttled statement did not fire at its first occurrence");
      else {
        if (f) PBT_REQUIRE(since > g_rate - 1e-5, "throttled to one per " << g_rate << " s but fired again after " << since << " s");
        else PBT_REQUIRE(since < g_rate + 1e-5, "throttled to one per " << g_rate << " s but silent after " << since << " s");
      }
      if (f) { if (last[k]) ++fired; last[k] = g_now; }
    } else PBT_REQUIRE(f == g_cond, "conditional statement " << (f ? "fired" : "silent") << " on " << g_cond);
    c.evals(1);
  } while (c.more(n, 30, 120));
  c.nontrivial(fired > 0);
}
template <class M> static void median(pbt::Ctx& c, int n, M v) {
  std::vector<double> s;
  int mode = c.i(0, 2);
  for (int i = 0; i < n; ++i) { v[i] = mode == 0 ? c.i(0, 3) : mode == 1 ? c.sym(10) : std::ldexp(c.sym(1), c.i(-300, 300)); s.push_back(v[i]); }
  M copy = v;
  double m = msf_core::GetMedian(v);
  c.note() << v.transpose();
  std::sort(s.begin(), s.end());
  PBT_REQUIRE(m == s[n / 2], "median " << m << " of " << v.transpose());
  PBT_REQUIRE((v.array() == copy.array()).all(), "median reordered its argument");
  if (n > 2) c.nontrivial();
}
PBT_TARGET(median, "vectors of fixed and run-time length with ties; non-trivial: longer than two") {
  typedef Eigen::Matrix<double, 7, 1> V7; typedef Eigen::Matrix<double, 30, 1> V30; typedef Eigen::Matrix<double, 1, 1> V1;
  switch (c.i(0, 4)) {
    case 0: median(c, 3, Eigen::Vector3d()); break;
    case 1: median(c, 7, V7()); break;
    case 2: median(c, 30, V30()); break;
    case 3: median(c, 1, V1()); break;
    default: { int n = c.i(1, 40); c.label("run-time-length"); median(c, n, Eigen::VectorXd(n)); }
  }
}
template <class M> static void numeric(pbt::Ctx& c, M m) {
  for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) m(i, j) = c.chance(10) ? c.oneof({0.0, -0.0, 1e308, -1e308, 5e-324}) : c.sym(1e3);
  bool bad = c.boolean();
  if (bad) m(c.i(0, m.rows() - 1), c.i(0, m.cols() - 1)) = c.oneof({std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity()});
  c.note() << m.rows() << "x" << m.cols() << (bad ? " bad" : "");
  PBT_REQUIRE(CheckForNumeric(m, "x") == !bad, (bad ? "not-a-number or infinity went unnoticed in a " : "finite matrix rejected: ") << m.rows() << "x" << m.cols() << " matrix");
  c.nontrivial(bad);
}
PBT_TARGET(check_numeric, "matrices of fixed and run-time size with one bad entry or none; non-trivial: one bad entry") {
  std::cerr.setstate(std::ios::failbit);
  switch (c.i(0, 3)) {
    case 0: numeric(c, Eigen::Matrix3d()); break;
    case 1: numeric(c, Eigen::Matrix<double, 15, 1>()); break;
    case 2: c.label("run-time-size"); numeric(c, Eigen::MatrixXd(c.i(1, 6), c.i(1, 6))); break;
    default: c.label("run-time-size"); numeric(c, Eigen::VectorXd(c.i(1, 20)));
  }
}
PBT_TARGET(timehuman, "epoch times; non-trivial: beyond the first ten thousand seconds") {
  double t = c.chance(20) ? c.sym(1e5) : c.real(0, 2e9);
  double h = msf_core::timehuman(t);
  c.note() << t << " -> " << h;
  PBT_REQUIRE(h >= 0 && h <= 10000, "time of day " << h << " out of range");
  double k = (t - h) / 10000;
  PBT_REQUIRE(std::fabs(k - std::round(k)) < 1e-9, "time " << t << " shown as " << h << " lost its digits");
  c.nontrivial(std::fabs(t) > 10000);
}
