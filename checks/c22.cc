#include <deque>
#include "sensors.h"
using namespace hist;
// Fuzzy tracking: a sequence of updates with chosen effect, followed by a model
// keeping the last thirty accepted drift attitudes.
namespace {
enum { kWindow = 30 };
#ifdef HAS_POSE
const bool kChecked = true;
Q drift(const State& s) { return G<D::q_wv>(s); }
#else
const bool kChecked = false;
Q drift(const State&) { return Q::Identity(); }
#endif
struct Tracker {
  std::deque<Eigen::Vector4d> ok;
  static void medians(std::vector<double> v, double* lo, double* hi) { std::sort(v.begin(), v.end()); *lo = v[(v.size() - 1) / 2]; *hi = v[v.size() / 2]; }
  bool full() const { return ok.size() >= kWindow; }
  // Largest and smallest deviation over the possible meanings of "median".
  void deviation(const Q& q, double* dmin, double* dmax) const {
    double lo[4], hi[4];
    for (int k = 0; k < 4; ++k) { std::vector<double> v; for (auto& x : ok) v.push_back(x[k]); medians(v, &lo[k], &hi[k]); }
    *dmin = 1e300; *dmax = 0;
    for (int m = 0; m < 16; ++m) {
      double x[4]; for (int k = 0; k < 4; ++k) x[k] = m >> k & 1 ? hi[k] : lo[k];
      Q e = q.conjugate() * Q(x[3], x[0], x[1], x[2]);
      double d = 2 * e.vec().cwiseAbs().maxCoeff() / std::fabs(e.w());
      *dmin = std::min(*dmin, d); *dmax = std::max(*dmax, d);
    }
  }
  void add(const Q& q) { ok.push_back(q.coeffs()); if (ok.size() > kWindow) ok.pop_front(); }
};
StatePtr snap(const State& s) { StatePtr y(new State); copyvals(*y, s); return y; }
// An update which changes the state by exactly d.
struct Step : public msf_core::MSF_MeasurementBase<State> {
  EVec d; std::function<void(const State&, const State&, const EVec&)> seen;
  Step() : msf_core::MSF_MeasurementBase<State>(true, 7, false, 100) {}
  virtual std::string Type() { return "harness"; }
  virtual void Apply(boost::shared_ptr<State> s, Core& core) {
    s->P = PMat::Identity() * 1e-2;
    Eigen::MatrixXd H = Eigen::MatrixXd::Identity(NE, NE), R = H * 1e-2, r = 2 * d;
    StatePtr before = snap(*s);
    CalculateAndApplyCorrection(s, core, H, r, R);
    seen(*before, *s, d);
  }
};
struct TakeNonPropagated { State& d; };
State undone(const State& corrected, const State& before) {  // biases and auxiliary states as before, the rest as corrected
  State x; copyvals(x, corrected);
  V3 p = G<D::p>(corrected), v = G<D::v>(corrected); Q q = G<D::q>(corrected);
  x.statevars = before.statevars;
  x.Set<D::p>(p); x.Set<D::v>(v); x.Set<D::q>(q);
  return x;
}
}  // namespace
PBT_TARGET(tracking, "sequences of up to 130 updates moving the drift attitude by walks, ramps, jumps and values near the limit, in and out of order, with other limits and re-initialisations; non-trivial: the check is active for at least ten updates (or the application has no such state) and, where it is, at least one update is undone or the median moves by more than a quarter of the limit") {
  world().reset();
  gen_core_params(c);
  Rig r;
  double thr = 0.1;
  if (c.chance(40)) { thr = c.logu(0.01, 1); r.m->fuzzy = thr; }
  State init; sens::gen_full_state(c, init);
#ifdef HAS_POSE
  init.Set<D::L>(Eigen::Matrix<double, 1, 1>::Constant(c.real(5, 20)));
#endif
  init.P = PMat::Identity() * 1e-2; init.a_m = V3(0, 0, 9.8); init.w_m.setZero();
  Tracker tr;
  int active = 0, undo = 0, kept_active = 0; double moved = 0;
  int n = c.chance(70) ? 32 + c.i(0, 100) : c.i(0, 40);
  int iq = -1; { State s; int idx = 0; visit(s, [&](auto& v, int i, int) {
#ifdef HAS_POSE
    if (i == D::q_wv) iq = idx;
#endif
    idx += v.sizeInCorrection_; }); }
  auto seen = [&](const State& before, const State& after, const EVec& d) {
    State corr; copyvals(corr, before);
    EVec dd = d; corr.Correct(dd);
    State und = undone(corr, before);
    double eu = statediff(after, und), ec = statediff(after, corr);
    bool expect_undo = false, sure = true;
    if (kChecked && tr.full()) {
      ++active;
      double lo, hi; tr.deviation(drift(corr), &lo, &hi);
      if (lo > thr * 1.001) expect_undo = true;
      else if (hi < thr * 0.999) expect_undo = false;
      else { sure = false; expect_undo = eu < ec; c.label("at the limit"); }
      c.note() << "  deviation " << lo << ".." << hi << (expect_undo ? " undone\n" : "\n");
    }
    PBT_REQUIRE((expect_undo ? eu : ec) < 1e-8, (tr.full() ? "" : "before the buffer is full, ") << (expect_undo ? "an update beyond the limit was not undone, or something else changed: differs by " : "an update within the limit was altered by ") << (expect_undo ? eu : ec) << "\n before " << dump(before) << "\n after  " << dump(after) << "\n want   " << dump(expect_undo ? und : corr));
    if (expect_undo) ++undo; else tr.add(drift(corr));
    c.evals(1);
  };
  init_from(r.core(), 100000000000ll, init);
  int64_t t = 100000000000ll;
  auto imu = [&] { t += 5000000; r.imu(t, V3(0, 0, 9.80834), V3(0, 0, 0)); };
  for (int k = 0; k < 6; ++k) imu();
  V3 rate = gvec(c, 1) * (c.chance(50) ? thr * c.real(0, 0.3) : 0); double walk = thr * c.real(0, 0.3), other = c.chance(70) ? 0.05 : 0;
  Q q0 = drift(init);
  std::vector<int64_t> used;
  for (int k = 0; k < n; ++k) {
    if (c.chance(1)) {   // initialise again: the history starts from scratch
      State i2; sens::gen_full_state(c, i2);
#ifdef HAS_POSE
      i2.Set<D::L>(Eigen::Matrix<double, 1, 1>::Constant(c.real(5, 20)));
#endif
      i2.P = init.P; i2.a_m = V3(0, 0, 9.8); i2.w_m.setZero();
      init_from(r.core(), t, i2); tr = Tracker(); used.clear();
      for (int j = 0; j < 6; ++j) imu();
      c.label("initialised again");
    }
    imu(); imu();
    if (c.chance(2)) { rate = gvec(c, 1) * (c.chance(50) ? thr * c.real(0, 0.5) : 0); walk = thr * c.real(0, 0.5); }
    boost::shared_ptr<Step> m(new Step);
    m->d.setZero();
    for (int i = 0; i < NE; ++i) if (other > 0) m->d[i] = c.sym(other);
    if (iq >= 0) {
      V3 dq = rate + gvec(c, walk);
      int kind = c.chance(75) ? 0 : c.i(1, 4);
      if (kind == 1) dq = gvec(c, 0.5);
      if (kind == 2) { V3 e = V3::Zero(); e[c.i(0, 2)] = (c.boolean() ? 1 : -1) * thr * c.real(0.8, 1.3); dq = e; }
      if (kind == 3) dq = V3::Zero();
      if (kind == 4) dq = gvec(c, 2.5);
      m->d.segment<3>(iq) = dq;
      c.note() << k << " turn " << dq.transpose() << "\n";
    }
#ifdef HAS_POSE
    m->d[15] = c.sym(0.02);
#endif
    m->seen = seen;
    int64_t tm = t;
    if (c.chance(10)) { tm = t - 5000000 * c.i(1, 30); c.label("late"); }
    if (std::find(used.begin(), used.end(), tm) != used.end() || tm <= 100000000000ll) tm = t;
    // not before the restart of the history
    used.push_back(tm);
    m->time = ts(tm);
    StatePtr st = r.at(tm);
    if (st->time == msf_core::constants::INVALID_TIME) { m->time = ts(t); }
    r.core().AddMeasurement(m);
    if (tr.full()) { Tracker::medians({0}, &moved, &moved); double lo, hi; tr.deviation(q0, &lo, &hi); if (lo > thr / 4) ++kept_active; }
  }
  if (undo) c.label("undone"); if (active > undo) c.label("left alone while active");
  if (kChecked ? active >= 10 && (undo || kept_active) : n >= 5) c.nontrivial();
}
