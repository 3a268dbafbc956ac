#pragma once
// Deciding an applied sensor update against an independently written
// measurement model: numerically differentiated model + textbook Kalman update.
#include "history.h"
namespace model {
using namespace rig;
// A measured value: vector part followed by attitudes; `wrap` marks angle entries.
struct Z { Eigen::VectorXd v; std::vector<Q> q; std::vector<int> wrap; };
inline double wrapa(double a) { a = std::fmod(a, 2 * M_PI); if (a > M_PI) a -= 2 * M_PI; if (a < -M_PI) a += 2 * M_PI; return a; }
// a - b; attitudes as rotation on the right of b, by exact logarithm or Gibbs vector.
inline Eigen::VectorXd minus(const Z& a, const Z& b, bool gibbs = false) {
  Eigen::VectorXd r(a.v.size() + 3 * a.q.size());
  r.head(a.v.size()) = a.v - b.v;
  for (int i : a.wrap) r[i] = wrapa(r[i]);
  for (size_t k = 0; k < a.q.size(); ++k) {
    Q e = b.q[k].conjugate() * a.q[k];
    V3 x = gibbs ? V3(2 * e.vec() / e.w()) : logq(e);
    for (int j = 0; j < 3; ++j) r[a.v.size() + 3 * k + j] = x[j];
  }
  return r;
}
typedef std::function<Z(const State&)> HFun;
inline Eigen::MatrixXd jacobian(const State& x, const HFun& h) {
  Z z0 = h(x);
  const double e = 1e-6;
  Eigen::MatrixXd H(z0.v.size() + 3 * z0.q.size(), NE);
  for (int i = 0; i < NE; ++i) {
    EVec d = EVec::Zero(); d[i] = e;
    State a, b; copyvals(a, x); copyvals(b, x);
    boxplus(a, d); d[i] = -e; boxplus(b, d);
    H.col(i) = (minus(h(a), z0) - minus(h(b), z0)) / (2 * e);
  }
  return H;
}
struct Expect { Eigen::VectorXd d, slack; Eigen::MatrixXd P; double mahal; };
inline Expect expect(const State& x, const HFun& h, const Z& z, const Eigen::MatrixXd& R) {
  Expect e;
  Eigen::MatrixXd H = jacobian(x, h);
  Z z0 = h(x);
  Eigen::VectorXd r = minus(z, z0), rg = minus(z, z0, true), dg;
  kalman(x.P, H, r, R, &e.d, &e.P);
  kalman(x.P, H, rg, R, &dg, &e.P);
  e.slack = (e.d - dg).cwiseAbs();
  e.d = 0.5 * (e.d + dg);
  e.mahal = mahalanobis(x.P, H, r, R);
  return e;
}
// Does `after` result from `before` by exactly this update?
inline void check(pbt::Ctx& c, const State& before, const State& after, const Expect& e, const char* what, double tol = 3e-6, double ptol = 2e-5) {
  EVec got = boxminus(after, before);
  int idx = 0, at = -1;
  double worst = 0;
  visit(const_cast<State&>(before), [&](auto& v, int, int) {
    int n = v.sizeInCorrection_;
    bool isq = v.sizeInState_ == 4;
    double th = 0;
    for (int k = 0; k < n; ++k) th += e.d[idx + k] * e.d[idx + k];
    th = std::sqrt(th);
    for (int k = 0; k < n; ++k) {
      double t = tol * (1 + std::fabs(e.d[idx + k])) + 2 * e.slack[idx + k];
      if (isq) { if (th > 1.0) continue; t += 0.12 * th * th * th; }
      double er = std::fabs(got[idx + k] - e.d[idx + k]) / t;
      if (!(er <= worst)) { worst = er; at = idx + k; }
    }
    idx += n;
  });
  PBT_REQUIRE(worst <= 1, what << ": correction of error-state entry " << at << " is " << got[at] << ", the model gives " << e.d[at]);
  double dp = covdiff(after.P, e.P);
  PBT_REQUIRE(dp < ptol, what << ": covariance after the update differs from the model's by " << dp << " (relative)");
  c.evals(1);
}
inline void check_unchanged(pbt::Ctx& c, const State& before, const State& after, const char* what) {
  double ds = statediff(after, before);
  PBT_REQUIRE(ds == 0, what << ": state changed by " << ds);
  PBT_REQUIRE((after.P.array() == before.P.array()).all(), what << ": covariance changed");
  c.evals(1);
}
// Random SPD block as row-major values with standard deviations in [lo,hi].
inline Eigen::MatrixXd gspd(pbt::Ctx& c, int n, double lo, double hi, bool iso) {
  Eigen::MatrixXd L = Eigen::MatrixXd::Zero(n, n);
  double s0 = c.logu(lo, hi);
  for (int i = 0; i < n; ++i) { double s = iso ? s0 : c.logu(lo, hi); L(i, i) = s; if (!iso) for (int j = 0; j < i; ++j) L(i, j) = c.sym(0.4) * s; }
  return llt_product(L);
}
// Starts from a random state, then alternates IMU readings and updates of one
// kind, each compared with the reference update.  Returns whether any update
// with a real innovation was applied.
struct Plan {
  HFun h;
  std::function<Eigen::MatrixXd()> R;                       // draws the noise of the next measurement
  std::function<void(int64_t, const Z&, const Eigen::MatrixXd&)> send;
  bool gate = false; double thr = 0;
  std::function<bool(const State&)> smooth;                 // is the model differentiable around here?
  double dmax = 0.05, tol = 3e-6, ptol = 2e-5, zeroTol = 1e-6;
  double step = 0;                                          // noise added to the measurement itself
};
inline bool drive(pbt::Ctx& c, Rig& r, State init, const Plan& p) {
  int64_t t = 50000000000ll + c.i(0, 1000000000);
  init.a_m = V3(0, 0, 9.8); init.w_m.setZero();
  init_from(r.core(), t, init);
  std::vector<hist::Imu> imus = hist::gen_imus(c, t, init.a_m, init.w_m, 4, 2000000, 8000000);
  for (int i = 1; i <= 4; ++i) r.imu(imus[i].t, imus[i].a, imus[i].w);
  int n = 0;
  bool informative = false;
  do {
    t = imus.back().t;
    StatePtr now = r.at(t);
    PBT_REQUIRE(now->time == ts(t), "no state at the newest IMU reading");
    State before; copyvals(before, *now);
    State truth; copyvals(truth, before);
    int mode = c.i(0, 3);
    EVec d = EVec::Zero();
    double a = mode == 0 ? 0 : mode == 1 ? 0.3 : mode == 2 ? 1.0 : 2.5;
    for (int i = 0; i < NE; ++i) d[i] = c.sym(1) * a * std::min(p.dmax, std::sqrt(before.P(i, i)));
    boxplus(truth, d);
    if (p.smooth && (!p.smooth(before) || !p.smooth(truth))) { c.label("model-not-smooth-here"); return informative; }
    Eigen::MatrixXd R = p.R();  // may also choose which of several sensors is next
    Z z = mode == 0 ? p.h(before) : p.h(truth);
    Expect e = expect(before, p.h, z, R);
    c.note() << "update " << n << ", perturbation mode " << mode << (p.gate ? ", gate " : "") << (p.gate ? p.thr : 0) << ", distance " << e.mahal << "\n";
    size_t nu = r.m->upd.size();
    p.send(t, z, R);
    PBT_REQUIRE(r.m->upd.size() == nu + 1, "the measurement led to " << r.m->upd.size() - nu << " updates");
    StatePtr after = r.at(t);
    PBT_REQUIRE(after->time == ts(t), "state vanished after the update");
    if (mode == 0) {
      c.label("exact-prediction");
      EVec g = boxminus(*after, before);
      PBT_REQUIRE(g.cwiseAbs().maxCoeff() < p.zeroTol, "a measurement equal to its prediction moved the estimate by " << g.cwiseAbs().maxCoeff());
    }
    if (p.gate && mode != 0 && std::fabs(e.mahal - p.thr) < 2e-2 * p.thr) { c.label("on-the-gate"); return informative; }
    if (p.gate && e.mahal > p.thr) { c.label("rejected"); check_unchanged(c, before, *after, "rejected measurement"); }
    else { c.label("applied"); check(c, before, *after, e, "update", p.tol, p.ptol); if (mode) informative = true; }
    V3 am = hist::gvec(c, 2) + V3(0, 0, 9.8), wm = hist::gvec(c, 0.5);
    int64_t t2 = t + 3000000 + c.i(0, 5000000);
    imus.push_back(hist::Imu{t2, am, wm});
    r.imu(t2, am, wm);
  } while (c.more(n, 3, 8));
  return informative;
}
}  // namespace model
