#include "history.h"
using namespace hist;
// One measurement update through the library's measurement base class, against
// a textbook Kalman update on dynamic matrices.
template <int M> struct Probe : public msf_core::MSF_MeasurementBase<State> {
  Eigen::MatrixXd H, r, R;
  Probe(bool gate, double thr) : msf_core::MSF_MeasurementBase<State>(true, 0, gate, thr) {}
  virtual std::string Type() { return "probe"; }
  virtual void Apply(boost::shared_ptr<State> s, Core& core) {
    Eigen::Matrix<double, M, NE> h = H; Eigen::Matrix<double, M, 1> rr = r; Eigen::Matrix<double, M, M> q = R;
    CalculateAndApplyCorrection(s, core, h, rr, q);
  }
};
template <> void Probe<-1>::Apply(boost::shared_ptr<State> s, Core& core) { CalculateAndApplyCorrection(s, core, H, r, R); }

static Eigen::MatrixXd gmat(pbt::Ctx& c, int r, int k, double a) { Eigen::MatrixXd m(r, k); for (int i = 0; i < r; ++i) for (int j = 0; j < k; ++j) m(i, j) = c.sym(a); return m; }

template <int M> static void one(pbt::Ctx& c, Rig& r, bool& interesting) {
  int m = M > 0 ? M : c.i(1, 9);
  StatePtr s(new State);
  gen_state(c, *s);
  visit(*s, [&](auto& v, int i, int) { if (i > D::b_a) fill(c, v.state_); });
  s->P = gcov(c, 1e-3, 0.4);
  s->time = 77; s->a_m = gvec(c, 9); s->w_m = gvec(c, 1);
  Eigen::MatrixXd H = Eigen::MatrixXd::Zero(m, NE);
  int hm = c.i(0, 2);
  for (int i = 0; i < m; ++i) {
    if (hm == 0) H(i, c.i(0, NE - 1)) = 1;
    else for (int j = 0; j < NE; ++j) if (hm == 2 || c.chance(25)) H(i, j) = c.sym(1.5);
  }
  Eigen::MatrixXd R;
  if (c.boolean()) { R = Eigen::MatrixXd::Zero(m, m); for (int i = 0; i < m; ++i) { double sd = c.logu(0.05, 1); R(i, i) = sd * sd; } }
  else { Eigen::MatrixXd A = gmat(c, m, m, 0.5); R = A * A.transpose() + 0.01 * Eigen::MatrixXd::Identity(m, m); R = 0.5 * (R + R.transpose()).eval(); }
  Eigen::MatrixXd res = gmat(c, m, 1, c.oneof({0.05, 0.5, 0.0}));
  double d = mahalanobis(s->P, H, res, R);
  bool gate = c.chance(50);
  double f = c.oneof({2.0, 0.5, 1.001, 0.999, 10.0, 0.01});
  double thr = d * f;
  bool reject = gate && f < 1 && d > 1e-9;
  if (d <= 1e-9) thr = 1;
  Probe<M> p(gate, thr);
  p.H = H; p.r = res; p.R = R; p.time = s->time;
  State before; copyvals(before, *s);
  Eigen::VectorXd dx; Eigen::MatrixXd Pn;
  kalman(s->P, H, res, R, &dx, &Pn);
  p.Apply(s, r.core());
  c.note() << "measurement of size " << m << (M > 0 ? " (fixed)" : " (dynamic)") << (gate ? reject ? " to be rejected" : " gated, to be accepted" : " ungated") << ", distance " << d << " threshold " << thr << "\n";
  c.label(reject ? "rejected" : gate ? "accepted-by-gate" : "ungated");
  if (hm) c.label("dense-jacobian");
  c.evals(1);
  if (reject) {
    PBT_REQUIRE(values(*s) == values(before) && (s->P.array() == before.P.array()).all(), "a rejected measurement (distance " << d << " > " << thr << ") changed state or covariance");
    interesting = true;
    return;
  }
  // what the correction must be, per variable
  EVec want = dx, got;
  got = boxminus(*s, before);
  double worst = 0; int at = -1;
  int idx = 0;
  visit(*s, [&](auto& v, int, int) {
    int n = v.sizeInCorrection_;
    bool isq = v.sizeInState_ == 4;
    double th = 0;
    for (int k = 0; k < n; ++k) th += want[idx + k] * want[idx + k];
    th = std::sqrt(th);
    for (int k = 0; k < n; ++k) {
      double tol = 1e-7 + 1e-7 * std::fabs(want[idx + k]);
      if (isq) { if (th > 1.0) continue; tol += 0.12 * th * th * th; }
      double e = std::fabs(got[idx + k] - want[idx + k]) / tol;
      if (!(e <= worst)) { worst = e; at = idx + k; }
    }
    if (isq) { double nn = 0; std::vector<double> q; ValF{&q}(v, 0, 0); for (double x : q) nn += x * x; PBT_REQUIRE(std::fabs(nn - 1) < 1e-9, "attitude no longer a unit quaternion, norm^2 = " << nn); }
    idx += n;
  });
  PBT_REQUIRE(worst <= 1, "correction of error-state entry " << at << " is " << got[at] << ", the Kalman update gives " << want[at]);
  double dp = covdiff(s->P, Pn);
  PBT_REQUIRE(dp < 1e-6, "covariance after the update differs from the Kalman update by " << dp << " (relative)");
  PBT_REQUIRE((s->P - s->P.transpose()).cwiseAbs().maxCoeff() == 0, "covariance not symmetric after the update");
  PBT_REQUIRE(mineig_scaled(s->P) > -1e-9, "covariance not positive semi-definite after the update");
  PBT_REQUIRE(s->time == before.time && s->a_m == before.a_m && s->w_m == before.w_m, "the update changed time or IMU readings of the state");
  if (want.norm() > 1e-3) interesting = true;
}
#ifdef SMALL
#define TARGET update_small
#else
#define TARGET update
#endif
#define PT(n, r) PBT_TARGET(n, r)
PT(TARGET, "random priors, covariances, Jacobians (selecting, sparse, dense), full noise matrices, fixed sizes 1,2,3,6 and dynamic sizes, thresholds just around the true distance; non-trivial: a non-zero correction or a rejection") {
  world().reset();
  gen_core_params(c);
  Rig r;
  auto cfg = r.cfg();
  cfg.position_fixed_p_ip = false;
  r.setCfg(cfg);
  State init; init.P = PMat::Identity() * 0.01; init.a_m = V3(0, 0, 9.8); init.w_m.setZero();
  int64_t t0 = 1000000000ll;
  init_from(r.core(), t0, init);
  for (int i = 1; i <= 4; ++i) r.imu(t0 + i * 5000000, V3(0, 0, 9.8), V3(0, 0, 0));
  bool in = false;
  int n = 0;
  do {
#ifdef SMALL
    switch (c.i(0, 2)) {
      case 0: one<1>(c, r, in); break;
      case 1: one<2>(c, r, in); break;
      default: one<6>(c, r, in);
    }
#else
    if (c.chance(40)) one<3>(c, r, in); else one<-1>(c, r, in);
#endif
  } while (c.more(n, 2, 6));
  c.nontrivial(in);
}
