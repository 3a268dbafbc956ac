#include "history.h"
using namespace hist;
// One IMU step of covariance: continuous error-state model (right-multiplicative
// attitude error, white acc/gyro noise, random-walk biases), evaluated
// independently by a matrix exponential and numerical quadrature.
namespace {
typedef Eigen::MatrixXd MX;
struct Step { StatePtr o, n; double T, th; };
MX sk(const V3& v) { MX m = MX::Zero(3, 3); m(0, 1) = -v[2]; m(0, 2) = v[1]; m(1, 0) = v[2]; m(1, 2) = -v[0]; m(2, 0) = -v[1]; m(2, 1) = v[0]; return m; }
MX taylor_exp(const MX& A) {  // ||A|| < 1 here
  MX R = MX::Identity(A.rows(), A.cols()), t = R;
  for (int k = 1; k < 18; ++k) { t = t * A / k; R += t; }
  return R;
}
Step gen(pbt::Ctx& c) {
  Step s; s.o.reset(new State); s.n.reset(new State);
  gen_state(c, *s.o);
  visit(*s.o, [&](auto& v, int i, int) { if (i > 4) fill(c, v.state_); });
  s.o->P = gcov(c, 1e-4, 0.5);
  s.T = c.logu(0.001, 0.02);
  s.o->a_m = gvec(c, 5) + V3(0, 0, 9.8); s.n->a_m = s.o->a_m + gvec(c, 2);
  double wm = c.oneof({0.2, 1.0, 3.0});
  s.o->w_m = gvec(c, wm); s.n->w_m = s.o->w_m + gvec(c, wm * 0.1);
  s.o->time = 500 + c.unit(); s.n->time = s.o->time + s.T; s.T = s.n->time - s.o->time;
  s.th = (s.n->w_m.norm() + 0.1) * s.T;
  return s;
}
}  // namespace
PBT_TARGET(model, "one IMU interval with random covariance (diagonal to fully correlated), attitude, readings, noise densities; non-trivial: correlated covariance and body rate above 0.02 rad/s") {
  world().reset(); gen_core_params(c); Rig r;
  Step s = gen(c);
  app::Cfg cf = r.cfg(); cf.position_noise_p_ip = c.chance(50) ? c.logu(1e-4, 0.5) : 0; r.setCfg(cf);
  msf_core::MSF_CoreConfig cc = r.coreCfg();
  r.core().PropagateState(s.o, s.n);
  PMat P0 = s.o->P;
  r.core().PredictProcessCovariance(s.o, s.n);
  PBT_REQUIRE(s.o->P == P0, "covariance prediction changed the earlier state's covariance");
  const PMat& P = s.n->P;
  c.nontrivial(s.n->w_m.norm() > 0.02 && std::fabs(P0(0, 4)) > 0);
  c.note() << "T=" << s.T << " w " << s.n->w_m.transpose() << " a " << s.n->a_m.transpose() << " noises " << cc.core_noise_acc << " " << cc.core_noise_accbias << " " << cc.core_noise_gyr << " " << cc.core_noise_gyrbias << "\n";
  MX A = MX::Zero(NE, NE), B = MX::Zero(NE, 12);
  V3 ea = s.n->a_m - G<D::b_a>(s.n), ew = s.n->w_m - G<D::b_w>(s.n);
  MX C = G<D::q>(s.n).toRotationMatrix();
  A.block(0, 3, 3, 3) = MX::Identity(3, 3);
  A.block(3, 6, 3, 3) = -C * sk(ea); A.block(3, 12, 3, 3) = -C;
  A.block(6, 6, 3, 3) = -sk(ew); A.block(6, 9, 3, 3) = -MX::Identity(3, 3);
  B.block(3, 0, 3, 3) = C; B.block(6, 3, 3, 3) = MX::Identity(3, 3); B.block(9, 6, 3, 3) = MX::Identity(3, 3); B.block(12, 9, 3, 3) = MX::Identity(3, 3);
  Eigen::VectorXd q(12);
  q << V3::Constant(cc.core_noise_acc), V3::Constant(cc.core_noise_gyr), V3::Constant(cc.core_noise_gyrbias), V3::Constant(cc.core_noise_accbias);
  MX Qc = B * q.cwiseAbs2().asDiagonal() * B.transpose();
  MX F = taylor_exp(A * s.T);
  MX Q = MX::Zero(NE, NE);
  static const double gx[7] = {0.0254460438286207, 0.1292344072003028, 0.2970774243113014, 0.5, 0.7029225756886985, 0.8707655927996972, 0.9745539561713793};
  static const double gw[7] = {0.06474248308443487, 0.1398526957446384, 0.1909150252525594, 0.2089795918367346, 0.1909150252525594, 0.1398526957446384, 0.06474248308443487};  // Gauss-Legendre
  for (int i = 0; i < 7; ++i) {
    MX E = taylor_exp(A * (s.T * gx[i]));
    Q += E * Qc * E.transpose() * (gw[i] * s.T);
  }
  for (int i = 15; i < 18; ++i) Q(i, i) = s.T * cf.position_noise_p_ip * cf.position_noise_p_ip;
  MX ref = F * P0 * F.transpose() + Q;
  // Small axes of a correlated covariance: judge against what the step moves around.
  double tol = 1e-6 + 2 * s.th * s.th * s.th, worst = 0; int wi = 0, wj = 0;
  MX absF = F.cwiseAbs(), scale = absF * P0.cwiseAbs() * absF.transpose() + Q.cwiseAbs();
  auto blockmax = [&](int i) { int b = i / 3 * 3; return std::max(scale(b, b), std::max(scale(b + 1, b + 1), scale(b + 2, b + 2))); };
  for (int i = 0; i < NE; ++i) for (int j = 0; j < NE; ++j) {
    double e = std::fabs(P(i, j) - ref(i, j)) / std::sqrt(blockmax(i) * blockmax(j) + 1e-40);
    if (!(e <= worst)) { worst = std::isnan(e) ? 1e300 : e; wi = i; wj = j; }
  }
  PBT_REQUIRE(worst <= tol, "predicted covariance entry (" << wi << "," << wj << ") is " << P(wi, wj) << ", model gives " << ref(wi, wj) << " (scaled error " << worst << ", tolerance " << tol << ", T=" << s.T << ")");
  // Process noise on its own (zero prior covariance).
  s.o->P.setZero();
  r.core().PredictProcessCovariance(s.o, s.n);
  worst = 0;
  for (int i = 0; i < NE; ++i) for (int j = 0; j < NE; ++j) {
    double e = std::fabs(P(i, j) - Q(i, j)) / std::sqrt(Q(i, i) * Q(j, j) + 1e-60);
    if (Q(i, i) > 0 && Q(j, j) > 0 && !(e <= worst)) { worst = std::isnan(e) ? 1e300 : e; wi = i; wj = j; }
    if (Q(i, i) == 0 || Q(j, j) == 0) PBT_REQUIRE(P(i, j) == 0, "process noise injected at (" << i << "," << j << ") although its density is zero: " << P(i, j));
  }
  PBT_REQUIRE(worst <= 1e-4 + s.th * s.th, "process noise entry (" << wi << "," << wj << ") is " << P(wi, wj) << ", the noise integral is " << Q(wi, wj) << " (scaled error " << worst << ", T=" << s.T << ")");
  PBT_REQUIRE(P == PMat(P.transpose()), "process noise covariance is not symmetric");
  double me = mineig_scaled(P);
  PBT_REQUIRE(me > -1e-9, "process noise covariance has a negative eigenvalue " << me);
  // No time passed: nothing is predicted.
  PMat keep = s.n->P; s.n->time = s.o->time - (c.boolean() ? 0.01 : 0);
  r.core().PredictProcessCovariance(s.o, s.n);
  PBT_REQUIRE(s.n->P == keep, "covariance predicted over a non-positive time interval");
}
PBT_TARGET(jacobian, "transition matrix against finite differences of the real state propagation, for every error direction; non-trivial: body rate above 0.02 rad/s") {
  world().reset(); Rig r;
  Step s = gen(c);
  c.nontrivial(s.n->w_m.norm() > 0.02);
  r.core().PropagateState(s.o, s.n);
  s.o->P.setZero();
  r.core().PredictProcessCovariance(s.o, s.n);
  MX F(NE, NE);
  for (int k = 0; k < NE; ++k) {
    StatePtr o2(new State), n2(new State);
    copyvals(*o2, *s.o); copyvals(*n2, *s.n);
    EVec d = EVec::Zero(); d[k] = 1e-5;
    boxplus(*o2, d);
    r.core().PropagateState(o2, n2);
    F.col(k) = boxminus(*n2, *s.n) / 1e-5;
  }
  double T = s.T, an = s.n->a_m.norm() + 1;
  // magnitude of each block, to scale the discretisation error
  for (int i = 0; i < NE; ++i) for (int j = 0; j < NE; ++j) {
    int bi = i / 3, bj = j / 3;
    double m = bi == bj ? 1 : 0;
    if (bi == 0 && bj == 1) m = T; if (bi == 0 && bj == 2) m = an * T * T / 2; if (bi == 0 && bj == 3) m = an * T * T * T / 2; if (bi == 0 && bj == 4) m = T * T / 2;
    if (bi == 1 && bj == 2) m = an * T; if (bi == 1 && bj == 3) m = an * T * T / 2; if (bi == 1 && bj == 4) m = T; if (bi == 2 && bj == 3) m = T;
    double e = std::fabs(F(i, j) - s.o->Fd(i, j));
    double slack = (bi == 0 && bj == 3 ? 0.2 : 0.02) + (s.n->a_m - s.o->a_m).norm() / an;  // trapezoid gives a T^3/4 instead of a T^3/6 here
    PBT_REQUIRE(e <= m * (3 * s.th + slack) + (bi == bj || bi == 2 ? 1e-5 : m * 0.02 + 1e-9), "transition entry (" << i << "," << j << ") is " << s.o->Fd(i, j) << " but the propagation's derivative is " << F(i, j) << " (T=" << T << ")");
  }
}
PBT_TARGET(stream, "IMU stream from the default initial covariance and from a random one, with updates; every buffered covariance is symmetric and has no negative eigenvalue; non-trivial: at least 20 samples and 2 updates") {
  world().reset(); gen_core_params(c); Rig r;
  int64_t t0 = 70000000000ll;
  StatePtr s(new State);
  gen_state(c, *s); s->time = ts(t0); s->a_m = V3(0, 0, 9.8); s->w_m.setZero();
  if (c.chance(50)) s->P = gcov(c, 1e-3, 0.5); else s->P.setZero();
  init_from(r.core(), t0, *s);
  int n = c.i(8, 60), nu = 0;
  std::vector<Imu> im = gen_imus(c, t0, s->a_m, s->w_m, n, 2000000, 15000000);
  for (int i = 1; i <= n; ++i) {
    r.imu(im[i].t, im[i].a, im[i].w);
    if (i > 4 && c.chance(25)) {
      MeasPtr m(new Meas(0, false, 0)); m->kind = c.i(0, 3); m->sigma = c.logu(0.05, 1);
      m->z = gvec(c, 20); m->z2 = gvec(c, 3); m->zq = gquat(c);
      m->time = ts(im[i - c.i(0, 3)].t); ++nu;
      r.core().AddMeasurement(m);
    }
  }
  c.nontrivial(n >= 20 && nu >= 2);
  for (int i = 0; i <= n; ++i) {
    StatePtr g = r.at(im[i].t);
    if (g->time == msf_core::constants::INVALID_TIME) continue;
    double asym = 0;
    for (int a = 0; a < NE; ++a) for (int b = 0; b < a; ++b) asym = std::max(asym, std::fabs(g->P(a, b) - g->P(b, a)) / (std::sqrt(std::fabs(g->P(a, a) * g->P(b, b))) + 1e-15));
    PBT_REQUIRE(asym < 1e-8, "covariance at sample " << i << " is not symmetric (relative " << asym << ")");
    double me = mineig_scaled(g->P);
    PBT_REQUIRE(me > -1e-5, "covariance at sample " << i << " has a negative (correlation-scaled) eigenvalue " << me);
    c.evals(1);
  }
}
