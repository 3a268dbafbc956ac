#include "history.h"
using namespace hist;
// One IMU step integrates the rigid-body kinematics with linearly interpolated
// readings: compared with a fine Runge-Kutta solution of the ODE, within the
// truncation error of a trapezoidal / first-order quaternion scheme.
namespace {
const V3 kG(0, 0, 9.80834);
struct Kin { Q q; V3 v, p; };
struct Rate { double w, x, y, z; V3 v, p; };
Rate rate(const Kin& k, const V3& a, const V3& w) {
  Rate r;
  const Q& q = k.q;  // dq = 1/2 q (x) (0,w)
  r.w = 0.5 * (-q.x() * w[0] - q.y() * w[1] - q.z() * w[2]);
  r.x = 0.5 * (q.w() * w[0] + q.y() * w[2] - q.z() * w[1]);
  r.y = 0.5 * (q.w() * w[1] + q.z() * w[0] - q.x() * w[2]);
  r.z = 0.5 * (q.w() * w[2] + q.x() * w[1] - q.y() * w[0]);
  Q n = q; n.normalize();
  r.v = n * a - kG; r.p = k.v;
  return r;
}
Kin plus(const Kin& k, const Rate& r, double h) {
  Kin o;
  o.q = Q(k.q.w() + h * r.w, k.q.x() + h * r.x, k.q.y() + h * r.y, k.q.z() + h * r.z);
  o.v = k.v + h * r.v; o.p = k.p + h * r.p;
  return o;
}
Kin integrate(Kin k, V3 a0, V3 a1, V3 w0, V3 w1, double T, int n) {
  double h = T / n;
  for (int i = 0; i < n; ++i) {
    auto A = [&](double f) { return V3(a0 + (a1 - a0) * ((i + f) / n)); };
    auto W = [&](double f) { return V3(w0 + (w1 - w0) * ((i + f) / n)); };
    Rate k1 = rate(k, A(0), W(0)), k2 = rate(plus(k, k1, h / 2), A(.5), W(.5)), k3 = rate(plus(k, k2, h / 2), A(.5), W(.5)), k4 = rate(plus(k, k3, h), A(1), W(1));
    k = plus(plus(plus(plus(k, k1, h / 6), k2, h / 3), k3, h / 3), k4, h / 6);
    k.q.normalize();
  }
  return k;
}
struct Step { StatePtr o, n; double T; V3 a0, a1, w0, w1; };
Step gen(pbt::Ctx& c) {
  Step s;
  s.o.reset(new State); s.n.reset(new State);
  gen_state(c, *s.o);
  visit(*s.o, [&](auto& v, int i, int) { if (i > 4) fill(c, v.state_); });
  s.T = c.logu(0.0005, 0.05);
  double wm = c.oneof({0.3, 2.0, 6.0}), am = c.oneof({1.0, 5.0, 25.0});
  s.o->a_m = gvec(c, am) + V3(0, 0, 9.8); s.n->a_m = s.o->a_m + gvec(c, am * 0.3);
  s.o->w_m = gvec(c, wm); s.n->w_m = c.chance(30) ? gvec(c, wm) : V3(s.o->w_m + gvec(c, wm * 0.2));
  s.o->time = 1000 + c.unit(); s.n->time = s.o->time + s.T; s.T = s.n->time - s.o->time;
  s.a0 = s.o->a_m - G<D::b_a>(s.o); s.a1 = s.n->a_m - G<D::b_a>(s.o);
  s.w0 = s.o->w_m - G<D::b_w>(s.o); s.w1 = s.n->w_m - G<D::b_w>(s.o);
  return s;
}
}  // namespace
PBT_TARGET(single_step, "one IMU interval of 0.5-50 ms with random attitude, velocity, biases, specific force and body rates; non-trivial: body rate above 0.05 rad/s and changing, non-zero bias") {
  world().reset(); Rig r;
  Step s = gen(c);
  std::vector<double> before = values(*s.o);
  r.core().PropagateState(s.o, s.n);
  c.note() << "T=" << s.T << " a0 " << s.a0.transpose() << " a1 " << s.a1.transpose() << " w0 " << s.w0.transpose() << " w1 " << s.w1.transpose() << " " << dump(*s.o) << "\n";
  c.nontrivial(s.w0.norm() > 0.05 && (s.w1 - s.w0).norm() > 1e-3 && G<D::b_a>(s.o).norm() > 0);
  Kin k; k.q = G<D::q>(s.o); k.v = G<D::v>(s.o); k.p = G<D::p>(s.o);
  Kin e = integrate(k, s.a0, s.a1, s.w0, s.w1, s.T, 8);
  double T = s.T, wm = std::max(s.w0.norm(), s.w1.norm()), am = std::max(s.a0.norm(), s.a1.norm());
  double th = wm * T, dw = (s.w1 - s.w0).norm(), da = (s.a1 - s.a0).norm() / T;
  double bq = std::pow(th, 5) / 1000 + th * T * T * s.w0.cross(s.w1).norm() / 8 + 1e-11;
  double eq = logq(e.q.conjugate() * G<D::q>(s.n)).norm();
  PBT_REQUIRE(eq <= bq, "attitude after one step is off by " << eq << " rad (truncation bound " << bq << ", T=" << T << ")");
  PBT_REQUIRE(std::fabs(G<D::q>(s.n).norm() - 1) < 1e-12, "attitude quaternion not unit after propagation");
  double f2 = wm * wm * am + 2 * wm * da + dw / T * am;
  double bv = 1.3 * T * T * T / 12 * f2 + bq * am * T + 1e-10;
  double ev = (e.v - G<D::v>(s.n)).norm();
  PBT_REQUIRE(ev <= bv, "velocity after one step is off by " << ev << " m/s (bound " << bv << ", T=" << T << ")");
  double bp = 1.3 * T * T * T / 12 * (wm * am + da) + bv * T + 1e-10;
  double ep = (e.p - G<D::p>(s.n)).norm();
  PBT_REQUIRE(ep <= bp, "position after one step is off by " << ep << " m (bound " << bp << ", T=" << T << ")");
  std::vector<double> after = values(*s.n), old = values(*s.o);
  PBT_REQUIRE(old == before, "propagation changed the earlier state");
  for (size_t i = 10; i < after.size(); ++i) PBT_REQUIRE(after[i] == before[i], "state value " << i << " (bias/calibration/auxiliary) changed by IMU propagation from " << before[i] << " to " << after[i]);
}
PBT_TARGET(symmetries, "an IMU interval propagated in two frames related by a yaw rotation and a translation, with a velocity offset; non-trivial: non-zero yaw and body rate") {
  world().reset(); Rig r;
  Step s = gen(c);
  double yaw = c.sym(M_PI); V3 off = gvec(c, 30), dv = gvec(c, 5);
  Q Y = expq(V3(0, 0, yaw));
  StatePtr o2(new State), n2(new State);
  copyvals(*o2, *s.o); copyvals(*n2, *s.n);
  o2->Set<D::q>(Y * G<D::q>(s.o)); o2->Set<D::v>(Y * G<D::v>(s.o) + dv); o2->Set<D::p>(Y * G<D::p>(s.o) + off);
  r.core().PropagateState(s.o, s.n);
  r.core().PropagateState(o2, n2);
  c.nontrivial(std::fabs(yaw) > 0.01 && s.w0.norm() > 0.05);
  double eq = logq((Y * G<D::q>(s.n)).conjugate() * G<D::q>(n2)).norm();
  double ev = (Y * G<D::v>(s.n) + dv - G<D::v>(n2)).norm(), ep = (Y * G<D::p>(s.n) + off + dv * s.T - G<D::p>(n2)).norm();
  PBT_REQUIRE(eq < 1e-9 && ev < 1e-9 && ep < 1e-9, "propagation does not commute with a yaw/translation/velocity change of the world frame: " << eq << " " << ev << " " << ep);
}
PBT_TARGET(stream, "an IMU stream fed through the IMU topic (10-60 samples); the newest buffered state follows a fine integration of the same readings; non-trivial: rotation above 0.05 rad") {
  world().reset(); Rig r;
  StatePtr s(new State);
  gen_state(c, *s);
  visit(*s, [&](auto& v, int i, int) { if (i > 4) fill(c, v.state_); });
  s->P = gcov(c, 0.01, 0.1);
  int64_t t0 = 50000000000ll; s->time = ts(t0);
  s->a_m = gvec(c, 3) + V3(0, 0, 9.8); s->w_m = gvec(c, 1);
  int n = c.i(10, 60);
  std::vector<Imu> im = gen_imus(c, t0, s->a_m, s->w_m, n, 2000000, 15000000);
  init_from(r.core(), t0, *s);
  Kin k; k.q = G<D::q>(s); k.v = G<D::v>(s); k.p = G<D::p>(s);
  double bq = 1e-9, bv = 1e-8, bp = 1e-8, rot = 0;
  V3 ba = G<D::b_a>(s), bw = G<D::b_w>(s);
  for (int i = 1; i <= n; ++i) {
    r.imu(im[i].t, im[i].a, im[i].w);
    double T = ts(im[i].t) - ts(im[i - 1].t);
    V3 a0 = im[i - 1].a - ba, a1 = im[i].a - ba, w0 = im[i - 1].w - bw, w1 = im[i].w - bw;
    k = integrate(k, a0, a1, w0, w1, T, 4);
    double wm = std::max(w0.norm(), w1.norm()), am = std::max(a0.norm(), a1.norm()), th = wm * T, dw = (w1 - w0).norm(), da = (a1 - a0).norm() / T;
    double cq = std::pow(th, 5) / 1000 + th * T * T * w0.cross(w1).norm() / 8;
    double cv = 1.3 * T * T * T / 12 * (wm * wm * am + 2 * wm * da + dw / T * am);
    bp += bv * T + 1.3 * T * T * T / 12 * (wm * am + da); bv += cv + (bq + cq) * am * T; bq += cq;
    rot += th;
    StatePtr g = r.at(im[i].t);
    PBT_REQUIRE(g->time != msf_core::constants::INVALID_TIME, "no state at the time of IMU sample " << i);
    double eq = logq(k.q.conjugate() * G<D::q>(g)).norm(), ev = (k.v - G<D::v>(g)).norm(), ep = (k.p - G<D::p>(g)).norm();
    PBT_REQUIRE(eq <= bq && ev <= bv && ep <= bp, "after " << i << " IMU samples the state is off by " << eq << " rad / " << ev << " m/s / " << ep << " m (bounds " << bq << " " << bv << " " << bp << ")");
    c.evals(1);
  }
  c.nontrivial(rot > 0.05);
}
