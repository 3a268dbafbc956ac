#pragma once
// IMU/measurement histories and a sequential reference filter, shared by the
// checks about buffering, delays and re-propagation.
#include "rig.h"
namespace hist {
using namespace rig;

// A harness-defined sensor using the library's documented measurement base
// class: kind 0 position, 1 velocity, 2 attitude, 3 position+velocity.
struct Meas : public msf_core::MSF_MeasurementBase<State> {
  int kind; V3 z, z2; Q zq; double sigma; bool gate; double thr;
  mutable int applied = 0;
  Meas(int sensor, bool mah, double thr) : msf_core::MSF_MeasurementBase<State>(true, sensor, mah, thr), kind(0), zq(1, 0, 0, 0), sigma(1), gate(mah), thr(thr) {}
  virtual std::string Type() { return "harness"; }
  virtual void Apply(boost::shared_ptr<State> s, Core& core) {
    ++applied;
    const State& cs = *s;
    if (kind == 3) {
      Eigen::MatrixXd H = Eigen::MatrixXd::Zero(6, NE), r(6, 1), R = Eigen::MatrixXd::Identity(6, 6) * (sigma * sigma);
      H.block<6, 6>(0, 0).setIdentity();
      r << z - cs.Get<D::p>(), z2 - cs.Get<D::v>();
      CalculateAndApplyCorrection(s, core, H, r, R);
      return;
    }
    Eigen::Matrix<double, 3, NE> H; H.setZero();
    H.block<3, 3>(0, 3 * kind).setIdentity();
    Eigen::Matrix<double, 3, 1> r = resid(cs);
    Eigen::Matrix<double, 3, 3> R = Eigen::Matrix<double, 3, 3>::Identity() * sigma * sigma;
    CalculateAndApplyCorrection(s, core, H, r, R);
  }
  V3 resid(const State& cs) const {
    if (kind == 0) return z - cs.Get<D::p>();
    if (kind == 1) return z - cs.Get<D::v>();
    Q e = cs.Get<D::q>().conjugate() * zq;
    return 2 * e.w() * e.vec();  // sin(angle) * axis: smooth, independent of the quaternion's sign
  }
};
typedef boost::shared_ptr<Meas> MeasPtr;

// Textbook Kalman update on a standalone state (Joseph form, LDLT solve).
inline bool& gate_ambiguous() { static bool b = false; return b; }
inline int& gate_rejections() { static int n = 0; return n; }
inline void ref_update(State& s, const Meas& m) {
  const int n = m.kind == 3 ? 6 : 3;
  Eigen::MatrixXd H = Eigen::MatrixXd::Zero(n, NE);
  Eigen::VectorXd r(n);
  const State& cs = s;
  if (m.kind == 3) {
    H.block(0, 0, 6, 6).setIdentity();
    r << m.z - cs.Get<D::p>(), m.z2 - cs.Get<D::v>();
  } else {
    H.block(0, 3 * m.kind, 3, 3).setIdentity();
    r = m.resid(cs);
  }
  Eigen::MatrixXd R = Eigen::MatrixXd::Identity(n, n) * m.sigma * m.sigma;
  if (m.gate) {
    double d = mahalanobis(s.P, H, r, R);
    if (std::fabs(d - m.thr) < 1e-4 * m.thr) gate_ambiguous() = true;
    if (d > m.thr) { ++gate_rejections(); return; }
  }
  Eigen::VectorXd dd; Eigen::MatrixXd Pn;
  kalman(s.P, H, r, R, &dd, &Pn);
  EVec d = dd;
  s.P = Pn;
  s.Correct(d);
}

struct Imu { int64_t t; V3 a, w; };
struct Node { int64_t t; V3 a, w; std::vector<MeasPtr> ms; StatePtr s; };
inline int64_t ns_of(const Meas& m) { return static_cast<int64_t>(std::llround(m.time * 1e9)); }

// Sequential filter over the time-sorted history.  `imus` includes the initial
// node at index 0.  Single propagation steps are the library's own primitives
// on standalone states (they are checked separately against independent
// mathematics); what is decided here is ordering, buffering and re-propagation.
inline std::vector<Node> reference(Core& refcore, const State& init, const std::vector<Imu>& imus, size_t n, const std::vector<MeasPtr>& ms) {
  std::vector<Node> nodes;
  for (size_t i = 0; i < n; ++i) { Node x; x.t = imus[i].t; x.a = imus[i].a; x.w = imus[i].w; nodes.push_back(x); }
  std::vector<MeasPtr> sorted = ms;
  std::sort(sorted.begin(), sorted.end(), [](const MeasPtr& a, const MeasPtr& b) { return a->time < b->time; });
  std::vector<Node> extra;
  for (auto& m : sorted) {
    int64_t t = ns_of(*m);
    size_t best = 0;
    for (size_t i = 1; i < n; ++i) if (std::llabs(nodes[i].t - t) < std::llabs(nodes[best].t - t)) best = i;
    if (std::llabs(nodes[best].t - t) <= 1000000) { nodes[best].ms.push_back(m); continue; }
    size_t hi = 1; while (nodes[hi].t < t) ++hi;
    const Node &a = nodes[hi - 1], &b = nodes[hi];
    double f = double(t - a.t) / double(b.t - a.t);
    Node x; x.t = t; x.a = a.a + (b.a - a.a) * f; x.w = a.w + (b.w - a.w) * f; x.ms.push_back(m);
    extra.push_back(x);
  }
  nodes.insert(nodes.end(), extra.begin(), extra.end());
  std::sort(nodes.begin(), nodes.end(), [](const Node& a, const Node& b) { return a.t < b.t; });
  for (size_t i = 0; i < nodes.size(); ++i) {
    nodes[i].s.reset(new State);
    State& s = *nodes[i].s;
    if (i == 0) copyvals(s, init);
    s.time = nodes[i].ms.empty() || true ? ts(nodes[i].t) : 0;
    s.a_m = nodes[i].a; s.w_m = nodes[i].w;
    if (i > 0) {
      refcore.PropagateState(nodes[i - 1].s, nodes[i].s);
      refcore.PredictProcessCovariance(nodes[i - 1].s, nodes[i].s);
    }
    for (auto& m : nodes[i].ms) ref_update(s, *m);
  }
  return nodes;
}

// Noise parameters on the parameter server, read by every manager created later.
inline void gen_core_params(pbt::Ctx& c) {
  ros::NodeHandle nh("~core");
  nh.setParam("core_noise_acc", c.logu(1e-3, 0.5));
  nh.setParam("core_noise_accbias", c.logu(1e-6, 0.1));
  nh.setParam("core_noise_gyr", c.logu(1e-4, 0.3));
  nh.setParam("core_noise_gyrbias", c.logu(1e-6, 0.05));
}
inline void gen_state(pbt::Ctx& c, State& s) {
  s.Set<D::p>(gvec(c, 20)); s.Set<D::v>(gvec(c, 5)); s.Set<D::q>(gquat(c));
  s.Set<D::b_w>(gvec(c, 0.05)); s.Set<D::b_a>(gvec(c, 0.2));
}
inline void fill(pbt::Ctx& c, Q& q) { q = gquat(c); }
template <int N> void fill(pbt::Ctx& c, Eigen::Matrix<double, N, 1>& m) { for (int i = 0; i < N; ++i) m[i] = c.sym(2); }
// IMU readings of a moving platform: gravity-ish specific force plus motion.
inline std::vector<Imu> gen_imus(pbt::Ctx& c, int64_t t0, const V3& a0, const V3& w0, int n, int64_t mindt, int64_t maxdt) {
  std::vector<Imu> v;
  v.push_back(Imu{t0, a0, w0});
  int64_t t = t0;
  V3 a = gvec(c, 3) + V3(0, 0, 9.8), w = gvec(c, 1);
  for (int i = 0; i < n; ++i) {
    t += mindt + static_cast<int64_t>(c.u64(static_cast<uint64_t>(maxdt - mindt + 1)));
    a = a + gvec(c, 1); w = w + gvec(c, 0.3);
    if (a.norm() > 45) a *= 0.5;
    v.push_back(Imu{t, a, w});
  }
  return v;
}
}  // namespace hist
