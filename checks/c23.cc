#include <geometry_msgs/PoseWithCovarianceStamped.h>
#include "sensors.h"
#include <set>
using namespace model;
using namespace hist;
// Relative measurements: the update on the joint covariance of the states at
// the sensor's previous and at the new measurement.
namespace {
// New-state block of the Kalman update of [old; new] with their joint covariance.
void joint(const Eigen::MatrixXd& Po, const Eigen::MatrixXd& F, const Eigen::MatrixXd& Pn, const Eigen::MatrixXd& Ho, const Eigen::MatrixXd& Hn,
           const Eigen::VectorXd& r, const Eigen::MatrixXd& R, Eigen::VectorXd* d, Eigen::MatrixXd* P, double* mahal) {
  Eigen::MatrixXd J(2 * NE, 2 * NE), H(Ho.rows(), 2 * NE), Pj;
  J.block(0, 0, NE, NE) = Po; J.block(NE, NE, NE, NE) = Pn;
  J.block(NE, 0, NE, NE) = F * Po; J.block(0, NE, NE, NE) = (F * Po).transpose();
  H.leftCols(NE) = Ho; H.rightCols(NE) = Hn;
  Eigen::VectorXd dj;
  kalman(J, H, r, R, &dj, &Pj);
  *d = dj.tail(NE); *P = Pj.block(NE, NE, NE, NE);
  *mahal = mahalanobis(J, H, r, R);
}
#ifdef APP_POSITION
// Harness sensor reporting the change of position (0), velocity (1), both (3)
// or sin(attitude change) (2) since its previous measurement.
struct Rel : public msf_core::MSF_MeasurementBase<State> {
  int kind; Eigen::Matrix<double, 6, 1> z; double sigma; bool gate; double thr; int applied = 0;
  Rel(int sensor, bool g, double t) : msf_core::MSF_MeasurementBase<State>(false, sensor, g, t), kind(0), sigma(1), gate(g), thr(t) {}
  virtual std::string Type() { return "harness-relative"; }
  // linear in the vector states; the attitude change is a small rotation
  Eigen::Matrix<double, 6, 1> resid(const State& o, const State& n) const {
    Eigen::Matrix<double, 6, 1> h;
    if (kind == 2) { Q e = G<D::q>(o).conjugate() * G<D::q>(n); h.head<3>() = 2 * e.w() * e.vec(); h.tail<3>() = G<D::b_w>(n) - G<D::b_w>(o); }
    else { h.head<3>() = G<D::p>(n) - G<D::p>(o); h.tail<3>() = G<D::v>(n) - G<D::v>(o); }
    return z - h;
  }
  typedef Eigen::Matrix<double, 6, NE> HM;
  void H(HM* ho, HM* hn) const {
    hn->setZero();
    if (kind == 2) { hn->block<3, 3>(0, 6).setIdentity(); hn->block<3, 3>(3, 9).setIdentity(); }
    else { if (kind != 1) hn->block<3, 3>(0, 0).setIdentity(); if (kind != 0) hn->block<3, 3>(3, 3).setIdentity(); }
    *ho = -*hn;
  }
  virtual void Apply(boost::shared_ptr<State> n, Core& core) {
    boost::shared_ptr<msf_core::MSF_MeasurementBase<State> > prev = core.GetPreviousMeasurement(this->time, this->sensorID_);
    if (prev->time == msf_core::constants::INVALID_TIME) return;
    StatePtr o = core.GetClosestState(prev->time);
    if (o->time == msf_core::constants::INVALID_TIME) return;
    ++applied;
    HM ho, hn; H(&ho, &hn);
    Eigen::Matrix<double, 6, 1> r = resid(*o, *n);
    Eigen::Matrix<double, 6, 6> R = Eigen::Matrix<double, 6, 6>::Identity() * (sigma * sigma);
    CalculateAndApplyCorrectionRelative(o, n, core, ho, hn, r, R);
  }
};
typedef boost::shared_ptr<Rel> RelPtr;
typedef boost::shared_ptr<msf_core::MSF_MeasurementBase<State> > Any;
struct RNode { int64_t t; V3 a, w; std::vector<Any> ms; StatePtr s; };
#endif
}  // namespace

#ifdef APP_POSITION
PBT_TARGET(schedules, "random IMU stream, one informative relative harness sensor, absolute measurements before its first and uninformative ones of other sensors in between, arbitrary arrival points; compared at every step with a sequential filter holding the joint covariance; non-trivial: a relative update over more than one prediction step, with one measurement arriving out of order or late") {
  world().reset();
  gen_core_params(c);
  Rig refr, r;
  StatePtr init(new State);
  gen_state(c, *init);
  init->P = gcov(c, 1e-3, 0.5);
  int64_t t0 = 100000000000ll + static_cast<int64_t>(c.u64(1000000000));
  int n = 8 + c.i(0, 32);
  init->a_m = V3(0, 0, 9.8) + gvec(c, 1); init->w_m = gvec(c, 0.2);
  std::vector<Imu> imus = gen_imus(c, t0, init->a_m, init->w_m, n, 4000000, 10000000);
  init->time = ts(t0);
  init_from(refr.core(), t0, *init);
  init_from(r.core(), t0, *init);
  struct Ev { int arrive, order; Any m; };
  std::vector<Ev> evs;
  std::vector<int64_t> used;
  int cnt = 0; bool late = false, apart = false;
  int64_t first = imus[1 + c.i(0, 4)].t;  // informative absolute measurements only before this
  while (c.more(cnt, 5, 12)) {
    int k = c.i(1, n);
    int64_t a = imus[k - 1].t, b = imus[k].t, t;
    if (c.chance(30)) t = (c.boolean() ? a : b) + c.i(-900000, 900000);
    else t = a + static_cast<int64_t>(c.u64(static_cast<uint64_t>(b - a)));
    if (t <= imus[0].t || t >= imus[n].t) continue;
    bool ok = true;
    for (int64_t u : used) if (std::llabs(u - t) < 2500000) ok = false;
    int64_t near = INT64_MAX;
    for (auto& im : imus) near = std::min<int64_t>(near, std::llabs(im.t - t));
    if (near > 950000 && near < 1050000) ok = false;
    if (!ok) continue;
    used.push_back(t);
    Any any; std::string what;
    if (t < first || c.chance(25)) {
      MeasPtr m(new Meas(1, false, 100));
      m->kind = c.i(0, 3); m->sigma = t < first ? c.logu(0.05, 1) : 1e5;
      m->z = G<D::p>(init) + gvec(c, 2); m->z2 = gvec(c, 2); m->zq = G<D::q>(init) * expq(gvec(c, 0.3));
      any = m; what = t < first ? "absolute" : "uninformative absolute";
    } else {
      bool other = c.chance(20), gate = !other && c.chance(25);
      RelPtr m(new Rel(other ? 31 : 30, gate, gate ? c.real(0.3, 4) : 100));
      m->kind = c.i(0, 3); m->sigma = other ? 1e5 : c.logu(0.03, 1);
      for (int i = 0; i < 6; ++i) m->z[i] = c.sym(0.3);
      any = m; what = other ? "uninformative relative" : "relative";
    }
    any->time = ts(t);
    int kk = 1; while (imus[kk].t < t) ++kk;
    int arrive = std::min(n, std::max(4, kk + (c.chance(15) ? -c.i(0, 3) : c.chance(50) ? 0 : c.i(0, 10))));
    if (arrive > kk + 1) late = true;
    evs.push_back(Ev{arrive, c.i(0, 1000), any});
    c.note() << what << " at +" << (t - t0) / 1000 << "us, arrives after sample " << arrive << "\n";
  }
  std::stable_sort(evs.begin(), evs.end(), [](const Ev& a, const Ev& b) { return a.arrive != b.arrive ? a.arrive < b.arrive : a.order < b.order; });
  for (size_t i = 1; i < evs.size(); ++i) if (evs[i].m->time < evs[i - 1].m->time) late = true;
  int extra = static_cast<int>(evs.size()) * 2 + 8;
  { V3 a = imus.back().a, w = imus.back().w; int64_t t = imus.back().t; for (int i = 0; i < extra; ++i) imus.push_back(Imu{t += 5000000, a, w}); }
  c.note() << "imu us:"; for (auto& im : imus) c.note() << ' ' << (im.t - t0) / 1000; c.note() << "\n";
  std::vector<Any> got;
  bool edge = false; int napplied = 0;
  auto reference = [&](size_t nimu) {
    std::vector<RNode> nodes;
    for (size_t i = 0; i < nimu; ++i) { RNode x; x.t = imus[i].t; x.a = imus[i].a; x.w = imus[i].w; nodes.push_back(x); }
    std::vector<Any> sorted = got;
    std::sort(sorted.begin(), sorted.end(), [](const Any& a, const Any& b) { return a->time < b->time; });
    std::vector<RNode> ex;
    for (auto& m : sorted) {
      int64_t t = std::llround(m->time * 1e9);
      size_t best = 0;
      for (size_t i = 1; i < nimu; ++i) if (std::llabs(nodes[i].t - t) < std::llabs(nodes[best].t - t)) best = i;
      if (std::llabs(nodes[best].t - t) <= 1000000) { nodes[best].ms.push_back(m); continue; }
      size_t hi = 1; while (nodes[hi].t < t) ++hi;
      const RNode &a = nodes[hi - 1], &b = nodes[hi];
      double f = double(t - a.t) / double(b.t - a.t);
      RNode x; x.t = t; x.a = a.a + (b.a - a.a) * f; x.w = a.w + (b.w - a.w) * f; x.ms.push_back(m);
      ex.push_back(x);
    }
    nodes.insert(nodes.end(), ex.begin(), ex.end());
    std::sort(nodes.begin(), nodes.end(), [](const RNode& a, const RNode& b) { return a.t < b.t; });
    std::map<int, std::pair<size_t, Eigen::MatrixXd> > prev;  // sensor -> node and transition since
    napplied = 0;
    for (size_t i = 0; i < nodes.size(); ++i) {
      nodes[i].s.reset(new State);
      State& s = *nodes[i].s;
      if (i == 0) copyvals(s, *init);
      s.time = ts(nodes[i].t); s.a_m = nodes[i].a; s.w_m = nodes[i].w;
      if (i > 0) {
        refr.core().PropagateState(nodes[i - 1].s, nodes[i].s);
        refr.core().PredictProcessCovariance(nodes[i - 1].s, nodes[i].s);
        for (auto& p : prev) p.second.second = Eigen::MatrixXd(nodes[i - 1].s->Fd) * p.second.second;
      }
      for (auto& m : nodes[i].ms) {
        if (Meas* a = dynamic_cast<Meas*>(m.get())) { ref_update(s, *a); continue; }
        Rel& q = dynamic_cast<Rel&>(*m);
        auto it = prev.find(q.sensorID_);
        if (it != prev.end()) {
          const State& o = *nodes[it->second.first].s;
          Rel::HM ho, hn; q.H(&ho, &hn);
          Eigen::VectorXd d; Eigen::MatrixXd P; double mah;
          joint(o.P, it->second.second, s.P, ho, hn, q.resid(o, s), Eigen::MatrixXd::Identity(6, 6) * q.sigma * q.sigma, &d, &P, &mah);
          if (q.gate && std::fabs(mah - q.thr) < 1e-4 * q.thr) edge = true;
          if (!q.gate || mah <= q.thr) { EVec e = d; s.P = P; s.Correct(e); if (q.sigma < 10 && i > it->second.first + 1) { ++napplied; apart = true; } }
        }
        prev[q.sensorID_] = std::make_pair(i, Eigen::MatrixXd::Identity(NE, NE));
      }
    }
    return nodes;
  };
  size_t ei = 0; int safe = 0;
  auto compare = [&](size_t nimu, bool all) {
    std::vector<RNode> ref = reference(nimu);
    if (edge || gate_ambiguous()) return;
    for (size_t i = all ? 0 : ref.size() - 1; i < ref.size(); ++i) {
      StatePtr s = r.core().GetStateAtTime(ts(ref[i].t));
      PBT_REQUIRE(s->time != msf_core::constants::INVALID_TIME, "no state buffered at +" << (ref[i].t - t0) / 1000 << "us");
      double ds = statediff(*s, *ref[i].s), dp = covdiff(s->P, ref[i].s->P);
      PBT_REQUIRE(ds < 1e-6, "state differs from the filter with joint covariance by " << ds << " at +" << (ref[i].t - t0) / 1000 << "us (sample " << nimu - 1 << ")\n got " << dump(*s) << "\n ref " << dump(*ref[i].s));
      PBT_REQUIRE(dp < 1e-5, "covariance differs from the filter with joint covariance by " << dp << " at +" << (ref[i].t - t0) / 1000 << "us (sample " << nimu - 1 << ")");
      c.evals(1);
    }
  };
  for (size_t k = 1; k < imus.size(); ++k) {
    r.imu(imus[k].t, imus[k].a, imus[k].w);
    bool any = false;
    while (ei < evs.size() && evs[ei].arrive == static_cast<int>(k)) {
      got.push_back(evs[ei].m);
      r.core().AddMeasurement(evs[ei].m);
      int64_t t = std::llround(evs[ei].m->time * 1e9);
      if (t > imus[k].t) { int kk = k; while (imus[kk].t < t) ++kk; safe = std::max<int>(safe, kk + static_cast<int>(ei) + 2); }
      ++ei; any = true;
    }
    if (any && static_cast<int>(k) >= safe) compare(k + 1, false);
  }
  compare(imus.size(), true);
  if (edge) c.label("gate-on-the-edge");
  c.nontrivial(apart && late);
}
#else
namespace {
// The relative measurement model: change of the measured position, and the
// rotation from the previous to the new measured attitude.
Z hrel(const State& o, const State& n) {
  Z a = sens::hpose(o), b = sens::hpose(n), z;
  z.v = b.v - a.v; z.q.push_back(a.q[0].conjugate() * b.q[0]);
  return z;
}
// Both Jacobians nearly cancel, so they have to be exact: fourth-order stencil.
Eigen::MatrixXd jac4(const State& x, const HFun& h) {
  Z z0 = h(x);
  Eigen::MatrixXd H(z0.v.size() + 3 * z0.q.size(), NE);
  const double e = 1e-3;
  for (int i = 0; i < NE; ++i) {
    auto f = [&](double k) { EVec d = EVec::Zero(); d[i] = k * e; State a; copyvals(a, x); boxplus(a, d); return Eigen::VectorXd(minus(h(a), z0)); };
    H.col(i) = (8 * (f(1) - f(-1)) - (f(2) - f(-2))) / (12 * e);
  }
  return H;
}
}  // namespace
PBT_TARGET(pose, "pose sensor set up for relative measurements, random extrinsics, scale, covariance source and direction, 1-12 predictions between measurements, delayed arrival, uninformative measurements of another sensor in between; every update compared with the numerically differentiated two-state model; non-trivial: an applied update with a non-zero innovation over more than one prediction") {
  world().reset();
  gen_core_params(c);
  sens::params();
  ros::NodeHandle nh("~/pose_sensor");
  bool world_sensor = !c.chance(35), fixedcov = c.chance(40), gate = c.chance(30);
  double thr = c.logu(0.3, 6);
  nh.setParam("pose_absolute_measurements", false);
  nh.setParam("pose_measurement_world_sensor", world_sensor);
  nh.setParam("pose_use_fixed_covariance", fixedcov);
  nh.setParam("enable_mah_outlier_rejection", gate); nh.setParam("mah_threshold", thr);
  Rig refr, r;
  auto cfg = r.cfg();
  cfg.pose_fixed_scale = cfg.pose_fixed_p_ic = cfg.pose_fixed_q_ic = cfg.pose_fixed_p_wv = cfg.pose_fixed_q_wv = false;
  sens::Sigma sg; sg.p = c.logu(0.03, 0.5); sg.q = c.logu(0.03, 0.3); sg.pos = 1e5;
  sens::configure(cfg, sg); r.setCfg(cfg);
  State init;
  sens::gen_full_state(c, init);
  Eigen::Matrix<double, 1, 1> L; L[0] = c.logu(1, 3); init.Set<D::L>(L);
  init.P = gcov(c, 1e-3, 0.2); init.P.row(15) *= 0.1; init.P.col(15) *= 0.1;
  init.a_m = V3(0, 0, 9.8); init.w_m.setZero();
  int64_t t = 50000000000ll + c.i(0, 1000000000);
  init_from(refr.core(), t, init);
  init_from(r.core(), t, init);
  int n = 6 + c.i(0, 30);
  std::vector<Imu> imus = gen_imus(c, t, init.a_m, init.w_m, n, 2000000, 8000000);
  int prev = -1, seq = 1; Z zprev; std::set<int> taken; size_t np = 0;
  bool informative = false;
  for (int k = 1; k <= n; ++k) {
    r.imu(imus[k].t, imus[k].a, imus[k].w);
    if (k < 4 || !c.chance(prev < 0 ? 60 : 30)) continue;
#ifdef HAS_POSITION
    if (c.chance(40)) {  // far too uncertain to matter
      Z z; z.v = Eigen::VectorXd::Zero(3);
      int j = c.i(std::max(prev + 1, 1), k); if (!taken.insert(j).second) continue;  // one measurement per time stamp
      c.note() << "uninformative position at reading " << j << "\n";
      sens::send(sens::POS, imus[j].t, z, seq++); continue;
    }
#endif
    int at = k - (c.chance(50) ? 0 : c.i(0, 4));
    if (at <= prev || at < 2 || !taken.insert(at).second) continue;
    StatePtr now = r.at(imus[at].t);
    PBT_REQUIRE(now->time == ts(imus[at].t), "no state at an IMU reading");
    State before; copyvals(before, *now); before.a_m = now->a_m; before.w_m = now->w_m;
    State truth; copyvals(truth, before);
    int mode = prev < 0 ? 1 : c.i(0, 3);
    EVec d = EVec::Zero();
    double a = mode == 0 ? 0 : mode == 1 ? 0.3 : mode == 2 ? 1.0 : 2.5;
    // The covariance of the stretch (latest covariance lies at or before `now`).
    Eigen::MatrixXd Pat, F = Eigen::MatrixXd::Identity(NE, NE); State old;
    StatePtr so;
    // propagate the covariance from the last updated node, or the start, up to `at`
    {
      int from = prev < 0 ? 0 : prev;
      StatePtr x(new State); StatePtr b = r.at(imus[from].t);
      copyvals(*x, *b); x->time = b->time; x->a_m = b->a_m; x->w_m = b->w_m;
      if (prev >= 0) copyvals(old, *b);
      for (int j = from + 1; j <= at; ++j) {
        StatePtr y(new State); StatePtr bj = r.at(imus[j].t);
        copyvals(*y, *bj); y->time = bj->time; y->a_m = bj->a_m; y->w_m = bj->w_m;
        refr.core().PredictProcessCovariance(x, y);
        F = Eigen::MatrixXd(x->Fd) * F;
        x = y;
      }
      Pat = x->P;
    }
    for (int i = 0; i < NE; ++i) d[i] = c.sym(1) * a * std::min(0.05, std::sqrt(Pat(i, i)));
    boxplus(truth, d);
    // The absolute value this sensor reports next: an arbitrary drifted frame
    // would do; the first one fixes it.
    Z z;
    if (prev < 0) { z = sens::hpose(truth); z.v += gvec(c, 3); z.q[0] = expq(gvec(c, 3)) * z.q[0]; }
    else {
      Z rel = hrel(old, mode == 0 ? before : truth);
      z.v = zprev.v + rel.v; z.q.push_back(zprev.q[0] * rel.q[0]);
    }
    Eigen::MatrixXd R = Eigen::MatrixXd::Zero(6, 6);
    if (fixedcov) { for (int i = 0; i < 3; ++i) { R(i, i) = sg.p * sg.p; R(i + 3, i + 3) = sg.q * sg.q; } }
    else { R.block(0, 0, 3, 3) = gspd(c, 3, 0.03, 0.5, false); R.block(3, 3, 3, 3) = gspd(c, 3, 0.03, 0.3, !world_sensor); }
    geometry_msgs::PoseWithCovarianceStamped m;
    Q mq = z.q[0]; V3 mp = z.v; Eigen::MatrixXd M = R;
    if (!world_sensor) {
      mq = z.q[0].conjugate(); mp = -(mq * V3(z.v));
      Eigen::MatrixXd C = mq.toRotationMatrix();
      M.block(0, 0, 3, 3) = C * R.block(0, 0, 3, 3) * C.transpose();
    }
    if (c.boolean()) mq.coeffs() = -mq.coeffs();
    m.header.stamp = rt(imus[at].t); m.header.seq = seq++;
    m.pose.pose.position.x = mp[0]; m.pose.pose.position.y = mp[1]; m.pose.pose.position.z = mp[2];
    m.pose.pose.orientation.w = mq.w(); m.pose.pose.orientation.x = mq.x(); m.pose.pose.orientation.y = mq.y(); m.pose.pose.orientation.z = mq.z();
    if (!fixedcov) for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) m.pose.covariance[6 * i + j] = M(i, j);
    c.note() << "pose at reading " << at << " (newest " << k << ", previous pose at " << prev << "), perturbation mode " << mode << (world_sensor ? "" : ", inverted") << (fixedcov ? ", fixed covariance" : "") << (gate ? ", gated" : "") << "\n";
    PBT_REQUIRE(world().deliver("/msf_updates/pose_with_covariance_input", m) >= 1, "pose topic has no subscriber");
    StatePtr after = r.at(imus[at].t);
    PBT_REQUIRE(after->time == ts(imus[at].t), "state vanished after the update");
    before.P = Pat;
    if (prev < 0) {
      double ds = statediff(*after, before), dp = covdiff(after->P, Pat);
      PBT_REQUIRE(ds == 0 && dp < 1e-9, "the first relative measurement changed the state by " << ds << " and the covariance by " << dp);
      c.label("first");
    } else {
      StatePtr o2 = r.at(imus[prev].t);
      PBT_REQUIRE(statediff(*o2, old) == 0 && covdiff(o2->P, old.P) < 1e-12, "the state at the previous measurement changed");
      // two-state model, differentiated numerically
      HFun hn = [&](const State& x) { return hrel(old, x); }, ho = [&](const State& x) { return hrel(x, before); };
      Eigen::MatrixXd Hn = jac4(before, hn), Ho = jac4(old, ho);
      Z zrel; zrel.v = z.v - zprev.v; zrel.q.push_back(zprev.q[0].conjugate() * z.q[0]);
      Z z0 = hrel(old, before);
      Expect e; Eigen::VectorXd dg; double mg;
      joint(old.P, F, Pat, Ho, Hn, minus(zrel, z0), R, &e.d, &e.P, &e.mahal);
      joint(old.P, F, Pat, Ho, Hn, minus(zrel, z0, true), R, &dg, &e.P, &mg);
      e.slack = (e.d - dg).cwiseAbs(); e.d = 0.5 * (e.d + dg);
      if (mode == 0) {
        EVec g = boxminus(*after, before);
        PBT_REQUIRE(g.cwiseAbs().maxCoeff() < 1e-6, "a relative measurement equal to its prediction moved the estimate by " << g.cwiseAbs().maxCoeff());
      }
      if (gate && mode && std::fabs(e.mahal - thr) < 2e-2 * thr) { c.label("on-the-gate"); return; }
      if (G<D::L>(before)[0] + e.d[15] < 0.05) { c.label("scale-protection"); return; }
      if (gate && e.mahal > thr) {
        c.label("rejected");
        double ds = statediff(*after, before), dp = covdiff(after->P, Pat);
        PBT_REQUIRE(ds == 0 && dp < 1e-9, "a rejected relative measurement changed the state by " << ds << " and the covariance by " << dp);
      } else {
        c.label("applied");
        model::check(c, before, *after, e, "relative pose update");
        if (mode && at > prev + 1) informative = true;
      }
    }
    prev = at; zprev = z; ++np;
  }
  c.nontrivial(informative);
}
#endif
