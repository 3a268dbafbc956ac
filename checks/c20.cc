#include <map>
#include <set>
#include "sensors.h"
#include <sensor_fusion_comm/DoubleMatrixStamped.h>
using namespace model;
using namespace hist;
// Every message published by the manager against the state it was published for.
namespace {
typedef geometry_msgs::PoseWithCovarianceStamped PoseMsg;
typedef sensor_fusion_comm::ExtEkf Ekf;
typedef sensor_fusion_comm::DoubleMatrixStamped MatMsg;
struct Pub {
  char kind; StatePtr s; size_t first, ftf; V3 gyr; Ekf hl; bool have_hl; int64_t now; int ev;
};
StatePtr snap(const State& s) { StatePtr y(new State); copyvals(*y, s); return y; }
struct RawF {  // declaration order, quaternion w x y z, no sign change
  std::vector<double>* o;
  void put(const Q& q) { o->push_back(q.w()); o->push_back(q.x()); o->push_back(q.y()); o->push_back(q.z()); }
  template <int N> void put(const Eigen::Matrix<double, N, 1>& m) { for (int i = 0; i < N; ++i) o->push_back(m[i]); }
  template <class V> void operator()(V& v, int, int) { put(v.state_); }
};
struct UnitF { double* w; void put(const Q& q) { *w = std::max(*w, std::fabs(q.norm() - 1)); } template <int N> void put(const Eigen::Matrix<double, N, 1>&) {} template <class V> void operator()(V& v, int, int) { put(v.state_); } };
// Index of a state in the error state.
int eidx(int state) { State s; int idx = 0, r = -1; visit(s, [&](auto& v, int i, int) { if (i == state) r = idx; idx += v.sizeInCorrection_; }); return r; }
bool close(double a, double b, double tol) { return std::fabs(a - b) <= tol * std::max(1.0, std::fabs(b)); }
double covscale(const State& s, int i, int j) { return std::sqrt(std::fabs(s.P(i, i) * s.P(j, j))) + 1e-30; }
const std::set<std::string>& afterprop() { static std::set<std::string> s = {"pose", "odometry", "ext_state"}; return s; }
struct Checker {
  pbt::Ctx& c; std::string frame, child, tfchild; bool playback; std::map<std::string, int> subs; int ip, iv, iq, iw;
  Checker(pbt::Ctx& c) : c(c), ip(eidx(D::p)), iv(eidx(D::v)), iq(eidx(D::q)), iw(eidx(D::b_w)) {}
  template <class V> void vec(const char* what, const V& m, const V3& e) { PBT_REQUIRE(close(m.x, e[0], 1e-9) && close(m.y, e[1], 1e-9) && close(m.z, e[2], 1e-9), what << " is (" << m.x << ' ' << m.y << ' ' << m.z << "), expected " << e.transpose()); }
  template <class M> void quat(const char* what, const M& m, const Q& e) {
    Q g(m.w, m.x, m.y, m.z);
    PBT_REQUIRE(std::fabs(g.norm() - 1) < 1e-6, what << " is not a unit quaternion");
    PBT_REQUIRE((g.toRotationMatrix() - e.toRotationMatrix()).cwiseAbs().maxCoeff() < 1e-9, what << " is " << g.coeffs().transpose() << ", expected " << e.coeffs().transpose());
  }
  template <class H> void head(const char* what, const H& h, const State& s, const std::string* f) {
    PBT_REQUIRE(std::fabs(h.stamp.toSec() - s.time) < 1e-6, what << " is stamped " << h.stamp.toSec() << ", the state " << s.time);
    if (f) PBT_REQUIRE(h.frame_id == *f, what << " is given in frame '" << h.frame_id << "', expected '" << *f << "'");
  }
  template <class C> void posecov(const char* what, const C& cov, const State& s) {
    for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) {
      int a = i < 3 ? ip + i : iq + i - 3, b = j < 3 ? ip + j : iq + j - 3;
      PBT_REQUIRE(std::fabs(cov[6 * i + j] - s.P(a, b)) <= 1e-7 * covscale(s, a, b), what << ": covariance entry " << i << ',' << j << " is " << cov[6 * i + j] << ", expected " << s.P(a, b));
    }
  }
  void posemsg(const char* what, const PoseMsg& m, const State& s) {
    head(what, m.header, s, &frame);
    vec(what, m.pose.pose.position, s.Get<D::p>());
    quat(what, m.pose.pose.orientation, s.Get<D::q>());
    posecov(what, m.pose.covariance, s);
  }
  void odometry(const nav_msgs::Odometry& m, const State& s, const V3& gyr) {
    head("odometry", m.header, s, &frame);
    PBT_REQUIRE(m.child_frame_id == child, "odometry child frame '" << m.child_frame_id << "', expected '" << child << "'");
    vec("odometry position", m.pose.pose.position, s.Get<D::p>());
    quat("odometry attitude", m.pose.pose.orientation, s.Get<D::q>());
    posecov("odometry pose", m.pose.covariance, s);
    Q q = s.Get<D::q>(); V3 v = s.Get<D::v>(), bw = s.Get<D::b_w>();
    V3 lin = q.conjugate() * v;
    vec("odometry velocity", m.twist.twist.linear, lin);
    vec("odometry turn rate", m.twist.twist.angular, s.w_m - bw);
    // covariance of the body velocity: numeric derivative with respect to velocity and attitude errors
    Eigen::Matrix<double, 3, 6> J;
    for (int k = 0; k < 6; ++k) {
      const double h = 1e-6;
      V3 r[2];
      for (int sgn = 0; sgn < 2; ++sgn) {
        State x; copyvals(x, s);
        EVec d = EVec::Zero(); d[k < 3 ? iv + k : iq + k - 3] = sgn ? -h : h;
        boxplus(x, d);
        const State& cx = x;
        r[sgn] = cx.Get<D::q>().conjugate() * V3(cx.Get<D::v>());
      }
      J.col(k) = (r[0] - r[1]) / (2 * h);
    }
    Eigen::Matrix<double, 6, 6> P6;
    for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) P6(i, j) = s.P(i < 3 ? iv + i : iq + i - 3, j < 3 ? iv + j : iq + j - 3);
    M3 lc = J * P6 * J.transpose();
    double sc = 0; for (int i = 0; i < 6; ++i) sc = std::max(sc, P6(i, i) * J.col(i).squaredNorm());
    for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) {
      double got = m.twist.covariance[6 * i + j], want, tol;
      if (i < 3 && j < 3) { want = lc(i, j); tol = 1e-6 * (sc + 1e-30); }
      else if (i >= 3 && j >= 3) { want = s.P(iw + i - 3, iw + j - 3) + (i == j ? gyr[i - 3] * gyr[i - 3] : 0); tol = 1e-7 * (covscale(s, iw + i - 3, iw + j - 3) + gyr[0] * gyr[0]); }
      else continue;
      PBT_REQUIRE(std::fabs(got - want) <= tol, "odometry twist covariance entry " << i << ',' << j << " is " << got << ", expected " << want);
    }
  }
  void ext(const sensor_fusion_comm::ExtState& m, const State& s) {
    head("ext_state", m.header, s, &frame);
    vec("ext_state position", m.pose.position, s.Get<D::p>());
    quat("ext_state attitude", m.pose.orientation, s.Get<D::q>());
    vec("ext_state velocity", m.velocity, s.Get<D::v>());
  }
  std::vector<double> core16(const State& s) {
    V3 p = s.Get<D::p>(), v = s.Get<D::v>(), w = s.Get<D::b_w>(), a = s.Get<D::b_a>(); Q q = s.Get<D::q>();
    return {p[0], p[1], p[2], v[0], v[1], v[2], q.w(), q.x(), q.y(), q.z(), w[0], w[1], w[2], a[0], a[1], a[2]};
  }
  void correction(const Ekf& m, const Pub& p) {
    const State& s = *p.s;
    head("correction", m.header, s, nullptr);
    PBT_REQUIRE(m.state.size() == 16, "correction has " << m.state.size() << " entries");
    PBT_REQUIRE(m.angular_velocity.x == 0 && m.angular_velocity.y == 0 && m.angular_velocity.z == 0 && m.linear_acceleration.x == 0 && m.linear_acceleration.y == 0 && m.linear_acceleration.z == 0, "correction carries readings");
    double n = 0; for (int i = 6; i < 10; ++i) n += m.state[i] * m.state[i];
    PBT_REQUIRE(std::fabs(n - 1) < 1e-5, "attitude in the correction has squared norm " << n);
    if (p.kind == 'i') {
      PBT_REQUIRE(m.flag == int(Ekf::initialization), "initial state announced with flag " << m.flag);
      std::vector<double> e = core16(s);
      for (int i = 0; i < 16; ++i) PBT_REQUIRE(close(m.state[i], e[i], 1e-6), "initial state entry " << i << " is " << m.state[i] << ", expected " << e[i]);
      return;
    }
    if (playback) {
      PBT_REQUIRE(m.flag == int(Ekf::initialization), "correction during playback with flag " << m.flag);
      for (int i = 0; i < 16; ++i) PBT_REQUIRE(m.state[i] == (i == 6 ? 1 : 0), "correction during playback is not neutral");
      return;
    }
    PBT_REQUIRE(m.flag == int(Ekf::state_correction), "correction with flag " << m.flag);
    if (!p.have_hl) return;
    // external state plus correction = estimate
    std::vector<double> e = core16(s);
    for (int i = 0; i < 16; ++i) if (i < 6 || i > 9) PBT_REQUIRE(std::fabs(double(p.hl.state[i]) + m.state[i] - e[i]) <= 3e-7 * (1 + std::fabs(p.hl.state[i]) + std::fabs(e[i])), "external state " << p.hl.state[i] << " plus correction " << m.state[i] << " (entry " << i << ") is not the estimate " << e[i]);
    Q h(p.hl.state[6], p.hl.state[7], p.hl.state[8], p.hl.state[9]), d(m.state[6], m.state[7], m.state[8], m.state[9]);
    h.normalize(); d.normalize();
    double ang = logq((h * d).conjugate() * s.Get<D::q>()).norm();
    PBT_REQUIRE(ang < 5e-6, "external attitude with the correction is " << ang << " rad from the estimate");
  }
  void mat(const char* what, const MatMsg& m, const State& s, int r0, int r1, int c0, int c1) {
    head(what, m.header, s, nullptr);
    int nr = r1 - r0, nc = c1 - c0;
    PBT_REQUIRE(m.rows == nr && m.cols == nc && int(m.data.size()) == nr * nc, what << " is " << m.rows << "x" << m.cols << " with " << m.data.size() << " entries, expected " << nr << "x" << nc);
    for (int i = 0; i < nr; ++i) for (int j = 0; j < nc; ++j) PBT_REQUIRE(std::fabs(m.data[i * nc + j] - s.P(r0 + i, c0 + j)) <= 1e-12 * covscale(s, r0 + i, c0 + j), what << " entry " << i << ',' << j << " is " << m.data[i * nc + j] << ", expected " << s.P(r0 + i, c0 + j));
  }
  template <class M> boost::shared_ptr<const M> as(const fakeros::PubRecord& r) {
    PBT_REQUIRE(r.type == std::type_index(typeid(M)), "wrong message type on " << r.topic);
    return boost::static_pointer_cast<const M>(r.msg);
  }
  void check(const Pub& p, size_t end, size_t endtf) {
    const State& s = *p.s;
    std::map<std::string, int> seen;
    for (size_t i = p.first; i < end; ++i) {
      const fakeros::PubRecord& r = world().pub[i];
      if (r.topic.compare(0, 10, "/msf_core/")) continue;
      std::string n = r.topic.substr(10);
      ++seen[n];
      if (n == "pose") posemsg("pose", *as<PoseMsg>(r), s);
      else if (n == "pose_after_update") posemsg("pose_after_update", *as<PoseMsg>(r), s);
      else if (n == "odometry") odometry(*as<nav_msgs::Odometry>(r), s, p.gyr);
      else if (n == "ext_state") ext(*as<sensor_fusion_comm::ExtState>(r), s);
      else if (n == "correction") correction(*as<Ekf>(r), p);
      else if (n == "state_out") {
        auto m = as<sensor_fusion_comm::DoubleArrayStamped>(r);
        head("state_out", m->header, s, nullptr);
        std::vector<double> e; visit(*p.s, RawF{&e});
        PBT_REQUIRE(m->data.size() == e.size(), "state_out has " << m->data.size() << " entries, expected " << e.size());
        for (size_t k = 0; k < e.size(); ++k) PBT_REQUIRE(close(m->data[k], e[k], 1e-12), "state_out entry " << k << " is " << m->data[k] << ", expected " << e[k]);
        double w = 0; visit(*p.s, UnitF{&w});
        PBT_REQUIRE(w < 1e-6, "a published attitude state is not a unit quaternion");
      }
      else if (n == "cov_core") mat("cov_core", *as<MatMsg>(r), s, 0, 15, 0, 15);
      else if (n == "cov_aux") mat("cov_aux", *as<MatMsg>(r), s, 15, NE, 15, NE);
      else if (n == "cov_core_aux") mat("cov_core_aux", *as<MatMsg>(r), s, 0, 15, 15, NE);
    }
    std::vector<std::string> want;
    if (p.kind == 'p') want = {"pose", "odometry", "ext_state"};
    else if (p.kind == 'i') want = {"correction"};
    else want = {"correction", "state_out", "pose_after_update", "cov_core", "cov_aux", "cov_core_aux"};
    for (auto& n : want) {
      PBT_REQUIRE(seen[n] <= 1, n << " was published " << seen[n] << " times for one state");
      if (subs[n]) PBT_REQUIRE(seen[n] == 1, n << " has a subscriber but nothing was published for the state at " << s.time);
    }
    if (p.kind == 'u') {
      PBT_REQUIRE(endtf == p.ftf + 1, endtf - p.ftf << " transforms were sent for one update");
      auto t = std::any_cast<tf::StampedTransform>(world().tfs[p.ftf]);
      PBT_REQUIRE(t.frame_id_ == frame && t.child_frame_id_ == tfchild, "transform from '" << t.frame_id_ << "' to '" << t.child_frame_id_ << "', expected '" << frame << "' to '" << tfchild << "'");
      V3 o(t.o.x(), t.o.y(), t.o.z()), e = s.Get<D::p>();
      PBT_REQUIRE((o - e).norm() < 1e-9 * (1 + e.norm()), "transform origin " << o.transpose() << ", expected " << e.transpose());
      struct { double w, x, y, z; } qq = {t.q.w(), t.q.x(), t.q.y(), t.q.z()};
      quat("transform rotation", qq, s.Get<D::q>());
    }
    c.evals(1);
  }
};
}  // namespace
PBT_TARGET(publications, "runs with measurements of every sensor of the application at random delays, some with an external propagator or data playback, random frames and subscribers; every publication against a snapshot of the state; non-trivial: at least three updates and six propagations are published") {
  world().reset();
  gen_core_params(c);
  sens::params();
  Checker k(c);
  ros::NodeHandle nh("~core");
  k.frame = c.oneof<std::string>({"world", "map", "odom/local"}); k.child = c.oneof<std::string>({"imu", "body"}); k.tfchild = c.oneof<std::string>({"state", "uav/base"});
  if (k.frame != "world") nh.setParam("msf_output_frame", k.frame);
  if (k.child != "imu") nh.setParam("odometry_child_frame", k.child);
  if (k.tfchild != "state") nh.setParam("tf_target_frame", k.tfchild);
  k.playback = c.chance(15);
  nh.setParam("data_playback", k.playback);
  bool external = c.chance(45), partial = c.chance(30);
  const char* topics[] = {"pose", "odometry", "ext_state", "correction", "state_out", "pose_after_update", "cov_core", "cov_aux", "cov_core_aux"};
  for (auto t : topics) { k.subs[t] = partial ? c.i(0, 1) : 1; world().numsubs[std::string("/msf_core/") + t] = k.subs[t]; }
  State init; sens::gen_full_state(c, init);
  init.P = gcov(c, 1e-3, 0.2); init.a_m = V3(0, 0, 9.8); init.w_m.setZero();
  int64_t t0 = 50000000000ll + c.i(0, 1000000000);
  std::vector<Imu> imus = gen_imus(c, t0, init.a_m, init.w_m, 8 + c.i(0, 25), 4000000, 10000000);
  Rig r;
  auto cfg = r.cfg();
  sens::Sigma sig;
  sig.p = c.logu(0.03, 0.5); sig.q = c.logu(0.03, 0.3); sig.pos = c.logu(0.03, 0.5); sig.press = c.logu(0.03, 1); sig.ang = c.logu(0.03, 0.3); sig.dist = c.logu(0.03, 1);
  sens::configure(cfg, sig);
  r.setCfg(cfg);
  std::vector<Pub> pubs;
  Ekf hl; bool have_hl = false; int ev = 0; int64_t now = t0;
  r.m->hook = [&](char kind, const State& s) {
    Pub p; p.kind = kind; p.s = snap(s); p.first = world().pub.size(); p.ftf = world().tfs.size(); p.gyr = V3::Constant(r.coreCfg().core_noise_gyr);
    p.hl = hl; p.have_hl = have_hl; p.now = now; p.ev = ev;
    pubs.push_back(p);
  };
  init_from(r.core(), t0, init);
  PBT_REQUIRE(pubs.size() == 1 && pubs[0].kind == 'i', "no initial state was announced");
  PBT_REQUIRE(statediff(*pubs[0].s, init) < 1e-9, "the announced initial state is not the initial state");
  std::vector<int64_t> nodes; for (auto& u : imus) nodes.push_back(u.t);
  std::vector<int64_t> taken;
  uint32_t seq = 1; int nup = 0, nprop = 0;
  for (size_t j = 1; j < imus.size(); ++j) {
    ++ev; now = imus[j].t;
    ros::Time::setNow(rt(now + c.i(0, 30000000)));
    if (c.chance(5)) { auto cc = r.coreCfg(); cc.core_noise_gyr = c.logu(1e-4, 0.3); r.setCore(cc); }
    size_t n = pubs.size();
    if (external && (j == 1 || c.chance(85))) {
      Ekf m; m.header.stamp = rt(imus[j].t); m.header.seq = j;
      m.linear_acceleration.x = imus[j].a[0]; m.linear_acceleration.y = imus[j].a[1]; m.linear_acceleration.z = imus[j].a[2];
      m.angular_velocity.x = imus[j].w[0]; m.angular_velocity.y = imus[j].w[1]; m.angular_velocity.z = imus[j].w[2];
      std::vector<double> e = k.core16(init);
      V3 dp = gvec(c, 1), dv = gvec(c, 1); Q q = G<D::q>(init) * expq(gvec(c, 0.3));
      q.normalize();
      if (c.boolean()) q.coeffs() = -q.coeffs();
      for (int i = 0; i < 3; ++i) { e[i] += dp[i]; e[3 + i] += dv[i]; e[10 + i] += c.sym(0.1); e[13 + i] += c.sym(0.1); }
      e[6] = q.w(); e[7] = q.x(); e[8] = q.y(); e[9] = q.z();
      m.state.assign(e.begin(), e.end());
      m.flag = c.chance(80) ? Ekf::current_state : Ekf::ignore_state;
      hl = m; have_hl = true;
      world().deliver("/msf_core/hl_state_input", m);
      c.note() << "external state " << j << " at " << imus[j].t << "\n";
    } else {
      r.imu(imus[j].t, imus[j].a, imus[j].w);
    }
    int np = 0;
    for (size_t i = n; i < pubs.size(); ++i) if (pubs[i].kind == 'p') {
      ++np;
      PBT_REQUIRE(std::fabs(pubs[i].s->time - ts(imus[j].t)) < 1e-7, "after the reading at " << ts(imus[j].t) << " the state at " << pubs[i].s->time << " was published");
      PBT_REQUIRE((pubs[i].s->w_m - imus[j].w).norm() < 1e-9, "the published state does not carry the reading");
    }
    PBT_REQUIRE(np == 1, "a reading led to " << np << " publications");
    nprop += np;
    if (j >= 5 && c.chance(45)) {
      sens::Kind kd = c.pick(sens::kinds());
      int64_t tm = imus[j].t - c.i(0, 30000000);
      bool ok = tm > imus[1].t;
      for (auto x : taken) if (std::llabs(x - tm) < 2500000) ok = false;
      for (auto x : nodes) { int64_t d = std::llabs(x - tm); if (d < 20000 || (d > 950000 && d < 1050000)) ok = false; }
      if (ok) {
        taken.push_back(tm); ++ev;
        State x; copyvals(x, *r.at(imus[j].t));
        EVec d; for (int i = 0; i < NE; ++i) d[i] = c.sym(0.2);
        boxplus(x, d);
        if (std::isfinite(values(x)[0])) {
          Z z = sens::hfun(kd)(x);
          size_t n2 = pubs.size();
          sens::send(kd, tm, z, seq++);
          int nu = 0;
          for (size_t i = n2; i < pubs.size(); ++i) if (pubs[i].kind == 'u') ++nu;
          nup += nu;
          c.note() << "measurement kind " << kd << " at " << tm << ": " << nu << " update(s)\n";
        }
      }
    }
    for (size_t i = n; i < pubs.size(); ++i) if (pubs[i].kind == 'u') {
      PBT_REQUIRE(std::fabs(pubs[i].s->time - ts(imus[j].t)) < 1e-7, "after an update the state at " << pubs[i].s->time << " was published, the newest is at " << ts(imus[j].t));
      PBT_REQUIRE(i + 1 < pubs.size() || statediff(*pubs[i].s, *r.at(imus[j].t)) < 1e-12, "the state published after the update is not the filter state");
    }
    // the last publication is what the filter holds now
    const Pub& last = pubs.back();
    StatePtr cur = r.at(imus[j].t);
    if (!std::isfinite(values(*cur)[0])) { c.label("diverged"); return; }
    PBT_REQUIRE(statediff(*last.s, *cur) < 1e-12, "the last publication " << dump(*last.s) << " is not the current state " << dump(*cur));
    PBT_REQUIRE(covdiff(last.s->P, cur->P) < 1e-9, "the covariance of the last publication is not the current one");
  }
  for (size_t i = 0; i < pubs.size(); ++i)
    k.check(pubs[i], i + 1 < pubs.size() ? pubs[i + 1].first : world().pub.size(), i + 1 < pubs.size() ? pubs[i + 1].ftf : world().tfs.size());
  c.label(external ? "external" : "imu"); if (k.playback) c.label("playback"); if (partial) c.label("partial subscribers");
  if (nup >= 3 && nprop >= 6) c.nontrivial();
}
