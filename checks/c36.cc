// The evaluation tool's own main() runs on a bag held in memory; its output file
// is compared with a reference evaluation computed with plain rigid transforms.
#include "pbt.h"
#include <cerrno>
#include <cstdlib>
#include <fstream>
#include <unistd.h>
#include <sys/stat.h>
#include <Eigen/Dense>
#define ROS_PACKAGE_NAME "msf_eval"
#include <msf_core/msf_macros.h>
#define main eval_main
#include "../../msf_eval/src/msf_eval.cpp"
#undef main
typedef Eigen::Isometry3d Iso;
typedef long long ll;
static const ll kShift = 3900000;  // clock offset of the ground truth
static ros::Time rt(ll ns) { return ros::Time(uint32_t(ns / 1000000000), uint32_t(ns % 1000000000)); }
static Eigen::Quaterniond gq(pbt::Ctx& c, double a) { Eigen::Vector3d v(c.sym(1), c.sym(1), c.sym(1)); if (v.norm() < 1e-6) v = Eigen::Vector3d::UnitZ(); return Eigen::Quaterniond(Eigen::AngleAxisd(c.sym(a), v.normalized())); }
static Iso giso(pbt::Ctx& c, double a, double r) { Iso T = Iso::Identity(); T.linear() = gq(c, a).toRotationMatrix(); T.translation() = Eigen::Vector3d(c.sym(r), c.sym(r), c.sym(r)); return T; }
static Iso calibration() {
  Eigen::Matrix4d M;
  M << 0.999706627053000, -0.022330158354000, 0.005123243528000, -0.060614697387000, 0.022650462142000, 0.997389634278000, -0.068267398302000, 0.035557942651000, -0.003589706237000, 0.068397960288000, 0.997617159323000, -0.042589657349000, 0, 0, 0, 1.000000000000000;
  Iso T = Iso::Identity(); T.linear() = Eigen::Quaterniond(Eigen::Matrix3d(M.topLeftCorner<3, 3>())).normalized().toRotationMatrix(); T.translation() = M.topRightCorner<3, 1>(); return T;
}
struct P { ll t; Iso T; double cov[36]; bool neg = false; };  // neg: send the negated quaternion
typedef std::vector<double> Row;
static double angle(const Eigen::Matrix3d& R) { return Eigen::AngleAxisd(Eigen::Quaterniond(R).normalized()).angle(); }
struct Ref { bool sync = false; std::vector<Row> rows, pe, pg; bool borderline = false; int runs = 0; };
static Ref reference(const std::vector<P>& ev, const std::vector<P>& gt, bool single) {
  Ref r; const Iso B = calibration();
  size_t g0 = 0;
  while (g0 < gt.size() && ev[0].t >= gt[g0].t + kShift) ++g0;
  if (g0 == gt.size()) return r;
  r.sync = true;
  const ll start = gt[g0].t + kShift;
  for (ll off = 10000000000ll;; off += 10000000000ll) {
    ++r.runs;
    int n = 0; double ds = 0; ll last = 0; Iso A = Iso::Identity(), prev = Iso::Identity();
    size_t e = 0;
    for (size_t g = g0; g < gt.size(); ++g) {
      const ll tg = gt[g].t + kShift;
      while (e < ev.size() && ev[e].t < tg) ++e;
      if (e == ev.size()) break;
      if (tg - start < off) continue;
      const Iso E = ev[e].T, G = gt[g].T;
      const double late = std::abs(double(tg - ev[e].t)) * 1e-9, gap = double(ev[e].t - last) * 1e-9;
      if (std::abs(late - 0.005) < 1e-7 || std::abs(gap - 0.049) < 1e-7) r.borderline = true;
      if (n == 0 && !(late < 0.005)) continue;  // the world frames are aligned by a pair taken at the same time
      if (n == 0) { A = E * B * G.inverse(); prev = G; }
      const Iso X = A * G * B.inverse(), D = E * X.inverse();
      ds += (G.translation() - prev.translation()).norm(); prev = G;
      if (late < 0.005 && gap > 0.049) {
        if (off == 10000000000ll) { r.pe.push_back({E.translation()[0], E.translation()[1], E.translation()[2]}); r.pg.push_back({G.translation()[0], G.translation()[1], G.translation()[2]}); }
        const double* k = ev[e].cov;
        r.rows.push_back({double(tg - start) * 1e-9, ds, (E.translation() - X.translation()).norm(), angle(D.linear()), std::acos(std::min(1.0, D.linear()(2, 2))), k[0], k[7], k[14], k[21], k[28], k[35]});
        last = ev[e].t;
      }
      ++n;
    }
    if (n == 0 || single) break;
  }
  return r;
}
struct Out { int rc = 0; bool complete = false; std::vector<Row> data, poses, gt; };
static bool parse(const std::string& text, Out& o) {  // three bracketed blocks of ';'-terminated rows
  const char* names[3] = {"data=[", "poses = [", "poses_GT = ["};
  std::vector<Row>* dst[3] = {&o.data, &o.poses, &o.gt};
  for (int k = 0; k < 3; ++k) {
    size_t a = text.find(names[k]);
    if (a == std::string::npos) return false;
    a += strlen(names[k]);
    size_t b = text.find("];", a);
    if (b == std::string::npos) return false;
    std::istringstream is(text.substr(a, b - a));
    std::string row;
    while (std::getline(is, row, ';')) {
      std::istringstream rs(row); Row v; std::string w;
      while (rs >> w) v.push_back(strtod(w.c_str(), nullptr));
      if (!v.empty()) dst[k]->push_back(v);
    }
  }
  o.complete = true;
  return true;
}
static Out evaluate(const std::vector<P>& ev, const std::vector<P>& gt, int single, bool merge) {
  rosbag::contents().clear();
  auto add_e = [](const P& p) {
    geometry_msgs::PoseWithCovarianceStamped m; m.header.stamp = rt(p.t);
    Eigen::Quaterniond q(p.T.linear()); if (p.neg) q.coeffs() *= -1;
    m.pose.pose.position.x = p.T.translation()[0]; m.pose.pose.position.y = p.T.translation()[1]; m.pose.pose.position.z = p.T.translation()[2];
    m.pose.pose.orientation.w = q.w(); m.pose.pose.orientation.x = q.x(); m.pose.pose.orientation.y = q.y(); m.pose.pose.orientation.z = q.z();
    for (int i = 0; i < 36; ++i) m.pose.covariance[i] = p.cov[i];
    rosbag::add("/est", m);
  };
  auto add_g = [](const P& p) {
    geometry_msgs::TransformStamped m; m.header.stamp = rt(p.t);
    Eigen::Quaterniond q(p.T.linear()); if (p.neg) q.coeffs() *= -1;
    m.transform.translation.x = p.T.translation()[0]; m.transform.translation.y = p.T.translation()[1]; m.transform.translation.z = p.T.translation()[2];
    m.transform.rotation.w = q.w(); m.transform.rotation.x = q.x(); m.transform.rotation.y = q.y(); m.transform.rotation.z = q.z();
    rosbag::add("/gt", m);
  };
  size_t a = 0, b = 0;
  while (a < ev.size() || b < gt.size()) if (b == gt.size() || (a < ev.size() && (!merge || ev[a].t <= gt[b].t))) add_e(ev[a++]); else add_g(gt[b++]);
  char dir[] = "/tmp/msf_eval_XXXXXX";
  if (!mkdtemp(dir)) { perror("mkdtemp"); exit(5); }
  std::string d(dir); mkdir((d + "/Matlab").c_str(), 0700);
  fakeros::package_dir() = d;
  ros::Time::setNow(ros::Time(77, 0));
  std::string argvs[5] = {"msf_eval", "x.bag", "/est", "/gt", single ? "1" : "0"};
  char* argv[6]; for (int i = 0; i < 5; ++i) argv[i] = &argvs[i][0];
  argv[5] = nullptr;
  Out o;
  std::string err;
  try { o.rc = eval_main(single < 0 ? 4 : 5, argv); } catch (const std::exception& e) { err = e.what(); }
  const std::string f = d + "/Matlab/matlab_data77.m";
  std::ifstream in(f); std::stringstream ss; ss << in.rdbuf();
  unlink(f.c_str()); rmdir((d + "/Matlab").c_str()); rmdir(dir);
  if (!err.empty()) throw pbt::Failure{"the tool threw: " + err};
  parse(ss.str(), o);
  return o;
}
static bool near(double a, double b, double tol) { return std::abs(a - b) <= tol + 2e-5 * std::abs(b); }
static void gen(pbt::Ctx& c, std::vector<P>& ev, std::vector<P>& gt, bool perfect, double& secs) {
  secs = c.oneof({12.0, 8.0, 15.0, 23.0, 34.0});
  const int pg = c.oneof({100, 50, 20, 205, 46});
  const bool aligned = !perfect && c.chance(60);
  const int pe = aligned ? pg : c.oneof({100, 53, 33, 210});
  const ll t0 = 1000000000000ll + c.i(0, 1000000) * 1000ll;
  const ll lead = aligned ? c.i(-3, 3) * pg * 1000000ll : c.i(-300, 300) * 1000000ll;
  const Iso W = giso(c, 3.1, 50), B = calibration();
  Iso T = giso(c, 3, 5);
  Eigen::Vector3d v(c.sym(2), c.sym(2), c.sym(2)), w(c.sym(1), c.sym(1), c.sym(1));
  const Eigen::Vector3d p0 = T.translation(); const Eigen::Quaterniond q0(T.linear());
  auto at = [&](double t) { Iso X = Iso::Identity(); X.translation() = p0 + v * std::sin(t); if (w.norm() > 1e-9) X.linear() = (q0 * Eigen::Quaterniond(Eigen::AngleAxisd(w.norm() * t, w.normalized()))).toRotationMatrix(); else X.linear() = q0.toRotationMatrix(); return X; };
  for (ll t = 0; t < secs * 1e9; t += pg * 1000000ll) {
    if (c.chance(3)) { t += c.i(1, 4) * 300000000ll; c.label("ground truth gap"); }
    P p; p.t = t0 + t; p.T = at(t * 1e-9); p.neg = c.chance(20); gt.push_back(p);
  }
  const ll phase = aligned ? kShift + 400000ll + c.i(0, 5) * 1000000ll : 400000ll + c.i(0, pe - 1) * 1000000ll;
  for (ll t = 0; t < secs * 1e9; t += (perfect ? pg : pe) * 1000000ll) {
    P p;
    if (!perfect && c.chance(3)) { t += c.i(1, 4) * 300000000ll; c.label("estimate gap"); }
    p.t = t0 + t + phase + (perfect ? 0 : lead + c.i(0, 3) * 100000ll);
    const Iso G = at(t * 1e-9);
    p.T = W * G * B.inverse();
    if (!perfect) p.T = p.T * giso(c, 1.5, 1);
    for (int i = 0; i < 36; ++i) p.cov[i] = (i % 7 ? 0.5 : 1) + i * 0.01 + 0.001 * (ev.size() % 50);
    p.neg = c.chance(20);
    ev.push_back(p);
  }
}
PBT_TARGET(reference, "trajectories with different rates, clock leads, gaps, body and world frames; the written evaluation is compared with a reference; non-trivial: at least 20 reported rows and two starting points") {
  std::vector<P> ev, gt; double secs;
  gen(c, ev, gt, false, secs);
  const int single = c.i(-1, 1);
  Ref r = reference(ev, gt, single == 1);
  c.note() << ev.size() << " estimates from " << ev[0].t << ", " << gt.size() << " ground truth poses from " << gt[0].t << ", " << secs << " s, argument " << single << "; reference rows " << r.rows.size() << ", runs " << r.runs;
  if (r.borderline) { c.label("borderline"); return; }
  Out o = evaluate(ev, gt, single, c.boolean());
  if (!r.sync) { c.label("no sync"); PBT_REQUIRE(o.rc != 0, "no common time, yet the tool reports success"); return; }
  PBT_REQUIRE(o.complete, "the output file is not complete");
  PBT_REQUIRE(o.rc == 0, "exit status " << o.rc);
  PBT_REQUIRE(o.data.size() == r.rows.size(), o.data.size() << " rows reported, reference has " << r.rows.size());
  static const char* nm[11] = {"time", "distance travelled", "translation error", "rotation error", "vertical error", "cov 0", "cov 1", "cov 2", "cov 3", "cov 4", "cov 5"};
  for (size_t i = 0; i < r.rows.size(); ++i) {
    PBT_REQUIRE(o.data[i].size() == 11, "row " << i << " has " << o.data[i].size() << " columns");
    for (int k = 0; k < 11; ++k) PBT_REQUIRE(near(o.data[i][k], r.rows[i][k], k >= 3 && k <= 4 ? 2e-6 : 1e-6), "row " << i << ": " << nm[k] << " is " << o.data[i][k] << ", reference " << r.rows[i][k]);
  }
  PBT_REQUIRE(o.poses.size() == r.pe.size() && o.gt.size() == r.pg.size(), "position lists have " << o.poses.size() << "/" << o.gt.size() << " entries, reference " << r.pe.size() << "/" << r.pg.size());
  for (size_t i = 0; i < r.pe.size(); ++i) {
    PBT_REQUIRE(o.poses[i].size() == 3 && o.gt[i].size() == 3, "position " << i << " is not a 3-vector");
    for (int k = 0; k < 3; ++k) PBT_REQUIRE(near(o.poses[i][k], r.pe[i][k], 1e-6) && near(o.gt[i][k], r.pg[i][k], 1e-6), "position " << i << " differs");
  }
  c.label("runs " + std::to_string(r.runs));
  c.nontrivial(r.rows.size() >= 20 && r.runs >= 2);
}
PBT_TARGET(perfect, "an estimate that is the ground truth in another world frame: zero error everywhere, and nothing changes when that frame is moved; non-trivial: at least 20 rows") {
  std::vector<P> ev, gt; double secs;
  gen(c, ev, gt, true, secs);
  std::vector<P> e2;
  const ll after = kShift + c.i(0, 4) * 1000000ll;
  const int drop = c.oneof({0, 5, 40});
  for (const P& g : gt) { P p = g; if (&g != &gt[0] && c.chance(drop)) continue; p.T = ev[0].T * calibration() * gt[0].T.inverse() * g.T * calibration().inverse(); p.t = g.t + after; for (int i = 0; i < 36; ++i) p.cov[i] = i; e2.push_back(p); }
  c.label("dropped " + std::to_string(drop) + " %");
  c.note() << gt.size() << " ground truth poses, " << e2.size() << " estimates, estimate " << (e2[0].t - gt[0].t) << " ns after the ground truth";
  Out o = evaluate(e2, gt, -1, true);
  if (e2.back().t - e2[0].t < 10500000000ll) c.label("too short"); else PBT_REQUIRE(o.complete && (drop || !o.data.empty()), "no evaluation was written");
  for (size_t i = 0; i < o.data.size(); ++i) {
    PBT_REQUIRE(o.data[i].size() == 11, "row " << i << " has " << o.data[i].size() << " columns");
    for (int k = 2; k < 5; ++k) PBT_REQUIRE(std::abs(o.data[i][k]) < 1e-5, "a perfect estimate has error " << o.data[i][k] << " in column " << k << " of row " << i);
  }
  const Iso M = giso(c, 3, 10);
  for (P& p : e2) p.T = M * p.T;
  Out n = evaluate(e2, gt, -1, false);
  PBT_REQUIRE(n.data.size() == o.data.size(), "moving the estimator's world frame changes the number of rows");
  for (size_t i = 0; i < n.data.size(); ++i) for (int k = 0; k < 11; ++k) PBT_REQUIRE(near(n.data[i][k], o.data[i][k], 1e-5), "moving the estimator's world frame changes column " << k << " of row " << i);
  c.nontrivial(o.data.size() >= 20);
}
PBT_TARGET(unusable, "arguments or bags that cannot be evaluated are reported through the exit status; non-trivial: every case") {
  const int kind = c.i(0, 3);
  rosbag::contents().clear();
  char dir[] = "/tmp/msf_eval_XXXXXX";
  if (!mkdtemp(dir)) { perror("mkdtemp"); exit(5); }
  std::string d(dir); mkdir((d + "/Matlab").c_str(), 0700);
  fakeros::package_dir() = d; ros::Time::setNow(ros::Time(77, 0));
  geometry_msgs::PoseWithCovarianceStamped e; e.pose.pose.orientation.w = 1; geometry_msgs::TransformStamped g; g.transform.rotation.w = 1;
  const int ne = c.i(1, 20), ng = c.i(1, 20), delay = c.i(0, 5);
  for (int i = 0; i < ne && kind != 1; ++i) { e.header.stamp = ros::Time(100 + i, 0); rosbag::add("/est", e); }
  for (int i = 0; i < ng && kind != 2; ++i) { g.header.stamp = ros::Time(100 - delay - ng + i, 0); rosbag::add("/gt", g); }  // the ground truth ends before the estimate starts
  std::string argvs[4] = {"msf_eval", "x.bag", "/est", "/gt"};
  char* argv[5]; for (int i = 0; i < 4; ++i) argv[i] = &argvs[i][0];
  argv[4] = nullptr;
  static const char* nm[4] = {"no common time", "no estimate", "no ground truth", "too few arguments"};
  c.note() << nm[kind] << ", " << ne << " estimates, " << ng << " ground truth poses"; c.label(nm[kind]);
  int rc = 0; std::string err;
  int args = 4;
  if (kind == 3) { args = c.i(1, 3); argv[args] = nullptr; }
  try { rc = eval_main(args, argv); } catch (const std::exception& x) { err = x.what(); }
  unlink((d + "/Matlab/matlab_data77.m").c_str()); rmdir((d + "/Matlab").c_str()); rmdir(dir);
  PBT_REQUIRE(err.empty(), "the tool threw: " << err);
  PBT_REQUIRE(rc != 0, nm[kind] << ": the tool reports success");
  c.nontrivial();
}
