#include "decode.h"
#include "gps.h"
using namespace model;
using namespace hist;
using decode::Event;
// Every position topic, GPS included, against a position update made by the
// harness itself.
namespace {
struct Direct : public msf_core::MSF_MeasurementBase<State> {
  V3 z; M3 R;
  Direct() : msf_core::MSF_MeasurementBase<State>(true, 0, false, 1e9) {}
  virtual std::string Type() { return "direct position"; }
  virtual void Apply(boost::shared_ptr<State> s, Core& core) {
    const State& x = *s;
    M3 C = x.Get<D::q>().toRotationMatrix();
    V3 l = x.Get<D::p_ip>();
    M3 lx; lx << 0, -l[2], l[1], l[2], 0, -l[0], -l[1], l[0], 0;
    int ip = 0, idx = 0;
    visit(*s, [&](auto& v, int i, int) { if (i == D::p_ip) ip = idx; idx += v.sizeInCorrection_; });
    Eigen::Matrix<double, 3, NE> H; H.setZero();
    H.block<3, 3>(0, 0).setIdentity(); H.block<3, 3>(0, 6) = -C * lx; H.block(0, ip, 3, 3) = C;
    Eigen::Matrix<double, 3, 1> r = z - (V3(x.Get<D::p>()) + C * l);
    Eigen::Matrix<double, 3, 3> Rm = R;
    CalculateAndApplyCorrection(s, core, H, r, Rm);
  }
};
template <class Vv> void setv(Vv& o, const V3& p) { o.x = p[0]; o.y = p[1]; o.z = p[2]; }
}  // namespace
PBT_TARGET(topics, "stamped points, transforms and GPS fixes with all covariance types around a random place on earth, delays, reconfigurations; against the same run with position updates made by the harness; non-trivial: at least two messages take effect, one of them not a stamped point") {
  world().reset();
  gen_core_params(c);
  bool fixedcov = c.chance(55);
  ros::NodeHandle nh("~/position_sensor");
  if (fixedcov || c.boolean()) nh.setParam("position_use_fixed_covariance", fixedcov);  // false is the default
  nh.setParam("position_absolute_measurements", true);
  ros::NodeHandle("~/pose_sensor").setParam("pose_use_fixed_covariance", false);   // its transform topic has the same name
  struct Phase { double s; int64_t delay; };
  auto gen_phase = [&] { Phase p; p.s = c.logu(0.03, 0.5); p.delay = c.chance(30) ? 0 : c.i(0, 60) * 1000000ll + c.i(0, 999) * 1000; return p; };
  std::vector<Phase> ph(1, gen_phase());
  State init; sens::gen_full_state(c, init);
  init.P = gcov(c, 1e-3, 0.2); init.a_m = V3(0, 0, 9.8); init.w_m.setZero();
  int64_t t0 = 50000000000ll + c.i(0, 1000000000);
  std::vector<Imu> imus = gen_imus(c, t0, init.a_m, init.w_m, 8 + c.i(0, 50), 4000000, 10000000);
  std::vector<int64_t> nodes; for (auto& u : imus) nodes.push_back(u.t);
  decode::Times times; times.nodes = &nodes;
  std::vector<Event> ev;
  // the reference is the first fix that is received
  double lat0 = c.chance(20) ? c.oneof({0.0, 45.0, -45.0, 89.0, -89.0}) : c.sym(89.5), lon0 = c.chance(15) ? c.oneof({0.0, 180.0, -180.0, 90.0}) : c.sym(180), alt0 = c.chance(20) ? 0 : c.real(-400, 9000);
  double rlat = 0, rlon = 0, ralt = 0; bool ref = false;
  bool earlier = c.chance(30); double elat = c.sym(80), elon = c.sym(170), ealt = c.real(0, 500);
  uint32_t seq = c.u64(200);
  int used = 0, other = 0;
  for (size_t k = 1; k < imus.size(); ++k) {
    Event e; e.imu = true; e.u = imus[k]; ev.push_back(e);
    if (k < 5 || k + 4 > imus.size() || !c.chance(45)) continue;
    if (c.chance(12)) {
      ph.push_back(gen_phase());
      Phase p = ph.back();
      Event g; g.imu = false;
      g.full = [p](Rig& r) { auto cfg = r.cfg(); cfg.position_noise_meas = p.s; cfg.position_delay = p.delay * 1e-9; r.setCfg(cfg); };
      ev.push_back(g);
      c.note() << "after reading " << k << ": noise " << p.s << ", delay " << p.delay * 1e-9 << "\n";
    }
    const Phase p = ph.back();
    int64_t now = imus[k].t, st = (now + p.delay - c.i(0, 40000000) + (c.chance(20) ? 8000000 : 0)) / 1000 * 1000, tm = st - p.delay;
    if (tm > now + 12000000 || tm < imus[1].t || !times.ok(tm) || tm > imus[imus.size() - 3].t) continue;
    int type = c.i(0, 3);   // point, transform, fix, fix
    V3 z;
    M3 R = M3::Identity() * p.s * p.s, M = R;
    if (!fixedcov) { M = gspd(c, 3, 0.05, 0.7, false); R = M; }
    else if (c.boolean()) M = M3::Identity() * c.logu(1e-4, 10);
    bool use = true;
    seq += c.chance(80) ? 1 : c.i(0, 5);
    Event e2; e2.imu = false;
    const char* what;
    if (type <= 1) {
      State x; copyvals(x, init); EVec d; for (int i = 0; i < NE; ++i) d[i] = c.sym(0.3); boxplus(x, d);
      z = V3(G<D::p>(x)) + G<D::q>(x) * V3(G<D::p_ip>(x));
      use = fixedcov;
      what = type ? "transform" : "point";
      uint32_t s5 = seq * 5;
      e2.full = [=](Rig&) {
        if (type == 0) { geometry_msgs::PointStamped m; m.header.stamp = rt(st); m.header.seq = seq; setv(m.point, z); world().deliver("/msf_updates/position_input", m); }
        else { geometry_msgs::TransformStamped m; m.header.stamp = rt(st); m.header.seq = s5; setv(m.transform.translation, z); m.transform.rotation.w = 1; m.transform.rotation.x = m.transform.rotation.y = m.transform.rotation.z = 0; world().deliver("/msf_updates/transform_input", m); }
      };
    } else {
      double scale = c.oneof({1e-7, 3e-6, 3e-5}), lat = lat0 + c.sym(1) * scale, lon = lon0 + c.sym(1) * scale, alt = alt0 + c.sym(3);
      if (!ref) { ref = true; rlat = lat; rlon = lon; ralt = alt; }
      wgs::V v = wgs::enu(rlat, rlon, ralt, wgs::ecef(lat, lon, alt));
      z = V3(double(v[0]), double(v[1]), double(v[2]));
      int ct = c.i(0, 3);
      use = fixedcov || ct != sensor_msgs::NavSatFix::COVARIANCE_TYPE_UNKNOWN;
      M3 Mm = ct == 0 && c.boolean() ? M3(M3::Zero()) : M;
      if (!use) c.label("fix-without-covariance");
      what = "GPS fix";
      e2.full = [=](Rig&) {
        sensor_msgs::NavSatFix m; m.header.stamp = rt(st); m.header.seq = seq; m.latitude = lat; m.longitude = lon; m.altitude = alt;
        m.position_covariance_type = ct; for (int i = 0; i < 9; ++i) m.position_covariance[i] = Mm(i / 3, i % 3);
        world().deliver("/msf_updates/navsatfix_input", m);
      };
      c.note() << "fix at " << lat << " " << lon << " " << alt << " covariance type " << ct << "\n";
    }
    c.note() << "after reading " << k << ": " << what << " stamped " << (st - t0) * 1e-9 << " effective at " << (tm - t0) * 1e-9 << (use ? "" : ", no covariance") << ", position " << z.transpose() << "\n";
    if (use) {
      times.taken.push_back(tm); ++used; if (type) ++other; c.label(what);
      e2.canon = [=](Rig& r) { boost::shared_ptr<Direct> m(new Direct); m->z = z; m->R = R; m->time = ts(tm); r.core().AddMeasurement(m); };
    } else c.label("dropped");
    ev.push_back(e2);
  }
  c.note() << (fixedcov ? "fixed covariance" : "message covariance") << ", first delay " << ph[0].delay * 1e-9 << (earlier ? ", another handler saw a fix elsewhere before" : "") << "\n";
  if (earlier) {
    Rig r; c.label("earlier-handler");
    sensor_msgs::NavSatFix m; m.header.stamp = rt(t0); m.latitude = elat; m.longitude = elon; m.altitude = ealt; m.position_covariance_type = 0;
    world().deliver("/msf_updates/navsatfix_input", m);
  }
  decode::Trace a, b;
  for (int canonical = 0; canonical < 2; ++canonical) {
    Rig r;
    auto cfg = r.cfg();
    cfg.position_fixed_p_ip = false; cfg.position_noise_meas = ph[0].s; cfg.position_delay = ph[0].delay * 1e-9;
    r.setCfg(cfg);
    init_from(r.core(), t0, init);
    (canonical ? b : a) = decode::play(r, ev, canonical);
  }
  if (fixedcov) c.label("fixed-covariance");
  decode::same(c, a, b, 2e-5, 5e-5);
  c.nontrivial(used >= 2 && other >= 1);
}
