#pragma once
// The sensors of each application: measurement models written from the
// documentation, and messages carrying a given measurement.
#include "model.h"
namespace sens {
using namespace rig;
using model::Z;
enum Kind { POSE, POS, PRESS, ANGLE, DIST };
#if defined(APP_POSE) || defined(APP_POSEPRESSURE) || defined(APP_POSITIONPOSE)
#define HAS_POSE 1
// z_p = C(q_wv) (p - p_wv + C(q) p_ic) L,   z_q = q_wv q q_ic
inline Z hpose(const State& s) {
  Z z;
  Q qwv = s.Get<D::q_wv>(), q = s.Get<D::q>(), qic = s.Get<D::q_ic>();
  V3 p = s.Get<D::p>() - s.Get<D::p_wv>() + q * V3(s.Get<D::p_ic>());
  z.v = (qwv * p) * s.Get<D::L>()[0];
  z.q.push_back(qwv * q * qic);
  return z;
}
#endif
#if defined(APP_POSITION) || defined(APP_POSITIONPOSE)
#define HAS_POSITION 1
inline Z hpos(const State& s) { Z z; z.v = s.Get<D::p>() + s.Get<D::q>() * V3(s.Get<D::p_ip>()); return z; }
#endif
#ifdef APP_POSEPRESSURE
#define HAS_PRESSURE 1
inline Z hpress(const State& s) { Z z; z.v = Eigen::VectorXd::Constant(1, s.Get<D::p>()[2] - s.Get<D::b_p>()[0]); return z; }
#endif
#ifdef APP_SPHERICAL
inline V3 point(const State& s) { return V3(s.Get<D::p>()) + s.Get<D::q>() * V3(s.Get<D::p_ip>()); }
inline Z hangle(const State& s) {
  V3 x = point(s);
  Z z; z.v.resize(2); z.wrap.push_back(1);
  z.v << std::atan2(std::sqrt(x[0] * x[0] + x[1] * x[1]), x[2]), std::atan2(x[1], x[0]);
  return z;
}
inline Z hdist(const State& s) { Z z; z.v = Eigen::VectorXd::Constant(1, point(s).norm()); return z; }
#endif
inline std::vector<Kind> kinds() {
  std::vector<Kind> v;
#ifdef HAS_POSE
  v.push_back(POSE);
#endif
#ifdef HAS_POSITION
  v.push_back(POS);
#endif
#ifdef HAS_PRESSURE
  v.push_back(PRESS);
#endif
#ifdef APP_SPHERICAL
  v.push_back(ANGLE); v.push_back(DIST);
#endif
  return v;
}
inline model::HFun hfun(Kind k) {
#ifdef HAS_POSE
  if (k == POSE) return hpose;
#endif
#ifdef HAS_POSITION
  if (k == POS) return hpos;
#endif
#ifdef HAS_PRESSURE
  if (k == PRESS) return hpress;
#endif
#ifdef APP_SPHERICAL
  if (k == ANGLE) return hangle;
  if (k == DIST) return hdist;
#endif
  std::abort();
}
// Parameters: configured (fixed) noise everywhere, absolute, every message used.
inline void params() {
  ros::NodeHandle a("~/pose_sensor"), b("~/position_sensor"), d("~/spherical_position_sensor");
  a.setParam("pose_use_fixed_covariance", true); a.setParam("pose_measurement_minimum_dt", 0.0);
  b.setParam("position_use_fixed_covariance", true); b.setParam("position_absolute_measurements", true);
  d.setParam("absolute_measurements", true);
}
struct Sigma { double p = 0.05, q = 0.05, pos = 0.05, press = 0.05, ang = 0.05, dist = 0.05; };
// Noises and delay of all sensors.
inline void configure(app::Cfg& g, const Sigma& s, double delay = 0) {
#ifdef HAS_POSE
  g.pose_noise_meas_p = s.p; g.pose_noise_meas_q = s.q; g.pose_delay = delay;
#endif
#ifdef HAS_POSITION
  g.position_noise_meas = s.pos; g.position_delay = delay;
#endif
#ifdef HAS_PRESSURE
  g.press_noise_meas_p = s.press;
#endif
#ifdef APP_SPHERICAL
  g.angle_noise_meas = s.ang; g.distance_noise_meas = s.dist; g.angle_delay = g.distance_delay = delay;
#endif
}
inline Eigen::MatrixXd noise(Kind k, const Sigma& s) {
  if (k == POSE) { Eigen::MatrixXd R = Eigen::MatrixXd::Identity(6, 6) * s.q * s.q; R.block(0, 0, 3, 3) = Eigen::MatrixXd::Identity(3, 3) * s.p * s.p; return R; }
  if (k == POS) return Eigen::MatrixXd::Identity(3, 3) * s.pos * s.pos;
  if (k == ANGLE) return Eigen::MatrixXd::Identity(2, 2) * s.ang * s.ang;
  double x = k == PRESS ? s.press : s.dist;
  return Eigen::MatrixXd::Constant(1, 1, x * x);
}
// `seq` is multiplied so that topics which only use every n-th message use it.
inline int send(Kind k, int64_t t, const Z& z, uint32_t seq) {
  if (k == POSE) {
    geometry_msgs::PoseWithCovarianceStamped m;
    m.header.stamp = rt(t); m.header.seq = seq;
    m.pose.pose.position.x = z.v[0]; m.pose.pose.position.y = z.v[1]; m.pose.pose.position.z = z.v[2];
    m.pose.pose.orientation.w = z.q[0].w(); m.pose.pose.orientation.x = z.q[0].x(); m.pose.pose.orientation.y = z.q[0].y(); m.pose.pose.orientation.z = z.q[0].z();
    return world().deliver("/msf_updates/pose_with_covariance_input", m);
  }
  geometry_msgs::PointStamped m; m.header.stamp = rt(t); m.header.seq = seq;
  if (k == POS) { m.point.x = z.v[0]; m.point.y = z.v[1]; m.point.z = z.v[2]; return world().deliver("/msf_updates/position_input", m); }
  if (k == PRESS) { m.header.seq = seq * 10; m.point.x = m.point.y = 0; m.point.z = z.v[0]; return world().deliver("/msf_updates/pressure_height", m); }
  if (k == ANGLE) { m.point.x = z.v[0]; m.point.y = z.v[1]; m.point.z = 0; return world().deliver("/msf_updates/angle_input", m); }
  m.point.x = m.point.y = 0; m.point.z = z.v[0];
  return world().deliver("/msf_updates/distance_input", m);
}
// Random state with a sensible scale; random covariance.
inline void gen_full_state(pbt::Ctx& c, State& s) {
  hist::gen_state(c, s);
  visit(s, [&](auto& v, int i, int) { if (i > D::b_a) hist::fill(c, v.state_); });
#ifdef HAS_POSE
  s.Set<D::L>(Eigen::Matrix<double, 1, 1>::Constant(c.logu(0.7, 5)));
#endif
}
}  // namespace sens
