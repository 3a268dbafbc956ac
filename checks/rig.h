#pragma once
// Runs one of the five ethzasl_msf applications in-process on the stand-in ROS
// world, selected by APP_POSE / APP_POSITION / APP_POSEPRESSURE /
// APP_POSITIONPOSE / APP_SPHERICAL.
#include "pbt.h"
#define ROS_PACKAGE_NAME "msf"
#if defined(APP_POSE)
#include "pose_msf/pose_sensormanager.h"
namespace app { typedef msf_pose_sensor::PoseSensorManager Mgr; typedef msf_updates::SinglePoseSensorConfig Cfg; static const char* kNs = "/node/pose_sensor"; }
#elif defined(APP_POSITION)
#include "position_msf/position_sensormanager.h"
namespace app { typedef msf_position_sensor::PositionSensorManager Mgr; typedef msf_updates::SinglePositionSensorConfig Cfg; static const char* kNs = "/node/position_sensor"; }
#elif defined(APP_POSEPRESSURE)
#include "pose_pressure_msf/pose_pressure_sensormanager.h"
namespace app { typedef msf_pose_pressure_sensor::PosePressureSensorManager Mgr; typedef msf_updates::PosePressureSensorConfig Cfg; static const char* kNs = "/node/pose_pressure_sensor"; }
#elif defined(APP_POSITIONPOSE)
#include "position_pose_msf/position_pose_sensormanager.h"
namespace app { typedef msf_updates::PositionPoseSensorManager Mgr; typedef msf_updates::PositionPoseSensorConfig Cfg; static const char* kNs = "/node/position_pose_sensor"; }
#elif defined(APP_SPHERICAL)
#include "spherical_msf/spherical_sensormanager.h"
namespace app { typedef msf_spherical_position::SensorManager Mgr; typedef msf_updates::SphericalPositionSensorConfig Cfg; static const char* kNs = "/node/spherical_position_sensor"; }
#endif
#include <boost/fusion/include/for_each.hpp>
#include <functional>
#include <unistd.h>
extern "C" int usleep(useconds_t) { return 0; }  // Init() sleeps 110 ms for thread sync; single-threaded here

namespace rig {
using fakeros::world;
typedef msf_updates::EKFState State;
typedef boost::shared_ptr<State> StatePtr;
typedef State::StateDefinition_T D;
typedef msf_core::MSF_Core<State> Core;
enum { NE = State::nErrorStatesAtCompileTime };
typedef Eigen::Matrix<double, NE, NE> PMat;
typedef Eigen::Matrix<double, NE, 1> EVec;
typedef Eigen::Vector3d V3;
typedef Eigen::Matrix3d M3;
typedef Eigen::Quaterniond Q;

// Integer nanoseconds <-> what the code sees.
inline ros::Time rt(int64_t ns) { return ros::Time(static_cast<uint32_t>(ns / 1000000000), static_cast<uint32_t>(ns % 1000000000)); }
inline double ts(int64_t ns) { return rt(ns).toSec(); }

struct TestMgr : public app::Mgr {
  mutable std::vector<StatePtr> upd, prop, initial;
  std::function<void(char, const State&)> hook;  // before every publication: u(pdate), p(ropagation), i(nitial)
  double fuzzy = -1;  // fuzzy-tracking limit, if set
  virtual double GetParamFuzzyTrackingThreshold() const { return fuzzy >= 0 ? fuzzy : app::Mgr::GetParamFuzzyTrackingThreshold(); }
  void h(char k, const boost::shared_ptr<State>& s) const { if (hook) hook(k, *s); }
  virtual void PublishStateAfterUpdate(const boost::shared_ptr<State>& s) const { h('u', s); upd.push_back(s); app::Mgr::PublishStateAfterUpdate(s); }
  virtual void PublishStateAfterPropagation(const boost::shared_ptr<State>& s) const { h('p', s); prop.push_back(s); app::Mgr::PublishStateAfterPropagation(s); }
  virtual void PublishStateInitial(const boost::shared_ptr<State>& s) const { h('i', s); initial.push_back(s); app::Mgr::PublishStateInitial(s); }
};

struct Rig {
  boost::shared_ptr<TestMgr> m;
  uint32_t imu_seq = 0;
  Rig() { m.reset(new TestMgr); }
  Core& core() { return *m->msf_core_; }
  void init(int64_t ns, double scale = 1.0) {
    ros::Time::setNow(rt(ns));
    static_cast<const msf_core::MSF_SensorManager<State>*>(m.get())->Init(scale);
  }
  int imu(int64_t ns, const V3& a, const V3& w) {
    sensor_msgs::Imu msg;
    msg.header.stamp = rt(ns); msg.header.seq = ++imu_seq;
    msg.linear_acceleration.x = a[0]; msg.linear_acceleration.y = a[1]; msg.linear_acceleration.z = a[2];
    msg.angular_velocity.x = w[0]; msg.angular_velocity.y = w[1]; msg.angular_velocity.z = w[2];
    return world().deliver("/msf_core/imu_state_input", msg);
  }
  app::Cfg cfg() { return fakeros::server<app::Cfg>(app::kNs)->current(); }
  uint32_t setCfg(const app::Cfg& c) { return fakeros::server<app::Cfg>(app::kNs)->reconfigure(c); }
  msf_core::MSF_CoreConfig coreCfg() { return fakeros::server<msf_core::MSF_CoreConfig>("/node/core")->current(); }
  void setCore(const msf_core::MSF_CoreConfig& c) { fakeros::server<msf_core::MSF_CoreConfig>("/node/core")->reconfigure(c); }
  StatePtr at(int64_t ns) { return core().GetStateAtTime(ts(ns)); }
};

// Read access (the non-const getter of the library is private).
template <int I> auto G(const State& s) -> decltype(s.Get<I>()) { return s.Get<I>(); }
template <int I> auto G(const StatePtr& s) -> decltype(static_cast<const State&>(*s).Get<I>()) { return static_cast<const State&>(*s).Get<I>(); }

// Generic access to every state variable -------------------------------------
template <class F> struct Visit {
  F& f; State& s;
  template <class T, int N, int S, int O> void operator()(msf_core::StateVar_T<T, N, S, O>& v) const { f(v, N, S); }
};
template <class F> void visit(State& s, F f) { boost::fusion::for_each(s.statevars, Visit<F>{f, s}); }

// Own "box plus" with exact exponential for attitude.
inline Q expq(const V3& th) {
  double a = th.norm();
  if (a < 1e-12) { Q q(1, th[0] / 2, th[1] / 2, th[2] / 2); q.normalize(); return q; }
  V3 ax = th / a;
  return Q(std::cos(a / 2), std::sin(a / 2) * ax[0], std::sin(a / 2) * ax[1], std::sin(a / 2) * ax[2]);
}
inline V3 logq(const Q& qi) {
  Q q = qi.w() < 0 ? Q(-qi.w(), -qi.x(), -qi.y(), -qi.z()) : qi;
  double n = q.vec().norm();
  if (n < 1e-12) return 2 * q.vec();
  return 2 * std::atan2(n, q.w()) / n * q.vec();
}
// All values of a state in order (quaternions w,x,y,z with w >= 0).
struct ValF {
  std::vector<double>* o;
  void put(const Q& q) { double f = q.w() < 0 ? -1 : 1; o->push_back(f * q.w()); o->push_back(f * q.x()); o->push_back(f * q.y()); o->push_back(f * q.z()); }
  template <int N> void put(const Eigen::Matrix<double, N, 1>& m) { for (int i = 0; i < N; ++i) o->push_back(m[i]); }
  template <class V> void operator()(V& v, int, int) { put(v.state_); }
};
inline std::vector<double> values(const State& sc) {
  State& s = const_cast<State&>(sc);
  std::vector<double> o;
  visit(s, ValF{&o});
  return o;
}
struct PlusF {
  const EVec* d; int* i;
  void add(Q& q) { q = q * expq(d->segment<3>(*i)); q.normalize(); *i += 3; }
  template <int N> void add(Eigen::Matrix<double, N, 1>& m) { m += d->segment<N>(*i); *i += N; }
  template <class V> void operator()(V& v, int, int) { add(v.state_); }
};
inline void boxplus(State& s, const EVec& d) { int i = 0; visit(s, PlusF{&d, &i}); }
struct GetF {
  std::vector<Q>* q; std::vector<Eigen::VectorXd>* m;
  void get(Q& x) { q->push_back(x); }
  template <int N> void get(Eigen::Matrix<double, N, 1>& x) { m->push_back(x); }
  template <class V> void operator()(V& v, int, int) { get(v.state_); }
};
struct MinusF {
  EVec* r; int* i; std::vector<Q>* q; std::vector<Eigen::VectorXd>* m; size_t *iq, *im;
  void sub(Q& x) { r->segment<3>(*i) = logq((*q)[(*iq)++].conjugate() * x); *i += 3; }
  template <int N> void sub(Eigen::Matrix<double, N, 1>& x) { r->segment<N>(*i) = x - (*m)[(*im)++]; *i += N; }
  template <class V> void operator()(V& v, int, int) { sub(v.state_); }
};
inline EVec boxminus(const State& a, const State& b) {  // b [+] r = a
  EVec r; int i = 0;
  std::vector<Q> qb; std::vector<Eigen::VectorXd> vb;
  visit(const_cast<State&>(b), GetF{&qb, &vb});
  size_t iq = 0, im = 0;
  visit(const_cast<State&>(a), MinusF{&r, &i, &qb, &vb, &iq, &im});
  return r;
}
// Copy every state variable's value.
inline void copyvals(State& dst, const State& src) {
  dst.statevars = src.statevars;
  dst.time = src.time; dst.a_m = src.a_m; dst.w_m = src.w_m; dst.P = src.P;
  dst.noise_gyr = src.noise_gyr; dst.noise_acc = src.noise_acc;
}
// Covariance difference relative to sqrt(P_ii P_jj) of b; largest entrywise
// difference; smallest eigenvalue of the correlation-scaled matrix (util.cc).
double covdiff(const Eigen::Ref<const Eigen::MatrixXd>& a, const Eigen::Ref<const Eigen::MatrixXd>& b);
double reldiff(const Eigen::Ref<const Eigen::MatrixXd>& a, const Eigen::Ref<const Eigen::MatrixXd>& b, double floor);
double mineig_scaled(const Eigen::Ref<const Eigen::MatrixXd>& P);
void kalman(const Eigen::Ref<const Eigen::MatrixXd>& P, const Eigen::Ref<const Eigen::MatrixXd>& H, const Eigen::Ref<const Eigen::MatrixXd>& r,
            const Eigen::Ref<const Eigen::MatrixXd>& R, Eigen::VectorXd* d, Eigen::MatrixXd* Pn);
double mahalanobis(const Eigen::Ref<const Eigen::MatrixXd>& P, const Eigen::Ref<const Eigen::MatrixXd>& H, const Eigen::Ref<const Eigen::MatrixXd>& r, const Eigen::Ref<const Eigen::MatrixXd>& R);
Eigen::MatrixXd llt_product(const Eigen::Ref<const Eigen::MatrixXd>& L);  // L L^T, exactly symmetric
inline double statediff(const State& a, const State& b) {  // quaternions up to sign
  std::vector<Q> qa, qb; std::vector<Eigen::VectorXd> va, vb;
  visit(const_cast<State&>(a), GetF{&qa, &va}); visit(const_cast<State&>(b), GetF{&qb, &vb});
  double worst = 0;
  auto add = [&](double e) { if (!(e <= worst)) worst = std::isnan(e) ? std::numeric_limits<double>::infinity() : e; };
  for (size_t i = 0; i < qa.size(); ++i) {
    double m = (qa[i].coeffs() - qb[i].coeffs()).cwiseAbs().maxCoeff(), p = (qa[i].coeffs() + qb[i].coeffs()).cwiseAbs().maxCoeff();
    if (!qa[i].coeffs().allFinite() || !qb[i].coeffs().allFinite()) add(NAN); else add(std::min(m, p));
  }
  for (size_t i = 0; i < va.size(); ++i) for (int k = 0; k < va[i].size(); ++k) {
    double x = va[i][k], y = vb[i][k];
    add(std::fabs(x - y) / std::max(1.0, std::max(std::fabs(x), std::fabs(y))));
  }
  return worst;
}
inline std::string dump(const State& s) {
  std::ostringstream o; o.precision(9);
  o << "t=" << s.time << " [";
  for (double v : values(s)) o << v << ' ';
  o << "]";
  return o.str();
}
// Initialise a core with a given full state (and covariance).
struct SetInit {
  msf_core::MSF_InitMeasurement<State>* m;
  template <class T, int N, int S, int O> void operator()(msf_core::StateVar_T<T, N, S, O>& v) const { m->template SetStateInitValue<N>(v.state_); }
};
inline void init_from(Core& core, int64_t ns, State& s) {
  boost::shared_ptr<msf_core::MSF_InitMeasurement<State> > m(new msf_core::MSF_InitMeasurement<State>(true));
  boost::fusion::for_each(s.statevars, SetInit{m.get()});
  m->GetStateCovariance() = s.P;
  m->Getw_m() = s.w_m; m->Geta_m() = s.a_m;
  m->time = ts(ns);
  core.Init(m);
}
// Generators -------------------------------------------------------------------
inline V3 gvec(pbt::Ctx& c, double a) { double x = c.sym(a), y = c.sym(a), z = c.sym(a); return V3(x, y, z); }
inline Q gquat(pbt::Ctx& c) {  // 0 -> identity
  if (c.chance(10)) return expq(V3(c.chance(50) ? M_PI : 0, c.chance(50) ? 0 : M_PI, 0) * 0.999999);
  V3 v = gvec(c, 1.0);
  if (v.norm() < 1e-9) return Q::Identity();
  Q q = expq(v.normalized() * std::min(3.141, v.norm() * 3.2));
  q.normalize();
  return q;
}
// A random symmetric positive definite matrix: scales per axis, random correlation.
inline PMat gcov(pbt::Ctx& c, double lo, double hi) {
  PMat L = PMat::Zero();
  int mode = c.i(0, 2);
  for (int i = 0; i < NE; ++i) {
    double s = c.logu(lo, hi);
    for (int j = 0; j < i && mode > 0; ++j) if (mode == 2 || c.chance(30)) L(i, j) = c.sym(0.5) * s;
    L(i, i) = s;
  }
  return llt_product(L);
}
}  // namespace rig
