// A small in-process host for one application on a stand-in ROS world.
#pragma once
#define ROS_PACKAGE_NAME "msf"
#if defined(APP_POSE)
#include "pose_msf/pose_sensormanager.h"
typedef msf_pose_sensor::PoseSensorManager Mgr; typedef msf_updates::SinglePoseSensorConfig Cfg; static const char* kNs = "/node/pose_sensor";
#elif defined(APP_POSITION)
#include "position_msf/position_sensormanager.h"
typedef msf_position_sensor::PositionSensorManager Mgr; typedef msf_updates::SinglePositionSensorConfig Cfg; static const char* kNs = "/node/position_sensor";
#elif defined(APP_POSEPRESSURE)
#include "pose_pressure_msf/pose_pressure_sensormanager.h"
typedef msf_pose_pressure_sensor::PosePressureSensorManager Mgr; typedef msf_updates::PosePressureSensorConfig Cfg; static const char* kNs = "/node/pose_pressure_sensor";
#elif defined(APP_POSITIONPOSE)
#include "position_pose_msf/position_pose_sensormanager.h"
typedef msf_updates::PositionPoseSensorManager Mgr; typedef msf_updates::PositionPoseSensorConfig Cfg; static const char* kNs = "/node/position_pose_sensor";
#elif defined(APP_SPHERICAL)
#include "spherical_msf/spherical_sensormanager.h"
typedef msf_spherical_position::SensorManager Mgr; typedef msf_updates::SphericalPositionSensorConfig Cfg; static const char* kNs = "/node/spherical_position_sensor";
#endif
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
extern "C" int usleep(useconds_t) { return 0; }
using fakeros::world;
typedef msf_updates::EKFState State;
typedef boost::shared_ptr<State> StatePtr;
typedef State::StateDefinition_T D;
typedef msf_core::MSF_Core<State> Core;
typedef State::P_type PMat;
typedef Eigen::Vector3d V3;
typedef Eigen::Quaterniond Q;
inline ros::Time rt(long long ns) { return ros::Time(uint32_t(ns / 1000000000), uint32_t(ns % 1000000000)); }
struct Host {
  struct M : public Mgr {
    mutable std::vector<StatePtr> upd, prop, initial;
    virtual void PublishStateAfterUpdate(const boost::shared_ptr<State>& s) const { upd.push_back(s); Mgr::PublishStateAfterUpdate(s); }
    virtual void PublishStateAfterPropagation(const boost::shared_ptr<State>& s) const { prop.push_back(s); Mgr::PublishStateAfterPropagation(s); }
    virtual void PublishStateInitial(const boost::shared_ptr<State>& s) const { initial.push_back(s); Mgr::PublishStateInitial(s); }
  };
  boost::shared_ptr<M> m;
  unsigned seq = 0;
  Host() { m.reset(new M); }
  Core& core() { return *m->msf_core_; }
  void init(long long ns, double scale = 1) { ros::Time::setNow(rt(ns)); static_cast<const msf_core::MSF_SensorManager<State>*>(m.get())->Init(scale); }
  void imu(long long ns, V3 a = V3(0, 0, 9.80834), V3 w = V3::Zero()) {
    sensor_msgs::Imu s; s.header.stamp = rt(ns); s.header.seq = ++seq;
    s.linear_acceleration.x = a[0]; s.linear_acceleration.y = a[1]; s.linear_acceleration.z = a[2];
    s.angular_velocity.x = w[0]; s.angular_velocity.y = w[1]; s.angular_velocity.z = w[2];
    world().deliver("/msf_core/imu_state_input", s);
  }
  Cfg cfg() { return fakeros::server<Cfg>(kNs)->current(); }
  void setCfg(const Cfg& c) { fakeros::server<Cfg>(kNs)->reconfigure(c); }
  void position(long long ns, V3 p, unsigned seqn = 5) {
    geometry_msgs::PointStamped s; s.header.stamp = rt(ns); s.header.seq = seqn; s.point.x = p[0]; s.point.y = p[1]; s.point.z = p[2];
    world().deliver("/msf_updates/position_input", s);
  }
  void pose(long long ns, V3 p, Q q, double sp = .1, double sq = .1, unsigned seqn = 1) {
    geometry_msgs::PoseWithCovarianceStamped s; s.header.stamp = rt(ns); s.header.seq = seqn;
    s.pose.pose.position.x = p[0]; s.pose.pose.position.y = p[1]; s.pose.pose.position.z = p[2];
    s.pose.pose.orientation.w = q.w(); s.pose.pose.orientation.x = q.x(); s.pose.pose.orientation.y = q.y(); s.pose.pose.orientation.z = q.z();
    for (int i = 0; i < 36; ++i) s.pose.covariance[i] = 0;
    for (int i = 0; i < 3; ++i) { s.pose.covariance[i * 7] = sp * sp; s.pose.covariance[(i + 3) * 7] = sq * sq; }
    world().deliver("/msf_updates/pose_with_covariance_input", s);
  }
};
template <int I> auto G(const State& s) -> decltype(s.Get<I>()) { return s.Get<I>(); }
template <int I> auto G(const StatePtr& s) -> decltype(static_cast<const State&>(*s).Get<I>()) { return static_cast<const State&>(*s).Get<I>(); }
#define EXPECT(cond, ...) do { if (!(cond)) { fprintf(stderr, "WRONG: " __VA_ARGS__); fprintf(stderr, "\n"); exit(1); } } while (0)
