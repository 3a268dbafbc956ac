#pragma once
// The subset of Schweizer-Messer's rigid transformation that is used here.
// Quaternions are [-x -y -z w] of the Hamilton quaternion of the rotation.
#include <Eigen/Dense>
namespace sm { namespace kinematics {
class Transformation {
 public:
  Transformation() : q_(0, 0, 0, 1), t_(0, 0, 0) {}
  Transformation(const Eigen::Matrix4d& T) : t_(T.topRightCorner<3, 1>()) { set(Eigen::Quaterniond(Eigen::Matrix3d(T.topLeftCorner<3, 3>())).normalized()); }
  Transformation(const Eigen::Vector4d& q, const Eigen::Vector3d& t) : q_(q), t_(t) {}
  Eigen::Matrix3d C() const { return ham().toRotationMatrix(); }
  const Eigen::Vector4d& q() const { return q_; }
  const Eigen::Vector3d& t() const { return t_; }
  Eigen::Matrix4d T() const { Eigen::Matrix4d M = Eigen::Matrix4d::Identity(); M.topLeftCorner<3, 3>() = C(); M.topRightCorner<3, 1>() = t_; return M; }
  Transformation inverse() const { Transformation r; r.set(ham().conjugate()); r.t_ = -(C().transpose() * t_); return r; }
  Transformation operator*(const Transformation& o) const { Transformation r; r.set(ham() * o.ham()); r.t_ = C() * o.t_ + t_; return r; }
  Eigen::Vector3d operator*(const Eigen::Vector3d& p) const { return C() * p + t_; }
 private:
  Eigen::Quaterniond ham() const { return Eigen::Quaterniond(q_[3], -q_[0], -q_[1], -q_[2]); }
  void set(const Eigen::Quaterniond& h) { q_ << -h.x(), -h.y(), -h.z(), h.w(); }
  Eigen::Vector4d q_; Eigen::Vector3d t_;
};
} }
