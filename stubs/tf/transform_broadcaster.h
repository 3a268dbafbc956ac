#pragma once
#include <string>
#include <vector>
#include <ros/ros.h>
namespace tf {
typedef double tfScalar;
struct Vector3 {
  double m[3];
  Vector3(double x = 0, double y = 0, double z = 0) { m[0] = x; m[1] = y; m[2] = z; }
  double x() const { return m[0]; } double y() const { return m[1]; } double z() const { return m[2]; }
  double getX() const { return m[0]; } double getY() const { return m[1]; } double getZ() const { return m[2]; }
  void setValue(double x, double y, double z) { m[0] = x; m[1] = y; m[2] = z; }
};
struct Quaternion {
  double m[4];
  Quaternion(double x = 0, double y = 0, double z = 0, double w = 1) { m[0] = x; m[1] = y; m[2] = z; m[3] = w; }
  double x() const { return m[0]; } double y() const { return m[1]; } double z() const { return m[2]; } double w() const { return m[3]; }
};
struct Transform {
  Quaternion q; Vector3 o;
  void setOrigin(const Vector3& v) { o = v; }
  void setRotation(const Quaternion& r) { q = r; }
  const Vector3& getOrigin() const { return o; }
  Quaternion getRotation() const { return q; }
};
struct StampedTransform : Transform {
  ros::Time stamp_; std::string frame_id_, child_frame_id_;
  StampedTransform() {}
  StampedTransform(const Transform& t, const ros::Time& s, const std::string& f, const std::string& c) : Transform(t), stamp_(s), frame_id_(f), child_frame_id_(c) {}
};
class TransformBroadcaster {
 public:
  void sendTransform(const StampedTransform& t) { if (fakeros::world().record) fakeros::world().tfs.push_back(t); }
};
}
