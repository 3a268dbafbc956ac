// The relay node's own main() runs on the stand-in ROS world; the harness acts
// while it spins.
#include "pbt.h"
#define ROS_PACKAGE_NAME "msf_distort"
#include <geometry_msgs/PoseStamped.h>
#include <geometry_msgs/PointStamped.h>
#include <std_msgs/Header.h>
#define main relay_main
#include "../../msf_distort/src/msf_distort.cc"
#undef main
using fakeros::world;
static double gd(pbt::Ctx& c) { return c.chance(10) ? c.oneof({0.0, 1e300, -1e-300, std::numeric_limits<double>::quiet_NaN()}) : c.sym(100); }
static bool eq(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
static std_msgs::Header gh(pbt::Ctx& c) { std_msgs::Header h; h.seq = c.i(0, 1000); h.stamp = ros::Time(c.i(0, 100000), c.i(0, 999999999)); h.frame_id = c.pick(std::vector<std::string>{"", "map", "cam"}); return h; }
static bool eqh(const std_msgs::Header& a, const std_msgs::Header& b) { return a.stamp == b.stamp && a.frame_id == b.frame_id && a.seq == b.seq; }
template <class P> static void gpose(pbt::Ctx& c, P& p) { p.position.x = gd(c); p.position.y = gd(c); p.position.z = gd(c); p.orientation.w = gd(c); p.orientation.x = gd(c); p.orientation.y = gd(c); p.orientation.z = gd(c); }
template <class P> static bool eqpose(const P& a, const P& b) { return eq(a.position.x, b.position.x) && eq(a.position.y, b.position.y) && eq(a.position.z, b.position.z) && eq(a.orientation.w, b.orientation.w) && eq(a.orientation.x, b.orientation.x) && eq(a.orientation.y, b.orientation.y) && eq(a.orientation.z, b.orientation.z); }
struct Done {};
static const char* NS = "/msf_distort/";
PBT_TARGET(relay, "random message sequences on the five inputs with switch changes in between; non-trivial: both kinds sent under at least two switch settings") {
  world().reset();
  pbt::Ctx* pc = &c;
  bool ran = false;
  fakeros::spin_hook() = [pc, &ran]() {
    pbt::Ctx& c = *pc;
    ran = true;
    fakeros::spin_hook() = nullptr;
    auto srv = fakeros::server<msf_distort::MSF_DistortConfig>("/msf_distort");
    PBT_REQUIRE(srv, "no reconfigure server");
    bool pose = srv->current().publish_pose, position = srv->current().publish_position;
    PBT_REQUIRE(pose && position, "relaying is not enabled by default");
    int n = 0, changes = 0, sent_p = 0, sent_x = 0;
    do {
      int op = c.i(0, 6);
      world().pub.clear();
      if (op >= 5) {
        pose = c.boolean(); position = c.boolean(); ++changes;
        auto cfg = srv->current(); cfg.publish_pose = pose; cfg.publish_position = position;
        srv->reconfigure(cfg);
        c.note() << "switch pose=" << pose << " position=" << position << "; ";
        PBT_REQUIRE(world().pub.empty(), "switching published a message");
        continue;
      }
      c.note() << "message " << op << "; ";
      bool want = op < 3 ? pose : position;
      if (op < 3) ++sent_p; else ++sent_x;
      std::string out;
      bool same = true;
      size_t expect = want ? 1 : 0, got = 0;
      if (op == 0) {
        geometry_msgs::PoseWithCovarianceStamped m; m.header = gh(c); gpose(c, m.pose.pose); for (int i = 0; i < 36; ++i) m.pose.covariance[i] = gd(c);
        PBT_REQUIRE(world().deliver(std::string(NS) + "pose_with_covariance_input", m) == 1, "input not subscribed exactly once");
        auto v = world().all<geometry_msgs::PoseWithCovarianceStamped>(std::string(NS) + "pose_with_covariance_output"); got = v.size();
        if (got) { same = eqh(m.header, v[0]->header) && eqpose(m.pose.pose, v[0]->pose.pose); for (int i = 0; i < 36; ++i) same = same && eq(m.pose.covariance[i], v[0]->pose.covariance[i]); }
      } else if (op == 1) {
        geometry_msgs::TransformStamped m; m.header = gh(c); m.child_frame_id = "x"; m.transform.translation.x = gd(c); m.transform.translation.y = gd(c); m.transform.translation.z = gd(c); m.transform.rotation.w = gd(c); m.transform.rotation.x = gd(c); m.transform.rotation.y = gd(c); m.transform.rotation.z = gd(c);
        PBT_REQUIRE(world().deliver(std::string(NS) + "transform_input", m) == 1, "input not subscribed exactly once");
        auto v = world().all<geometry_msgs::TransformStamped>(std::string(NS) + "transform_output"); got = v.size();
        if (got) { const auto& a = m.transform; const auto& b = v[0]->transform; same = eqh(m.header, v[0]->header) && v[0]->child_frame_id == m.child_frame_id && eq(a.translation.x, b.translation.x) && eq(a.translation.y, b.translation.y) && eq(a.translation.z, b.translation.z) && eq(a.rotation.w, b.rotation.w) && eq(a.rotation.x, b.rotation.x) && eq(a.rotation.y, b.rotation.y) && eq(a.rotation.z, b.rotation.z); }
      } else if (op == 2) {
        geometry_msgs::PoseStamped m; m.header = gh(c); gpose(c, m.pose);
        PBT_REQUIRE(world().deliver(std::string(NS) + "pose_input", m) == 1, "input not subscribed exactly once");
        auto v = world().all<geometry_msgs::PoseStamped>(std::string(NS) + "pose_output"); got = v.size();
        if (got) same = eqh(m.header, v[0]->header) && eqpose(m.pose, v[0]->pose);
      } else if (op == 3) {
        sensor_msgs::NavSatFix m; m.header = gh(c); m.latitude = gd(c); m.longitude = gd(c); m.altitude = gd(c); m.position_covariance_type = c.i(0, 3); for (int i = 0; i < 9; ++i) m.position_covariance[i] = gd(c);
        PBT_REQUIRE(world().deliver(std::string(NS) + "navsatfix_input", m) == 1, "input not subscribed exactly once");
        auto v = world().all<sensor_msgs::NavSatFix>(std::string(NS) + "navsatfix_output"); got = v.size();
        if (got) { same = eqh(m.header, v[0]->header) && eq(m.latitude, v[0]->latitude) && eq(m.longitude, v[0]->longitude) && eq(m.altitude, v[0]->altitude) && m.position_covariance_type == v[0]->position_covariance_type; for (int i = 0; i < 9; ++i) same = same && eq(m.position_covariance[i], v[0]->position_covariance[i]); }
      } else {
        geometry_msgs::PointStamped m; m.header = gh(c); m.point.x = gd(c); m.point.y = gd(c); m.point.z = gd(c);
        PBT_REQUIRE(world().deliver(std::string(NS) + "point_input", m) == 1, "input not subscribed exactly once");
        auto v = world().all<geometry_msgs::PointStamped>(std::string(NS) + "point_output"); got = v.size();
        if (got) same = eqh(m.header, v[0]->header) && eq(m.point.x, v[0]->point.x) && eq(m.point.y, v[0]->point.y) && eq(m.point.z, v[0]->point.z);
      }
      PBT_REQUIRE(got == expect, "message of kind " << op << (want ? " was not forwarded" : " was forwarded although switched off") << " (" << got << " copies)");
      PBT_REQUIRE(world().pub.size() == expect, "message of kind " << op << " caused " << world().pub.size() << " publications");
      PBT_REQUIRE(same, "message of kind " << op << " was altered");
      c.evals(3);
    } while (c.more(n, 20, 60));
    c.nontrivial(changes >= 2 && sent_p && sent_x);
    throw Done();  // leaves the renamed main(), which has no return statement
  };
  char a0[] = "x"; char* av[] = {a0, nullptr};
  try { relay_main(1, av); } catch (const Done&) {}
  PBT_REQUIRE(ran, "the node returned without waiting for messages");
}
