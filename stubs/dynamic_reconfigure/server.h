#pragma once
#include <dynamic_reconfigure/param_io.h>
#include <ros/ros.h>
namespace dynamic_reconfigure {
// Mirrors dynamic_reconfigure::Server: setCallback() calls back once with the
// configuration found on the parameter server and level ~0; reconfigure() is
// what the set_parameters service does: level = OR of the changed fields'
// levels; whatever the callback leaves in the config is what is stored.
template <class Cfg> class Server : public fakeros::ServerBase {
 public:
  typedef boost::function<void(Cfg&, uint32_t)> CallbackType;
  explicit Server(const ros::NodeHandle& nh = ros::NodeHandle("~")) : nh_(nh) {
    fakeros::ParamLoader l{nh_};
    config_.visit(l);
    fakeros::world().servers[nh_.getNamespace()] = this;
  }
  ~Server() {
    auto& s = fakeros::world().servers;
    auto it = s.find(nh_.getNamespace());
    if (it != s.end() && it->second == this) s.erase(it);
  }
  void setCallback(const CallbackType& cb) {
    cb_ = cb;
    Cfg c = config_;
    call(c, ~0u);
    update(c);
  }
  void clearCallback() { cb_.clear(); }
  void updateConfig(const Cfg& c) { update(c); }
  void getConfigDefault(Cfg& c) { c = Cfg::__getDefault__(); }
  // Harness side.
  const Cfg& current() const { return config_; }
  uint32_t reconfigure(const Cfg& wanted) {
    fakeros::LevelDiff<Cfg> d;
    Cfg a = config_, b = wanted;
    a.visit(d); d.second = true; d.idx = 0; b.visit(d);
    call(b, d.level);
    update(b);
    return d.level;
  }
 private:
  void call(Cfg& c, uint32_t l) { if (cb_) cb_(c, l); }
  void update(const Cfg& c) { config_ = c; Cfg t = c; fakeros::ParamSaver s{nh_}; t.visit(s); }
  ros::NodeHandle nh_;
  CallbackType cb_;
  Cfg config_;
};
}
namespace fakeros {
template <class Cfg> dynamic_reconfigure::Server<Cfg>* server(const std::string& ns) {
  auto it = world().servers.find(ns);
  return it == world().servers.end() ? nullptr : dynamic_cast<dynamic_reconfigure::Server<Cfg>*>(it->second);
}
}
