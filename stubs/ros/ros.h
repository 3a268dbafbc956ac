#pragma once
// In-process stand-in for roscpp: a resettable "world" holding the parameter
// server, the topics (published messages are recorded, incoming ones are
// delivered by the harness) and the services.
#ifndef BOOST_BIND_GLOBAL_PLACEHOLDERS
#define BOOST_BIND_GLOBAL_PLACEHOLDERS
#endif
#include <any>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <type_traits>
#include <typeindex>
#include <vector>
#include <boost/bind.hpp>
#include <boost/function.hpp>
#include <boost/make_shared.hpp>
#include <boost/shared_ptr.hpp>
#include <ros/console.h>
#include <ros/time.h>

namespace ros { typedef std::vector<std::string> V_string; }

namespace fakeros {
struct SubEntry {
  std::string topic;
  std::type_index type;
  std::function<void(const void*)> call;  // takes const boost::shared_ptr<M const>*
  SubEntry() : type(typeid(void)) {}
};
struct SrvEntry {
  std::string name;
  std::type_index req;
  std::function<bool(void*, void*)> call;
  SrvEntry() : req(typeid(void)) {}
};
struct PubRecord {
  std::string topic;
  std::type_index type;
  boost::shared_ptr<const void> msg;
};
struct ServerBase { virtual ~ServerBase() {} };
struct World {
  std::string node = "/node";
  std::map<std::string, std::any> params;
  std::vector<std::weak_ptr<SubEntry>> subs;
  std::vector<std::weak_ptr<SrvEntry>> srvs;
  std::map<std::string, ServerBase*> servers;
  std::vector<std::string> advertised;
  std::map<std::string, int> numsubs;   // per topic; default below
  int default_subs = 1;
  std::vector<PubRecord> pub;
  bool record = true;
  std::vector<std::any> tfs;
  bool shutdown = false;
  void reset() { *this = World(); }
  template <class M> std::vector<boost::shared_ptr<const M>> all(const std::string& topic) const {
    std::vector<boost::shared_ptr<const M>> r;
    for (const auto& p : pub)
      if (p.topic == topic && p.type == std::type_index(typeid(M))) r.push_back(boost::static_pointer_cast<const M>(p.msg));
    return r;
  }
  bool hasSub(const std::string& topic) const {
    for (const auto& w : subs) if (auto s = w.lock()) if (s->topic == topic) return true;
    return false;
  }
  // Deliver a message; returns how many callbacks ran.
  template <class M> int deliver(const std::string& topic, const M& m) {
    boost::shared_ptr<M const> p = boost::make_shared<M>(m);
    int n = 0;
    std::vector<std::weak_ptr<SubEntry>> copy = subs;
    for (auto& w : copy)
      if (auto s = w.lock())
        if (s->topic == topic && s->type == std::type_index(typeid(M))) { s->call(&p); ++n; }
    return n;
  }
  template <class Q, class R> int callService(const std::string& name, Q& q, R& r) {  // -1: no such service
    for (auto& w : srvs)
      if (auto s = w.lock())
        if (s->name == name && s->req == std::type_index(typeid(Q))) return s->call(&q, &r) ? 1 : 0;
    return -1;
  }
};
inline World& world() { static World w; return w; }
inline std::function<void()>& spin_hook() { static std::function<void()> f; return f; }  // what happens while a node's main() spins
inline std::string clean(const std::string& in) {
  std::string o;
  for (char c : in) { if (c == '/' && !o.empty() && o.back() == '/') continue; o.push_back(c); }
  if (o.size() > 1 && o.back() == '/') o.pop_back();
  return o;
}
inline std::string resolve(const std::string& ns, const std::string& name) {
  if (name.empty()) return ns.empty() ? "/" : ns;
  if (name[0] == '~') return clean(world().node + "/" + name.substr(1));
  if (name[0] == '/') return clean(name);
  return clean("/" + ns + "/" + name);
}
template <class P> struct Adapt;  // callback parameter -> message type and conversion
template <class M> struct Adapt<const boost::shared_ptr<M const>&> { typedef M Msg; static const boost::shared_ptr<M const>& get(const boost::shared_ptr<M const>& p) { return p; } };
template <class M> struct Adapt<boost::shared_ptr<M const>> { typedef M Msg; static boost::shared_ptr<M const> get(const boost::shared_ptr<M const>& p) { return p; } };
template <class M> struct Adapt<const boost::shared_ptr<M>&> { typedef M Msg; static boost::shared_ptr<M> get(const boost::shared_ptr<M const>& p) { return boost::make_shared<M>(*p); } };
template <class M> struct Adapt<boost::shared_ptr<M>> { typedef M Msg; static boost::shared_ptr<M> get(const boost::shared_ptr<M const>& p) { return boost::make_shared<M>(*p); } };
template <class M> struct Adapt<const M&> { typedef M Msg; static const M& get(const boost::shared_ptr<M const>& p) { return *p; } };
}

namespace ros {
inline void init(int&, char**, const std::string& n, uint32_t = 0) { fakeros::world().node = "/" + n; }
inline void spin() { auto f = fakeros::spin_hook(); if (f) f(); }
inline void spinOnce() {}
inline bool ok() { return !fakeros::world().shutdown; }
inline void shutdown() { fakeros::world().shutdown = true; }
inline void requestShutdown() { fakeros::world().shutdown = true; }
namespace init_options { enum { NoSigintHandler = 1, AnonymousName = 2, NoRosout = 4 }; }
namespace this_node {
inline std::string getName() { return fakeros::world().node; }
inline std::string getNamespace() { return "/"; }
inline void getSubscribedTopics(V_string& t) {
  t.clear();
  for (auto& w : fakeros::world().subs) if (auto s = w.lock()) t.push_back(s->topic);
}
inline void getAdvertisedTopics(V_string& t) { t = fakeros::world().advertised; }
}
class TransportHints {
 public:
  bool nodelay = false;
  TransportHints& tcpNoDelay(bool b = true) { nodelay = b; return *this; }
  TransportHints& udp() { return *this; }
  TransportHints& tcp() { return *this; }
  TransportHints& reliable() { return *this; }
  TransportHints& unreliable() { return *this; }
};
class Publisher {
 public:
  Publisher() {}
  explicit Publisher(const std::string& t) : topic_(t), valid_(true) {}
  template <class M> void publish(const M& m) const { put(boost::make_shared<M>(m)); }
  template <class M> void publish(const boost::shared_ptr<M>& m) const { put(m); }
  uint32_t getNumSubscribers() const {
    if (!valid_) return 0;
    auto& w = fakeros::world();
    auto it = w.numsubs.find(topic_);
    return it == w.numsubs.end() ? w.default_subs : it->second;
  }
  std::string getTopic() const { return topic_; }
  bool isLatched() const { return false; }
  void shutdown() { valid_ = false; }
  operator void*() const { return valid_ ? (void*)1 : (void*)0; }
 private:
  template <class M> void put(const boost::shared_ptr<M>& m) const {
    typedef typename std::remove_const<M>::type T;
    if (!valid_ || !fakeros::world().record) return;
    boost::shared_ptr<const void> copy = boost::make_shared<T>(*m);
    fakeros::world().pub.push_back(fakeros::PubRecord{topic_, std::type_index(typeid(T)), copy});
  }
  std::string topic_;
  bool valid_ = false;
};
class Subscriber {
 public:
  std::shared_ptr<fakeros::SubEntry> e;
  std::string getTopic() const { return e ? e->topic : std::string(); }
  uint32_t getNumPublishers() const { return e ? 1 : 0; }
  void shutdown() { e.reset(); }
  operator void*() const { return e ? (void*)1 : (void*)0; }
};
class ServiceServer {
 public:
  std::shared_ptr<fakeros::SrvEntry> e;
  std::string getService() const { return e ? e->name : std::string(); }
  void shutdown() { e.reset(); }
  operator void*() const { return e ? (void*)1 : (void*)0; }
};
class NodeHandle {
 public:
  NodeHandle(const std::string& ns = std::string()) : ns_(fakeros::resolve("/", ns)) {}
  NodeHandle(const NodeHandle& o) : ns_(o.ns_) {}
  NodeHandle(const NodeHandle& o, const std::string& ns) : ns_(fakeros::resolve(o.ns_, ns)) {}
  NodeHandle& operator=(const NodeHandle& o) { ns_ = o.ns_; return *this; }
  const std::string& getNamespace() const { return ns_; }
  std::string resolveName(const std::string& n) const { return fakeros::resolve(ns_, n); }
  bool ok() const { return true; }

  bool hasParam(const std::string& k) const { return fakeros::world().params.count(resolveName(k)) > 0; }
  void setParam(const std::string& k, const char* v) const { fakeros::world().params[resolveName(k)] = std::string(v); }
  template <class T> void setParam(const std::string& k, const T& v) const { fakeros::world().params[resolveName(k)] = v; }
  template <class T> bool getParam(const std::string& k, T& out) const {
    auto it = fakeros::world().params.find(resolveName(k));
    if (it == fakeros::world().params.end()) return false;
    const std::any& a = it->second;
    if (const T* p = std::any_cast<T>(&a)) { out = *p; return true; }
    if constexpr (std::is_floating_point<T>::value) {
      if (auto p = std::any_cast<int>(&a)) { out = *p; return true; }
      if (auto p = std::any_cast<double>(&a)) { out = static_cast<T>(*p); return true; }
    } else if constexpr (std::is_same<T, int>::value) {
      if (auto p = std::any_cast<double>(&a)) { out = static_cast<int>(*p + (*p < 0 ? -0.5 : 0.5)); return true; }
    }
    return false;
  }
  template <class T> bool param(const std::string& k, T& out, const T& def) const {
    if (getParam(k, out)) return true;
    out = def;
    return false;
  }
  template <class T> T param(const std::string& k, const T& def) const { T t; param(k, t, def); return t; }

  template <class M> Publisher advertise(const std::string& t, uint32_t, bool = false) const {
    fakeros::world().advertised.push_back(resolveName(t));
    return Publisher(resolveName(t));
  }

  template <class P, class T> Subscriber subscribe(const std::string& t, uint32_t, void (T::*f)(P), T* o, const TransportHints& = TransportHints()) const {
    typedef fakeros::Adapt<P> A; typedef typename A::Msg M;
    return add<M>(t, [f, o](const boost::shared_ptr<M const>& m) { (o->*f)(A::get(m)); });
  }
  template <class P, class T> Subscriber subscribe(const std::string& t, uint32_t, void (T::*f)(P) const, T* o, const TransportHints& = TransportHints()) const {
    typedef fakeros::Adapt<P> A; typedef typename A::Msg M;
    return add<M>(t, [f, o](const boost::shared_ptr<M const>& m) { (o->*f)(A::get(m)); });
  }
  template <class M, class T> Subscriber subscribe(const std::string& t, uint32_t, void (T::*f)(const boost::shared_ptr<M const>&), T* o, const TransportHints& = TransportHints()) const {
    return add<M>(t, [f, o](const boost::shared_ptr<M const>& m) { (o->*f)(m); });
  }
  template <class P, class T> Subscriber subscribe(const std::string& t, uint32_t, void (T::*f)(P), const boost::shared_ptr<T>& o, const TransportHints& = TransportHints()) const {
    typedef fakeros::Adapt<P> A; typedef typename A::Msg M;
    return add<M>(t, [f, o](const boost::shared_ptr<M const>& m) { ((*o).*f)(A::get(m)); });
  }
  template <class P> Subscriber subscribe(const std::string& t, uint32_t, void (*f)(P), const TransportHints& = TransportHints()) const {
    typedef fakeros::Adapt<P> A; typedef typename A::Msg M;
    return add<M>(t, [f](const boost::shared_ptr<M const>& m) { f(A::get(m)); });
  }
  template <class M> Subscriber subscribe(const std::string& t, uint32_t, const boost::function<void(const boost::shared_ptr<M const>&)>& f, const boost::shared_ptr<void const>& = boost::shared_ptr<void const>(), const TransportHints& = TransportHints()) const {
    return add<M>(t, [f](const boost::shared_ptr<M const>& m) { f(m); });
  }

  template <class S, class Q, class R> ServiceServer advertiseService(const std::string& n, bool (S::*f)(Q&, R&), S* o) const {
    return addsrv<Q, R>(n, [f, o](Q& q, R& r) { return (o->*f)(q, r); });
  }
  template <class Q, class R> ServiceServer advertiseService(const std::string& n, bool (*f)(Q&, R&)) const {
    return addsrv<Q, R>(n, [f](Q& q, R& r) { return f(q, r); });
  }
  template <class Q, class R> ServiceServer advertiseService(const std::string& n, const boost::function<bool(Q&, R&)>& f) const {
    return addsrv<Q, R>(n, [f](Q& q, R& r) { return f(q, r); });
  }
 private:
  template <class M, class F> Subscriber add(const std::string& t, F f) const {
    Subscriber s;
    s.e = std::make_shared<fakeros::SubEntry>();
    s.e->topic = resolveName(t);
    s.e->type = std::type_index(typeid(M));
    s.e->call = [f](const void* p) { f(*static_cast<const boost::shared_ptr<M const>*>(p)); };
    fakeros::world().subs.push_back(s.e);
    return s;
  }
  template <class Q, class R, class F> ServiceServer addsrv(const std::string& n, F f) const {
    ServiceServer s;
    s.e = std::make_shared<fakeros::SrvEntry>();
    s.e->name = resolveName(n);
    s.e->req = std::type_index(typeid(Q));
    s.e->call = [f](void* q, void* r) { return f(*static_cast<Q*>(q), *static_cast<R*>(r)); };
    fakeros::world().srvs.push_back(s.e);
    return s;
  }
  std::string ns_;
};
}
