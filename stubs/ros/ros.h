#pragma once
// Stand-in for roscpp: parameters come from hooks, publications are recorded, subscriptions are ignored.
#include <iostream>
#include <string>
#include <vector>
#include <cstring>
#include <functional>
#include <memory>
#include <boost/shared_ptr.hpp>
#include <boost/array.hpp>
#include <boost/bind.hpp>
#include <boost/function.hpp>
#include <ros/time.h>
#include <ros/console.h>
#include <std_msgs/Header.h>
namespace ros {
typedef std::vector<std::string> V_string;
namespace stub {
struct Globals { int num_subscribers = 0; void (*spin)() = nullptr; // runs while the node spins
  double (*param_d)(const char*, double) = nullptr; bool (*param_b)(const char*, bool) = nullptr; const char* (*param_s)(const char*) = nullptr; bool (*listens)(const char*) = nullptr; // whether a topic has a subscriber
  int published = 0; };
inline Globals& g() { static Globals x; return x; }
template <class Q, class R> struct Srv { std::string name; std::function<bool(Q&, R&)> f; };
template <class Q, class R> inline std::vector<Srv<Q, R>>& srv() { static std::vector<Srv<Q, R>> v; return v; }
struct Sub { std::string topic; const void* type; std::function<void(const void*)> f; };
inline std::vector<Sub>& subs() { static std::vector<Sub> v; return v; }
template <class M> inline const void* typeTag() { static char c; return &c; }
// hands a message to every subscriber of the topic; the number of them
template <class M> inline int deliver(const char* topic, const boost::shared_ptr<M>& m) { int n = 0; boost::shared_ptr<M const> c = m; for (auto& s : subs()) if (s.type == typeTag<M>() && s.topic == topic) { s.f(&c); n++; } return n; }
template <class M> struct Last { static M& msg() { static M m; return m; } static int& count() { static int n = 0; return n; } };
// everything published on a topic, in order
template <class M> struct Out { std::string topic; M msg; };
template <class M> inline std::vector<Out<M>>& outs() { static std::vector<Out<M>> v; return v; }
template <class M> inline std::vector<M> out(const char* topic) { std::vector<M> v; for (auto& o : outs<M>()) if (o.topic == topic) v.push_back(o.msg); return v; }
}
namespace this_node {
inline std::string getName() { return std::string("n"); }
inline void getSubscribedTopics(V_string&) {}
inline void getAdvertisedTopics(V_string&) {}
}
struct TransportHints { TransportHints tcpNoDelay() const { return *this; } };
struct Subscriber { std::string getTopic() const { return std::string(); } void shutdown() {} };
struct ServiceServer {};
struct Publisher {
  std::string topic;
  int getNumSubscribers() const { return stub::g().listens ? (stub::g().listens(topic.c_str()) ? 1 : 0) : stub::g().num_subscribers; }
  std::string getTopic() const { return topic; }
  template <class M> void publish(const M& m) const { stub::g().published++; stub::Last<M>::msg() = m; stub::Last<M>::count()++; if (stub::g().listens) stub::outs<M>().push_back({topic, m}); }
  template <class M> void publish(const boost::shared_ptr<M>& m) const { publish(*m); }
};
struct NodeHandle {
  std::string ns;
  NodeHandle() {}
  NodeHandle(const std::string& n) : ns(n) {}
  NodeHandle(const char* n) : ns(n) {}
  NodeHandle(const NodeHandle& p, const std::string& n) : ns(p.ns + "/" + n) {}
  std::string getNamespace() const { return ns; }
  std::string full(const std::string& n) const { return ns.empty() ? n : ns + "/" + n; }
  template <class T> Publisher advertise(const std::string& n, int, bool = false) const { Publisher p; p.topic = n; return p; }
  template <class T, class Q, class R> ServiceServer advertiseService(const std::string& name, bool (T::*f)(Q&, R&), T* o) const { stub::srv<Q, R>().push_back({name, [f, o](Q& q, R& r) { return (o->*f)(q, r); }}); return ServiceServer(); }
  template <class M, class T> Subscriber subscribe(const std::string& topic, int, void (T::*f)(const boost::shared_ptr<M const>&), T* o, const TransportHints& = TransportHints()) const { stub::subs().push_back({topic, stub::typeTag<M>(), [f, o](const void* m) { (o->*f)(*(const boost::shared_ptr<M const>*)m); }}); return Subscriber(); }
  template <class M, class T> Subscriber subscribe(const std::string& topic, int, void (T::*f)(const M&), T* o, const TransportHints& = TransportHints()) const { stub::subs().push_back({topic, stub::typeTag<M>(), [f, o](const void* m) { (o->*f)(**(const boost::shared_ptr<M const>*)m); }}); return Subscriber(); }
  template <class M> Subscriber subscribe(const std::string& topic, int, const boost::function<void(const boost::shared_ptr<M const>&)>& f, const void* = nullptr, const TransportHints& = TransportHints()) const { stub::subs().push_back({topic, stub::typeTag<M>(), [f](const void* m) { f(*(const boost::shared_ptr<M const>*)m); }}); return Subscriber(); }
  double read(const std::string& n, double d) const { return stub::g().param_d ? stub::g().param_d(full(n).c_str(), d) : d; }
  bool read(const std::string& n, bool d) const { return stub::g().param_b ? stub::g().param_b(full(n).c_str(), d) : d; }
  std::string read(const std::string& n, const std::string& d) const { const char* v = stub::g().param_s ? stub::g().param_s(full(n).c_str()) : nullptr; return v ? v : d; }
  template <class T> T read(const std::string&, const T& d) const { return d; }
  template <class T> bool param(const std::string& n, T& v, const T& d) const { v = read(n, d); return true; }
  template <class T> T param(const std::string& n, const T& d) const { return read(n, d); }
  // a parameter is set if its value does not depend on the default
  bool getParam(const std::string& n, double& v) const { double a = read(n, -12345.0), b = read(n, -54321.0); if (a == -12345.0 && b == -54321.0) return false; v = a; return true; }
  bool getParam(const std::string& n, bool& v) const { bool a = read(n, false), b = read(n, true); if (!a && b) return false; v = a; return true; }
  bool getParam(const std::string& n, std::string& v) const { const char* a = stub::g().param_s ? stub::g().param_s(full(n).c_str()) : nullptr; if (!a) return false; v = a; return true; }
  template <class T> bool getParam(const std::string&, T&) const { return false; }
  bool hasParam(const std::string& n) const { double d; bool b; std::string t; return getParam(n, d) || getParam(n, b) || getParam(n, t); }
};
inline void spin() { if (stub::g().spin) stub::g().spin(); }
inline void spinOnce() {}
inline bool ok() { return true; }
inline void init(int, char**, const char*) {}
}
