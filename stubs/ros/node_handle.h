// Stand-in for ros::NodeHandle: a namespace on an in-process parameter table, and service registration in a table.
#pragma once
#include <ros/common.h>
#include <ros/console.h>
#include <ros/exception.h>
#include <ros/time.h>
#include <cctype>
#include <functional>
#include <map>
#include <string>
#include <vector>
#include <memory>
namespace ros {
bool ok();
void shutdown();
namespace stub {
struct Param { int type = 0; bool b = false; int i = 0; double d = 0; std::string s; std::vector<std::string> vs; std::vector<double> vd;
  enum { NONE, BOOL, INT, DOUBLE, STRING, VSTRING, VDOUBLE, OTHER };
  static Param B(bool v) { Param p; p.type = BOOL; p.b = v; return p; }
  static Param I(int v) { Param p; p.type = INT; p.i = v; return p; }
  static Param D(double v) { Param p; p.type = DOUBLE; p.d = v; return p; }
  static Param S(const std::string& v) { Param p; p.type = STRING; p.s = v; return p; }
  static Param VS(const std::vector<std::string>& v) { Param p; p.type = VSTRING; p.vs = v; return p; }
};
inline std::map<std::string, Param>& params() { static std::map<std::string, Param> m; return m; }
inline std::map<std::string, std::function<bool(void*, void*)>>& services() { static std::map<std::string, std::function<bool(void*, void*)>> m; return m; }
inline const Param* find(const std::string& k) { auto it = params().find(k); return it == params().end() ? nullptr : &it->second; }
inline bool has(const std::string& k) { if (params().count(k)) return true;
  std::string pre = k == "/" ? "/" : k + "/"; auto it = params().lower_bound(pre); return it != params().end() && it->first.compare(0, pre.size(), pre) == 0; }
}
class ServiceServer { public: void shutdown() {} operator void*() const { return (void*)1; } std::string getService() const { return name; } std::string name; };
class ServiceClient {}; class Publisher { public: template<class M> void publish(const M&) const {} }; class Subscriber {}; class Timer {}; 
class NodeHandle {
public:
  NodeHandle(const std::string& ns = std::string()) { init("/", ns); }
  NodeHandle(const NodeHandle& p, const std::string& ns) { init(p.ns_, ns); }
  NodeHandle(const NodeHandle& p) : ns_(p.ns_) {}
  NodeHandle& operator=(const NodeHandle& p) { ns_ = p.ns_; return *this; }
  const std::string& getNamespace() const { return ns_; }
  const std::string& getUnresolvedNamespace() const { return ns_; }
  std::string resolveName(const std::string& n) const { validate(n);
    if (n.empty()) return ns_; if (n[0] == '/') return n; std::string m = n[0] == '~' ? n.substr(1) : n;
    return ns_ == "/" ? "/" + m : ns_ + "/" + m; }
  bool ok() const { return ros::ok(); }
  bool hasParam(const std::string& k) const { return stub::has(resolveName(k)); }
  bool deleteParam(const std::string& k) const { return stub::params().erase(resolveName(k)) > 0; }
  bool getParam(const std::string& k, std::string& v) const { auto p = stub::find(resolveName(k)); if (!p || p->type != stub::Param::STRING) return false; v = p->s; return true; }
  bool getParam(const std::string& k, bool& v) const { auto p = stub::find(resolveName(k)); if (!p || p->type != stub::Param::BOOL) return false; v = p->b; return true; }
  bool getParam(const std::string& k, int& v) const { auto p = stub::find(resolveName(k)); if (!p) return false;
    if (p->type == stub::Param::INT) { v = p->i; return true; } if (p->type == stub::Param::DOUBLE && std::floor(p->d) == p->d) { v = int(p->d); return true; } return false; }
  bool getParam(const std::string& k, double& v) const { auto p = stub::find(resolveName(k)); if (!p) return false;
    if (p->type == stub::Param::DOUBLE) { v = p->d; return true; } if (p->type == stub::Param::INT) { v = p->i; return true; } return false; }
  bool getParam(const std::string& k, float& v) const { double d; if (!getParam(k, d)) return false; v = float(d); return true; }
  bool getParam(const std::string& k, std::vector<std::string>& v) const { auto p = stub::find(resolveName(k)); if (!p || p->type != stub::Param::VSTRING) return false; v = p->vs; return true; }
  bool getParam(const std::string& k, std::vector<double>& v) const { auto p = stub::find(resolveName(k)); if (!p || p->type != stub::Param::VDOUBLE) return false; v = p->vd; return true; }
  template <class T> bool getParamCached(const std::string& k, T& v) const { return getParam(k, v); }
  template <class T> bool param(const std::string& k, T& v, const T& d) const { if (getParam(k, v)) return true; v = d; return false; }
  template <class T> T param(const std::string& k, const T& d) const { T v; return getParam(k, v) ? v : d; }
  void setParam(const std::string& k, const std::string& v) const { stub::params()[resolveName(k)] = stub::Param::S(v); }
  void setParam(const std::string& k, const char* v) const { stub::params()[resolveName(k)] = stub::Param::S(v); }
  void setParam(const std::string& k, bool v) const { stub::params()[resolveName(k)] = stub::Param::B(v); }
  void setParam(const std::string& k, int v) const { stub::params()[resolveName(k)] = stub::Param::I(v); }
  void setParam(const std::string& k, double v) const { stub::params()[resolveName(k)] = stub::Param::D(v); }
  void setParam(const std::string& k, const std::vector<std::string>& v) const { stub::params()[resolveName(k)] = stub::Param::VS(v); }
  template <class T, class Req, class Res>
  ServiceServer advertiseService(const std::string& n, bool (T::*f)(Req&, Res&), T* o) {
    stub::services()[resolveName(n)] = [o, f](void* a, void* b) { return (o->*f)(*static_cast<Req*>(a), *static_cast<Res*>(b)); };
    ServiceServer s; s.name = resolveName(n); return s; }
  template <class Req, class Res>
  ServiceServer advertiseService(const std::string& n, const std::function<bool(Req&, Res&)>& f) {
    stub::services()[resolveName(n)] = [f](void* a, void* b) { return f(*static_cast<Req*>(a), *static_cast<Res*>(b)); };
    ServiceServer s; s.name = resolveName(n); return s; }
private:
  static void validate(const std::string& n) {
    if (n.empty()) return;
    if (!std::isalpha((unsigned char)n[0]) && n[0] != '/' && n[0] != '~') throw InvalidNameException("Character [" + std::string(1, n[0]) + "] is not valid as the first character in Graph Resource Name [" + n + "]");
    for (size_t i = 1; i < n.size(); ++i) if (!std::isalnum((unsigned char)n[i]) && n[i] != '/' && n[i] != '_') throw InvalidNameException("Character [" + std::string(1, n[i]) + "] at element in Graph Resource Name [" + n + "] is not valid"); }
  void init(const std::string& parent, const std::string& ns) { validate(ns);
    std::string m = ns; if (!m.empty() && m[0] == '~') m = m.substr(1);
    if (m.empty()) ns_ = parent; else if (m[0] == '/') ns_ = m; else ns_ = parent == "/" ? "/" + m : parent + "/" + m;
    while (ns_.size() > 1 && ns_.back() == '/') ns_.pop_back(); }
  std::string ns_;
};
typedef std::shared_ptr<NodeHandle> NodeHandlePtr;
}
