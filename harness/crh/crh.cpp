// Replays behaviours of spec/CombinedInit.tla and spec/CombinedSwitch.tla on the real CombinedRobotHW with scripted parts.
#include <combined_robot_hw/combined_robot_hw.h>
#include <hardware_interface/joint_command_interface.h>
#include <hardware_interface/joint_state_interface.h>
#include "../common.h"
#include <algorithm>
#include <iostream>
#include <memory>
#include <sstream>
using namespace hardware_interface; using std::string; using std::vector; using std::map; typedef std::list<ControllerInfo> Infos;
namespace ros { bool ok() { return true; } void shutdown() {} bool isShuttingDown() { return false; } Time Time::now() { return Time(); } namespace stub { void log(int, const string&) {} } }
static std::ostringstream out;
static vector<string> split(const string& s, char c) { vector<string> v; string t; std::istringstream i(s); while (std::getline(i, t, c)) v.push_back(t); return v; }
template <class C> string join(const C& c, const char* sep = ",") { string o; bool f = true; for (auto& x : c) { o += (f ? "" : sep) + x; f = false; } return o; }
typedef EffortJointInterface EJ; typedef VelocityJointInterface VJ; typedef JointStateInterface JS;
static string full(const string& s) { return s == "EJ" ? internal::demangledTypeName<EJ>() : s == "VJ" ? internal::demangledTypeName<VJ>() : s == "JS" ? internal::demangledTypeName<JS>() : s; }
static string brief(const string& s) { for (string x : {"EJ", "VJ", "JS"}) if (full(x) == s) return x; return s; }
struct Conf { string fault; map<string, vector<string>> offer; bool accept = true; RobotHW::SwitchState result = RobotHW::SwitchState::DONE; bool concerned = false; };
static vector<Conf> confs; static vector<string> calls, inits; static ros::Time now_; static ros::Duration per_; static int base_ns = 0; static string asked; static bool asking = false;
static double d;
static string list(vector<string> v) { std::sort(v.begin(), v.end()); return join(v); }
static string show(const Infos& l) { vector<string> v; for (auto& c : l) { vector<string> r; for (auto& i : c.claimed_resources) r.push_back(brief(i.hardware_interface) + "=" + list(encAll(i.resources))); std::sort(r.begin(), r.end()); v.push_back(enc(c.name) + (c.type == "type_" + c.name ? "" : "!type") + "(" + join(r, ";") + ")"); } return join(v, "/"); }
static string rootNs = "/";   // the root handle given to the combined hardware
struct Part : RobotHW { int n = 0; EJ ej; VJ vj; JS js;
  bool init(ros::NodeHandle& root, ros::NodeHandle& nh) override { string ns = nh.getNamespace(); auto p = ns.rfind("part"); n = p == string::npos ? 0 : std::atoi(ns.c_str() + p + 4);
    inits.push_back((root.getNamespace() == rootNs ? "/" : "!" + root.getNamespace()) + "|" + ns); if (n < 1 || n > int(confs.size())) return false; auto& c = confs[n - 1];
    if (c.fault == "initfalse") return false; if (c.fault == "initthrows") throw std::logic_error("init"); if (c.fault == "initthrowsint") throw 7;
    for (auto& r : c.offer["EJ"]) ej.registerHandle(JointHandle(JointStateHandle(r, &d, &d, &d), &d)); if (!c.offer["EJ"].empty()) registerInterface(&ej);
    for (auto& r : c.offer["VJ"]) vj.registerHandle(JointHandle(JointStateHandle(r, &d, &d, &d), &d)); if (!c.offer["VJ"].empty()) registerInterface(&vj);
    for (auto& r : c.offer["JS"]) js.registerHandle(JointStateHandle(r, &d, &d, &d)); if (!c.offer["JS"].empty()) registerInterface(&js);
    return RobotHW::init(root, nh); }   // what a part does not decide, the defaults decide
  string id() { return std::to_string(n); }
  void read(const ros::Time& t, const ros::Duration& p) override { calls.push_back("read" + id() + (t == now_ && p.toNSec() == per_.toNSec() ? "" : "!time")); RobotHW::read(t, p); }
  void write(const ros::Time& t, const ros::Duration& p) override { calls.push_back("write" + id() + (t == now_ && p.toNSec() == per_.toNSec() ? "" : "!time")); RobotHW::write(t, p); }
  bool prepareSwitch(const Infos& a, const Infos& b) override { calls.push_back("prepare" + id() + "[" + show(a) + "][" + show(b) + "]"); return confs[n - 1].accept && RobotHW::prepareSwitch(a, b); }
  void doSwitch(const Infos& a, const Infos& b) override { calls.push_back("switch" + id() + "[" + show(a) + "][" + show(b) + "]"); RobotHW::doSwitch(a, b); }
  SwitchState switchResult() const override { return !asking && confs[n - 1].result != SwitchState::DONE ? confs[n - 1].result : RobotHW::switchResult(); }
  SwitchState switchResult(const ControllerInfo& c) const override { return asking && c.name == asked && confs[n - 1].concerned ? confs[n - 1].result : RobotHW::switchResult(c); } };
// times and periods of the k-th cycle: ordinary ones, none at all, huge and backward ones
static void clockwork(int k) { static unsigned turn = 0; unsigned m = ++turn % 7; now_.sec = m == 3 ? 0 : m == 4 ? 4000000000u : 50 + k; now_.nsec = m == 3 ? 0 : k; per_.sec = m == 2 ? -1 : m == 4 ? 100000 : 0; per_.nsec = m == 1 || m == 2 ? 0 : 1000 + k; }
template <class T> string expo(RobotHW& r) { T* i = r.get<T>(); return i ? list(encAll(i->getNames())) : string("none"); }
static void offers(Conf& c, const string& s) { for (auto& e : split(s, ';')) { auto f = split(e, '='); if (f.size() > 1) { auto v = split(f[1], ','); for (auto& x : v) x = dec(x); c.offer[f[0]] = v; } } }
// P name1:fault:EJ=a,b;VJ=c ... | or "noconf"; then ops
// the hardware types declared: with others before and after the one asked for, or that one alone
static void declare(const vector<string>& parts) {
  using D = std::pair<string, pluginlib::ClassDesc>; unsigned h = parts.size(); bool throws = false; for (auto& p : parts) { for (char c : p) h = h * 31 + c; throws = throws || p.find("ctorthrows") == 0; }
  vector<D> all = {{"Other", {[]() -> void* { return static_cast<RobotHW*>(new RobotHW); }}}, {"Part", {[]() -> void* { return static_cast<RobotHW*>(new Part); }}}, {"PartThrows", {[]() -> void* { throw std::runtime_error("ctor"); }}}};
  vector<D> l; h = (h >> 3) % 5; for (unsigned i = 0; i < 3; ++i) { auto& d = all[(i + h) % 3]; if (h < 3 || d.first == "Part" || (throws && d.first == "PartThrows")) l.push_back(d); } rootNs = h % 2 ? "/up" : "/"; pluginlib::registry()["hardware_interface::RobotHW"] = l; }
static void setup(const vector<string>& parts, bool configured, const string& ns) {
  declare(parts);
  confs.clear(); calls.clear(); inits.clear(); ros::stub::params().clear(); vector<string> names; int k = 0;
  for (auto& p : parts) { ++k; auto f = split(p, ':'); f.resize(2); Conf c; c.fault = f[0]; offers(c, f[1]); confs.push_back(c); string n = string(1, char('a' + (k * 7) % 13)) + (c.fault == "badname" ? " bad part" : "_part") + std::to_string(k);   names.push_back(n);
    if (c.fault != "notype") ros::stub::params()[ns + "/" + n + "/type"] = ros::stub::Param::S(c.fault == "unknowntype" ? "NoSuch" : c.fault == "ctorthrows" ? "PartThrows" : "Part"); }
  if (configured) ros::stub::params()[ns + "/robot_hardware"] = ros::stub::Param::VS(names); }
static void initCase(std::istringstream& in) {   // P configured nparts parts... ops...
  int conf, n; in >> conf >> n; vector<string> parts(n); for (auto& p : parts) in >> p; setup(parts, conf, "/hw"); combined_robot_hw::CombinedRobotHW c; ros::NodeHandle root(rootNs), nh("hw");
  bool ok; try { ok = c.init(root, nh); } catch (...) { out << "escaped"; return; }
  out << (ok ? "true" : "false"); if (!ok) return;
  out << " " << join(inits) << " "; vector<string> ns; for (auto& x : c.getNames()) ns.push_back(brief(x)); out << list(ns) << " " << expo<EJ>(c) << " " << expo<VJ>(c) << " " << expo<JS>(c); 
  for (string x : {"EJ", "VJ", "JS"}) { auto r = c.getInterfaceResources(full(x)); std::set<string> s(r.begin(), r.end()); out << " " << list(encAll(s)); }
  string op; int k = 0; while (in >> op) { ++k; calls.clear(); clockwork(k); if (op == "read") c.read(now_, per_); else c.write(now_, per_); out << " " << join(calls); } }
static Infos infos(const string& s) { Infos l; if (s == "-") return l; for (auto& e : split(s, '/')) { auto p = e.find('('); ControllerInfo i; i.name = dec(e.substr(0, p)); i.type = "type_" + i.name; string c = e.substr(p + 1, e.size() - p - 2);
    for (auto& x : split(c, ';')) { auto f = split(x, '='); InterfaceResources r; r.hardware_interface = full(f[0]); if (f.size() > 1) for (auto& y : split(f[1], ',')) r.resources.insert(dec(y)); i.claimed_resources.push_back(r); } l.push_back(i); } return l; }
static RobotHW::SwitchState sr(char c) { return c == 'E' ? RobotHW::SwitchState::ERROR : c == 'O' ? RobotHW::SwitchState::ONGOING : RobotHW::SwitchState::DONE; }
static string srn(RobotHW::SwitchState s) { return s == RobotHW::SwitchState::ERROR ? "ERROR" : s == RobotHW::SwitchState::ONGOING ? "ONGOING" : "DONE"; }
static std::unique_ptr<combined_robot_hw::CombinedRobotHW> mk(std::istringstream& in) { int n; in >> n; vector<string> parts(n); for (auto& p : parts) { in >> p; p = "ok:" + (p == "-" ? string() : p); } setup(parts, true, "/hw"); std::unique_ptr<combined_robot_hw::CombinedRobotHW> c(new combined_robot_hw::CombinedRobotHW); ros::NodeHandle root, nh("hw"); asked.clear(); if (!c->init(root, nh)) throw std::runtime_error("init"); return c; }
static void routeCase(std::istringstream& in) {   // S n offers... start stop accept
  auto c = mk(in); string a, b, acc; in >> a >> b >> acc; for (size_t i = 0; i < confs.size(); ++i) confs[i].accept = acc[i] == 'y'; Infos s = infos(a), t = infos(b); calls.clear();
  bool ok = c->prepareSwitch(s, t); out << (ok ? "true" : "false") << " " << join(calls, "&") << " "; calls.clear(); c->doSwitch(s, t); out << join(calls, "&"); }
static void resultCase(std::istringstream& in) {  // T n offers... answers concerned asked
  auto c = mk(in); string ans, con, a; in >> ans >> con >> a; Infos l = infos(a); for (size_t i = 0; i < confs.size(); ++i) { confs[i].result = sr(ans[i]); confs[i].concerned = con[i] == 'y'; }
  const RobotHW& r = *c; if (!l.empty()) { asked = l.front().name; asking = true; out << srn(r.switchResult(l.front())); asking = false; } else { asking = false; out << srn(r.switchResult()); } }
// H n offers... steps...   (one robot, many requests)
static void histCase(std::istringstream& in) { auto c = mk(in); string s; int k = 0;
  while (in >> s) { auto f = split(s, ':'); calls.clear(); asked.clear(); ++k; out << (k > 1 ? " " : "");
    for (auto& x : confs) { x.accept = true; x.concerned = false; }   // (the parts' answers stay until others are asked for)
    if (f[0] == "prep") { for (size_t i = 0; i < confs.size(); ++i) confs[i].accept = f[3][i] == 'y'; bool ok = c->prepareSwitch(infos(f[1]), infos(f[2])); out << (ok ? "true" : "false") << "|" << join(calls, "&"); }
    else if (f[0] == "do") { c->doSwitch(infos(f[1]), infos(f[2])); out << join(calls, "&"); }
    else if (f[0] == "res") { for (size_t i = 0; i < confs.size(); ++i) confs[i].result = sr(f[1][i]); out << srn(c->switchResult()); }
    else if (f[0] == "cres") { Infos l = infos(f[3]); for (size_t i = 0; i < confs.size(); ++i) { confs[i].result = sr(f[1][i]); confs[i].concerned = f[2][i] == 'y'; } asked = l.front().name; asking = true; out << srn(c->switchResult(l.front())); asking = false; }
    else { clockwork(k); if (f[0] == "read") c->read(now_, per_); else c->write(now_, per_); out << join(calls); } } }
int main() { string line; std::ios::sync_with_stdio(false);
  while (std::getline(std::cin, line)) { std::istringstream in(line); string k; in >> k; out.str(""); out.clear();
    try { if (k == "P") initCase(in); else if (k == "S") routeCase(in); else if (k == "H") histCase(in); else resultCase(in); } catch (const std::exception& e) { out.str(""); out << "uncaught " << e.what(); } catch (...) { out.str(""); out << "uncaught"; }
    std::cout << out.str() << "\n"; } }
