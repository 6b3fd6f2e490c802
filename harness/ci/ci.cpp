// Replays behaviours of spec/Lifecycle.tla and spec/CtlInit.tla on the real controller base classes and prints what happens.
#include <controller_interface/controller.h>
#include <controller_interface/multi_interface_controller.h>
#include <hardware_interface/joint_command_interface.h>
#include <hardware_interface/joint_state_interface.h>
#include <hardware_interface/robot_hw.h>
#include "../common.h"
#include <algorithm>
#include <iostream>
#include <memory>
#include <sstream>
using namespace hardware_interface; using std::string; using std::vector; using std::map;
namespace ros { bool ok() { return true; } void shutdown() {} bool isShuttingDown() { return false; } Time Time::now() { return Time(); } namespace stub { void log(int, const string&) {} } }
typedef EffortJointInterface EJ; typedef VelocityJointInterface VJ; typedef JointStateInterface JS;
static std::ostringstream out; static map<string, string> rn; static string real(const string& n) { return rn.count(n) ? rn[n] : n; }   // concrete names
static vector<string> split(const string& s, char c) { vector<string> v; string t; std::istringstream i(s); while (std::getline(i, t, c)) v.push_back(t); return v; }
template <class C> string join(const C& c) { string o; bool f = true; for (auto& x : c) { o += (f ? "" : ",") + x; f = false; } return o; }
struct Script { vector<std::pair<int, std::pair<string, string>>> acc; int rej = 0; };
static Script script; static vector<string> hooks; static vector<string> seen; static bool g_argsok;
static RobotHW* g_robot; static const void* g_iface;
typedef controller_interface::ControllerBase Base; static Base* current;
static string st(const Base& c) { string s; if (c.isInitialized()) s += "initialized"; if (c.isRunning()) s += "running"; if (c.isStopped()) s += "stopped"; if (c.isWaiting()) s += "waiting"; if (c.isAborted()) s += "aborted"; return s.empty() ? "constructed" : s; }
static const std::set<string> legal = {"constructed", "initialized", "running", "stopped", "waiting", "aborted"};
static string tm(const ros::Time& t) { return std::to_string(t.sec) + "." + std::to_string(t.nsec); }
template <class B> struct Hooked : B { using B::B;
  void rec(const string& h) { hooks.push_back(h); if (!legal.count(st(*this))) hooks.push_back("!ambiguous"); if (static_cast<Base*>(this) != current) hooks.push_back("!other"); }
  void starting(const ros::Time& t) override { rec("starting@" + tm(t)); B::starting(t); }
  void stopping(const ros::Time& t) override { rec("stopping@" + tm(t)); B::stopping(t); }
  void waiting(const ros::Time& t) override { rec("waiting@" + tm(t)); B::waiting(t); }
  void aborting(const ros::Time& t) override { rec("aborting@" + tm(t)); B::aborting(t); }
  void update(const ros::Time& t, const ros::Duration& p) override { rec("update@" + tm(t) + "/" + std::to_string(p.sec) + "." + std::to_string(p.nsec)); } };
template <class T> const char* tn(); template <> const char* tn<EJ>() { return "EJ"; } template <> const char* tn<VJ>() { return "VJ"; } template <> const char* tn<JS>() { return "JS"; }
template <class T> void see(T* i) { if (!i) return; auto n = i->getNames(); std::sort(n.begin(), n.end()); vector<string> e; for (auto& x : n) e.push_back(enc(x)); std::sort(e.begin(), e.end()); seen.push_back(string(tn<T>()) + ":" + join(e)); }
template <class T> void take(T* i, int part) { if (!i) return; for (auto& a : script.acc) if (a.first == part && a.second.first == tn<T>()) { try { i->getHandle(real(a.second.second)); } catch (const HardwareInterfaceException&) {} } }
template <class T> struct Single : Hooked<controller_interface::Controller<T>> {
  bool init(T* hw, ros::NodeHandle& nh) override { seen.clear(); see(hw); g_iface = hw; g_argsok = nh.getNamespace() == "/ctl"; take(hw, 1); return script.rej != 1 && controller_interface::Controller<T>::init(hw, nh); }
  bool init(T* hw, ros::NodeHandle& root, ros::NodeHandle& nh) override { g_argsok = g_argsok && hw == g_iface && root.getNamespace() == "/" && nh.getNamespace() == "/ctl"; take(hw, 2); return script.rej != 2 && controller_interface::Controller<T>::init(hw, root, nh); }
  bool initRequest(RobotHW* r, ros::NodeHandle& a, ros::NodeHandle& b, Base::ClaimedResources& c) override { return controller_interface::Controller<T>::initRequest(r, a, b, c); } };
template <bool OPT, class... T> struct Multi : Hooked<controller_interface::MultiInterfaceController<T...>> {
  Multi() : Hooked<controller_interface::MultiInterfaceController<T...>>(OPT) {}
  bool init(RobotHW* hw, ros::NodeHandle& nh) override { seen.clear(); see(hw->get<EJ>()); see(hw->get<VJ>()); see(hw->get<JS>()); std::sort(seen.begin(), seen.end()); g_argsok = nh.getNamespace() == "/ctl"; both(hw, 1); return script.rej != 1 && controller_interface::MultiInterfaceController<T...>::init(hw, nh); }
  bool init(RobotHW* hw, ros::NodeHandle& root, ros::NodeHandle& nh) override { g_argsok = g_argsok && root.getNamespace() == "/" && nh.getNamespace() == "/ctl"; both(hw, 2); return script.rej != 2 && controller_interface::MultiInterfaceController<T...>::init(hw, root, nh); }
  void both(RobotHW* hw, int p) { take(hw->get<EJ>(), p); take(hw->get<VJ>(), p); take(hw->get<JS>(), p); }
  bool initRequest(RobotHW* r, ros::NodeHandle& a, ros::NodeHandle& b, Base::ClaimedResources& c) override { return controller_interface::MultiInterfaceController<T...>::initRequest(r, a, b, c); } };
struct Plain : Hooked<Base> { bool initRequest(RobotHW*, ros::NodeHandle&, ros::NodeHandle&, ClaimedResources&) override { if (state_ != ControllerState::CONSTRUCTED || script.rej) return false; state_ = ControllerState::INITIALIZED; return true; } };
static std::shared_ptr<Base> mk(const string& k) {
  if (k == "P") return std::make_shared<Plain>();
  if (k == "S_EJ") return std::make_shared<Single<EJ>>(); if (k == "S_JS") return std::make_shared<Single<JS>>();
  if (k == "M_EV") return std::make_shared<Multi<false, EJ, VJ>>(); if (k == "M_EVo") return std::make_shared<Multi<true, EJ, VJ>>();
  if (k == "M_VJo") return std::make_shared<Multi<true, VJ, JS>>(); if (k == "M_JE") return std::make_shared<Multi<false, JS, EJ>>();
  if (k == "M_EVJo") return std::make_shared<Multi<true, EJ, VJ, JS>>(); if (k == "M_EVJ") return std::make_shared<Multi<false, EJ, VJ, JS>>();
  throw std::runtime_error("kind"); }
static double d;
static void reg(EJ& i, const string& n) { i.registerHandle(JointHandle(JointStateHandle(n, &d, &d, &d), &d)); }
static void reg(VJ& i, const string& n) { i.registerHandle(JointHandle(JointStateHandle(n, &d, &d, &d), &d)); }
static void reg(JS& i, const string& n) { i.registerHandle(JointStateHandle(n, &d, &d, &d)); }
struct World { RobotHW robot, part1, part2; EJ ej, ej2; VJ vj, vj2; JS js, js2;
  World(const string& e, const string& v, const string& j) { robot.registerInterfaceManager(&part1); robot.registerInterfaceManager(&part2); put(e, ej, ej2, &robot); put(v, vj, vj2, &part1); put(j, js, js2, &robot); }
  template <class T> void put(const string& how, T& a, T& b, RobotHW* first) { if (how == "none") return; reg(a, real("r1")); reg(a, real("r2")); if (how == "big") for (string r : {"r3", "r4", "r5", "r6"}) reg(a, real(r)); first->registerInterface(&a); if (how == "two") { reg(b, real("r3")); part2.registerInterface(&b); } } };
template <class T> string left(RobotHW& r) { T* i = r.get<T>(); return string(tn<T>()) + ":" + (i ? join(encAll(i->getClaims())) : string("none")); }

static void life(std::istringstream& in) {   // L kind,kind.. controller:op:sec:nsec:psec:pnsec ...
  string k, o; in >> k; vector<std::shared_ptr<Base>> cs; for (auto& x : split(k, ',')) cs.push_back(mk(x)); World w("one", "one", "one"); ros::NodeHandle root, nh("ctl"); int n = 0; script = Script();
  auto states = [&] { string s; for (auto& x : cs) s += (s.empty() ? "" : ",") + st(*x); return s; }; out << states();
  while (in >> o) { ++n; hooks.clear(); auto f = split(o, ':'); auto c = cs[std::stoi(f[0]) - 1]; current = c.get(); o = f[1]; ros::Time t; t.sec = std::stoul(f[2]); t.nsec = std::stoul(f[3]); ros::Duration p; p.sec = std::stol(f[4]); p.nsec = std::stol(f[5]); string ans = "-";
    auto b = [&](bool x) { ans = x ? "true" : "false"; };
    if (o == "init_ok" || o == "init_fail") { script.rej = o == "init_ok" ? 0 : 1 + n % 2; Base::ClaimedResources cr; b(c->initRequest(&w.robot, root, nh, cr)); }
    else if (o == "start") b(c->startRequest(t)); else if (o == "stop") b(c->stopRequest(t)); else if (o == "wait") b(c->waitRequest(t)); else if (o == "abort") b(c->abortRequest(t)); else if (o == "update") c->updateRequest(t, p);
    out << " " << ans << ";" << join(hooks) << ";" << states(); } }
static void init(std::istringstream& in) {   // I ej vj js names op op...   op = touch:ty:r | init:i:kind:rej:acc  acc = part.ty.r,...
  string e, v, j, o, nm; in >> e >> v >> j >> nm; for (auto& x : split(nm, ',')) { auto f = split(x, '='); rn[f[0]] = dec(f[1]); } World w(e, v, j); g_robot = &w.robot; vector<std::shared_ptr<Base>> cs; ros::NodeHandle root, nh("ctl"); bool first = true;
  while (in >> o) { auto f = split(o, ':'); if (!first) out << " "; first = false;
    if (f[0] == "touch") { if (f[1] == "EJ") w.robot.get<EJ>()->getHandle(real(f[2])); else w.robot.get<VJ>()->getHandle(real(f[2])); out << "-"; continue; }
    size_t i = std::stoi(f[1]); if (i > cs.size()) cs.push_back(mk(f[2])); script = Script(); script.rej = std::stoi(f[3]);
    if (f.size() > 4) for (auto& a : split(f[4], ',')) { auto g = split(a, '.'); script.acc.push_back({std::stoi(g[0]), {g[1], g[2]}}); }
    Base::ClaimedResources cr; cr.push_back(InterfaceResources("leftover", {"x"})); seen.clear(); g_argsok = true; seen.push_back("notrun");
    bool ok = cs[i - 1]->initRequest(&w.robot, root, nh, cr);
    vector<string> rep; for (auto& c : cr) { string n = c.hardware_interface; auto p = n.find_last_of(':'); n = p == string::npos ? n : n.substr(p + 1); n = n == "EffortJointInterface" ? "EJ" : n == "VelocityJointInterface" ? "VJ" : n == "JointStateInterface" ? "JS" : n; if (c.hardware_interface != internal::demangledTypeName<EJ>() && c.hardware_interface != internal::demangledTypeName<VJ>() && c.hardware_interface != internal::demangledTypeName<JS>()) n += "!"; auto er = encAll(c.resources); std::sort(er.begin(), er.end()); rep.push_back(n + ":" + join(er)); }
    std::sort(rep.begin(), rep.end()); auto semi = [](const vector<string>& x) { string r; for (auto& y : x) r += (r.empty() ? "" : "+") + y; return r; };
    out << (ok ? "true" : "false") << ";" << st(*cs[i - 1]) << ";" << (g_argsok ? "" : "!args") << semi(seen) << ";" << (ok ? semi(rep) : "") << ";" << left<EJ>(w.robot) << "+" << left<VJ>(w.robot) << "+" << left<JS>(w.robot); } }
int main() { string line; std::ios::sync_with_stdio(false);
  while (std::getline(std::cin, line)) { std::istringstream in(line); string k; in >> k; out.str(""); out.clear(); rn.clear();
    try { if (k == "L") life(in); else init(in); } catch (const std::exception& e) { out.str(""); out << "uncaught " << e.what(); } catch (...) { out.str(""); out << "uncaught"; }
    std::cout << out.str() << "\n"; } }
