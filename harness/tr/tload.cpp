// Replays TransLoad.tla: loads transmissions into a robot through the real TransmissionInterfaceLoader, then propagates.
#include <ros/ros.h>
#include <transmission_interface/transmission_interface_loader.h>
#include <pluginlib/class_list_macros.hpp>
#include "../common.h"
#include <algorithm>
#include <cstdio>
#include <map>
#include <cstring>
#include <iostream>
#include <sstream>
using namespace transmission_interface; using namespace hardware_interface; using std::string;
namespace ros { namespace stub { void log(int, const string&) {} } }
static string unhex(const string& h) { string r; for (size_t i = 0; i + 1 < h.size(); i += 2) r += char(std::stoi(h.substr(i, 2), nullptr, 16)); return r; }
static string num(double d) { char b[40]; snprintf(b, sizeof b, " %.17g", d); return d != d ? " nan" : b; }
// names of the specification and the ones this case uses for them
static const char* ALL[13] = {"a1", "a2", "a3", "a4", "a9", "j1", "j2", "j3", "j4", "jx", "t1", "t2", "t3"};
static std::map<string, string> real, spec;
static string sp(const string& n) { auto i = spec.find(n); return i == spec.end() ? "unknown:" + enc(n) : i->second; }
static const char* A[4] = {"a1", "a2", "a3", "a4"};
// names in the order of the specification's names
static std::vector<string> sorted(std::vector<string> v) { std::sort(v.begin(), v.end(), [](const string& a, const string& b) { return sp(a) < sp(b); }); return v; }
static int value(int side, int i, int q, int k) { return (7 * q + 11 * i + 5 * side + 13 * k) % 29 - 9; }
struct World {
  double act[4][8]; double own[5]; ActuatorStateInterface as; PositionActuatorInterface pa; VelocityActuatorInterface va; EffortActuatorInterface ea; JointStateInterface ojs;
  RobotHW hw; RobotTransmissions rt; std::unique_ptr<TransmissionInterfaceLoader> loader; string ownname; int writes = 0;
  World(const string& ifaces, const string& sensors, const string& o) {
    for (int i = 0; i < 4; ++i) { double* v = act[i]; for (int q = 0; q < 8; ++q) v[q] = q + 1;
      bool both = sensors == "both" || (sensors == "first" && i == 0) || (sensors == "second" && i == 1);
      ActuatorStateHandle h = both ? ActuatorStateHandle(real[A[i]], v, v + 1, v + 2, v + 3, v + 4) : sensors == "abs" ? ActuatorStateHandle(real[A[i]], v, v + 1, v + 2, v + 3)
        : sensors == "torque" ? ActuatorStateHandle(real[A[i]], v, v + 1, v + 2, v + 4, true) : ActuatorStateHandle(real[A[i]], v, v + 1, v + 2);
      as.registerHandle(h); pa.registerHandle(ActuatorHandle(h, v + 5)); va.registerHandle(ActuatorHandle(h, v + 6)); ea.registerHandle(ActuatorHandle(h, v + 7)); }
    for (char c : ifaces) c == 'S' ? hw.registerInterface(&as) : c == 'P' ? hw.registerInterface(&pa) : c == 'V' ? hw.registerInterface(&va) : c == 'E' ? hw.registerInterface(&ea) : void();
    if (o != "none") { for (int q = 0; q < 5; ++q) own[q] = 101 + q; ownname = real[o == "same" ? "j1" : "jx"]; ojs.registerHandle(JointStateHandle(ownname, own, own + 1, own + 2, own + 3, own + 4)); hw.registerInterface(&ojs); }
    loader.reset(new TransmissionInterfaceLoader(&hw, &rt));
  }
  static bool same(double a, double b) { return a == b || (a != a && b != b); }
  template <class I> string commands(const char* what) { string out = string(" ") + what; I* f = hw.get<I>(); if (!f) return out; JointStateInterface* s = hw.get<JointStateInterface>();
    auto names = sorted(f->getNames());
    for (auto& n : names) { auto h = f->getHandle(n); out += " " + sp(n) + num(h.getCommand());
      try { auto j = s->getHandle(n); if (h.getName() != n || !same(h.getPosition(), j.getPosition()) || !same(h.getVelocity(), j.getVelocity()) || !same(h.getEffort(), j.getEffort())) out += " another-joint's-state"; } catch (const std::exception& e) { out += " not-in-state-interface"; } }
    return out; }
  string seen() { string out = " js"; JointStateInterface* s = hw.get<JointStateInterface>(); 
    if (s) { auto names = sorted(s->getNames());
      for (auto& n : names) { auto h = s->getHandle(n); out += " " + sp(n) + num(h.getPosition()) + num(h.getVelocity()) + num(h.getEffort()) + (h.hasAbsolutePosition() ? num(h.getAbsolutePosition()) : " none") + (h.hasTorqueSensor() ? num(h.getTorqueSensor()) : " none"); } }
    out += commands<PositionJointInterface>("P") + commands<VelocityJointInterface>("V") + commands<EffortJointInterface>("E") + " act";
    for (auto& a : act) for (double v : a) out += num(v);
    return out; }
  template <class I> void set(int q) { I* f = hw.get<I>(); if (f) for (auto& n : f->getNames()) if (sp(n) != "jx") f->getHandle(n).setCommand(value(1, sp(n)[1] - '0', q, writes)); }
  void write() {
    for (int i = 0; i < 4; ++i) for (int q = 0; q < 8; ++q) act[i][q] = value(0, i + 1, q + 1, writes);
    for (auto& e : loader->getData()->raw_joint_data_map) { int i = sp(e.first)[1] - '0', q = 1; for (double* v : {&e.second.position, &e.second.velocity, &e.second.effort, &e.second.absolute_position, &e.second.torque_sensor}) *v = value(1, i, q++, writes); }
    set<PositionJointInterface>(6); set<VelocityJointInterface>(7); set<EffortJointInterface>(8); ++writes; }
  template <class I> string kind(const char* what, const string& op) { I* f = rt.get<I>(); if (op == what && f) f->propagate(); if (op != "reg" || !f) return ""; string out = string(" ") + what; for (auto& n : sorted(f->getNames())) out += ":" + sp(n); return out; }
  string kinds(const string& op) { return kind<ActuatorToJointStateInterface>("A2Jstate", op) + kind<JointToActuatorPositionInterface>("J2Aposition", op) + kind<JointToActuatorVelocityInterface>("J2Avelocity", op) + kind<JointToActuatorEffortInterface>("J2Aeffort", op)
    + kind<JointToActuatorStateInterface>("J2Astate", op) + kind<ActuatorToJointPositionInterface>("A2Jposition", op) + kind<ActuatorToJointVelocityInterface>("A2Jvelocity", op) + kind<ActuatorToJointEffortInterface>("A2Jeffort", op); }
};
static string robot(std::istringstream& in) {
  real.clear(); spec.clear(); string ifaces, sensors, own, mode, h, out; int n; for (auto a : ALL) { in >> h; spec[real[a] = dec(h)] = a; } in >> ifaces >> sensors >> own >> mode >> n; World w(ifaces, sensors, own);
  for (int i = 0; i < n; ++i) { in >> h; bool ok = false;
    try { if (mode == "urdf") ok = w.loader->load(unhex(h)); else { std::vector<TransmissionInfo> infos; TransmissionParser::parse(unhex(h), infos); ok = infos.size() == 1 ? w.loader->load(infos[0]) : w.loader->load(infos); } out += ok ? "1" : "0"; }
    catch (const std::exception& e) { out += "x"; } }
  out += " reg" + w.kinds("reg") + w.seen();
  while (in >> h) { if (h == "write") w.write(); else w.kinds(h); out += w.seen(); }
  return out;
}
int main(int, char** argv) {
  TiXmlDocument x(argv[1]); if (!x.LoadFile()) return 3;
  for (auto* c = x.RootElement()->FirstChildElement("class"); c; c = c->NextSiblingElement("class")) { auto f = pluginlib::exported().find(c->Attribute("type"));
    if (f != pluginlib::exported().end()) pluginlib::registry()[c->Attribute("base_class_type")].push_back({c->Attribute("name"), {f->second}}); }
  string line, w;
  while (std::getline(std::cin, line)) { std::istringstream in(line); in >> w; std::cout << robot(in) << std::endl; }
}
