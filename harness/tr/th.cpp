// Replays TransHandles.tla: constructing transmission handles and propagating interfaces.
#include <transmission_interface/simple_transmission.h>
#include <transmission_interface/differential_transmission.h>
#include <transmission_interface/four_bar_linkage_transmission.h>
#include <transmission_interface/transmission_interface.h>
#include "../common.h"
#include <algorithm>
#include <cstdio>
#include <deque>
#include <iostream>
#include <memory>
#include <sstream>
using namespace transmission_interface; using std::string; typedef std::vector<double> V;
namespace ros { namespace stub { void log(int, const string&) {} } }
typedef std::vector<double*> ActuatorData::*AQ; typedef std::vector<double*> JointData::*JQ;
static const AQ AV[5] = {&ActuatorData::position, &ActuatorData::velocity, &ActuatorData::effort, &ActuatorData::absolute_position, &ActuatorData::torque_sensor};
static const JQ JV[5] = {&JointData::position, &JointData::velocity, &JointData::effort, &JointData::absolute_position, &JointData::torque_sensor};
// any size, no sensors; counts calls
struct Plain : Transmission {
  size_t na, nj; double r; Plain(size_t a, size_t j, double red) : na(a), nj(j), r(red) {}
  void actuatorToJointEffort(const ActuatorData& a, JointData& j) override { *j.effort[0] = *a.effort[0] * r; }
  void actuatorToJointVelocity(const ActuatorData& a, JointData& j) override { *j.velocity[0] = *a.velocity[0] / r; }
  void actuatorToJointPosition(const ActuatorData& a, JointData& j) override { *j.position[0] = *a.position[0] / r; }
  void jointToActuatorEffort(const JointData& j, ActuatorData& a) override { *a.effort[0] = *j.effort[0] / r; }
  void jointToActuatorVelocity(const JointData& j, ActuatorData& a) override { *a.velocity[0] = *j.velocity[0] * r; }
  void jointToActuatorPosition(const JointData& j, ActuatorData& a) override { *a.position[0] = *j.position[0] * r; }
  size_t numActuators() const override { return na; } size_t numJoints() const override { return nj; }
};
typedef std::unique_ptr<Transmission> Ptr;
static string num(double d) { char b[40]; snprintf(b, sizeof b, "%.17g", d); return b; }
template <class H> string build(std::istringstream& in) {
  string nm, tr; int usable; in >> nm >> tr >> usable; nm = dec(nm);
  Ptr t(tr == "simple" ? (Transmission*)new SimpleTransmission(2, 1) : tr == "diff" ? new DifferentialTransmission({2, 3}, {4, 5}) : tr == "four" ? new FourBarLinkageTransmission({2, 3}, {4, 5})
        : tr == "wide" ? (Transmission*)new Plain(3, 1, 2) : tr == "tall" ? new Plain(1, 2, 2) : nullptr);
  std::deque<double> mem; ActuatorData a; JointData j;
  for (int s = 0; s < 2; ++s) for (int q = 0; q < 5; ++q) { int len, null; in >> len >> null; auto& v = s == 0 ? a.*AV[q] : j.*JV[q];
    for (int i = 1; i <= len; ++i) { mem.push_back(mem.size() + 1); v.push_back(i == null ? nullptr : &mem.back()); } }
  try { H h(nm, t.get(), a, j); if (h.getName() != nm) return "named " + h.getName(); if (usable) h.propagate(); return "accepted"; }
  catch (const TransmissionInterfaceException&) { return "rejected"; } catch (const std::exception& e) { return string("another exception: ") + e.what(); }
}
struct Slot { Ptr t; double val[10][2]; size_t n; };
template <class H, class I> string run(std::istringstream& in) {
  std::deque<Slot> slots; I iface; string op, out;
  while (in >> op) {
    out += out.empty() ? "" : " ";
    if (op == "register") {
      string name, kind, has; size_t n; int ign; in >> name >> kind >> n; name = dec(name); V ar(n), jr(n), of(n); for (auto* v : {&ar, &jr, &of}) for (auto& x : *v) in >> x; in >> ign >> has;
      slots.emplace_back(); Slot& s = slots.back(); s.n = n;
      for (int q = 0; q < 10; ++q) for (size_t i = 0; i < n; ++i) in >> s.val[q][i];
      s.t.reset(kind == "plain" ? (Transmission*)new Plain(1, 1, ar[0]) : kind == "simple" ? new SimpleTransmission(ar[0], of[0]) : kind == "diff" ? (Transmission*)new DifferentialTransmission(ar, jr, ign != 0, of) : new FourBarLinkageTransmission(ar, jr, of));
      ActuatorData a; JointData j; for (int q = 0; q < 5; ++q) if (has[q] == '1') for (size_t i = 0; i < n; ++i) { (a.*AV[q]).push_back(&s.val[q][i]); (j.*JV[q]).push_back(&s.val[5 + q][i]); }
      iface.registerHandle(H(name, s.t.get(), a, j)); out += "registered";
    } else if (op == "propagate") { iface.propagate(); out += "propagated"; }
    else if (op == "one") { string name; in >> name; name = dec(name); try { H h = iface.getHandle(name); if (h.getName() != name) out += "misnamed"; else { h.propagate(); out += "propagated"; } }
      catch (const TransmissionInterfaceException& e) { out += string(e.what()).find(name) == string::npos ? "unnamed" : "unknown"; } catch (const std::exception&) { out += "another-exception"; } }
    else if (op == "write") { for (auto& s : slots) for (auto& q : s.val) for (size_t i = 0; i < s.n; ++i) q[i] = 1 - q[i]; out += "written"; }
    else if (op == "names") { string r = "names"; auto ns = encAll(iface.getNames()); std::sort(ns.begin(), ns.end()); for (auto& n : ns) r += ":" + n; out += r; }
    for (auto& s : slots) for (auto& q : s.val) for (size_t i = 0; i < s.n; ++i) out += "," + num(q[i]);
  }
  return out;
}
template <class H, class I> string go(const string& w, std::istringstream& in) { return w == "build" ? build<H>(in) : run<H, I>(in); }
int main() {
  string line, w, h;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line); in >> w >> h;
    std::cout << (h == "A2Jstate" ? go<ActuatorToJointStateHandle, ActuatorToJointStateInterface>(w, in) : h == "A2Jposition" ? go<ActuatorToJointPositionHandle, ActuatorToJointPositionInterface>(w, in)
      : h == "A2Jvelocity" ? go<ActuatorToJointVelocityHandle, ActuatorToJointVelocityInterface>(w, in) : h == "A2Jeffort" ? go<ActuatorToJointEffortHandle, ActuatorToJointEffortInterface>(w, in)
      : h == "J2Astate" ? go<JointToActuatorStateHandle, JointToActuatorStateInterface>(w, in) : h == "J2Aposition" ? go<JointToActuatorPositionHandle, JointToActuatorPositionInterface>(w, in)
      : h == "J2Avelocity" ? go<JointToActuatorVelocityHandle, JointToActuatorVelocityInterface>(w, in) : go<JointToActuatorEffortHandle, JointToActuatorEffortInterface>(w, in)) << std::endl;
  }
}
