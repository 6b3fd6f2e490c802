// Replays Transmission.tla (maps of one transmission) and TransConf.tla (its construction).
#include <transmission_interface/simple_transmission.h>
#include <transmission_interface/differential_transmission.h>
#include <transmission_interface/four_bar_linkage_transmission.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <memory>
#include <sstream>
using namespace transmission_interface; using std::string; typedef std::vector<double> V;
typedef std::vector<double*> ActuatorData::*AQ; typedef std::vector<double*> JointData::*JQ;
static const AQ AV[5] = {&ActuatorData::position, &ActuatorData::velocity, &ActuatorData::effort, &ActuatorData::absolute_position, &ActuatorData::torque_sensor};
static const JQ JV[5] = {&JointData::position, &JointData::velocity, &JointData::effort, &JointData::absolute_position, &JointData::torque_sensor};
typedef void (Transmission::*A2J)(const ActuatorData&, JointData&); typedef void (Transmission::*J2A)(const JointData&, ActuatorData&);
static const A2J AM[5] = {&Transmission::actuatorToJointPosition, &Transmission::actuatorToJointVelocity, &Transmission::actuatorToJointEffort, &Transmission::actuatorToJointAbsolutePosition, &Transmission::actuatorToJointTorqueSensor};
static const J2A JM[3] = {&Transmission::jointToActuatorPosition, &Transmission::jointToActuatorVelocity, &Transmission::jointToActuatorEffort};
static bool same(double a, double b) { return memcmp(&a, &b, sizeof a) == 0; }
static string num(double d) { char b[40]; snprintf(b, sizeof b, "%.17g", d); return b; }
// "maps" kind n ar*n jr*n of*n ign, 10*n numbers of actuators then joints per quantity, then operations a0..a4 j0..j2
static string maps(std::istringstream& in) {
  string k; size_t n; int ign; in >> k >> n; V ar(n), jr(n), of(n); for (auto* v : {&ar, &jr, &of}) for (auto& x : *v) in >> x; in >> ign;
  auto make = [&]() -> std::unique_ptr<Transmission> {
    if (k == "simple") return std::unique_ptr<Transmission>(new SimpleTransmission(ar[0], of[0]));
    if (k == "diff") return std::unique_ptr<Transmission>(new DifferentialTransmission(ar, jr, ign != 0, of));
    return std::unique_ptr<Transmission>(new FourBarLinkageTransmission(ar, jr, of)); };
  auto t = make(), lean = make(); auto other = make();
  double val[10][2], lv[10][2], oth[10][2]; for (int q = 0; q < 10; ++q) for (size_t i = 0; i < n; ++i) { in >> val[q][i]; lv[q][i] = val[q][i]; oth[q][i] = 1 - val[q][i]; }
  ActuatorData ad, od; JointData jd, pd;
  for (int q = 0; q < 5; ++q) for (size_t i = 0; i < n; ++i) { (ad.*AV[q]).push_back(&val[q][i]); (jd.*JV[q]).push_back(&val[5 + q][i]); (od.*AV[q]).push_back(&oth[q][i]); (pd.*JV[q]).push_back(&oth[5 + q][i]); }
  string op, out;
  while (in >> op) {
    int q = op[1] - '0';
    ActuatorData la; JointData lj; for (size_t i = 0; i < n; ++i) { (la.*AV[q]).push_back(&lv[q][i]); (lj.*JV[q]).push_back(&lv[5 + q][i]); }   // only what the map needs
    // the same transmission also works on other data in between
    if (op[0] == 'a') { (t.get()->*AM[q])(ad, jd); (t.get()->*AM[q])(od, pd); (lean.get()->*AM[q])(la, lj); } else { (t.get()->*JM[q])(jd, ad); (t.get()->*JM[q])(pd, od); (lean.get()->*JM[q])(lj, la); }
    for (int x = 0; x < 10; ++x) for (size_t i = 0; i < n; ++i) if (!same(val[x][i], lv[x][i])) return out + " with only its own data the map gives " + num(lv[x][i]) + " instead of " + num(val[x][i]);
    out += out.empty() ? "" : " ";
    for (int x = 0; x < 10; ++x) for (size_t i = 0; i < n; ++i) out += num(val[x][i]) + ",";
  }
  return out;
}
template <class T> string report(T& t, const string& x) {
  return "ok " + std::to_string(t.numActuators()) + " " + std::to_string(t.numJoints()) + " " + std::to_string(t.hasActuatorToJointAbsolutePosition()) + std::to_string(t.hasActuatorToJointTorqueSensor()) + x; }
static string vec(const V& v) { string s = " " + std::to_string(v.size()); for (double d : v) s += " " + num(d); return s; }
// "conf" kind constructor ign, then three vectors: length and elements
static string conf(std::istringstream& in) {
  string k, c; int ign; in >> k >> c >> ign; V v[3]; for (auto& x : v) { size_t n; in >> n; x.resize(n); for (auto& d : x) { string s; in >> s; d = strtod(s.c_str(), nullptr); } }
  try {
    if (k == "simple") { SimpleTransmission t = c == "plain" ? SimpleTransmission(v[0][0]) : SimpleTransmission(v[0][0], v[2][0]); return report(t, vec(V{t.getActuatorReduction()}) + vec(V{t.getJointOffset()})); }
    if (k == "diff") {
      DifferentialTransmission t = c == "plain" ? DifferentialTransmission(v[0], v[1]) : c == "ign" ? DifferentialTransmission(v[0], v[1], ign != 0) : c == "off" ? DifferentialTransmission(v[0], v[1], v[2]) : DifferentialTransmission(v[0], v[1], ign != 0, v[2]);
      double a[2] = {3, 5}, j[2] = {0, 0}; ActuatorData ad; JointData jd; ad.absolute_position = {a, a + 1}; jd.absolute_position = {j, j + 1};   // does the transmission bypass absolute encoders?
      ad.position = ad.absolute_position; t.actuatorToJointAbsolutePosition(ad, jd);
      return report(t, vec(t.getActuatorReduction()) + vec(t.getJointReduction()) + vec(t.getJointOffset()) + (j[0] == 5 && j[1] == 3 ? " bypass" : " through")); }
    FourBarLinkageTransmission t = c == "plain" ? FourBarLinkageTransmission(v[0], v[1]) : FourBarLinkageTransmission(v[0], v[1], v[2]);
    return report(t, vec(t.getActuatorReduction()) + vec(t.getJointReduction()) + vec(t.getJointOffset()));
  } catch (const TransmissionInterfaceException&) { return "rejected"; } catch (const std::exception& e) { return string("another exception: ") + e.what(); }
}
int main() {
  string line, w;
  while (std::getline(std::cin, line)) { std::istringstream in(line); in >> w; std::cout << (w == "maps" ? maps(in) : conf(in)) << std::endl; }
}
