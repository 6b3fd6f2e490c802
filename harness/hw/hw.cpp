// Replays specification-generated cases on the real handles, resource registries, interface managers and conflict
// check, printing what is observed. It judges nothing: expectations come from spec/{Handles,Resources,Interfaces,Conflict}.tla.
#include <hardware_interface/robot_hw.h>
#include <hardware_interface/joint_state_interface.h>
#include <hardware_interface/joint_command_interface.h>
#include <hardware_interface/joint_mode_interface.h>
#include <hardware_interface/actuator_state_interface.h>
#include <hardware_interface/actuator_command_interface.h>
#include <hardware_interface/posvel_command_interface.h>
#include <hardware_interface/posvelacc_command_interface.h>
#include <hardware_interface/position_velocity_torque_gains_command_interface.h>
#include <hardware_interface/force_torque_sensor_interface.h>
#include <hardware_interface/imu_sensor_interface.h>
#include "../common.h"
#include <algorithm>
#include <limits>
#include <functional>
#include <iostream>
#include <memory>
#include <sstream>
#include <set>
using namespace hardware_interface; using std::string; using std::vector; using std::map;
namespace ros { bool ok() { return true; } void shutdown() {} bool isShuttingDown() { return false; } Time Time::now() { return Time(); } namespace stub { void log(int, const string&) {} } }
static vector<string> split(const string& s, char c) { vector<string> v; string t; std::istringstream i(s); while (std::getline(i, t, c)) v.push_back(t); return v; }
template <class C> string join(const C& c) { string o; bool f = true; for (auto& x : c) { o += (f ? "" : ",") + x; f = false; } return o; }
static string sorted(vector<string> v) { std::sort(v.begin(), v.end()); return join(v); }

// ---------------------------------------------------------------- handles (C14)
static std::ostringstream out;
template <class E> struct Cell { E v; };
struct Acc { std::function<double()> get; std::function<const void*()> ptr; std::function<void(double)> set; };
static map<string, double> mem; static JointCommandModes mmode; static int values = 0;
// the specification's values are symbols; with values = 1 they are mapped to unusual numbers
static double V(double x) { static const vector<double> odd = {0.0, -1.0, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(), 1e-300, 1e300, -0.5, 3e-5, -7e9, 12345, 0.1};
  if (!values) return x; long k = long(x); return k / 100 == 0 ? odd[k % 12] : odd[(k + 5 * (k / 100)) % 12]; }
static double* P(const string& s, const std::set<string>& nulls) { return nulls.count(s) ? nullptr : &mem[s]; }
template <class H> struct Ops;   // per handle type: accessors by slot
template <class H> void stateAcc(H& h, map<string, Acc>& a) {
  a["pos"] = {[&] { return h.getPosition(); }, [&] { return h.getPositionPtr(); }, nullptr};
  a["vel"] = {[&] { return h.getVelocity(); }, [&] { return h.getVelocityPtr(); }, nullptr};
  a["eff"] = {[&] { return h.getEffort(); }, [&] { return h.getEffortPtr(); }, nullptr};
  a["abs"] = {[&] { return h.getAbsolutePosition(); }, [&] { return h.getAbsolutePositionPtr(); }, nullptr};
  a["tor"] = {[&] { return h.getTorqueSensor(); }, [&] { return h.getTorqueSensorPtr(); }, nullptr}; }
static void cmdAcc(JointStateHandle&, map<string, Acc>&) {}
static void cmdAcc(ActuatorStateHandle&, map<string, Acc>&) {}
static void cmdAcc(JointHandle& h, map<string, Acc>& a) { a["cmd"] = {[&] { return h.getCommand(); }, [&] { return h.getCommandPtr(); }, [&](double x) { h.setCommand(x); }}; }
static void cmdAcc(ActuatorHandle& h, map<string, Acc>& a) { a["cmd"] = {[&] { return h.getCommand(); }, [&] { return h.getCommandPtr(); }, [&](double x) { h.setCommand(x); }}; }
static void cmdAcc(PosVelJointHandle& h, map<string, Acc>& a) {
  a["cpos"] = {[&] { return h.getCommandPosition(); }, nullptr, [&](double x) { h.setCommandPosition(x); }};
  a["cvel"] = {[&] { return h.getCommandVelocity(); }, nullptr, [&](double x) { h.setCommandVelocity(x); }}; }
static void cmdAcc(PosVelAccJointHandle& h, map<string, Acc>& a) { cmdAcc(static_cast<PosVelJointHandle&>(h), a);
  a["cacc"] = {[&] { return h.getCommandAcceleration(); }, nullptr, [&](double x) { h.setCommandAcceleration(x); }}; }
static void cmdAcc(PositionVelocityTorqueGainsJointHandle& h, map<string, Acc>& a) { cmdAcc(static_cast<PosVelJointHandle&>(h), a);
  a["ceff"] = {[&] { return h.getCommandEffort(); }, nullptr, [&](double x) { h.setCommandEffort(x); }};
  a["ckp"] = {[&] { return h.getCommandKp(); }, nullptr, [&](double x) { h.setCommandKp(x); }};
  a["ckd"] = {[&] { return h.getCommandKd(); }, nullptr, [&](double x) { h.setCommandKd(x); }}; }
template <class H> void setAll(H&, const vector<double>&) {}
static void setAll(PosVelJointHandle& h, const vector<double>& v) { h.setCommand(v[0], v[1]); }
static void setAll(PosVelAccJointHandle& h, const vector<double>& v) { h.setCommand(v[0], v[1], v[2]); }
static void setAll(PositionVelocityTorqueGainsJointHandle& h, const vector<double>& v) { h.setCommand(v[0], v[1], v[2], v[3], v[4]); }
// tokens: "poke:slot:value" "set:slot:value" "setall::v,v,v" "copy::"
template <class H> void runStateful(H made, const vector<string>& slots, const vector<string>& ops) {
  auto h = std::make_shared<H>(made); map<string, Acc> a; stateAcc(*h, a); cmdAcc(*h, a);
  for (auto& o : ops) { auto f = split(o, ':'); f.resize(3);
    if (f[0] == "poke") mem[f[1]] = V(std::stod(f[2]));
    else if (f[0] == "set") a[f[1]].set(V(std::stod(f[2])));
    else if (f[0] == "setall") { vector<double> v; for (auto& x : split(f[2], ',')) v.push_back(V(std::stod(x))); setAll(*h, v); }
    else if (f[0] == "copy") { auto g = std::make_shared<H>(); *g = H(*h); h = g; a.clear(); stateAcc(*h, a); cmdAcc(*h, a); } }
  out << enc(h->getName());
  for (auto& s : slots) { out << " " << s << "=" << a[s].get() << "/" << mem[s]; if (a[s].ptr && a[s].ptr() != &mem[s]) out << "!ptr"; }
  for (string s : {"abs", "tor"}) { bool has = s == "abs" ? h->hasAbsolutePosition() : h->hasTorqueSensor(); out << " " << s << (has ? "+" : "-");
    if (std::find(slots.begin(), slots.end(), s) == slots.end()) { try { a[s].get(); out << "r"; } catch (const std::runtime_error&) { out << "t"; } try { a[s].ptr(); out << "r"; } catch (const std::runtime_error&) { out << "t"; } } } }
template <class S> S mkState(const string& st, const string& n, const std::set<string>& z) {
  auto p = [&](const char* s) { return P(s, z); };
  if (st == "s4") return S(n, p("pos"), p("vel"), p("eff"));
  if (st == "s6") return S(n, p("pos"), p("vel"), p("eff"), p("abs"), p("tor"));
  if (st == "s5a") return S(n, p("pos"), p("vel"), p("eff"), p("abs"));
  return S(n, p("pos"), p("vel"), p("eff"), p("tor"), true); }
static void handleCase(std::istringstream& in) {   // H own state cmd name slots nulls ops...
  string own, st, cmd, name, sl, nl; in >> values >> own >> st >> cmd >> name >> sl >> nl; name = dec(name); vector<string> ops, slots = split(sl, ','); string o; while (in >> o) ops.push_back(o);
  std::set<string> z; if (nl != "-") for (auto& x : split(nl, ',')) z.insert(x);
  mem.clear(); double k = 0; for (auto& s : slots) mem[s] = V(++k); for (string s : {"junk1", "junk2"}) mem[s] = 0;
  try {
    auto p = [&](const char* s) { return P(s, z); };
    if (own == "joint") { JointStateHandle js = mkState<JointStateHandle>(st, name, z);
      if (cmd == "S") runStateful(js, slots, ops); else if (cmd == "H") runStateful(JointHandle(js, p("cmd")), slots, ops);
      else if (cmd == "PV") runStateful(PosVelJointHandle(js, p("cpos"), p("cvel")), slots, ops);
      else if (cmd == "PVA") runStateful(PosVelAccJointHandle(js, p("cpos"), p("cvel"), p("cacc")), slots, ops);
      else runStateful(PositionVelocityTorqueGainsJointHandle(js, p("cpos"), p("cvel"), p("ceff"), p("ckp"), p("ckd")), slots, ops);
    } else if (own == "act") { ActuatorStateHandle as = mkState<ActuatorStateHandle>(st, name, z);
      if (cmd == "S") runStateful(as, slots, ops); else runStateful(ActuatorHandle(as, p("cmd")), slots, ops);
    } else if (own == "mode") { mmode = JointCommandModes(3); JointModeHandle h(name, z.count("mode") ? nullptr : &mmode);
      for (auto& x : ops) { auto f = split(x, ':'); if (f[0] == "poke") mmode = JointCommandModes(std::stoi(f[2])); else if (f[0] == "set") h.setMode(JointCommandModes(std::stoi(f[2]))); else if (f[0] == "copy") { JointModeHandle g; g = h; h = g; } }
      out << enc(h.getName()) << " mode=" << int(h.getMode()) << "/" << int(mmode); if (h.getModePtr() != &mmode) out << "!ptr";
    } else if (own == "ft") { ForceTorqueSensorHandle h(name, "frame_" + name, p("force"), p("torque"));
      for (auto& x : ops) { auto f = split(x, ':'); if (f[0] == "poke") mem[f[1]] = V(std::stod(f[2])); else if (f[0] == "copy") { ForceTorqueSensorHandle g; g = h; h = g; } }
      out << enc(h.getName()) << " " << enc(h.getFrameId()); map<string, const double*> a = {{"force", h.getForce()}, {"torque", h.getTorque()}};
      for (auto& s : slots) { out << " " << s << "="; if (a[s]) out << *a[s] << "/" << mem[s]; else out << "null"; }
    } else { ImuSensorHandle::Data d; d.name = name; d.frame_id = "frame_" + name; d.orientation = p("ori"); d.orientation_covariance = p("oric"); d.angular_velocity = p("ang"); d.angular_velocity_covariance = p("angc"); d.linear_acceleration = p("lin"); d.linear_acceleration_covariance = p("linc");
      ImuSensorHandle h1(d), h2(name, "frame_" + name, p("ori"), p("oric"), p("ang"), p("angc"), p("lin"), p("linc"));
      for (auto& x : ops) { auto f = split(x, ':'); if (f[0] == "poke") mem[f[1]] = V(std::stod(f[2])); else if (f[0] == "copy") { ImuSensorHandle g; g = h1; h1 = g; g = h2; h2 = g; } }
      for (ImuSensorHandle* h : {&h1, &h2}) { out << (h == &h2 ? " | " : "") << enc(h->getName()) << " " << enc(h->getFrameId());
        map<string, const double*> a = {{"ori", h->getOrientation()}, {"oric", h->getOrientationCovariance()}, {"ang", h->getAngularVelocity()}, {"angc", h->getAngularVelocityCovariance()}, {"lin", h->getLinearAcceleration()}, {"linc", h->getLinearAccelerationCovariance()}};
        for (auto& s : slots) { out << " " << s << "="; if (a[s]) out << *a[s] << "/" << mem[s]; else out << "null"; } } }
    if (mem["junk1"] || mem["junk2"]) out << " junk";
  } catch (const std::exception& e) { out.str(""); out << "throws" << (string(e.what()).find(name) != string::npos ? "+name" : ""); }
}

// ---------------------------------------------------------------- registries (C13)
static double cell[256]; static JointCommandModes modes[256];
static JointStateHandle jsh(const string& n, int t) { return JointStateHandle(n, &cell[t], &cell[0], &cell[0]); }
static ActuatorStateHandle ash(const string& n, int t) { return ActuatorStateHandle(n, &cell[t], &cell[0], &cell[0]); }
static void mk(JointStateHandle& h, const string& n, int t) { h = jsh(n, t); }
static void mk(JointHandle& h, const string& n, int t) { h = JointHandle(jsh(n, t), &cell[0]); }
static void mk(PosVelJointHandle& h, const string& n, int t) { h = PosVelJointHandle(jsh(n, t), &cell[0], &cell[0]); }
static void mk(PosVelAccJointHandle& h, const string& n, int t) { h = PosVelAccJointHandle(jsh(n, t), &cell[0], &cell[0], &cell[0]); }
static void mk(PositionVelocityTorqueGainsJointHandle& h, const string& n, int t) { h = PositionVelocityTorqueGainsJointHandle(jsh(n, t), &cell[0], &cell[0], &cell[0], &cell[0], &cell[0]); }
static void mk(ActuatorStateHandle& h, const string& n, int t) { h = ash(n, t); }
static void mk(ActuatorHandle& h, const string& n, int t) { h = ActuatorHandle(ash(n, t), &cell[0]); }
static void mk(ForceTorqueSensorHandle& h, const string& n, int t) { h = ForceTorqueSensorHandle(n, "f", &cell[t], &cell[0]); }
static void mk(ImuSensorHandle& h, const string& n, int t) { h = ImuSensorHandle(n, "f", &cell[t], nullptr, nullptr, nullptr, nullptr, nullptr); }
static void mk(JointModeHandle& h, const string& n, int t) { h = JointModeHandle(n, &modes[t]); }
template <class H> int tok(const H& h) { return int(h.getPositionPtr() - cell); }
static int tok(const ForceTorqueSensorHandle& h) { return int(h.getForce() - cell); }
static int tok(const ImuSensorHandle& h) { return int(h.getOrientation() - cell); }
static int tok(const JointModeHandle& h) { return int(h.getModePtr() - modes); }
template <class I> void registry(const vector<string>& ops) {
  I iface; HardwareInterface& hw = iface; int t = 0;
  for (auto& o : ops) { ++t; auto f = split(o, ':'); f.resize(2); if (f[0] != "clear") f[1] = dec(f[1]); int res = 0; string err;
    if (f[0] == "reg") { typename I::ResourceHandleType h; mk(h, f[1], t); iface.registerHandle(h); res = t; }
    else if (f[0] == "get") { try { auto h = iface.getHandle(f[1]); res = tok(h); if (h.getName() != f[1]) err = "!othername"; } catch (const HardwareInterfaceException& e) { res = 0; err = string(e.what()).find(f[1]) != string::npos ? "" : "!noname"; } catch (const std::exception&) { err = "!othererror"; } }
    else if (f[0] == "claim") hw.claim(f[1]); else if (f[0] == "clear") hw.clearClaims();
    out << (t > 1 ? " " : "") << res << err << "[" << sorted(encAll(iface.getNames())) << "][" << sorted(encAll(hw.getClaims())) << "]"; } }
static void registryCase(std::istringstream& in) { string k, o; in >> k; vector<string> ops; while (in >> o) ops.push_back(o);
#define T(I) if (k == #I) return registry<I>(ops);
  T(JointStateInterface) T(JointCommandInterface) T(EffortJointInterface) T(VelocityJointInterface) T(PositionJointInterface) T(PosVelJointInterface) T(PosVelAccJointInterface) T(PositionVelocityTorqueGainsJointInterface)
  T(ActuatorStateInterface) T(ActuatorCommandInterface) T(EffortActuatorInterface) T(VelocityActuatorInterface) T(PositionActuatorInterface) T(ForceTorqueSensorInterface) T(ImuSensorInterface) T(JointModeInterface)
  out << "unknown interface"; }

// ---------------------------------------------------------------- interface managers (C12)
struct Tag { string n, owner; string getName() const { return n; } };
namespace arm { struct A_ : HardwareResourceManager<Tag> {}; struct A : HardwareInterface {}; }
struct A : HardwareResourceManager<Tag, ClaimResources> {}; typedef arm::A_ B; typedef arm::A P_;   // type names that contain one another
template <class T> void lookup(RobotHW& m, const string& nm, const map<string, HardwareInterface*>& objs, bool resources) {
  T* g = m.get<T>(); T* g2 = m.get<T>(); out << " " << nm << "{"; if (!g) out << "none"; else { string id = "new"; for (auto& o : objs) if (o.second == static_cast<HardwareInterface*>(g)) id = o.first; out << id; } if (g != g2) out << "!unstable";
  out << ";" << sorted(encAll(m.getInterfaceResources(hardware_interface::internal::demangledTypeName<T>()))) << ";"; (void)resources; }
static void details(HardwareInterface*, bool) {}
template <class I> void details(I* g, bool claims) { if (!g) return; auto ns = g->getNames(); std::sort(ns.begin(), ns.end()); for (auto& n : ns) { g->clearClaims(); auto h = g->getHandle(n); out << enc(n) << "=" << h.owner << (h.n == n ? "" : "!n") << (claims == (g->getClaims() == std::set<string>{n}) && (claims || g->getClaims().empty()) ? "" : "!claim") << ","; } g->clearClaims(); }
static void interfaceCase(std::istringstream& in) {   // I nman names ops: reg:m:o nest:m:c look::
  int n; string nm; in >> n >> nm; auto nv = split(nm, ','); for (auto& x : nv) x = dec(x); vector<std::unique_ptr<RobotHW>> m; for (int i = 0; i < n; ++i) m.emplace_back(new RobotHW);
  const string rv = nv[0], rw = nv[1], rx = nv[2], ry = nv[3], rz = nv[4];
  const map<string, vector<string>> res = {{"A1", {rx, ry}}, {"A2", {ry, rz}}, {"A3", {rw}}, {"A4", {rv, rw}}, {"B1", {rx}}, {"B2", {}}};
  A a[4]; B b[2]; P_ p[2]; map<string, HardwareInterface*> objs; auto fill = [&](auto& ifc, const string& o) { for (auto& r : res.at(o)) ifc.registerHandle(Tag{r, o}); objs[o] = &ifc; };
  fill(a[0], "A1"); fill(a[1], "A2"); fill(a[2], "A3"); fill(a[3], "A4"); fill(b[0], "B1"); fill(b[1], "B2"); objs["P1"] = &p[0]; objs["P2"] = &p[1];
  auto look = [&] { for (auto& x : m) { x->get<A>(); x->get<B>(); x->get<P_>(); x->getNames(); } }; string s;
  while (in >> s) { auto f = split(s, ':'); if (f[0] == "look") { look(); continue; } RobotHW& x = *m[std::stoi(f[1]) - 1];
    if (f[0] == "nest") x.registerInterfaceManager(m[std::stoi(f[2]) - 1].get());
    else if (f[2][0] == 'A') x.registerInterface(&a[f[2][1] - '1']); else if (f[2][0] == 'B') x.registerInterface(&b[f[2][1] - '1']); else x.registerInterface(&p[f[2][1] - '1']); }
  for (auto& x : m) { auto ns = x->getNames(); out << "[" << sorted(ns) << "]";
    lookup<A>(*x, "A", objs, true); details(x->get<A>(), true); out << "}"; lookup<B>(*x, "B", objs, true); details(x->get<B>(), false); out << "}"; lookup<P_>(*x, "P", objs, false); out << "} "; } }

// ---------------------------------------------------------------- conflicts (C15)
static void conflictCase(std::istringstream& in) {   // K naming ctl ctl ...   ctl = iface/iface, iface = r,r or "-"
  int naming; in >> naming; std::list<ControllerInfo> l; string c; int k = 0;
  while (in >> c) { ControllerInfo i; ++k; i.name = naming == 2 ? "ctl" : "c" + std::to_string(k); i.type = "t"; int j = 0;
    if (c != "!") for (auto& f : split(c, '/')) { ++j; InterfaceResources r; r.hardware_interface = naming == 1 ? "I" + std::to_string(k) + "_" + std::to_string(j) : "I" + std::to_string(j); if (f != "-") for (auto& x : split(f, ',')) r.resources.insert(dec(x)); i.claimed_resources.push_back(r); }
    l.push_back(i); }
  RobotHW hw; out << (hw.checkForConflict(l) ? "conflict" : "free"); }

int main() { string line; std::ios::sync_with_stdio(false);
  while (std::getline(std::cin, line)) { std::istringstream in(line); string k; in >> k; out.str(""); out.clear();
    try { if (k == "H") handleCase(in); else if (k == "R") registryCase(in); else if (k == "I") interfaceCase(in); else if (k == "K") conflictCase(in); }
    catch (const std::exception& e) { out.str(""); out << "uncaught " << e.what(); } catch (...) { out.str(""); out << "uncaught"; }
    std::cout << out.str() << "\n"; } }
