// Replays histories of enforcing joint limits on the real handles, alone and registered with their interface. Prints the commands it finds afterwards.
#include <ros/ros.h>
#include <joint_limits_interface/joint_limits_interface.h>
#include <cstdio>
#include <cstring>
#include <iostream>
#include <limits>
#include <memory>
#include <sstream>
using namespace joint_limits_interface; using hardware_interface::JointHandle; using hardware_interface::JointStateHandle; using std::string;
namespace ros { bool ok() { return true; } void shutdown() {} bool isShuttingDown() { return false; } Time Time::now() { return Time(); } namespace stub { void log(int, const string&) {} } }
struct Joint { double pos = 0, vel = 0, eff = 0, cmd = 0; JointHandle handle(const string& n) { return JointHandle(JointStateHandle(n, &pos, &vel, &eff), &cmd); } };
template <class H> H make(const JointHandle& j, const JointLimits& l, const SoftJointLimits& s, decltype(H(j, l, s))* = nullptr) { return H(j, l, s); }
template <class H> H make(const JointHandle& j, const JointLimits& l, const SoftJointLimits&, decltype(H(j, l))* = nullptr) { return H(j, l); }
template <class X> auto reset(X& x, int) -> decltype(x.reset()) { x.reset(); }
template <class X> void reset(X&, long) {}
// units: lengths (and efforts) are given in units of lam, times in units of tau; all laws are homogeneous in both
static double lam = 1, tau = 1;
struct Op { string op; double cmd, pos, vel; int n; };
static bool differ(double a, double b) { return memcmp(&a, &b, sizeof a) && !(a == b) && !(a != a && b != b); }
// the neighbours of the joint looked at have limits of their own
static JointLimits half(JointLimits l) { for (double* x : {&l.min_position, &l.max_position, &l.max_velocity, &l.max_acceleration, &l.max_effort}) *x /= 2; return l; }
static SoftJointLimits half(SoftJointLimits s) { s.min_position /= 2; s.max_position /= 2; return s; }
template <class H, class I> string run(const JointLimits& l, const SoftJointLimits& s, const std::vector<Op>& ops) {
  Joint d, e, j[3]; I iface; std::unique_ptr<H> hd, he;
  try { hd.reset(new H(make<H>(d.handle("jointD"), l, s))); } catch (const JointLimitsInterfaceException& x) { return string(x.what()).find("jointD") != string::npos ? "rejected" : "rejected without naming the joint"; }
  he.reset(new H(make<H>(e.handle("jointE"), half(l), half(s))));
  const char* names[3] = {"left/a", "b", ""};
  for (int i = 0; i < 3; ++i) iface.registerHandle(i == 1 ? make<H>(j[i].handle(names[i]), half(l), half(s)) : make<H>(j[i].handle(names[i]), l, s));
  if (iface.getNames().size() != 3) return "names";
  for (int i = 0; i < 3; ++i) if (iface.getHandle(names[i]).getName() != names[i]) return "handle " + string(names[i]) + " got another name";
  try { iface.getHandle("nosuch"); return "unknown handle found"; } catch (const JointLimitsInterfaceException& x) { if (string(x.what()).find("nosuch") == string::npos) return "unnamed"; }
  string out;
  for (auto& o : ops) {
    ros::Duration p(o.n * 0.25 * tau); char b[64];
    if (o.op == "reset") { reset(*hd, 0); reset(*he, 0); reset(iface, 0); out += " -"; continue; }
    const double cmd = o.op == "nan" ? std::numeric_limits<double>::quiet_NaN() : o.cmd;
    for (Joint* x : {&d, &j[0], &j[2]}) { x->pos = o.pos; x->vel = o.vel; x->cmd = cmd; }
    for (Joint* x : {&e, &j[1]}) { x->pos = -o.pos + lam; x->vel = -o.vel; x->cmd = lam - cmd; }
    hd->enforceLimits(p); he->enforceLimits(p); iface.enforceLimits(p);
    for (int i : {0, 2}) if (differ(j[i].cmd, d.cmd)) { snprintf(b, sizeof b, " joint %d of the interface: %.17g instead of %.17g", i, j[i].cmd, d.cmd); return out + b; }
    if (differ(j[1].cmd, e.cmd)) { snprintf(b, sizeof b, " joint 1 of the interface: %.17g instead of %.17g", j[1].cmd, e.cmd); return out + b; }
    if (d.pos != o.pos || d.vel != o.vel || d.eff != 0) return out + " joint state changed";
    snprintf(b, sizeof b, " %.17g", d.cmd); out += b;
  }
  return out.empty() ? "ok" : out.substr(1);
}
int main() {
  string line; const double none = 1e9;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line); string k, tok; in >> lam >> tau; double pmin, pmax, v, a, f; JointLimits l; SoftJointLimits s; in >> k >> pmin >> pmax >> v >> a >> f >> s.min_position >> s.max_position >> s.k_position >> s.k_velocity;
    s.min_position *= lam; s.max_position *= lam; s.k_position /= tau; if (k == "EffSoft") s.k_velocity *= tau; else s.k_velocity /= tau;
    // what is not a limit holds a value that would hurt if it was taken for one
    l.min_position = l.max_position = 0.125; l.max_velocity = l.max_acceleration = l.max_effort = 0.0625;
    if (pmin != none) { l.has_position_limits = true; l.min_position = pmin * lam; l.max_position = pmax * lam; }
    if (v != none) { l.has_velocity_limits = true; l.max_velocity = v * lam / tau; } if (a != none) { l.has_acceleration_limits = true; l.max_acceleration = a * lam / tau / tau; } if (f != none) { l.has_effort_limits = true; l.max_effort = f * lam; }
    std::vector<Op> ops; while (in >> tok) { Op o; for (auto& c : tok) if (c == ',') c = ' '; std::istringstream t(tok); t >> o.op >> o.cmd >> o.n >> o.pos >> o.vel; o.pos *= lam; o.vel *= lam / tau; o.cmd *= lam; if (k.substr(0, 3) == "Vel") o.cmd /= tau; ops.push_back(o); }
    string r = k == "PosSat" ? run<PositionJointSaturationHandle, PositionJointSaturationInterface>(l, s, ops) : k == "VelSat" ? run<VelocityJointSaturationHandle, VelocityJointSaturationInterface>(l, s, ops)
      : k == "EffSat" ? run<EffortJointSaturationHandle, EffortJointSaturationInterface>(l, s, ops) : k == "PosSoft" ? run<PositionJointSoftLimitsHandle, PositionJointSoftLimitsInterface>(l, s, ops)
      : k == "VelSoft" ? run<VelocityJointSoftLimitsHandle, VelocityJointSoftLimitsInterface>(l, s, ops) : run<EffortJointSoftLimitsHandle, EffortJointSoftLimitsInterface>(l, s, ops);
    std::cout << r << std::endl;
  }
}
