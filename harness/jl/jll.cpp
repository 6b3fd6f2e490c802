// Replays loads of joint limits from parameters and URDF joints. For every field it prints where the value found there comes from.
#include <ros/ros.h>
#include <joint_limits_interface/joint_limits_rosparam.h>
#include <joint_limits_interface/joint_limits_urdf.h>
#include <iostream>
#include <sstream>
using std::string; using namespace joint_limits_interface; using ros::stub::Param;
namespace ros { bool ok() { return true; } void shutdown() {} bool isShuttingDown() { return false; } Time Time::now() { return Time(); } namespace stub { void log(int, const string&) {} } }
static const char* F[10] = {"min_position", "max_position", "max_velocity", "max_acceleration", "max_jerk", "max_effort", "k_position", "k_velocity", "soft_lower_limit", "soft_upper_limit"};
static int skin = 0;   // what the values are must not matter: positive, negative, large
static double num(int f, const string& how) { return (skin == 1 ? -1 : skin == 2 ? 1048576 : 1) * (f * 100 + (how == "prior" ? 1.25 : how == "num" ? 2.5 : how == "int" ? 3 : how == "urdf" ? 4.75 : 6.125)); }
static string src(int f, double v) { for (const char* h : {"prior", "num", "int", "urdf", "other"}) if (v == num(f, h)) return h; return std::to_string(v); }
static int field(const string& k) { for (int i = 0; i < 10; ++i) if (k == F[i]) return i; return -1; }
int main() {
  string line; const char* T[] = {"UNKNOWN", "REVOLUTE", "CONTINUOUS", "PRISMATIC", "FLOATING", "PLANAR", "FIXED"};
  while (std::getline(std::cin, line)) {
    std::istringstream in(line); string used, op, out; in >> skin >> used; JointLimits l; SoftJointLimits s;
    double* v[10] = {&l.min_position, &l.max_position, &l.max_velocity, &l.max_acceleration, &l.max_jerk, &l.max_effort, &s.k_position, &s.k_velocity, &s.min_position, &s.max_position};
    for (int i = 0; i < 10; ++i) *v[i] = num(i, "prior");
    // a new object limits nothing
    if (used == "1") l.has_position_limits = l.has_velocity_limits = l.has_acceleration_limits = l.has_jerk_limits = l.has_effort_limits = l.angle_wraparound = true;
    while (in >> op) {
      bool r = false; string name, a, b; in >> name;
      if (op == "params" || op == "softparams") {
        ros::stub::params().clear(); const string base = "/robot/joint_limits/";
        for (int i = 0; i < 10; ++i) { for (const char* o : {"other/", "joint/"}) ros::stub::params()[base + o + F[i]] = Param::D(num(i, "other")); ros::stub::params()[string("/joint_limits/joint1/") + F[i]] = Param::D(num(i, "other")); }
        for (const char* q : {"position", "velocity", "acceleration", "jerk", "effort", "soft"}) { for (const char* o : {"other/", "joint/"}) ros::stub::params()[base + o + "has_" + q + "_limits"] = Param::B(true); ros::stub::params()[string("/joint_limits/joint1/has_") + q + "_limits"] = Param::B(true); }
        for (auto& c : name) if (c == '_') c = ' ';
        int n; in >> n; for (int i = 0; i < n; ++i) { in >> a >> b; Param p = b == "true" ? Param::B(true) : b == "false" ? Param::B(false) : b == "bad" ? Param::S("text") : b == "int" ? Param::I(int(num(field(a), "int"))) : Param::D(num(field(a), "num")); ros::stub::params()[base + name + "/" + a] = p; }
        ros::NodeHandle nh("/robot"); r = op == "params" ? getJointLimits(name, nh, l) : getSoftJointLimits(name, nh, s);
      } else {
        in >> a >> b; urdf::JointSharedPtr j; 
        if (b != "null") { j.reset(new urdf::Joint); j->name = name; for (int i = 0; i < 7; ++i) if (a == T[i]) j->type = decltype(j->type)(i);
          if (b == "limits") { j->limits.reset(new urdf::JointLimits); j->limits->lower = num(0, "urdf"); j->limits->upper = num(1, "urdf"); j->limits->velocity = num(2, "urdf"); j->limits->effort = num(5, "urdf"); }
          if (b == "safety") { j->safety.reset(new urdf::JointSafety); j->safety->k_position = num(6, "urdf"); j->safety->k_velocity = num(7, "urdf"); j->safety->soft_lower_limit = num(8, "urdf"); j->safety->soft_upper_limit = num(9, "urdf"); } }
        r = op == "urdf" ? getJointLimits(urdf::JointConstSharedPtr(j), l) : getSoftJointLimits(urdf::JointConstSharedPtr(j), s);
      }
      out += string(out.empty() ? "" : " ") + (r ? "true" : "false") + " " + char('0' + l.has_position_limits) + char('0' + l.has_velocity_limits) + char('0' + l.has_acceleration_limits) + char('0' + l.has_jerk_limits) + char('0' + l.has_effort_limits) + char('0' + l.angle_wraparound);
      for (int i = 0; i < 10; ++i) out += " " + src(i, *v[i]);
    }
    std::cout << out << std::endl;
  }
}
