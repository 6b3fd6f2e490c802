// Replays TransDoc.tla (parse) and TransLoaders.tla (load) on the real parser and transmission loaders.
#include <ros/ros.h>
#include <transmission_interface/transmission_parser.h>
#include <transmission_interface/transmission_loader.h>
#include <transmission_interface/simple_transmission.h>
#include <transmission_interface/differential_transmission.h>
#include <transmission_interface/four_bar_linkage_transmission.h>
#include <pluginlib/class_list_macros.hpp>
#include <cstdio>
#include <iostream>
#include <sstream>
using namespace transmission_interface; using std::string;
namespace ros { namespace stub { void log(int, const string&) {} } }
static string hex(const string& s) { string r; char b[3]; for (unsigned char c : s) { snprintf(b, 3, "%02x", c); r += b; } return r; }
static string unhex(const string& h) { string r; if (h == "-") return r; for (size_t i = 0; i + 1 < h.size(); i += 2) r += char(std::stoi(h.substr(i, 2), nullptr, 16)); return r; }
static string word(std::istream& in) { string h; in >> h; return unhex(h); }
static string q(const string& s) { return "\"" + hex(s) + "\""; }
static string list(const std::vector<string>& v) { string r; for (auto& s : v) r += (r.empty() ? "" : ",") + q(s); return "[" + r + "]"; }
static string parse(std::istringstream& in) {
  std::vector<TransmissionInfo> ts; string h, res, out;
  while (in >> h) { try { res += TransmissionParser::parse(unhex(h), ts) ? "1" : "0"; } catch (const std::exception& e) { res += "x"; } }
  for (auto& t : ts) {
    string js, as;
    for (auto& j : t.joints_) js += string(js.empty() ? "" : ",") + "[" + q(j.name_) + "," + q(j.role_) + "," + list(j.hardware_interfaces_) + "," + q(j.xml_element_) + "]";
    for (auto& a : t.actuators_) as += string(as.empty() ? "" : ",") + "[" + q(a.name_) + ",\"\"," + list(a.hardware_interfaces_) + "," + q(a.xml_element_) + "]";
    out += string(out.empty() ? "" : ",") + "[" + q(t.name_) + "," + q(t.type_) + ",[" + js + "],[" + as + "]]";
  }
  return "[\"" + res + "\",[" + out + "]]";
}
static string nums(const std::vector<double>& v) { string r; for (double x : v) { char b[40]; snprintf(b, sizeof b, " %.17g", x); r += b; } return r; }
static string load(std::istringstream& in) {
  string type; size_t n; in >> type; TransmissionInfo t; t.name_ = "the transmission"; t.type_ = type;
  in >> n; for (size_t i = 0; i < n; ++i) { ActuatorInfo a; a.name_ = word(in); a.xml_element_ = word(in); t.actuators_.push_back(a); }
  in >> n; for (size_t i = 0; i < n; ++i) { JointInfo j; j.name_ = word(in); j.role_ = word(in); j.xml_element_ = word(in); j.hardware_interfaces_ = {"hardware_interface/JointStateInterface"}; t.joints_.push_back(j); }
  pluginlib::ClassLoader<TransmissionLoader> cl("transmission_interface", "transmission_interface::TransmissionLoader");
  TransmissionSharedPtr r;
  try { r = cl.createUniqueInstance(type)->load(t); } catch (const std::exception& e) { return string("exception ") + e.what(); }
  if (!r) return "nothing";
  if (auto* s = dynamic_cast<SimpleTransmission*>(r.get())) return "simple" + nums({s->getActuatorReduction(), s->getJointOffset()});
  if (auto* s = dynamic_cast<FourBarLinkageTransmission*>(r.get())) return "four" + nums(s->getActuatorReduction()) + nums(s->getJointReduction()) + nums(s->getJointOffset());
  if (auto* s = dynamic_cast<DifferentialTransmission*>(r.get())) {
    double a[2] = {2, 3}, j[2] = {0, 0}; ActuatorData ad; JointData jd; for (int i = 0; i < 2; ++i) { ad.absolute_position.push_back(a + i); jd.absolute_position.push_back(j + i); }
    s->actuatorToJointAbsolutePosition(ad, jd);
    return "diff" + nums(s->getActuatorReduction()) + nums(s->getJointReduction()) + nums(s->getJointOffset()) + (j[0] == 3 && j[1] == 2 ? " 1" : " 0");
  }
  return "something else";
}
int main(int, char** argv) {
  TiXmlDocument x(argv[1]); if (!x.LoadFile()) return 3;
  for (auto* c = x.RootElement()->FirstChildElement("class"); c; c = c->NextSiblingElement("class")) { auto f = pluginlib::exported().find(c->Attribute("type"));
    if (f != pluginlib::exported().end()) pluginlib::registry()[c->Attribute("base_class_type")].push_back({c->Attribute("name"), {f->second}}); }
  string line, w;
  while (std::getline(std::cin, line)) { std::istringstream in(line); in >> w; std::cout << (w == "parse" ? parse(in) : load(in)) << std::endl; }
}
