// Runs the real controller_manager against scripted API callers, control loop and robot hardware under the baton
// scheduler, and prints every externally visible event as JSON. It judges nothing: spec/CM_Trace.tla does.
#include "sched.h"
#include <controller_manager/controller_manager.h>
#include <controller_manager/controller_loader.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <unistd.h>
#include <signal.h>
using std::string; using std::vector; using std::map;
static std::ostringstream tr; static bool first_ev = true; static bool logging = false;
static bool g_ok = true; static int64_t sim_ms = 0;
static string q(const string& s) { string o = "\""; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; if ((unsigned char)c < 32) { o += ' '; continue; } o += c; } return o + "\""; }
static string qv(const vector<string>& v) { string o = "["; for (size_t i = 0; i < v.size(); ++i) o += (i ? "," : "") + q(v[i]); return o + "]"; }
struct Ev { sched::Quiet quiet; bool on; Ev(const string& e) : on(logging) { if (!on) return; tr << (first_ev ? "" : ",\n"); first_ev = false; tr << "{\"e\":" << q(e) << ",\"th\":" << (sched::self() == sched::rt_id ? 0 : sched::self()) << ",\"w\":" << sched::sys_ns / 1000000; }
  Ev& f(const string& k, const string& v) { if (on) tr << "," << q(k) << ":" << q(v); return *this; }
  Ev& f(const string& k, const char* v) { return f(k, string(v)); }
  Ev& f(const string& k, int64_t v) { if (on) tr << "," << q(k) << ":" << v; return *this; }
  Ev& f(const string& k, int v) { return f(k, int64_t(v)); }
  Ev& f(const string& k, bool v) { if (on) tr << "," << q(k) << ":" << (v ? "true" : "false"); return *this; }
  Ev& f(const string& k, const vector<string>& v) { if (on) tr << "," << q(k) << ":" << qv(v); return *this; }
  Ev& raw(const string& k, const string& v) { if (on) tr << "," << q(k) << ":" << v; return *this; }
  ~Ev() { if (on) tr << "}"; } };
namespace ros { bool ok() { sched::yield("ok"); return g_ok; } void shutdown() { g_ok = false; } bool isShuttingDown() { return !g_ok; }
Time Time::now() { Time t; t.fromNSec(uint64_t(sim_ms) * 1000000ULL); Ev("now").f("t", sim_ms); return t; }
namespace stub { void log(int, const string&) { sched::yield("log"); } } }

struct Ctl { string name, type; vector<std::pair<string, vector<string>>> claims; string init = "ok"; };
static map<string, Ctl> ctls; static int next_id = 0; static controller_manager::ControllerManager* cm = nullptr;
static hardware_interface::RobotHW* the_hw = nullptr; static int init_loads = 0;
class TC; static map<int, TC*> live;
static string sig(const hardware_interface::ControllerInfo& i) { string s = i.name + "|" + i.type + "|"; bool a = true;
  for (auto& c : i.claimed_resources) { s += (a ? "" : ";") + c.hardware_interface + ":"; a = false; bool b = true; for (auto& r : c.resources) { s += (b ? "" : ",") + r; b = false; } } return s; }
static vector<string> sigs(const std::list<hardware_interface::ControllerInfo>& l) { vector<string> v; for (auto& i : l) v.push_back(sig(i)); return v; }
static int64_t ms(const ros::Time& t) { int64_t n = int64_t(t.toNSec()); return n % 1000000 ? -1 : n / 1000000; }
static int64_t ms(const ros::Duration& t) { int64_t n = t.toNSec(); return n % 1000000 ? -1 : n / 1000000; }
// a control cycle may take long: sometimes the real-time thread stays in a callback while the others sleep many times
static int slow = 0; static int64_t naps = 0;
static void linger() { if (!slow || sched::self() != sched::rt_id || sched::rnd() % 5) return; int64_t until = naps + slow; uint64_t spun = sched::spins; sched::block([until, spun] { return naps >= until || sched::spins != spun || !sched::others_runnable(); }); }
static void act() { if (sched::self() && sched::self() != sched::rt_id) sched::no_yield(false); }
class TC : public controller_interface::ControllerBase { public:
  int id; string type;
  TC(const string& t, const string& loader) : id(++next_id), type(t) { live[id] = this; act(); Ev("con").f("type", t).f("loader", loader).f("id", id); sched::yield("con"); }
  ~TC() { Ev("del").f("id", id); live.erase(id); }
  bool initRequest(hardware_interface::RobotHW* hw, ros::NodeHandle& root, ros::NodeHandle& nh, ClaimedResources& cr) override {
    act(); sched::yield("init"); string name = nh.getNamespace(); if (!name.empty() && name[0] == '/') name = name.substr(1);
    auto it = ctls.find(name); string how = it == ctls.end() ? "unknown" : it->second.init;
    if (how == "failonce") { it->second.init = "ok"; how = "fail"; }
    if (it != ctls.end()) for (auto& c : it->second.claims) { hardware_interface::InterfaceResources r; r.hardware_interface = c.first; r.resources.insert(c.second.begin(), c.second.end()); cr.push_back(r); }
    Ev("init").f("id", id).f("name", name).f("how", how).f("okargs", hw == the_hw && root.getNamespace() == "/");
    sched::yield("init2");
    if (how == "throw") throw std::runtime_error("init throws"); if (how == "throwint") throw 42;
    if (how == "failinit") { state_ = ControllerState::INITIALIZED; return false; }
    if (how != "ok") return false;
    state_ = ControllerState::INITIALIZED; return true; }
  void hook(const char* e, const ros::Time& t) { act(); Ev(e).f("id", id).f("t", ms(t)); sched::yield(e); linger(); }
  void starting(const ros::Time& t) override { hook("sta", t); }
  void stopping(const ros::Time& t) override { hook("sto", t); }
  void waiting(const ros::Time& t) override { hook("wai", t); }
  void aborting(const ros::Time& t) override { hook("abo", t); }
  void update(const ros::Time& t, const ros::Duration& p) override { act(); Ev("upd").f("id", id).f("t", ms(t)).f("per", ms(p)); sched::yield("upd"); linger(); }
  string st() const { string s; if (isInitialized()) s += "init"; if (isRunning()) s += "run"; if (isStopped()) s += "stop"; if (isWaiting()) s += "wait"; if (isAborted()) s += "abort"; return s.empty() ? "con" : s; }
};
static string states() { string o = "["; bool a = true; for (auto& l : live) { o += (a ? "" : ",") + string("[") + std::to_string(l.first) + "," + q(l.second->st()) + "]"; a = false; } return o + "]"; }
class HW : public hardware_interface::RobotHW { public:
  vector<string> glob, ctl; string ps, cc; size_t nps = 0; mutable size_t ncc = 0; int sw = -1, cyc_of_sw = 0; int cycle = 0;
  static char at(const string& s, size_t i, char d) { if (s.empty()) return d; return i < s.size() ? s[i] : s.back(); }
  bool checkForConflict(const std::list<hardware_interface::ControllerInfo>& info) const override {
    act(); sched::yield("cc"); bool r = hardware_interface::RobotHW::checkForConflict(info); char c = ncc < cc.size() ? cc[ncc] : 'N'; ++ncc; if (c == 'C') r = true; if (c == 'A') r = false;
    Ev("cc").f("l", sigs(info)).f("res", r).f("forced", c != 'N'); sched::yield("cc"); return r; }
  bool prepareSwitch(const std::list<hardware_interface::ControllerInfo>& a, const std::list<hardware_interface::ControllerInfo>& b) override {
    act(); sched::yield("ps"); bool r = at(nps < ps.size() ? ps : "", nps, 'T') == 'T'; ++nps; Ev("ps").f("start", sigs(a)).f("stop", sigs(b)).f("res", r); sched::yield("ps"); return r && RobotHW::prepareSwitch(a, b); }   // what the script leaves open, the defaults decide
  void doSwitch(const std::list<hardware_interface::ControllerInfo>& a, const std::list<hardware_interface::ControllerInfo>& b) override {
    act(); ++sw; cyc_of_sw = cycle; Ev("ds").f("start", sigs(a)).f("stop", sigs(b)); sched::yield("ds"); }
  static SwitchState dec(char c) { return c == 'D' ? SwitchState::DONE : c == 'E' ? SwitchState::ERROR : SwitchState::ONGOING; }
  static const char* nm(SwitchState s) { return s == SwitchState::DONE ? "DONE" : s == SwitchState::ERROR ? "ERROR" : "ONGOING"; }
  SwitchState switchResult() const override { act(); SwitchState s = dec(at(sw >= 0 && sw < (int)glob.size() ? glob[sw] : "", cycle - cyc_of_sw, 'D')); Ev("sr").f("res", nm(s)); sched::yield("sr"); return s == SwitchState::DONE ? RobotHW::switchResult() : s; }
  SwitchState switchResult(const hardware_interface::ControllerInfo& i) const override { act(); string spec;
    if (sw >= 0 && sw < (int)ctl.size()) { std::stringstream ss(ctl[sw]); string e; while (std::getline(ss, e, ',')) { auto p = e.find(':'); if (e.substr(0, p) == i.name) spec = e.substr(p + 1); } }
    SwitchState s = dec(at(spec, cycle - cyc_of_sw, 'D')); Ev("src").f("c", sig(i)).f("res", nm(s)); sched::yield("src"); return s == SwitchState::DONE ? RobotHW::switchResult(i) : s; }
};
class LB : public controller_manager::ControllerLoaderInterface { public: std::vector<string> types, after; LB(const string& n, std::vector<string> t, std::vector<string> a) : ControllerLoaderInterface(n), types(t), after(a) {}
  controller_interface::ControllerBaseSharedPtr createInstance(const string& n) override { act(); if (n.find("null") != string::npos) return controller_interface::ControllerBaseSharedPtr(); if (n.find("throw") != string::npos) throw std::runtime_error("cannot load " + n); if (n.find("logic") != string::npos) throw std::logic_error("ctor " + n); return controller_interface::ControllerBaseSharedPtr(new TC(n, getName())); }
  std::vector<string> getDeclaredClasses() override { return types; }
  void reload() override { act(); types = after; Ev("rl").f("loader", getName()); } };
struct Op { string kind, name; bool svc = false, asap = false, force = false; vector<string> start, stop; int strict = 2; double to = 0; };
static vector<string> split(const string& s, char c) { vector<string> v; std::stringstream ss(s); string e; while (std::getline(ss, e, c)) v.push_back(e); return v; }
static bool rt_paused = false;
template <class S> static bool callsvc(const string& n, typename S::Request& q, typename S::Response& r) { auto it = ros::stub::services().find("/controller_manager/" + n); if (it == ros::stub::services().end()) return false; return it->second(&q, &r); }
static string idof(controller_interface::ControllerBase* c) { for (auto& l : live) if (static_cast<controller_interface::ControllerBase*>(l.second) == c) return std::to_string(l.first); return c ? "-1" : "0"; }
static void do_op(const Op& o) {
  if (o.kind == "rtpause") { rt_paused = true; sched::block([] { return !sched::rt_in_cycle; }); return; }
  if (o.kind == "rtresume") { rt_paused = false; sched::yield("r"); return; }
  if (o.kind == "cycles") { int64_t target = ((HW*)the_hw)->cycle + std::stoi(o.name); sched::block([target] { return ((HW*)the_hw)->cycle >= target || !sched::alive(sched::rt_id); }); return; }
  if (o.kind == "shutdown") { Ev("shutdown"); g_ok = false; sched::yield("s"); return; }
  if (!g_ok) return;   // nothing is asked of a node that is shutting down
  { Ev e("call"); e.f("op", o.kind).f("svc", o.svc); if (o.kind == "switch") e.f("start", o.start).f("stop", o.stop).f("strict", o.strict).f("asap", o.asap).f("to", int64_t(o.to * 1000)); else if (o.kind == "reload") e.f("force", o.force); else e.f("name", o.name); }
  sched::yield("call");
  string res = "exc", extra;
  try {
    if (!o.svc) {
      if (o.kind == "load") res = cm->loadController(o.name) ? "true" : "false";
      else if (o.kind == "unload") res = cm->unloadController(o.name) ? "true" : "false";
      else if (o.kind == "switch") res = cm->switchController(o.start, o.stop, o.strict, o.asap, o.to) ? "true" : "false";
      else if (o.kind == "get") { auto* c = cm->getControllerByName(o.name); sched::no_yield(true); extra = idof(c); res = c ? "true" : "false"; }
    } else {
      if (o.kind == "load") { controller_manager_msgs::LoadController s; s.request.name = o.name; bool k = callsvc<controller_manager_msgs::LoadController>("load_controller", s.request, s.response); res = !k ? "callfail" : s.response.ok ? "true" : "false"; }
      else if (o.kind == "unload") { controller_manager_msgs::UnloadController s; s.request.name = o.name; bool k = callsvc<controller_manager_msgs::UnloadController>("unload_controller", s.request, s.response); res = !k ? "callfail" : s.response.ok ? "true" : "false"; }
      else if (o.kind == "switch") { controller_manager_msgs::SwitchController s; s.request.start_controllers = o.start; s.request.stop_controllers = o.stop; s.request.strictness = o.strict; s.request.start_asap = o.asap; s.request.timeout = o.to; bool k = callsvc<controller_manager_msgs::SwitchController>("switch_controller", s.request, s.response); res = !k ? "callfail" : s.response.ok ? "true" : "false"; }
      else if (o.kind == "reload") { controller_manager_msgs::ReloadControllerLibraries s; s.request.force_kill = o.force; bool k = callsvc<controller_manager_msgs::ReloadControllerLibraries>("reload_controller_libraries", s.request, s.response); res = !k ? "callfail" : s.response.ok ? "true" : "false"; }
      else if (o.kind == "list") { controller_manager_msgs::ListControllers s; bool k = callsvc<controller_manager_msgs::ListControllers>("list_controllers", s.request, s.response); res = k ? "true" : "callfail"; extra = "[";
        for (size_t i = 0; i < s.response.controller.size(); ++i) { auto& c = s.response.controller[i]; string g = c.name + "|" + c.type + "|"; bool a = true; for (auto& h : c.claimed_resources) { g += (a ? "" : ";") + h.hardware_interface + ":"; a = false; auto rs = h.resources; std::sort(rs.begin(), rs.end()); bool b = true; for (auto& r : rs) { g += (b ? "" : ",") + r; b = false; } } extra += (i ? "," : "") + string("[") + q(g) + "," + q(c.state) + "]"; } extra += "]"; }
      else if (o.kind == "types") { controller_manager_msgs::ListControllerTypes s; bool k = callsvc<controller_manager_msgs::ListControllerTypes>("list_controller_types", s.request, s.response); res = k ? "true" : "callfail"; extra = "["; size_t n = std::max(s.response.types.size(), s.response.base_classes.size()); for (size_t i = 0; i < n; ++i) extra += (i ? "," : "") + string("[") + q(i < s.response.types.size() ? s.response.types[i] : "?") + "," + q(i < s.response.base_classes.size() ? s.response.base_classes[i] : "?") + "]"; extra += "]"; }
    }
  } catch (const std::exception& e) { res = "exc"; } catch (...) { res = "exc"; }
  { Ev e("ret"); e.f("op", o.kind).f("res", res); if (!extra.empty()) e.raw(o.kind == "get" ? "id" : "out", extra); }
  act(); sched::yield("ret");
}
struct Scn { string id; sched::Config c; vector<vector<Op>> thr; string glob, ctl, ps, cc; vector<int> resets, dts; vector<string> ctldefs; vector<string> ptypes, pafter; struct L { string name; vector<string> types, after; }; vector<L> ldefs; int idle = 30, slow = 0; bool hold = false; };
static const char* MODES[] = {"seq", "rand", "pct", "fix"};
static void run_scn(const Scn& s) {
  tr.str(""); first_ev = true; logging = false; g_ok = true; sim_ms = 1000; next_id = 0; live.clear(); ctls.clear(); rt_paused = false;
  ros::stub::params().clear(); ros::stub::services().clear(); pluginlib::registry().clear(); pluginlib::ctor_hook() = nullptr;
  string meta = "{";
  for (auto& d : s.ctldefs) { Ctl c; vector<string> f = split(d, ' '); for (auto& kv : f) { auto p = kv.find('='); string k = kv.substr(0, p), v = kv.substr(p + 1);
      if (k == "name") c.name = v; else if (k == "type") c.type = v; else if (k == "init") c.init = v; else if (k == "claims") for (auto& x : split(v, ';')) { auto z = x.find(':'); c.claims.push_back({x.substr(0, z), split(x.substr(z + 1), ',')}); } }
    ctls[c.name] = c; if (c.type != "-") ros::stub::params()["/" + c.name + "/type"] = ros::stub::Param::S(c.type); else ros::stub::params()["/" + c.name + "/foo"] = ros::stub::Param::I(1);
    hardware_interface::ControllerInfo i; i.name = c.name; i.type = c.type; string rs = "["; std::set<string> all; for (auto& x : c.claims) { hardware_interface::InterfaceResources r; r.hardware_interface = x.first; r.resources.insert(x.second.begin(), x.second.end()); i.claimed_resources.push_back(r); all.insert(x.second.begin(), x.second.end()); }
    rs = qv(vector<string>(all.begin(), all.end())); meta += (meta.size() > 1 ? "," : "") + q(c.name) + ":{\"type\":" + q(c.type) + ",\"sig\":" + q(sig(i)) + ",\"res\":" + rs + ",\"init\":" + q(c.init) + "}"; }
  meta += "}";
  const string base = "controller_interface::ControllerBase";
  auto plug = [base](const vector<string>& ts) { auto& reg = pluginlib::registry()[base]; reg.clear(); for (auto& t : ts) { string n = t;
    reg.push_back({t, {[n, base]() -> void* { if (n.find("throw") != string::npos) throw pluginlib::LibraryLoadException("no lib for " + n); if (n.find("logic") != string::npos) throw std::logic_error("ctor"); return static_cast<controller_interface::ControllerBase*>(new TC(n, base)); }}}); } };
  plug(s.ptypes);
  std::unique_ptr<HW> hw(new HW); the_hw = hw.get(); hw->glob = split(s.glob, '/'); hw->ctl = split(s.ctl, '~'); hw->ps = s.ps; hw->cc = s.cc;
  sched::reset(s.c);
  std::unique_ptr<controller_manager::ControllerManager> m(new controller_manager::ControllerManager(hw.get())); cm = m.get();
  pluginlib::ctor_hook() = [&s, plug](const string& b) { plug(s.pafter); Ev("rl").f("loader", b); };
  string loaders = "[{\"name\":" + q(base) + ",\"types\":" + qv(s.ptypes) + ",\"after\":" + qv(s.pafter) + ",\"nulls\":[]}";
  for (auto& d : s.ldefs) { m->registerControllerLoader(std::make_shared<LB>(d.name, d.types, d.after)); loaders += ",{\"name\":" + q(d.name) + ",\"types\":" + qv(d.types) + ",\"after\":" + qv(d.after) + ",\"nulls\":[\"Xnull\"]}"; }
  loaders += "]";
  for (auto& ops : s.thr) sched::spawn([&ops] { for (auto& o : ops) do_op(o); });
  bool stuck = false; int napi = s.thr.size();
  auto finish = [&] {
    if (stuck) { Ev("stuck"); }
    Ev("end").raw("st", states());
    logging = false;
    std::cout << "{\"id\":" << q(s.id) << ",\"ctl\":" << meta << ",\"loaders\":" << loaders << ",\"throwing\":[\"Pthrow\",\"Plogic\",\"Xthrow\",\"Xlogic\"],\"mayConflict\":" << (s.cc.find('A') != string::npos ? "true" : "false") << ",\"yields\":" << sched::yields << ",\"ev\":[" << tr.str() << "]}" << "\n\x1e\n" << std::flush; };
  int rt = sched::spawn([&] {
    int extra = 2; HW* h = hw.get();
    for (int n = 0;; ++n) {
      bool api = false; for (int i = 1; i <= napi; ++i) if (sched::alive(i)) api = true;
      if (!api && extra-- <= 0) break;
      if (n > 3000) { stuck = true; finish(); _exit(7); }
      sched::block([napi] { if (!rt_paused) return true; for (int i = 1; i <= napi; ++i) if (sched::alive(i)) return false; return true; });
      int dt = s.dts.empty() ? 10 : s.dts[n % s.dts.size()]; sim_ms += dt; sched::sys_ns = sched::sys_ns + int64_t(dt ? dt : 10) * 1000000;
      bool reset = false; for (int r : s.resets) if (r == n || (r < 0 && n % -r == 0)) reset = true;
      int per = (dt + n) % 7 + 1; ros::Time t; t.fromNSec(uint64_t(sim_ms) * 1000000ULL);
      sched::rt_in_cycle = true; Ev("ub").f("t", sim_ms).f("per", per).f("reset", reset);
      sched::yield("ub");
      if (reset) m->update(t, ros::Duration::mk(int64_t(per) * 1000000), true); else m->update(t, ros::Duration::mk(int64_t(per) * 1000000));
      sched::no_yield(true); Ev("ue").raw("st", states()); h->cycle++; sched::rt_in_cycle = false; sched::no_yield(false);
      if (s.c.mode == sched::SEQ || s.c.mode == sched::FIX) { struct timespec z = {0, 1000000}; nanosleep(&z, nullptr); } else { if (sched::rnd() % 2) sched::rest(); uint64_t until = sched::yields + sched::rnd() % (1 + s.idle); sched::yield("ue"); sched::block([until] { return sched::yields >= until || !sched::others_runnable(); }); }
    } });
  sched::rt_id = rt; sched::mem_lo = (uintptr_t)cm; sched::mem_hi = sched::mem_lo + sizeof(*cm);
  sched::on_excess = [&] { stuck = true; finish(); _exit(7); };
  slow = s.slow; naps = 0; int64_t quiet = -1; // of a long row of sleeps only the first ones are recorded
  sched::on_sleep = [&quiet] { if (sched::self() == sched::rt_id) return; ++naps; if (!slow || !sched::rt_in_cycle) quiet = naps; if (naps < quiet + 5) Ev("slp"); };
  rt_paused = s.hold; logging = true;
  sched::run();
  bool dl = sched::deadlocked();
  stuck = stuck || dl; finish();
  if (dl || stuck) _exit(7);
  m.reset(); cm = nullptr; hw.reset();
}
static string g_cur;
static void crash(int sig) { logging = false; string o = "CRASH " + std::to_string(sig) + " " + g_cur + "\n"; ssize_t r = write(2, o.c_str(), o.size()); (void)r; 
  std::cout << "{\"id\":" << q(g_cur) << ",\"crash\":" << sig << ",\"ev\":[" << tr.str() << "]}" << "\n\x1e\n" << std::flush; _exit(8); }
extern "C" const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=0:handle_abort=0:handle_segv=1:exitcode=9:detect_container_overflow=1:allocator_may_return_null=1:quarantine_size_mb=16:malloc_context_size=4"; }
int main(int argc, char** argv) {
  string skip_until; bool wait = false; if (argc > 2) { skip_until = argv[2]; wait = true; }
  std::ifstream f(argv[1]); string line; Scn s; bool open = false; signal(SIGABRT, crash); alarm(600);
  while (std::getline(f, line)) {
    if (line.empty() || line[0] == '#') continue;
    auto sp = line.find(' '); string k = line.substr(0, sp), v = sp == string::npos ? "" : line.substr(sp + 1);
    if (k == "S") { s = Scn(); s.id = v; open = true; s.ptypes = s.pafter = {"P0", "P1", "Pthrow", "Plogic"}; vector<string> b = {"X0", "P1", "Xnull", "Xthrow", "Xlogic", "P0"}, c = {"C0", "P1"}; s.ldefs = {{"LoaderB", b, b}, {"LoaderC", c, c}}; }
    else if (k == "plugins") { auto z = v.find('|'); s.ptypes = split(v.substr(0, z), ','); s.pafter = split(v.substr(z + 1), ','); s.ldefs.clear(); }
    else if (k == "loader") { auto w = split(v + "|", '|'); w.resize(3); s.ldefs.push_back({w[0], split(w[1], ','), split(w[2], ',')}); }
    else if (k == "mode") { for (int i = 0; i < 4; ++i) if (v == MODES[i]) s.c.mode = (sched::Mode)i; }
    else if (k == "seed") s.c.seed = std::stoull(v); else if (k == "pre") { for (auto& x : split(v, ',')) { auto z = x.find(':'); s.c.pre[std::stoull(x.substr(0, z))] = std::stoi(x.substr(z + 1)); } } else if (k == "preempt") s.c.preempt_pct = std::stoi(v); else if (k == "slow") s.slow = std::stoi(v); else if (k == "hold") s.hold = v == "1"; else if (k == "idle") s.idle = std::stoi(v); else if (k == "mem") s.c.mem_pct = std::stoi(v);
    else if (k == "ctrl") s.ctldefs.push_back(v); else if (k == "hw") s.glob = v; else if (k == "hwc") s.ctl = v; else if (k == "ps") s.ps = v; else if (k == "cc") s.cc = v;
    else if (k == "reset") for (auto& x : split(v, ',')) s.resets.push_back(std::stoi(x)); else if (k == "dt") for (auto& x : split(v, ',')) s.dts.push_back(std::stoi(x));
    else if (k == "thr") s.thr.emplace_back();
    else if (k == "op") { Op o; vector<string> w = split(v, ' '); o.kind = w[0]; if (o.kind.compare(0, 4, "svc.") == 0) { o.svc = true; o.kind = o.kind.substr(4); }
      for (size_t i = 1; i < w.size(); ++i) { auto p = w[i].find('='); string a = w[i].substr(0, p), b = p == string::npos ? "" : w[i].substr(p + 1);
        if (a == "name") o.name = b; else if (a == "start") o.start = split(b, ','); else if (a == "stop") o.stop = split(b, ','); else if (a == "strict") o.strict = std::stoi(b); else if (a == "asap") o.asap = b == "1"; else if (a == "to") o.to = std::stod(b); else if (a == "force") o.force = b == "1"; }
      s.thr.back().push_back(o); }
    else if (k == "E" && open) { open = false; if (wait) { if (s.id == skip_until) wait = false; continue; } g_cur = s.id; std::cerr << "RUN " << s.id << "\n"; run_scn(s); }
  }
  return 0;
}
