#include "sample.hpp"
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <sstream>
#include "mc.hpp"
#if __has_include(<simulation/case/sample_case.hpp>)
#include <simulation/case/sample_case.hpp>
#include <simulation/spacecraft/sample_spacecraft.hpp>
#include <simulation/ground_station/sample_ground_station.hpp>
#include <logger/initialize_log.hpp>
#include <logger/log_utility.hpp>
#include <simulation/monte_carlo_simulation/initialize_monte_carlo_simulation.hpp>
#include <simulation/monte_carlo_simulation/simulation_object.hpp>
#endif
namespace fs = std::filesystem;
namespace sample {
const char *kBase = "sample_simulation_base.ini", *kSat = "sample_satellite/satellite.ini", *kLocal = "sample_satellite/local_environment.ini", *kDist = "sample_satellite/disturbance.ini";
static std::string Lower(std::string s) { for (auto& c : s) c = tolower(c); return s; }
static std::string Trim(const std::string& s) { size_t a = s.find_first_not_of(" \t\r"), b = s.find_last_not_of(" \t\r"); return a == std::string::npos ? "" : s.substr(a, b - a + 1); }
static std::string Slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
Config Merge(Config a, const Config& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
Config Default() {
  return {{kBase, "TIME", "simulation_duration_s", "2"}, {kBase, "TIME", "attitude_integral_step_s", "0.05"}, {kBase, "TIME", "thermal_update_period_s", "0.5"}, {kBase, "TIME", "thermal_integral_step_s", "0.25"}, {kBase, "TIME", "log_output_period_s", "0.2"},
          {kBase, "SIMULATION_SETTINGS", "log_file_save_directory", "logs/"}, {kBase, "SIMULATION_SETTINGS", "save_initialize_files", "DISABLE"}, {"sample_satellite/components/spacecraft_antenna.ini", "ANTENNA_1", "tx_antenna_gain_model", "ISOTROPIC"}, {"sample_satellite/components/spacecraft_antenna.ini", "ANTENNA_1", "rx_antenna_gain_model", "ISOTROPIC"}};
}
static std::string Patch(const std::string& text, const std::vector<const Edit*>& es) {
  std::stringstream in(text); std::string line, sec, out; std::vector<bool> done(es.size());
  auto flush = [&](const std::string& s) { for (size_t i = 0; i < es.size(); i++) if (!done[i] && Lower(es[i]->section) == s) { if (!es[i]->value.empty()) out += es[i]->key + " = " + es[i]->value + "\n"; done[i] = true; } };
  bool any = false;
  while (std::getline(in, line)) { std::string t = Trim(line);
    if (!t.empty() && t[0] == '[' && t.find(']') != std::string::npos) { if (any) flush(sec); any = true; sec = Lower(t.substr(1, t.find(']') - 1)); out += line + "\n"; continue; }
    size_t eq = t.find('='); if (any && eq != std::string::npos && t.compare(0, 2, "//") && t[0] != ';' && t[0] != '#') { std::string key = Lower(Trim(t.substr(0, eq))); bool hit = false; for (size_t i = 0; i < es.size(); i++) if (Lower(es[i]->section) == sec && Lower(es[i]->key) == key) { if (!es[i]->value.empty() && !hit) out += es[i]->key + " = " + es[i]->value + "\n"; done[i] = true; hit = true; } if (hit) continue; }
    out += line + "\n"; }
  if (any) flush(sec); for (size_t i = 0; i < es.size(); i++) if (!done[i]) { out += "[" + es[i]->section + "]\n"; std::string s = Lower(es[i]->section); flush(s); }
  return out;
}
static const std::string& Source() { static const std::string s = std::string(CORE_DIR_FROM_EXE) + "/example/settings"; return s; }
static const std::map<std::string, std::string>& Files() {  // text of every settings file, read once
  static std::map<std::string, std::string> m = [] { std::map<std::string, std::string> r; for (auto& e : fs::recursive_directory_iterator(Source())) if (e.is_regular_file()) r[fs::relative(e.path(), Source()).string()] = e.path().extension() == ".ini" ? Slurp(e.path()) : ""; return r; }(); return m;
}
static void WriteSettings(const std::string& dir, const Config& c) {
  std::map<std::string, std::map<std::string, const Edit*>> by; for (auto& e : c) by[e.file][Lower(e.section) + "|" + Lower(e.key)] = &e;
  for (auto& f : Files()) { fs::path to = fs::path(dir) / "settings" / f.first; if (!fs::exists(to.parent_path())) fs::create_directories(to.parent_path()); if (fs::path(f.first).extension() != ".ini") { if (!fs::exists(fs::symlink_status(to))) fs::create_symlink(Source() + "/" + f.first, to); continue; }
    std::vector<const Edit*> es; auto it = by.find(f.first); if (it != by.end()) for (auto& k : it->second) es.push_back(k.second); std::ofstream(to, std::ios::binary) << (es.empty() ? f.second : Patch(f.second, es)); }
  std::string g = dir + "/egm.ascii"; if (!fs::exists(g)) std::ofstream(g) << "2 0 -4.8e-4 0 0 0\n2 1 -2e-10 1e-9 0 0\n2 2 2.4e-6 -1.4e-6 0 0\n3 0 9.5e-7 0 0 0\n3 1 2e-6 2.4e-7 0 0\n3 2 9e-7 -6e-7 0 0\n3 3 7e-7 1.4e-6 0 0\n";
  g = dir + "/grgm.tab"; if (!fs::exists(g)) std::ofstream(g) << "1738.0,4902.8,0,2,2,1,0,0\n1,0,0,0,0,0\n1,1,0,0,0,0\n2,0,-9e-5,0,0,0\n2,1,1e-9,2e-9,0,0\n2,2,3e-5,1e-8,0,0\n";
}
std::string Run(const std::string& dir, const Config& c) {
#if __has_include(<simulation/case/sample_case.hpp>)
  WriteSettings(dir, c); fs::remove_all(dir + "/logs"); fs::create_directories(dir + "/logs"); if (chdir(dir.c_str())) return "";
  { s2e::sample::SampleCase s(std::string("settings/") + kBase); s.Initialize(); s.Main(); s2e::logger::Logger* l = s.GetSimulationConfiguration().main_logger_; if (l) { delete l; s.GetSimulationConfiguration().main_logger_ = nullptr; } }
  for (auto& e : fs::recursive_directory_iterator(dir + "/logs")) if (e.path().extension() == ".csv" && e.path().string().find("default") != std::string::npos) return Slurp(e.path());
#endif
  return "";
}
#if __has_include(<simulation/case/sample_case.hpp>)
namespace {
// what a user's campaign case looks like: the sample's targets, the case's run number and attitude in the summary log
struct McCase : s2e::simulation::SimulationCase {
  McCase(const std::string& base, const s2e::simulation::MonteCarloSimulationExecutor& mc, const std::string& path) : SimulationCase(base, mc, path), mc_(mc) {}
  ~McCase() { delete sc; delete gs; }
  s2e::logger::Logger* Log() { return simulation_configuration_.main_logger_; }
  s2e::sample::SampleSpacecraft* sc = nullptr; s2e::sample::SampleGroundStation* gs = nullptr; const s2e::simulation::MonteCarloSimulationExecutor& mc_; s2e::math::Vector<3> w{0.0};
  void InitializeTargetObjects() override {
    sc = new s2e::sample::SampleSpacecraft(&simulation_configuration_, global_environment_, 0); gs = new s2e::sample::SampleGroundStation(&simulation_configuration_, 0);
    sc->LogSetup(*Log()); gs->LogSetup(*Log()); s2e::simulation::SimulationObject::SetAllParameters(mc_); w = sc->GetDynamics().GetAttitude().GetAngularVelocity_b_rad_s();
  }
  void UpdateTargetObjects() override { sc->Update(&global_environment_->GetSimulationTime()); gs->Update(global_environment_->GetCelestialInformation().GetEarthRotation(), *sc); }
  std::string GetLogHeader() const override { return s2e::logger::WriteScalar("run", "-") + s2e::logger::WriteVector("initial_rate", "b", "rad/s", 3) + s2e::logger::WriteScalar("end", "s"); }
  std::string GetLogValue() const override { return s2e::logger::WriteScalar((int)mc_.GetNumberOfExecutionsDone()) + s2e::logger::WriteVector(w, 17) + s2e::logger::WriteScalar(global_environment_->GetSimulationTime().GetElapsedTime_s()); }
};
}  // namespace
#endif
Campaign RunCampaign(const std::string& dir, const Config& c, unsigned long seed) {
  Campaign r;
#if __has_include(<simulation/case/sample_case.hpp>)
  using namespace s2e; WriteSettings(dir, c); fs::remove_all(dir + "/logs"); fs::create_directories(dir + "/logs"); if (chdir(dir.c_str())) return r; std::string base = std::string("settings/") + kBase;
  { std::unique_ptr<simulation::MonteCarloSimulationExecutor> mc(simulation::InitMonteCarloSimulation(base)); simulation::MonteCarloSimulationExecutor::SetSeed(seed, true);
    std::unique_ptr<logger::Logger> sum(logger::InitMonteCarloLog(base, mc->IsEnabled()));
    while (mc->WillExecuteNextCase() && r.cases < 20) {
      mc->AtTheBeginningOfEachCase(); mc->RandomizeAllParameters(); { McCase s(base, *mc, sum->GetLogPath().string()); sum->AddLogList(&s); s.Initialize(); if (r.cases == 0) sum->WriteHeaders(); r.drawn.push_back({s.w[0], s.w[1], s.w[2]});
      s.Main(); sum->WriteValues(); sum->ClearLogList(); } mc->AtTheEndOfEachCase(); r.cases++;
    } }
  for (auto& e : fs::recursive_directory_iterator(dir + "/logs")) if (e.is_regular_file()) { std::string n = e.path().filename().string(); if (e.path().extension() == ".csv" && n.size() > 14) n = n.substr(14); r.files[(e.path().extension() == ".csv" ? "" : "settings/") + n] = Slurp(e.path()); }
#endif
  return r;
}
static std::string Pack(const Config& c) { std::string s; for (auto& e : c) s += e.file + "\x01" + e.section + "\x01" + e.key + "\x01" + e.value + "\x02"; return s; }
static Config Unpack(const std::string& s) { Config c; std::stringstream in(s); std::string rec; while (std::getline(in, rec, '\x02')) { std::stringstream r(rec); Edit e; std::getline(r, e.file, '\x01'); std::getline(r, e.section, '\x01'); std::getline(r, e.key, '\x01'); std::getline(r, e.value, '\x01'); c.push_back(e); } return c; }
static void __attribute__((noinline)) FillStack(int byte) { char buf[3 << 20]; memset(buf, byte, sizeof buf); asm volatile("" : : "r"(buf) : "memory"); }
bool ChildMain() {
  const char* d = getenv("SAMPLE_CHILD"); if (!d) return false; std::string dir = d; int fill = atoi(getenv("SAMPLE_FILL")); alarm(60);
  int n = atoi(getenv("SAMPLE_N")), fd = open((dir + "/child.err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(fd, 2); int nul = open("/dev/null", O_WRONLY); dup2(nul, 1);
  for (int i = 0; i < n; i++) { Config c = Unpack(Slurp(dir + "/cfg" + std::to_string(i))); FillStack(fill); std::string t = Run(dir, c); if (t.empty()) _exit(3); std::ofstream(dir + "/log" + std::to_string(i) + ".csv", std::ios::binary) << t; }
  _exit(0);
}
std::vector<std::string> RunFresh(const std::string& dir, const std::vector<Config>& cs, int fill, std::string* err) {
  fs::create_directories(dir); for (size_t i = 0; i < cs.size(); i++) { fs::remove(dir + "/log" + std::to_string(i) + ".csv"); std::ofstream(dir + "/cfg" + std::to_string(i), std::ios::binary) << Pack(cs[i]); }
  char asan[600]; snprintf(asan, sizeof asan, "%s:malloc_fill_byte=%d:max_malloc_fill_size=1000000:free_fill_byte=%d:max_free_fill_size=1000000", getenv("ASAN_OPTIONS") ? getenv("ASAN_OPTIONS") : "", fill, fill);
  char sf[16], sn[16]; snprintf(sf, 16, "%d", fill); snprintf(sn, 16, "%zu", cs.size()); static std::string self = [] { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, 4095); return std::string(b, n > 0 ? n : 0); }();
  pid_t p = fork(); if (p == 0) { setenv("ASAN_OPTIONS", asan, 1); setenv("SAMPLE_CHILD", dir.c_str(), 1); setenv("SAMPLE_FILL", sf, 1); setenv("SAMPLE_N", sn, 1); execl(self.c_str(), self.c_str(), "quick", nullptr); _exit(9); }
  int st = 0; waitpid(p, &st, 0); if (err) { *err = ""; if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { std::string e = Slurp(dir + "/child.err"); *err = (WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st))) + ": " + e.substr(0, 700); } }
  std::vector<std::string> out; for (size_t i = 0; i < cs.size(); i++) { std::string f = dir + "/log" + std::to_string(i) + ".csv"; if (!fs::exists(f)) break; out.push_back(Slurp(f)); } return out;
}
Log Parse(const std::string& t) {
  Log l; l.ends_with_newline = !t.empty() && t.back() == '\n'; std::stringstream in(t); std::string line; bool first = true;
  while (std::getline(in, line)) { std::vector<std::string> c; std::string cell; for (char ch : line) if (ch == ',') { c.push_back(cell); cell.clear(); } else cell += ch; if (!cell.empty()) c.push_back(cell); if (first) l.header = c; else l.rows.push_back(c); first = false; }
  return l;
}
}  // namespace sample
namespace sample {
static const char* kComp = "sample_satellite/components/";
const std::vector<Switch>& Models() {
  static const std::vector<Switch> v = [] { std::vector<Switch> m; std::string rw = std::string(kComp) + "reaction_wheel.ini", egm = "egm.ascii";
    m.push_back({"geopotential on", {{kDist, "GEOPOTENTIAL", "calculation", "ENABLE"}, {kDist, "GEOPOTENTIAL", "degree", "3"}, {kDist, "GEOPOTENTIAL", "coefficients_file_path", "./egm.ascii"}}});
    m.push_back({"third body on", {{kDist, "THIRD_BODY_GRAVITY", "calculation", "ENABLE"}, {kDist, "THIRD_BODY_GRAVITY", "number_of_third_body", "2"}}});
    for (const char* s : {"MAGNETIC_DISTURBANCE", "AIR_DRAG", "SOLAR_RADIATION_PRESSURE_DISTURBANCE", "GRAVITY_GRADIENT"}) m.push_back({std::string(s) + " off", {{kDist, s, "calculation", "DISABLE"}}});
    m.push_back({"lunar gravity on", {{kDist, "LUNAR_GRAVITY_FIELD", "calculation", "ENABLE"}, {kDist, "LUNAR_GRAVITY_FIELD", "degree", "2"}, {kDist, "LUNAR_GRAVITY_FIELD", "coefficients_file_path", "./grgm.tab"}}});
    for (const char* s : {"MAGNETIC_FIELD_ENVIRONMENT", "SOLAR_RADIATION_PRESSURE_ENVIRONMENT", "ATMOSPHERE", "EARTH_INFRARED"}) m.push_back({std::string(s) + " off", {{kLocal, s, "calculation", "DISABLE"}}});
    m.push_back({"albedo on", {{kLocal, "EARTH_ALBEDO", "calculation", "ENABLE"}}});
    m.push_back({"NRLMSISE00, density noise", {{kLocal, "ATMOSPHERE", "model", "NRLMSISE00"}, {kLocal, "ATMOSPHERE", "air_density_standard_deviation", "0.1"}}});
    m.push_back({"thermal on", {{kSat, "THERMAL", "calculation", "ENABLE"}}});
    m.push_back({"thermal and solar on", {{kSat, "THERMAL", "calculation", "ENABLE"}, {kSat, "THERMAL", "solar_calc_setting", "ENABLE"}}});
    m.push_back({"orbit calculation off", {{kSat, "ORBIT", "calculation", "DISABLE"}}});
    m.push_back({"controlled initial attitude", {{kSat, "ATTITUDE", "initialize_mode", "CONTROLLED"}}});
    m.push_back({"tumbling", {{kSat, "ATTITUDE", "initial_angular_velocity_b_rad_s(0)", "0.02"}, {kSat, "ATTITUDE", "initial_angular_velocity_b_rad_s(1)", "-0.05"}, {kSat, "ATTITUDE", "initial_quaternion_i2b(1)", "0.6"}, {kSat, "ATTITUDE", "initial_quaternion_i2b(3)", "0.8"}}});
    m.push_back({"wheel jitter on", {{rw, "REACTION_WHEEL_JITTER_1", "jitter_calculation", "ENABLE"}, {rw, "REACTION_WHEEL_JITTER_1", "jitter_logging", "ENABLE"}}});
    m.push_back({"two bodies", {{kBase, "CELESTIAL_INFORMATION", "number_of_selected_body", "2"}, {kDist, "THIRD_BODY_GRAVITY", "calculation", "DISABLE"}}});
    m.push_back({"five bodies", {{kBase, "CELESTIAL_INFORMATION", "number_of_selected_body", "5"}}});
    m.push_back({"simple earth rotation", {{kBase, "CELESTIAL_INFORMATION", "rotation_mode(0)", "SIMPLE"}}});
    m.push_back({"idle earth", {{kBase, "CELESTIAL_INFORMATION", "rotation_mode(0)", "IDLE"}}});
    m.push_back({"slow components", {{kBase, "TIME", "component_update_period_s", "0.2"}}});
    m.push_back({"slow attitude and orbit", {{kBase, "TIME", "attitude_update_period_s", "0.2"}, {kBase, "TIME", "orbit_update_period_s", "0.5"}}});
    m.push_back({"other start", {{kBase, "TIME", "simulation_start_time_utc", "2021/02/28 23:59:59.5"}}});
    for (const char* n : {"gyro_sensor.ini", "magnetometer.ini"}) { std::string f = std::string(kComp) + n; std::string sec = n[0] == 'g' ? "SENSOR_BASE_GYRO_SENSOR_1" : "SENSOR_BASE_MAGNETOMETER_1"; m.push_back({std::string(n) + " noise", {{f, sec, "random_walk_standard_deviation_c(0)", "0.3"}, {f, sec, "random_walk_limit_c(0)", "1"}, {f, sec, "normal_random_standard_deviation_c(1)", "0.2"}}}); }
    m.push_back({"force and torque noise", {{std::string(kComp) + "force_generator.ini", "FORCE_GENERATOR", "magnitude_standard_deviation_N", "0.1"}, {std::string(kComp) + "torque_generator.ini", "TORQUE_GENERATOR", "magnitude_standard_deviation_Nm", "0.1"}}});
    return m; }(); return v;
}
const std::vector<Switch>& Logging() {
  static const std::vector<Switch> v = [] { std::vector<Switch> m; m.push_back({"CELESTIAL_INFORMATION", {{kBase, "CELESTIAL_INFORMATION", "logging", "DISABLE"}}});
    m.push_back({"ORBIT", {{kSat, "ORBIT", "logging", "DISABLE"}}});
    for (const char* s : {"MAGNETIC_FIELD_ENVIRONMENT", "SOLAR_RADIATION_PRESSURE_ENVIRONMENT", "ATMOSPHERE", "LOCAL_CELESTIAL_INFORMATION"}) m.push_back({s, {{kLocal, s, "logging", "DISABLE"}}});
    for (const char* s : {"GRAVITY_GRADIENT", "SOLAR_RADIATION_PRESSURE_DISTURBANCE", "THIRD_BODY_GRAVITY", "AIR_DRAG", "MAGNETIC_DISTURBANCE", "GEOPOTENTIAL", "LUNAR_GRAVITY_FIELD"}) m.push_back({s, {{kDist, s, "logging", "DISABLE"}}});
    m.push_back({"GNSS_SATELLITES", {{"environment/sample_gnss.ini", "GNSS_SATELLITES", "logging", "DISABLE"}}});
    m.push_back({"REACTION_WHEEL_1 jitter", {{std::string(kComp) + "reaction_wheel.ini", "REACTION_WHEEL_JITTER_1", "jitter_logging", "DISABLE"}}}); return m; }(); return v;
}
const std::vector<Switch>& Attitudes() { static const std::vector<Switch> v = {{"RK4", {}}, {"CANTILEVER_VIBRATION", {{kSat, "ATTITUDE", "propagate_mode", "CANTILEVER_VIBRATION"}}}, {"CONTROLLED", {{kSat, "ATTITUDE", "propagate_mode", "CONTROLLED"}}}}; return v; }
const std::vector<Switch>& Orbits() { static const std::vector<Switch> v = [] { std::vector<Switch> m{{"RK4", {}}}; for (const char* s : {"SGP4", "KEPLER", "ENCKE", "TIME_SERIES_FILE"}) m.push_back({s, {{kSat, "ORBIT", "propagate_mode", s}}});
    m.push_back({"KEPLER from elements", {{kSat, "ORBIT", "propagate_mode", "KEPLER"}, {kSat, "ORBIT", "initialize_mode", "ORBITAL_ELEMENTS"}}}); return m; }(); return v; }
}  // namespace sample
