// The log of whole simulations in every configuration, and the logger by itself.
#include <cmath>
#include <filesystem>
#include <fstream>
#include <set>
#include <unistd.h>
#include <logger/log_utility.hpp>
#include <logger/logger.hpp>
#include "env.hpp"
#include "sample.hpp"
using namespace mc; using namespace env; using namespace sample; using namespace s2e;
const char* kProperty = "S05";
const char* kAssumptions = "Whole simulations are runs of the repository's sample case with the stand-in ephemeris. Column names are taken as the declaration of what the column contains; a date is printed with the fields year/month/day hour:minute:second.";
static bool Number(const std::string& s) { if (s.empty()) return false; char* e; double v = strtod(s.c_str(), &e); return *e == 0 && std::isfinite(v) && !isspace((unsigned char)s[0]); }
static bool Date(const std::string& s, int v[5], double* sec) { int n = 0; return sscanf(s.c_str(), "%d/%d/%d %d:%d:%lf%n", v, v + 1, v + 2, v + 3, v + 4, sec, &n) == 6 && n == (int)s.size(); }
static std::vector<std::string> Split(const std::string& line) { std::vector<std::string> c; std::string cell; for (char ch : line) if (ch == ',') { c.push_back(cell); cell.clear(); } else cell += ch; if (!cell.empty()) c.push_back(cell); return c; }
// rectangular, readable, at its period
static Log Judge(Path& p, const std::string& text, double period, double end) {
  Log l = Parse(text); p.Check(!text.empty() && l.header.size() > 20, "log-empty", "%zu bytes", text.size());
  p.Check(l.ends_with_newline, "line-incomplete", "the last line has no end");
  p.Check(l.header[0].compare(0, 12, "elapsed_time") == 0, "order", "the first column is %s", l.header[0].c_str());
  for (auto& h : l.header) p.Check(!h.empty(), "name-empty", "a column has no name");
  double last = -1; size_t n = 0;
  for (auto& r : l.rows) { p.Check(r.size() == l.header.size(), "not-rectangular", "row %zu has %zu values under %zu columns", n, r.size(), l.header.size());
    for (size_t c = 0; c < r.size(); c++) { int f[5]; double s; bool date = l.header[c].find("[UTC]") != std::string::npos; p.Check(date ? Date(r[c], f, &s) : Number(r[c]), "unreadable", "row %zu column %s: '%s'", n, l.header[c].c_str(), r[c].c_str()); }
    double t = atof(r[0].c_str()); p.Check(t > last, "time-order", "%g after %g", t, last); p.Check(fabs(t - n * period) < 1e-4 * (1 + t), "log-times", "row %zu is at %g, expected %g", n, t, n * period); last = t; n++; }
  size_t full = (size_t)floor(end / period + 1e-9) + 1; bool at_end = fabs(end - (full - 1) * period) < 1e-6; p.Check(n == full || (at_end && n == full - 1), "log-times", "%zu rows of period %g until %g", n, period, end);
  p.ObsHash(Mix(l.header.size(), n)); return l;
}
static Config Timed(double step, double period, double end) { char a[3][32]; snprintf(a[0], 32, "%g", step); snprintf(a[1], 32, "%g", period); snprintf(a[2], 32, "%g", end); return {{kBase, "TIME", "simulation_step_s", a[0]}, {kBase, "TIME", "log_output_period_s", a[1]}, {kBase, "TIME", "simulation_duration_s", a[2]}}; }
static const std::string& Dir() { static std::string d = Scratch() + "/s" ; std::filesystem::create_directories(d); return d; }
static Config All() { auto& M = Models(); Config c = Default(); c = Merge(c, M[0].edits); c = Merge(c, M[1].edits); for (auto& m : M) if (m.name == "albedo on" || m.name == "wheel jitter on" || m.name == "thermal on") c = Merge(c, m.edits); return c; }
static Config ModelSet(int m) { Config c = All(); if (m == 1) c = Merge(Default(), Attitudes()[2].edits); if (m == 2) c = Merge(Merge(c, Attitudes()[1].edits), Orbits()[1].edits); return Merge(c, {{kBase, "TIME", "simulation_duration_s", "0.2"}}); }
static std::vector<std::string> Header(const Config& c, int id) {  // kept on disk for the other workers
  std::string f = Scratch() + "/../header" + std::to_string(id), t; if (!std::filesystem::exists(f)) { t = Run(Dir(), c); t = t.substr(0, t.find('\n')); std::string tmp = f + "." + std::to_string(getpid()); std::ofstream(tmp) << t; std::filesystem::rename(tmp, f); } else t = ReadFile(f); return Split(t); }
static const char* kOwner[] = {"_position_i_x[m]", "spacecraft_position_i_x[m]", "geomagnetic_field", "solar_radiation_pressure_at", "air_density", "from_spacecraft_b", "gravity_gradient", "srp_", "third_body", "air_drag", "spacecraft_magnetic_moment", "geopotential", "lunar", "GPS", "jitter"};

// ---- meaning of the columns that are related to each other
struct Row { const Log& l; const std::vector<std::string>& r; double D(const std::string& n) const { for (size_t c = 0; c < l.header.size(); c++) if (l.header[c] == n) return atof(r[c].c_str()); return NAN; }
  V3 V(const std::string& n, const std::string& u) const { return MakeV(D(n + "_x[" + u + "]"), D(n + "_y[" + u + "]"), D(n + "_z[" + u + "]")); } };
static void Meaning(Path& p, const Log& l, double lag) {
  size_t n = 0;
  for (auto& raw : l.rows) { Row r{l, raw}; double q[4] = {r.D("spacecraft_quaternion_i2b_x"), r.D("spacecraft_quaternion_i2b_y"), r.D("spacecraft_quaternion_i2b_z"), r.D("spacecraft_quaternion_i2b_w")}; double nq = sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]); p.Check(fabs(nq - 1) < 1e-4, "meaning", "quaternion norm %g", nq);
    auto rot = [&](const V3& v) { V3 u = MakeV(q[0], q[1], q[2]); V3 t = Scale(-2, Cross(u, v)); return Add(Add(v, Scale(q[3], t)), Scale(-1, Cross(u, t))); };
    auto same = [&](const V3& a, const V3& b, double tol, const char* what) { double e = Norm(Sub(a, b)), s = Norm(b) + Norm(a); p.Check(e <= tol * s + 1e-30, "meaning", "row %zu: %s: (%g %g %g) where the other columns say (%g %g %g)", n, what, a[0], a[1], a[2], b[0], b[1], b[2]); };
    same(r.V("spacecraft_velocity_b", "m/s"), rot(r.V("spacecraft_velocity_i", "m/s")), 1e-4, "velocity in the body frame");
    V3 e = r.V("spacecraft_position_ecef", "m"), x = r.V("spacecraft_position_i", "m"); p.Check(fabs(Norm(e) - Norm(x)) < 1e-6 * Norm(x), "meaning", "distance %g in one frame and %g in the other", Norm(e), Norm(x));
    double lon = atan2(e[1], e[0]), dl = remainder(lon - r.D("spacecraft_longitude[rad]"), 2 * M_PI); p.Check(fabs(dl) < 1e-4, "meaning", "longitude %g where the position says %g", r.D("spacecraft_longitude[rad]"), lon); p.Check(fabs(r.D("spacecraft_latitude[rad]") - asin(e[2] / Norm(e))) < 5e-3, "meaning", "latitude %g", r.D("spacecraft_latitude[rad]")); p.Check(fabs(r.D("spacecraft_altitude[m]") + 6370e3 - Norm(e)) < 3e4, "meaning", "altitude %g", r.D("spacecraft_altitude[m]"));
    if (n) { same(r.V("geomagnetic_field_at_spacecraft_position_b", "nT"), rot(r.V("geomagnetic_field_at_spacecraft_position_i", "nT")), lag, "magnetic field in the body frame");
      for (const char* b : {"earth", "sun", "moon"}) { V3 bi = r.V(std::string(b) + "_position_i", "m"); same(r.V(std::string(b) + "_position_from_spacecraft_b", "m"), rot(Sub(bi, x)), lag + 1e-3, b); V3 vi = r.V(std::string(b) + "_velocity_i", "m/s"); same(r.V(std::string(b) + "_velocity_from_spacecraft_b", "m/s"), Sub(rot(Sub(vi, r.V("spacecraft_velocity_i", "m/s"))), Cross(r.V("spacecraft_angular_velocity_b", "rad/s"), rot(Sub(bi, x)))), 1, "velocity"); }
      V3 t = Scale(1e-9, Cross(r.V("spacecraft_magnetic_moment_b", "Am2"), r.V("geomagnetic_field_at_spacecraft_position_b", "nT"))); same(r.V("magnetic_disturbance_torque_b", "Nm"), t, 1e-3, "magnetic torque");
      p.Check(Norm(Sub(r.V("orbit_observer_position_i", "m"), x)) < 2e4 && Norm(Sub(r.V("orbit_observer_velocity_i", "m/s"), r.V("spacecraft_velocity_i", "m/s"))) < 300, "meaning", "row %zu: the observed position or velocity is another one", n); }
    n++; }
}
struct Fake : logger::ILoggable { std::string h, v; mutable int asked = 0; std::string GetLogHeader() const override { return h; } std::string GetLogValue() const override { asked++; return v + std::to_string(asked) + ","; } };
static std::string Only(const std::string& dir) { std::string f; for (auto& e : std::filesystem::recursive_directory_iterator(dir)) if (e.path().extension() == ".csv") { if (!f.empty()) return "two"; f = e.path().string(); } return f; }
void Register() {
  Scenario("blocks", "15 logging switches: each alone, every pair (second model set: thorough only), and each alone on x 2 model sets (thorough: 3, and every triple): the header is the concatenation of the enabled elements' columns", [](Path& p) {
    auto& L = Logging(); int n = L.size(), m = p.Choose(Q(2, 3)), i = p.Choose(n), j = p.Choose(n + 1), k = Thorough() && j < n ? p.Choose(n + 1) : n; if ((j < n && j > i) || (k < n && k > j) || (!Thorough() && m && j != i && j != n)) throw Skip();
    static std::map<int, std::pair<std::vector<std::string>, std::vector<std::pair<size_t, size_t>>>> memo; auto it = memo.find(m);
    if (it == memo.end()) { for (int s = 0; s < n; s++) Header(Merge(ModelSet(m), L[(s + 2 * i) % n].edits), m * 100 + (s + 2 * i) % n);
      auto& e = memo[m]; e.first = Header(ModelSet(m), m * 100 + 99);
      for (int s = 0; s < n; s++) { auto h = Header(Merge(ModelSet(m), L[s].edits), m * 100 + s); size_t at = 0; while (at < h.size() && h[at] == e.first[at]) at++; e.second.push_back({at, e.first.size() >= h.size() ? e.first.size() - h.size() : 0}); } it = memo.find(m); }
    auto& base = it->second.first; auto& B = it->second.second; p.Note("model set %d, off: %s", m, L[i].name.c_str());
    auto cut = [&](const std::set<int>& off) { std::vector<std::string> h; for (size_t c = 0; c < base.size(); c++) { bool in = true; for (int s : off) if (c >= B[s].first && c < B[s].first + B[s].second) in = false; if (in) h.push_back(base[c]); } return h; };
    std::set<int> off; if (j == n) { for (int s = 0; s < n; s++) if (s != i) off.insert(s); p.Note("all others off instead"); } else { off.insert(i); off.insert(j); if (k < n) off.insert(k); if (j != i) p.Note("off: %s", L[j].name.c_str()); if (k < n && k != j) p.Note("off: %s", L[k].name.c_str()); }
    Config c = ModelSet(m); for (int s : off) c = Merge(c, L[s].edits); Log l = Judge(p, Run(Dir(), c), 0.2, 0.2); auto want = cut(off); size_t d = 0; while (d < want.size() && d < l.header.size() && want[d] == l.header[d]) d++;
    p.Check(l.header == want, "columns", "%zu columns where %zu are declared; first difference: %s instead of %s", l.header.size(), want.size(), d < l.header.size() ? l.header[d].c_str() : "(end)", d < want.size() ? want[d].c_str() : "(end)");
    static const char* kOrder[] = {"elapsed_time", "time[UTC]", "earth_position_i_x", "moon_velocity_i_z", "spacecraft_angular_velocity_b_x", "spacecraft_quaternion_i2b_w", "spacecraft_position_i_x", "spacecraft_latitude", "geomagnetic_field_at_spacecraft_position_i_x", "geomagnetic_field_at_spacecraft_position_b_z", "solar_radiation_pressure_at", "shadow_coefficient", "earth_albedo_factor", "earth_infrared_W_m2", "air_density", "earth_position_from_spacecraft_b_x", "gravity_gradient_torque", "srp_torque", "third_body_acceleration", "air_drag_torque", "spacecraft_magnetic_moment", "geopotential_acceleration", "gyro_sensor1", "magnetometer1", "stt1", "sun_sensor1", "gnss_receiver1", "magnetorquer1", "rw1", "simple_thruster1", "telescope", "ideal_force_generator", "ideal_torque_generator", "angular_velocity_observer", "attitude_observer", "orbit_observer", "ground_station0_sc0_visible_flag", "gs_calculator_max_bitrate"};
    if (m == 0) { size_t at = 0; for (const char* k : kOrder) { size_t q = at; while (q < base.size() && base[q].find(k) != 0) q++; p.Check(q < base.size(), "elements", "with everything logged no column %s follows %s", k, at ? base[at].c_str() : "the start"); at = q; } }
    if (m == 0 && off.size() == 1 && L[i].name != "LUNAR_GRAVITY_FIELD" && L[i].name != "GNSS_SATELLITES") p.Check(B[i].second, "columns", "switching %s off removes no column", L[i].name.c_str());
    if (off.size() == 1 && B[i].second) { bool named = false; for (size_t q = B[i].first; q < B[i].first + B[i].second; q++) named |= base[q].find(kOwner[i]) != std::string::npos; p.Check(named, "columns", "switching %s off removes %zu columns from %s on", L[i].name.c_str(), B[i].second, base[B[i].first].c_str()); }
    p.Outcome(B[i].second ? "has columns" : "has none");
  }, {2, 60});
  RequireOutcome("blocks", "has columns");
  Scenario("configurations", "3 attitude x 6 orbit propagations x every model switch alone (thorough: every pair of switches in the 3 attitude propagations): rectangular, readable, related columns agree", [](Path& p) {
    auto& M = Models(); int n = M.size(), a = p.Choose(3), o = p.Choose((int)Orbits().size()), i = p.Choose(n), j = Thorough() && o == 0 ? p.Choose(n) : i; if (j > i) throw Skip(); if (!Thorough() && o && a && i > 3) throw Skip();
    p.Note("%s / %s / %s", Attitudes()[a].name.c_str(), Orbits()[o].name.c_str(), M[i].name.c_str()); Config c = Merge(Merge(Merge(Default(), Attitudes()[a].edits), Orbits()[o].edits), M[i].edits); if (j != i) { c = Merge(c, M[j].edits); p.Note("%s", M[j].name.c_str()); }
    c = Merge(c, Timed(0.1, 0.2, 1.0)); Log l = Judge(p, Run(Dir(), c), 0.2, 1.0); std::string nm = M[i].name + "|" + M[j].name; bool slow = nm.find("slow") != std::string::npos, off = nm.find("off") != std::string::npos || nm.find("two bodies") != std::string::npos || nm.find("body") != std::string::npos; (void)off;
    if (!slow && nm.find("two bodies") == std::string::npos && nm.find("FIELD_ENVIRONMENT off") == std::string::npos && nm.find("MAGNETIC_DISTURBANCE off") == std::string::npos && nm.find("idle") == std::string::npos && nm.find("earth rotation") == std::string::npos && nm.find("orbit calculation off") == std::string::npos) { Meaning(p, l, a == 0 ? 0.02 : 0.02); p.Outcome("related"); }
  }, {3, 60});
  RequireOutcome("configurations", "related");
  Scenario("times", "3 steps x log periods of 1..7 steps (thorough 1..20) x 5 durations x 2 start times: rows at time zero and once per period, dates and positions follow", [](Path& p) {
    double step = p.Pick({0.1, 0.2, 0.25}); int k = 1 + p.Choose(Q(7, 20)), d = p.PickI({1, 4, 7, 8, 15}), s = p.Choose(2); double end = step * d; Config c = Merge(Default(), Timed(step, step * k, end));
    for (const char* key : {"attitude_update_period_s", "orbit_update_period_s", "thermal_update_period_s", "component_update_period_s", "attitude_integral_step_s", "orbit_integral_step_s", "thermal_integral_step_s"}) { char v[32]; snprintf(v, 32, "%g", std::string(key).find("integral") != std::string::npos ? step / 2 : step); c.push_back({kBase, "TIME", key, v}); }
    if (s) c.push_back({kBase, "TIME", "simulation_start_time_utc", "2021/02/28 23:59:59.5"}); Log l = Judge(p, Run(Dir(), c), step * k, end); int v[5]; double sec;
    { std::vector<Row> rs; for (auto& r : l.rows) rs.push_back({l, r}); V3 x0 = rs[0].V("spacecraft_position_i", "m"), v0 = rs[0].V("spacecraft_velocity_i", "m/s"), g = Scale(-3.986e14 / std::pow(Norm(x0), 3), x0); for (auto& r : rs) { double t = atof(r.r[0].c_str()); V3 w = Add(x0, Add(Scale(t, v0), Scale(t * t / 2, g))), x = r.V("spacecraft_position_i", "m"); p.Check(Norm(Sub(x, w)) < 120, "state-at-row", "the position in the row of time %g is %g m from where the orbit is then", t, Norm(Sub(x, w))); } p.Outcome("orbit followed"); }
    for (auto& r : l.rows) { Date(r[1], v, &sec); double t = s ? 86399.5 : 43200, w = t + atof(r[0].c_str()); int day = w >= 86400; if (day) w -= 86400; double g = v[3] * 3600 + v[4] * 60 + sec; bool dayok = s ? (v[0] == 2021 && ((day && v[1] == 3 && v[2] == 1) || (!day && v[1] == 2 && v[2] == 28))) : (v[0] == 2020 && v[1] == 4 && v[2] == 1); p.Check((dayok && fabs(g - w) < 2e-3) || (fabs(g - w) > 86390), "date", "time %s is dated %s", r[0].c_str(), r[1].c_str()); }
  }, {2, 60});
  RequireOutcome("times", "orbit followed");
  Scenario("saved", "settings saving on or off x every combination of 3 model sets: the saved copies are the files in use", [](Path& p) {
    int on = p.Choose(2), m = p.Choose(3); Config c = Merge(ModelSet(m), {{kBase, "SIMULATION_SETTINGS", "save_initialize_files", on ? "ENABLE" : "DISABLE"}}); Judge(p, Run(Dir(), c), 0.2, 0.2); std::set<std::string> got; std::map<std::string, std::string> use; for (auto& e : std::filesystem::recursive_directory_iterator(Dir() + "/settings", std::filesystem::directory_options::follow_directory_symlink)) if (e.path().extension() == ".ini") use[e.path().filename().string()] = ReadFile(e.path().string());
    for (auto& e : std::filesystem::recursive_directory_iterator(Dir() + "/logs")) if (e.path().extension() == ".ini") { std::string f = e.path().filename().string(); got.insert(f); p.Check(use.count(f) && ReadFile(e.path().string()) == use[f], "saved-copy", "the saved %s is not the file in use", f.c_str()); }
    if (on) for (const char* f : {"sample_simulation_base.ini", "satellite.ini", "structure.ini", "local_environment.ini", "disturbance.ini"}) p.Check(got.count(f), "saved-copy", "%s is not saved", f); else p.Check(got.empty(), "saved-copy", "%zu files saved without being asked for", got.size());
  }, {1, 60});
  Scenario("copies", "settings saving on or off x every history of 4 copies of {one file, another, a third with the name of the first, a file in a subdirectory}: each name is saved once, as the first file of that name, and nothing else", [](Path& p) {
    std::string dir = Scratch() + "/cp"; std::filesystem::remove_all(dir); std::filesystem::create_directories(dir + "/in/sub"); std::filesystem::create_directories(dir + "/out"); static const char* N[4] = {"in/a.ini", "in/b.ini", "in/sub/a.ini", "in/sub/c.ini"}; for (auto n : N) std::ofstream(dir + "/" + n) << "; " << n; bool on = p.Flag(); std::ofstream(dir + "/in/x.ini") << "; base"; logger::Logger l("t.csv", dir + "/out", dir + "/in/x.ini", on, true); std::map<std::string, std::string> want; if (on) want["x.ini"] = "; base";
    std::streambuf* keep = std::cout.rdbuf(nullptr); for (int k = 0; k < 4; k++) { int c = p.Choose(4); p.Note("copy %s", N[c]); std::string path = dir + "/" + N[c]; l.CopyFileToLogDirectory(path); if (on) want.emplace(std::filesystem::path(path).filename().string(), "; " + std::string(N[c])); } std::cout.rdbuf(keep);
    std::map<std::string, std::string> got; for (auto& e : std::filesystem::recursive_directory_iterator(dir + "/out")) if (e.path().extension() == ".ini") got[e.path().filename().string()] = ReadFile(e.path().string()); p.Check(got == want, "saved-copy", "%zu files saved, %zu expected, or with other contents", got.size(), want.size()); p.Outcome(on ? "saved" : "not saved");
  }, {2});
  Scenario("logger", "all histories of 4 (thorough 6) operations over 3 elements (one with no columns): add, switch an element's logging, enable or disable the log, headers, values, values without a line end, clear; 2 initial states", [](Path& p) {
    std::string dir = Scratch() + "/l"; std::filesystem::remove_all(dir); std::filesystem::create_directories(dir); Fake e[3]; e[0].h = "a[m],"; e[0].v = "0."; e[1].h = "b_x[s],b_y[s],"; e[1].v = "1,2."; e[2].h = ""; e[2].v = "9."; bool opened = p.Choose(3) != 2, en = opened; std::string want; std::vector<int> list; int asked[3] = {};
    { logger::Logger l("t.csv", dir, "none.ini", false, opened); int depth = Q(4, 6); if (opened) { for (int s = 0; s < 2; s++) { l.AddLogList(&e[s]); list.push_back(s); } }
      for (int s = 0; s < depth; s++) { int op = p.Choose(10); switch (op) { case 0: case 1: case 2: if (list.size() > 3) throw Skip(); p.Note("add %d", op); l.AddLogList(&e[op]); list.push_back(op); break; case 3: case 4: p.Note("toggle %d", op - 3); e[op - 3].is_log_enabled_ = !e[op - 3].is_log_enabled_; break; case 5: p.Note("toggle log"); en = !en; l.Enable(en); break; case 6: p.Note("headers"); l.WriteHeaders(); for (int x : list) if (e[x].is_log_enabled_ && en && opened) want += e[x].h; if (en && opened) want += "\n"; break; case 7: case 8: p.Note(op == 7 ? "values" : "values, same line"); l.WriteValues(op == 7); for (int x : list) if (e[x].is_log_enabled_) { asked[x]++; if (en && opened) want += e[x].v + std::to_string(e[x].asked) + ","; } if (op == 7 && en && opened) want += "\n"; break; default: p.Note("clear"); l.ClearLogList(); list.clear(); }
        p.Check(l.IsEnabled() == en, "logger", "enabled %d", l.IsEnabled()); } }
    // an element listed twice is asked twice in one row: compare with the counters ignored
    auto strip = [](const std::string& s) { std::string o; for (size_t i = 0; i < s.size(); i++) { o += s[i]; if (s[i] == '.') { while (i + 1 < s.size() && isdigit((unsigned char)s[i + 1])) i++; } } return o; };
    std::string f = Only(dir); if (!opened) { p.Check(f.empty(), "logger", "a disabled log writes a file"); return; } std::string got = ReadFile(f); p.Check(strip(got) == strip(want), "logger", "the file is\n%s\ninstead of\n%s", got.c_str(), want.c_str()); p.ObsHash(Hash(got)); p.Outcome(got.empty() ? "empty" : "written");
  }, {2, 20});
  RequireOutcome("logger", "written");
  Scenario("large-logs", "{39, 40, 41, 64, 100, 255, 256, 257, 1000} elements of 1 to 4 columns, every 5th switched off x {3, 300, 3000} rows: every row holds the values of every enabled element in the order added", [](Path& p) {
    int n = p.PickI({39, 40, 41, 64, 100, 255, 256, 257, 1000}), rows = p.PickI({3, 300, 3000}); if (n * rows > 300000) throw Skip(); std::string dir = Scratch() + "/ll"; std::filesystem::remove_all(dir); std::filesystem::create_directories(dir); std::vector<Fake> e(n); std::string want; { logger::Logger l("t.csv", dir, "none.ini", false, true); for (int i = 0; i < n; i++) { for (int c = 0; c <= i % 4; c++) { e[i].h += "e" + std::to_string(i) + "_" + std::to_string(c) + "[-],"; if (c) e[i].v += std::to_string(i * 10 + c) + ","; } e[i].is_log_enabled_ = i % 5 != 4; l.AddLogList(&e[i]); } l.WriteHeaders(); for (auto& x : e) if (x.is_log_enabled_) want += x.h; want += "\n"; for (int r = 1; r <= rows; r++) { l.WriteValues(); for (auto& x : e) if (x.is_log_enabled_) want += x.v + std::to_string(r) + ","; want += "\n"; } }
    std::string got = ReadFile(Only(dir)); size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++; p.Check(got == want, "logger", "%d elements: the file differs from character %zu of %zu, in line %ld", n, i, want.size(), (long)std::count(want.begin(), want.begin() + i, '\n')); p.Obs({(double)n, (double)rows});
  });
  Scenario("writers", "20 values in every position x precisions 2..17 for scalar, vector (2, 3, 4, 9), matrix (2x3, 3x3), quaternion: as many names as values, values read back to the precision in order", [](Path& p) {
    std::vector<double> V{0, 1, -1, 0.1, -2.5, 1.0 / 3, 123456789.123, -1e-7, 6.02e23, 1e-300, 999999.5, 9.9999995, 0.000123456789, 1e15, 4503599627370497.0, -0.5, 2e5, 1e6, 7, M_PI}; double v = p.Pick(V); int prec = 2 + p.Choose(16), kind = p.Choose(8); math::Vector<9> b; for (int i = 0; i < 9; i++) b[i] = 0.5 + i;
    auto judge = [&](const std::string& head, const std::string& val, const std::vector<double>& want) { auto h = Split(head), x = Split(val); p.Check(!val.empty() && val.back() == ',' && head.back() == ',', "writer", "'%s' '%s' do not end their cell", head.c_str(), val.c_str()); p.Check(h.size() == want.size() && x.size() == want.size(), "writer", "%zu names, %zu values for %zu quantities", h.size(), x.size(), want.size()); std::set<std::string> u(h.begin(), h.end()); p.Check(u.size() == h.size(), "writer", "two columns have the same name in %s", head.c_str()); for (size_t i = 0; i < std::min(x.size(), want.size()); i++) p.Check(Number(x[i]) && fabs(atof(x[i].c_str()) - want[i]) <= 0.500001 * pow(10, 1 - prec) * fabs(want[i]) * (1 + 1e-9), "writer", "%.17g is written as %s with %d digits", want[i], x[i].c_str(), prec); };
    std::vector<double> w; auto fill = [&](int n, int at) { w.assign(n, 0); for (int i = 0; i < n; i++) { b[i] = i == at ? v : 0.5 + i; w[i] = b[i]; } };
    switch (kind) { case 0: judge(logger::WriteScalar("a", "m"), logger::WriteScalar(v, prec), {v}); { int iv = fabs(v) < 1e9 ? (int)v : 5; auto x = Split(logger::WriteScalar(iv, prec)); p.Check(x.size() == 1 && x[0] == std::to_string(iv), "writer", "integer %d is written as %s", iv, x[0].c_str()); } break;
      case 1: for (int at = 0; at < 3; at++) { fill(3, at); math::Vector<3> a; for (int i = 0; i < 3; i++) a[i] = w[i]; std::string h = logger::WriteVector("v", "b", "m", 3); judge(h, logger::WriteVector(a, prec), w); p.Check(Split(h)[at] == std::string("v_b_") + "xyz"[at] + "[m]", "writer", "%s", h.c_str()); } break;
      case 2: for (int at = 0; at < 4; at++) { fill(4, at); math::Vector<4> a; for (int i = 0; i < 4; i++) a[i] = w[i]; std::string h = logger::WriteVector("v", "b", "m", 4); judge(h, logger::WriteVector(a, prec), w); p.Check(Split(h)[at] == "v_b(" + std::to_string(at) + ")[m]", "writer", "%s", h.c_str()); } break;
      case 3: for (int at = 0; at < 9; at++) { fill(9, at); judge(logger::WriteVector("v", "b", "m", 9), logger::WriteVector(b, prec), w); } break;
      case 4: for (int at = 0; at < 2; at++) { fill(2, at); math::Vector<2> a; for (int i = 0; i < 2; i++) a[i] = w[i]; judge(logger::WriteVector("v", "b", "m", 2), logger::WriteVector(a, prec), w); } break;
      case 5: for (int at = 0; at < 6; at++) { fill(6, at); math::Matrix<2, 3> a; for (int i = 0; i < 6; i++) a[i / 3][i % 3] = w[i]; std::string h = logger::WriteMatrix("v", "b", "m", 2, 3); judge(h, logger::WriteMatrix(a, prec), w); p.Check(Split(h)[at] == "v_b(" + std::to_string(at / 3) + std::to_string(at % 3) + ")[m]", "writer", "%s", h.c_str()); } break;
      case 6: for (int at = 0; at < 9; at++) { fill(9, at); math::Matrix<3, 3> a; for (int i = 0; i < 9; i++) a[i / 3][i % 3] = w[i]; judge(logger::WriteMatrix("v", "b", "m", 3, 3), logger::WriteMatrix(a, prec), w); } break;
      default: for (int at = 0; at < 4; at++) { fill(4, at); math::Quaternion a(w[0], w[1], w[2], w[3]); std::string h = logger::WriteQuaternion("q", "i2b"); math::Vector<4> raw; std::vector<double> ww; for (int i = 0; i < 4; i++) ww.push_back(a[i]); judge(h, logger::WriteQuaternion(a, prec), ww); p.Check(Split(h)[at] == std::string("q_i2b_") + "xyzw"[at], "writer", "%s", h.c_str()); } }
  }, {2, 20});
}
