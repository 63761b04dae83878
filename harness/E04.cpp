// Heater hysteresis over every temperature history and the heat-load schedule over every sequence of query times.
#include <dynamics/thermal/temperature.hpp>
#include "env.hpp"
using namespace mc; using namespace env; using namespace s2e::dynamics::thermal;
const char* kProperty = "E04";
const char* kAssumptions = "Time tables begin at zero and increase; at the instant a period ends the schedule has its first value. Each heater belongs to one node.";
static World& W() { static World* w = nullptr; if (!w) w = new World(Settings()); return *w; }
static double Table(const std::vector<double>& t, const std::vector<double>& q, double x) { if (t.size() == 1) return q[0]; long double r = std::fmod((long double)x, (long double)t.back()); for (size_t i = 0; i + 1 < t.size(); i++) if (r <= t[i + 1]) return q[i] + (double)((r - t[i]) / (t[i + 1] - t[i])) * (q[i + 1] - q[i]); return q.back(); }
struct Tab { std::vector<double> t, q; };
static const std::vector<Tab>& Tabs() { static std::vector<Tab> v = {{{0, 500, 501, 1000, 1001, 1500}, {10, 10, 20, 20, 10, 10}}, {{0, 4}, {1, 3}}, {{0, 1, 2, 7}, {5, 0, 8, 2}}, {{0, .5, 10, 10.25, 60}, {-1, 4, 4, 0, 12}}, {{0}, {7}}, {{0, 3, 9}, {0, 30, 6}}}; return v; }
void Register() {
  Scenario("hysteresis", "6 threshold pairs (equal, inverted and negative ones) x 4 power ratings x every history of 6 (thorough 8) temperatures on, just below, just above and between the thresholds, thresholds changed in between", [](Path& p) {
    static const double th[6][2] = {{26, 27}, {-5, 5}, {10, 10}, {-40, -39.5}, {20, 15}, {0, 100}}; int ti = p.Choose(6); double lo = th[ti][0], up = th[ti][1]; HeaterController c(lo, up); double rate = ti == 4 ? 30 : p.Pick({30, 0, .5}); Heater h(1, rate); if (up < lo) up = lo + 10; p.Near(c.GetLowerThreshold_degC(), lo, 0, "lower"); p.Near(c.GetUpperThreshold_degC(), up, 0, "upper"); p.Near(c.GetUpperThreshold_K(), up + 273.15, 1e-9, "upper"); bool on = false; p.Check(h.GetHeaterStatus() == HeaterStatus::kOff && h.GetPowerOutput_W() == 0, "initial", "on at the start");
    int n = Q(6, 8); for (int k = 0; k < n; k++) { int x = p.Choose(7); double T = x == 0 ? lo - 20 : x == 1 ? std::nextafter(lo, -1e9) : x == 2 ? lo : x == 3 ? (lo + up) / 2 : x == 4 ? up : x == 5 ? std::nextafter(up, 1e9) : up + 30; if (on && T > up) on = false; else if (!on && T < lo) on = true; c.ControlHeater(&h, T); p.Note("T %.17g", T); p.Eq((long)(h.GetHeaterStatus() == HeaterStatus::kOn), (long)on, "status"); p.Near(h.GetPowerOutput_W(), on ? rate : 0, 0, "power"); p.Outcome(on ? "on" : "off"); p.Obs({(double)ti, rate, T, (double)on}); if (k == 3 && ti == 5) { lo += 2; up += 7; c.SetLowerThreshold(lo); c.SetUpperThreshold(up); } }
  }, {4});
  for (const char* s : {"on", "off"}) RequireOutcome("hysteresis", s);
  Scenario("schedule", "6 time tables (flat and sloped, one entry, uneven, the sample table) x every sequence of 4 (thorough 5) query times from a lattice of table points, their neighbours, middles and whole periods in any order, and from one another's half steps", [](Path& p) {
    int ti = p.Choose(6); const Tab& tb = Tabs()[ti]; Heatload h(0, tb.t, tb.q); double P = tb.t.size() > 1 ? tb.t.back() : 50; std::vector<double> x; for (size_t i = 0; i < tb.t.size(); i++) { x.push_back(tb.t[i]); if (i + 1 < tb.t.size()) x.push_back((tb.t[i] + tb.t[i + 1]) / 2); } x.push_back(P * 1.25); x.push_back(2 * P); x.push_back(2 * P + tb.t[tb.t.size() / 2]); x.push_back(17.5 * P); if (x.size() > 14 && !Thorough()) x.resize(14);
    int n = Q(4, 5); for (int k = 0; k < n; k++) { double t = x[p.Choose((int)x.size())]; h.SetElapsedTime_s(t); h.CalcInternalHeatload(); double want = Table(tb.t, tb.q, t); p.Note("t %g", t); p.Near(h.GetInternalHeatload_W(), want, 1e-9 * 60, "schedule"); h.SetSolarHeatload_W(1.5); h.SetAlbedoHeatload_W(.25); h.SetEarthInfraredHeatload_W(3); h.SetHeaterHeatload_W(8); h.UpdateTotalHeatload(); p.Near(h.GetTotalHeatload_W(), want + 12.75, 1e-8, "total"); p.Outcome(t > P ? "later period" : "first period"); p.Obs({(double)ti, t, want}); }
  }, {3});
  for (const char* s : {"first period", "later period"}) RequireOutcome("schedule", s);
  Scenario("dense", "6 time tables stepped through 3 periods (thorough 20) with every step of 12 lengths in increasing order, asked at the start, middle and end of each step like the integrator does", [](Path& p) {
    int ti = p.Choose(6); const Tab& tb = Tabs()[ti]; double P = tb.t.size() > 1 ? tb.t.back() : 50, dt = p.Pick({.001, .005, .01, .02, .03, .05, .1, .13, .25, .5, .7, 1.5}) * P / 2; Heatload h(0, tb.t, tb.q); double T = P * Q(3, 20); for (long k = 0; k * dt < T; k++) for (double f : {0.0, .5, .5, 1.0}) { double t = (k + f) * dt; h.SetElapsedTime_s(t); h.CalcInternalHeatload(); double r = std::fmod(t, P); if (std::fabs(r - P) < 1e-9 * P || (r < 1e-9 * P && k)) continue; p.Near(h.GetInternalHeatload_W(), Table(tb.t, tb.q, t), 1e-6, "schedule"); } p.Note("table %d step %g", ti, dt); p.Obs({(double)ti, dt});
  });
  Scenario("regulation", "2-node network read from files, heater on the first node, x 3 surroundings x 3 time tables x 3 integration steps x updates of 5 and 20 s over 60 updates (thorough 400): heater state after each update follows the node temperature, its power and the schedule enter the balance of the following update", [](Path& p) {
    double env_T = p.Pick({200, 260, 330}); int ti = p.PickI({0, 2, 4}); double step = p.Pick({1, 5, 3}), dt = p.Pick({5, 20}); const Tab& tb = Tabs()[ti]; std::string dir = Scratch() + "/e04_"; auto w = [&](const char* n, const std::string& s) { WriteFile(std::string("e04_") + n, s); }; char b[200];
    std::string hl = "NodeID/Times[s]", h0 = "0", h1 = "1"; for (size_t i = 0; i < tb.t.size(); i++) { snprintf(b, 200, ",%.17g", tb.t[i]); hl += b; snprintf(b, 200, ",%.17g", tb.q[i]); h0 += b; h1 += ",0"; } w("heatload.csv", hl + "\n" + h0 + "\n" + h1 + "\n"); snprintf(b, 200, "%g", env_T); w("node.csv", std::string("id,label,type,heater,cap,alpha,eps,area,x,y,z,T\n0,BUS,0,1,880,0,0,0,1,0,0,299.5\n1,OUT,1,0,0,0,0,0,0,0,0,") + b + "\n"); w("heaters.csv", "id,power_rating[W],lower_threshold[degC],upper_threshold[degC]\n1,30,26,27\n"); w("cij.csv", "[W/K],BUS,OUT\nBUS,0,0.3\nOUT,0.3,0\n"); w("rij.csv", "[m^2],BUS,OUT\nBUS,0,0\nOUT,0,0\n");
    Ini s = W().set.sat; s.Set("THERMAL", "calculation", "ENABLE").Set("THERMAL", "debug", "DISABLE").Set("THERMAL", "solar_calc_setting", "DISABLE").Set("THERMAL", "thermal_file_directory", dir); std::unique_ptr<Temperature> t(InitTemperature(s.Write("e04.ini"), step, &W().local->GetSolarRadiationPressure(), &W().local->GetEarthAlbedo(), &W().local->GetEarthInfrared())); double T = 299.5, tm = 0; bool on = false; int sw = 0;
    for (int k = 0; k < Q(60, 400); k++) { double h = .05; int n = (int)std::lround(dt / h); for (int i = 0; i < n; i++) { double a = tm + i * h, m = a + h / 2, q = Table(tb.t, tb.q, m) + (on ? 30 : 0), g = .3 / 880, eq = env_T + q / .3; T = eq + (T - eq) * std::exp(-g * h); } tm += dt; t->Propagate(&W().local->GetCelestialInformation(), tm); auto nd = t->GetNodes(); double got = nd[0].GetTemperature_K(), deg = got - 273.15; p.Note("t %g T %g", tm, deg); p.Near(got, T, ti == 2 ? .12 : .02 + .002 * k * (ti == 0), "balance"); p.Check(nd[1].GetTemperature_K() == env_T, "boundary", "%g", nd[1].GetTemperature_K()); T = got; bool was = on; if (on && nd[0].GetTemperature_degC() > 27) on = false; else if (!on && nd[0].GetTemperature_degC() < 26) on = true; sw += on != was; p.Near(t->GetHeaterPower_W(0), on ? 30 : 0, 0, "heater"); p.Near(t->GetHeaterPower_W(1), 0, 0, "no-heater"); p.Obs({env_T, (double)ti, step, dt, tm, deg}); }
    p.Outcome(sw > 1 ? "switched" : on ? "always on" : "always off");
  }, {2});
  RequireOutcome("regulation", "switched");
  Scenario("several heaters", "3 nodes and a common surrounding: every assignment of 3 heaters of different ratings and thresholds (or none) to the nodes x 3 conductances sets x 27 starting temperatures, 8 updates: each node is governed by its own heater's thresholds and power", [](Path& p) {
    int asg[3]; for (int i = 0; i < 3; i++) { asg[i] = p.Choose(4); for (int j = 0; j < i; j++) if (asg[i] && asg[i] == asg[j]) throw Skip(); } static const double pw[3] = {30, 11, 52}, lo[3] = {26, 5, 40}, up[3] = {27, 12, 60}, G[3][3] = {{.3, .3, .3}, {.1, .5, 0}, {.9, 0, .2}}, cap[3] = {400, 700, 550}; int gi = p.Choose(3); double T[3]; for (int i = 0; i < 3; i++) T[i] = 273.15 + p.Pick({0, 26.5, 62}); const double S = 250;
    std::vector<std::vector<double>> C(4, std::vector<double>(4, 0)), R = C; std::vector<Node> nd; std::vector<Heatload> hl; std::vector<Heater> hs; std::vector<HeaterController> hc; for (int i = 0; i < 3; i++) { C[i][3] = C[3][i] = G[gi][i]; nd.push_back(Node(i, "n", NodeType::kDiffusive, asg[i], T[i], cap[i], 0, 0, 0, MakeV(1, 0, 0))); hl.push_back(Heatload(i, {0, 1e6}, {0, 0})); hs.push_back(Heater(i + 1, pw[i])); hc.push_back(HeaterController(lo[i], up[i])); } nd.push_back(Node(3, "s", NodeType::kBoundary, 0, S, 0, 0, 0, 0, MakeV(1, 0, 0))); hl.push_back(Heatload(3, {0, 1e6}, {0, 0}));
    Temperature t(C, R, nd, hl, hs, hc, 4, 1, &W().local->GetSolarRadiationPressure(), &W().local->GetEarthAlbedo(), &W().local->GetEarthInfrared(), true, SolarCalcSetting::kDisable, false); bool on[3] = {false, false, false};
    for (int k = 1; k <= 8; k++) { double dt = 20; t.Propagate(&W().local->GetCelestialInformation(), k * dt); auto got = t.GetNodes(); p.Note("update %d", k); for (int i = 0; i < 3; i++) { int h = asg[i] - 1; double q = h >= 0 && on[h] ? pw[h] : 0, g = G[gi][i]; T[i] = g > 0 ? S + q / g + (T[i] - S - q / g) * std::exp(-g / cap[i] * dt) : T[i] + q * dt / cap[i]; p.Near(got[i].GetTemperature_K(), T[i], 1e-6, "node-heater", "temperature"); double d = T[i] - 273.15; if (h >= 0) { if (on[h] && d > up[h]) on[h] = false; else if (!on[h] && d < lo[h]) on[h] = true; p.Outcome(on[h] ? "on" : "off"); } p.Near(t.GetHeaterPower_W(i), h >= 0 && on[h] ? pw[h] : 0, 0, "node-heater", "power"); p.Obs({(double)i, (double)asg[i], T[i]}); } }
  }, {3});
  for (const char* s : {"on", "off"}) RequireOutcome("several heaters", s);
  Scenario("long-tables", "time tables of 2..130 entries (even and uneven intervals, sloped and stepped), given directly or as read from a file: every table point, middle and neighbour over 3 periods forwards, backwards and in leaps", [](Path& p) {
    int n = p.PickI({2, 3, 7, 8, 9, 10, 11, 15, 16, 17, 32, 33, 64, 65, 100, 130}); bool uneven = p.Flag(), text = p.Flag(); int order = p.Choose(3); Tab tb; double t = 0; for (int i = 0; i < n; i++) { tb.t.push_back(t); tb.q.push_back((i * 7 % 11) - 3 + (uneven ? .25 : 0)); t += uneven ? 1 + i % 3 : 2; }
    std::vector<std::string> ts{"id"}, qs{"5"}; char b[60]; for (int i = 0; i < n; i++) { snprintf(b, 60, "%.17g", tb.t[i]); ts.push_back(b); snprintf(b, 60, "%.17g", tb.q[i]); qs.push_back(b); } Heatload h = text ? InitHeatload(ts, qs) : Heatload(5, tb.t, tb.q);
    std::vector<double> x; for (int k = 0; k < 3; k++) for (int i = 0; i + 1 < n; i++) for (double f : {.125, .5, .875}) x.push_back(k * tb.t.back() + tb.t[i] + f * (tb.t[i + 1] - tb.t[i])); int N = x.size(); for (int k = 0; k < N; k++) { double a = x[order == 0 ? k : order == 1 ? N - 1 - k : (int)((long)k * 37 % N)]; h.SetElapsedTime_s(a); h.CalcInternalHeatload(); p.Near(h.GetInternalHeatload_W(), Table(tb.t, tb.q, a), 1e-8, "schedule"); }
    p.Obs({(double)n, (double)uneven, (double)text, (double)order});
  }, {2});
  Scenario("many heaters", "networks of 4..33 nodes and as many heaters read from files, heaters assigned in order, reversed or to every other node, with different ratings and thresholds, 4 updates: each node is governed by its own heater and schedule", [](Path& p) {
    int n = p.PickI({4, 5, 8, 9, 10, 11, 16, 17, 33}), how = p.Choose(3); auto heater = [&](int i) { return how == 0 ? i + 1 : how == 1 ? n - i : i % 2 ? 0 : i / 2 + 2; }; std::string dir = Scratch() + "/m04_"; auto w = [&](const char* f, const std::string& s) { WriteFile(std::string("m04_") + f, s); }; char b[200];
    std::string nd = "id,label,type,heater,cap,alpha,eps,area,x,y,z,T\n", hl = "NodeID/Times[s],0,1000000\n", he = "id,power,lower,upper\n", cc = "[W/K]", rr; std::vector<double> T(n), cap(n), q(n); std::vector<bool> on(n, false); auto pw = [](int k) { return 5.0 + 3 * k; }; auto lo = [](int k) { return 10.37 + k % 5; }; auto up = [](int k) { return 14.61 + k % 7; };
    for (int i = 0; i < n; i++) { T[i] = 273.15 + 9 + i % 4 * 3; cap[i] = 300 + 10 * i; q[i] = i % 3; snprintf(b, 200, "%d,N%d,0,%d,%.17g,0,0,0,1,0,0,%.17g\n", i, i, heater(i), cap[i], T[i]); nd += b; snprintf(b, 200, "%d,%g,%g\n", i, q[i], q[i]); hl += b; snprintf(b, 200, "%d,%g,%g,%g\n", i + 1, pw(i + 1), lo(i + 1), up(i + 1)); he += b; cc += ",N" + std::to_string(i); } cc += "\n"; rr = cc;
    for (int i = 0; i < n; i++) { cc += "N" + std::to_string(i); rr += "N" + std::to_string(i); for (int j = 0; j < n; j++) { cc += ",0"; rr += ",0"; } cc += "\n"; rr += "\n"; } w("node.csv", nd); w("heatload.csv", hl); w("heaters.csv", he); w("cij.csv", cc); w("rij.csv", rr);
    Ini s; s.Set("THERMAL", "calculation", "ENABLE").Set("THERMAL", "debug", "DISABLE").Set("THERMAL", "solar_calc_setting", "DISABLE").Set("THERMAL", "thermal_file_directory", dir); std::unique_ptr<Temperature> t(InitTemperature(s.Write("m04.ini"), 1, &W().local->GetSolarRadiationPressure(), &W().local->GetEarthAlbedo(), &W().local->GetEarthInfrared()));
    for (int k = 1; k <= 4; k++) { double dt = 60; t->Propagate(&W().local->GetCelestialInformation(), k * dt); auto got = t->GetNodes(); p.Eq((int)got.size(), n, "node-count", "nodes"); for (int i = 0; i < n; i++) { int h = heater(i); if (h > n) h = 0; p.Note("update %d node %d of %d heater %d", k, i, n, h); T[i] += (q[i] + (on[i] ? pw(h) : 0)) * dt / cap[i]; p.Near(got[i].GetTemperature_K(), T[i], 1e-7, "node-heater", "temperature"); double d = T[i] - 273.15; if (h) { if (on[i] && d > up(h)) on[i] = false; else if (!on[i] && d < lo(h)) on[i] = true; } p.Near(t->GetHeaterPower_W(i), on[i] ? pw(h) : 0, 0, "node-heater", "power"); p.Outcome(on[i] ? "on" : "off"); } }
    p.Obs({(double)n, (double)how});
  }, {2});
  for (const char* s : {"on", "off"}) RequireOutcome("many heaters", s);
  Scenario("ramps", "an isolated node under 4 time tables with slopes (corners on step boundaries) x 3 steps x 3 update lengths over 12 updates: stored heat is the integral of the schedule", [](Path& p) {
    static const Tab R[4] = {{{0, 100}, {0, 40}}, {{0, 6, 12, 120}, {0, 30, -20, -20}}, {{0, 3, 9, 90}, {5, 5, 80, 0}}, {{0, 30, 60, 200}, {-10, 35, -10, 4}}}; int ti = p.Choose(4); const Tab& tb = R[ti]; double step = p.Pick({1, 3, .5}), dt = p.Pick({3, 6, 1.5}); Temperature t({{0}}, {{0}}, {Node(0, "n", NodeType::kDiffusive, 0, 300, 50, 0, 0, 0, MakeV(1, 0, 0))}, {Heatload(0, tb.t, tb.q)}, {}, {}, 1, step, &W().local->GetSolarRadiationPressure(), &W().local->GetEarthAlbedo(), &W().local->GetEarthInfrared(), true, SolarCalcSetting::kDisable, false);
    double E = 0, h = .25; for (int k = 1; k <= 12; k++) { for (double a = (k - 1) * dt; a < k * dt - h / 2; a += h) E += h * Table(tb.t, tb.q, a + h / 2); t.Propagate(&W().local->GetCelestialInformation(), k * dt); p.Note("update %d", k); p.Near(t.GetNodes()[0].GetTemperature_K(), 300 + E / 50, 1e-7, "stored-heat"); p.Obs({(double)ti, step, dt, E}); }
  }, {2});
}
