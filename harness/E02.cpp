// Battery charge integration, solar panel power, CSV scenarios and the initial-study power unit.
#include <components/real/power/battery.hpp>
#include <components/real/power/csv_scenario_interface.hpp>
#include <components/real/power/pcu_initial_study.hpp>
#include <components/real/power/solar_array_panel.hpp>
#include <environment/global/clock_generator.hpp>
#include <sstream>
#include "env.hpp"
using namespace mc; using namespace env;
using namespace s2e; using namespace s2e::components;
const char* kProperty = "E02";
const char* kAssumptions = "Loads are within what panels and battery can deliver (real bus current); the charge current is set between updates.";
static std::vector<double> Cells(const std::string& s) { std::vector<double> v; std::istringstream i(s); std::string c; while (std::getline(i, c, ',')) if (c.size()) v.push_back(atof(c.c_str())); return v; }
static double Rel(double x) { return 2e-5 * std::fabs(x) + 1e-6; }
struct BatM {
  int ser, par; double cap; std::vector<double> curve; double dod, ccrate, cv, r, dt, i = 0;
  double V() const { double q = dod / 100 * cap, v = 0; for (int k = (int)curve.size() - 1; k >= 0; k--) v = v * q + curve[k]; return v * ser; }
  double CC() const { return ccrate * cap * par; }
  void Step() { dod -= 100 * i * dt / (3600 * cap * par); }
};
static void Same(Path& p, const Battery& b, const BatM& m, const char* w) {
  p.Near(b.GetVoltage_V(), m.V(), 1e-9 * std::fabs(m.V()), "battery-voltage", w);
  auto l = Cells(b.GetLogValue()); p.Eq(l.size(), 2, "battery-log", "columns"); p.Near(l[0], m.V(), Rel(m.V()), "battery-log", "logged voltage"); p.Near(l[1], m.dod, Rel(m.dod), "battery-log", "logged depth of discharge");
}
static void Scn(bool on, const std::string& csv) { CsvScenarioInterface::Initialize(WriteFile("scn.ini", std::string("[SCENARIO]\nis_csv_scenario_enabled = ") + (on ? "true" : "false") + "\ncsv_path = " + WriteFile("scn.csv", "time,x,y,z,flag,power\n" + csv) + "\n")); }
struct Line { double t, x, y, z; int flag; double pw; };
static std::string Csv(const std::vector<Line>& v) { std::ostringstream o; o.precision(17); for (auto& l : v) o << l.t << "," << l.x << "," << l.y << "," << l.z << "," << l.flag << "," << l.pw << "\n"; return o.str(); }
static const Line* At(const std::vector<Line>& v, double t) { const Line* r = nullptr; for (auto& l : v) if (l.t <= t && (!r || l.t >= r->t)) r = &l; return r; }

void Register() {
  Scenario("battery-histories", "all histories of charge currents {-3,-0.7,0,0.5,2.5} A of depth 4/5 x series {1,3} x parallel {1,2} x capacity {2.5,6} x prescaler {1,3} x step {0.1,1} x initial DOD {0,35,90} x curve order {1,3}; copy taken midway", [](Path& p) {
    BatM m; m.ser = p.PickI({1, 3}); m.par = p.PickI({1, 2}); m.cap = p.Pick({2.5, 6}); int ps = p.PickI({1, 3}); double st = p.Pick({0.1, 1}); m.dt = st * ps; m.dod = p.Pick({0, 35, 90}); m.curve = p.Flag() ? std::vector<double>{4.1, -0.5} : std::vector<double>{4.2, -0.3, 0.06, -0.013}; m.ccrate = 0.5; m.cv = 12; m.r = 0.1;
    environment::ClockGenerator clk; clk.ClearTimerCount(); Battery b(ps, &clk, m.ser, m.par, m.cap, m.curve, m.dod, m.ccrate, m.cv, m.r, st);
    Same(p, b, m, "new"); p.Near(b.GetCcChargeCurrent_C(), m.CC(), 1e-12, "battery-getter"); p.Near(b.GetCvChargeVoltage_V(), 12, 0, "battery-getter"); p.Near(b.GetResistance_Ohm(), 0.1, 0, "battery-getter"); p.Near(b.GetCellCapacity_Ah(), m.cap, 0, "battery-getter"); p.Eq(b.GetNumberOfParallel(), m.par, "battery-getter");
    std::unique_ptr<Battery> c; BatM mc;
    for (int s = 0, n = Q(4, 5); s < n; s++) {
      double i = p.Pick({-3, -0.7, 0, 0.5, 2.5}); b.SetChargeCurrent(m.i = i); p.Note("%gA", i);
      for (int k = 0; k < ps; k++) { if (k > 0) p.Near(b.GetVoltage_V(), m.V(), 1e-9 * std::fabs(m.V()), "battery-between-ticks"); clk.TickToComponents(); if (k == 0) { m.Step(); if (c) mc.Step(); } }
      Same(p, b, m, "after update"); if (c) Same(p, *c, mc, "copy"); p.Obs({m.dod, m.V(), i});
      if (s == 1) { c.reset(new Battery(b)); mc = m; mc.i = 0; Same(p, *c, mc, "new copy"); c->SetChargeCurrent(mc.i = -1); }
    }
  }, {4});
  Scenario("battery-settings", "InitBAT: 2 battery sections x prescaler {0,1,2,4} x curve order {1,2,3}; ten ticks", [](Path& p) {
    int id = p.Choose(2), ps = p.PickI({0, 1, 2, 4}), od = p.PickI({1, 2, 3}); Ini f; BatM w;
    for (int k = 0; k < 2; k++) {
      std::string s = "BATTERY_" + std::to_string(k); BatM m; m.ser = 2 + k; m.par = 1 + k; m.cap = 3.1 - k; m.dod = 20 + 7 * k; m.ccrate = 0.4 + k; m.cv = 8.2 + k; m.r = 0.2 + k; m.dt = 0.5 * (ps ? ps : 1); m.i = -2;
      f.Set(s, "prescaler", ps).Set(s, "number_of_series", m.ser).Set(s, "number_of_parallel", m.par).Set(s, "cell_capacity_Ah", m.cap).Set(s, "approximation_order", od).Set(s, "initial_dod", m.dod).Set(s, "constant_charge_current_rate_C", m.ccrate).Set(s, "constant_voltage_charge_voltage_V", m.cv).Set(s, "battery_resistance_Ohm", m.r);
      for (int i = 0; i <= od; i++) { m.curve.push_back(4.1 / (1 + i) * (i % 2 ? -0.1 : 1) + 0.01 * k); f.Set(s, "cell_discharge_curve_coefficients(" + std::to_string(i) + ")", m.curve[i]); }
      if (k == id) w = m;
    }
    environment::ClockGenerator clk; clk.ClearTimerCount(); Battery b = InitBAT(&clk, id, f.Write("bat.ini"), 0.5); Same(p, b, w, "from settings"); p.Near(b.GetCcChargeCurrent_C(), w.CC(), 1e-12, "battery-getter"); p.Near(b.GetResistance_Ohm(), w.r, 1e-15, "battery-getter"); p.Near(b.GetCvChargeVoltage_V(), w.cv, 1e-15, "battery-getter");
    b.SetChargeCurrent(w.i); for (int t = 0; t < 10; t++) { clk.TickToComponents(); if (t % (ps ? ps : 1) == 0) w.Step(); Same(p, b, w, "tick"); p.Obs({w.dod, (double)t}); }
  });
  Scenario("panel-sunlight", "panel normals {9/26 directions} x 6/12 attitudes x sun {near, far, 3 directions} x spacecraft {lit, behind the earth} x 2 panels; two updates with the earth shadow moving in or out", [](Path& p) {
    Scn(false, "0,1,0,0,1,5\n"); ClearBodies();
    V3 n = Directions26()[(p.Choose(Q(9, 26)) * 3) % 26]; Quat q = Rotations()[(p.Choose(Q(6, 12)) * Q(2, 1)) % 12]; double au = p.Pick({1, 0.4}); int sd = p.Choose(3); V3 u = Unit(sd == 0 ? MakeV(1, 0, 0) : sd == 1 ? MakeV(0, -0.6, 0.8) : MakeV(-0.5, 0.5, -0.7)); bool behind = p.Flag();
    SetBody("SUN", Scale(au * 149597870700.0, u)); SetBody("MOON", Scale(4e8, Cross(u, MakeV(0.1, 0.2, 0.3))));
    static World* w = new World(); V3 off = Scale(behind ? -7e6 : 7e6, u); w->Place(off, MakeV(0, 0, 0), q, MakeV(0, 0, 0));
    environment::ClockGenerator clk; clk.ClearTimerCount(); double gain = p.Pick({1.0, 2.5});
    SolarArrayPanel a(1, &clk, 3, 5, 2, 0.0031, Scale(gain, n), 0.29, 0.9, &w->local->GetSolarRadiationPressure(), &w->local->GetCelestialInformation(), 0.1);
    p.Near(a.GetPowerGeneration_W(), 0, 0, "panel-initial");
    for (int k = 0; k < 2; k++) {
      double d = Norm(Sub(Scale(au * 149597870700.0, u), off)) / 149597870700.0, ci = Dot(n, Mul(RotOf(q), u)); bool dark = behind != (k == 1); double want = dark ? 0 : 0.29 * 0.9 * 1366 / d / d * 0.0031 * 10 * std::max(0.0, ci);
      clk.TickToComponents(); p.Near(a.GetPowerGeneration_W(), want, 1e-4 * std::fabs(want) + 1e-5, dark ? "panel-eclipse" : ci <= 0 ? "panel-behind" : "panel-power"); p.Near(Cells(a.GetLogValue())[0], want, 1e-4 * std::fabs(want) + 2e-5, "panel-log"); p.Outcome(dark ? "dark" : ci > 1e-6 ? "lit" : "turned away"); p.Obs({n[0], n[1], n[2], q[0], q[1], q[2], au, (double)sd, (double)dark});
      off = Scale(-1, off); w->Place(off, MakeV(0, 0, 0), q, MakeV(0, 0, 0));
    }
  }, {3});
  Scenario("csv-scenario", "CSV files of 0..3 lines at times {0,1,2.5,4} (any order) x contents; queries at 12 times; a second file replaces the first; panel and power unit read it", [](Path& p) {
    std::vector<Line> v; int n = p.Choose(4); static const double T[4] = {0, 1, 2.5, 4}; int used = 0;
    for (int i = 0; i < n; i++) { int k = p.Choose(4); if (used >> k & 1) throw Skip(); used |= 1 << k; int c = p.Choose(4); v.push_back({T[k], c == 0 ? 1.0 : c == 1 ? 0 : -0.3, c == 0 ? 0.0 : 0.7, c == 3 ? -2.0 : 0.25, c != 2, 3.5 + 2 * c}); }
    bool twice = p.Flag("replaced file"); if (twice) Scn(true, "0,9,9,9,1,99\n1,8,8,8,1,98\n3,7,7,7,1,97\n");
    Scn(true, Csv(v)); p.Note("%s", Csv(v).c_str()); p.Check(CsvScenarioInterface::IsCsvScenarioEnabled(), "csv-enabled", "not enabled");
    for (double t : {0.0, 0.5, 0.999, 1.0, 1.5, 2.4999, 2.5, 3.0, 3.999, 4.0, 10.0, 1e6}) {
      const Line* l = At(v, t); auto d = CsvScenarioInterface::GetSunDirectionBody(t); double w[3] = {l ? l->x : 0, l ? l->y : 0, l ? l->z : 0}; p.NearV(d, w, 3, 0, "csv-direction"); p.Eq(CsvScenarioInterface::GetSunFlag(t), l ? l->flag : 0, "csv-flag"); p.Near(CsvScenarioInterface::GetPowerConsumption(t), l ? l->pw : 0, 0, "csv-power");
    }
    p.Obs({(double)used, (double)n, v.size() ? v[0].pw : 0, v.size() > 1 ? v[1].pw : 0, v.size() > 2 ? v[2].pw : 0, (double)twice});
    Scn(false, Csv(v)); p.Check(!CsvScenarioInterface::IsCsvScenarioEnabled(), "csv-disabled", "still enabled");
  }, {3});
  Scenario("csv-long", "CSV files of {19,20,21,60,128,255,256,257,1000,5000} lines at {1, 0.25, 60} s: every line is in force from its time to the next", [](Path& p) {
    int n = p.PickI({19, 20, 21, 60, 128, 255, 256, 257, 1000, 5000}); double st = p.Pick({1, 0.25, 60}); std::vector<Line> v; for (int i = 0; i < n; i++) v.push_back({st * i, i % 3 - 1.0, i % 5 * 0.25, i % 7 * -0.5, i % 4 != 0, 2.0 + (i % 1000) * 0.25}); Scn(true, Csv(v));
    for (int i = 0; i < n; i++) for (double d : {0.0, 0.5}) { double t = st * (i + d); const Line& l = v[i]; p.Near(CsvScenarioInterface::GetPowerConsumption(t), l.pw, 0, "csv-power"); p.Eq(CsvScenarioInterface::GetSunFlag(t), l.flag, "csv-flag"); double w[3] = {l.x, l.y, l.z}; p.NearV(CsvScenarioInterface::GetSunDirectionBody(t), w, 3, 0, "csv-direction"); } p.Near(CsvScenarioInterface::GetPowerConsumption(st * n * 100), v[n - 1].pw, 0, "csv-power"); Scn(false, Csv(v)); p.Obs({(double)n, st});
  });
  Scenario("closed-loop", "battery + two panels + power unit on one clock; every scenario of 4/5 lines over (sun flag x direction x load) 8 kinds x prescalers {1,2} x 3 batteries (empty, near full, full); bus balance, limits and charge compared on every tick", [](Path& p) {
    int kind = p.Choose(3), ps = p.PickI({1, 2}); std::vector<Line> v; const double step = 10;
    for (int i = 0, n = Q(4, 5); i < n; i++) { int c = p.Choose(8); v.push_back({i * 20.0, c & 1 ? 1.0 : 0.3, 0, c & 1 ? 0.0 : -0.8, (c >> 1) & 1, (c >> 2) & 1 ? 20.0 : 2.0}); p.Note("%g flag%d load%g", v.back().x, v.back().flag, v.back().pw); }
    Scn(true, Csv(v)); ClearBodies(); static World* w = new World();
    environment::ClockGenerator clk; clk.ClearTimerCount(); BatM m; m.ser = 2; m.par = 1; m.cap = 1.2; m.curve = {4.1, -0.7}; m.dod = kind == 0 ? 70 : kind == 1 ? 20 : 1; m.ccrate = 1.5; m.cv = 8.3; m.r = 0.15; m.dt = step * ps;
    Battery b(ps, &clk, m.ser, m.par, m.cap, m.curve, m.dod, m.ccrate, m.cv, m.r, step);
    SolarArrayPanel s1(ps, &clk, 0, 4, 3, 0.003, MakeV(1, 0, 0), 0.3, 0.95, &w->local->GetSolarRadiationPressure(), &w->local->GetCelestialInformation(), step), s2(ps, &clk, 1, 4, 3, 0.004, MakeV(0, 0, -2), 0.3, 0.95, &w->local->GetSolarRadiationPressure(), step);
    PcuInitialStudy u(ps, &clk, {&s1, &s2}, &b, step); double bus = 0, load = 0;
    for (int t = 0; t < 2 * Q(4, 5); t++) {
      clk.TickToComponents();
      if (t % ps == 0) {
        m.Step(); const Line* l = At(v, t * step); double n = std::sqrt(l->x * l->x + l->z * l->z), k = 0.3 * 0.95 * 1366 * l->flag * 12, g1 = std::max(0.0, k * 0.003 * l->x / n), g2 = std::max(0.0, k * 0.004 * -l->z / n);
        p.Near(s1.GetPowerGeneration_W(), g1, 1e-9, "panel-scenario-power"); p.Near(s2.GetPowerGeneration_W(), g2, 1e-9, "panel-scenario-power"); load = l->pw;
        double V = m.V(), I = (-V + std::sqrt(V * V + 4 * m.r * (g1 + g2 - load))) / (2 * m.r), lim = (m.cv - V) / m.r; p.Outcome(I >= m.CC() ? (m.CC() < lim ? "constant current" : "constant voltage") : I < lim ? (I < 0 ? "discharge" : "balance") : "constant voltage"); I = std::min(I, std::min(m.CC(), lim)); m.i = I; bus = V + m.r * I;
      }
      Same(p, b, m, "closed loop"); auto lg = Cells(u.GetLogValue()); p.Eq(lg.size(), 2, "pcu-log", "columns"); p.Near(lg[0], load, Rel(load), "pcu-load", "consumption"); p.Near(lg[1], bus, Rel(bus), "pcu-bus", "bus voltage"); p.Obs({m.dod, bus, load});
    }
    Scn(false, Csv(v));
  }, {3});
  RequireOutcome("closed-loop", "constant current"); RequireOutcome("closed-loop", "constant voltage"); RequireOutcome("closed-loop", "discharge"); RequireOutcome("closed-loop", "balance");
  Scenario("default-load", "without a CSV scenario the power unit draws its constant 5 W load: batteries x prescaler {1,10}", [](Path& p) {
    Scn(false, "0,1,0,0,1,5\n"); int ps = p.PickI({1, 10}); double dod = p.Pick({5, 50, 95}); environment::ClockGenerator clk; clk.ClearTimerCount(); BatM m; m.ser = 3; m.par = 2; m.cap = 2; m.curve = {4, -0.4}; m.dod = dod; m.ccrate = 1; m.cv = 13; m.r = 0.05; m.dt = 0.1 * ps;
    Battery b(ps, &clk, m.ser, m.par, m.cap, m.curve, m.dod, m.ccrate, m.cv, m.r, 0.1); std::vector<SolarArrayPanel*> none; PcuInitialStudy u(ps, &clk, none, &b, 0.1);
    for (int t = 0; t < 40; t++) { clk.TickToComponents(); if (t % ps == 0) { m.Step(); double V = m.V(); m.i = (-V + std::sqrt(V * V - 4 * m.r * 5)) / (2 * m.r); } Same(p, b, m, "default load"); p.Near(Cells(u.GetLogValue())[0], 5, 1e-5, "pcu-load"); p.Obs({m.dod, m.i}); }
  });
  Scenario("construction", "InitSAP with and without celestial information, InitPCU: 2 sections x prescaler {0,1,2,4} x copied or not, and the constructors with default rates (0.1 s, every 10th update): twelve to forty updates under a CSV scenario", [](Path& p) {
    int id = p.Choose(2), ps = p.PickI({0, 1, 2, 4}), how = p.Choose(3); bool copy = p.Flag("copied"); std::vector<Line> v{{0, 0.6, 0, 0.8, 1, 3}, {1, 0, 1, 0, 1, 7}, {2, 1, 0, 0, 0, 4}, {3, -1, 0.5, 0.1, 1, 2}}; Scn(true, Csv(v)); ClearBodies(); static World* w = new World(); Ini f; struct K { int ser, par; double area, eff, tr; V3 n; } k[2];
    for (int c = 0; c < 2; c++) { k[c] = {3 + c, 2 + 3 * c, 0.002 + 0.001 * c, 0.3 - 0.05 * c, 0.9 + 0.05 * c, c ? MakeV(0.5, 2, 0.1) : MakeV(1, -0.2, 0.6)}; std::string s = "SOLAR_ARRAY_PANEL_" + std::to_string(c), u = "PCU_INITIAL_STUDY_" + std::to_string(c); f.Set(s, "prescaler", ps).Set(s, "number_of_series", k[c].ser).Set(s, "number_of_parallel", k[c].par).Set(s, "cell_area_m2", k[c].area).Set(s, "normal_vector_b", k[c].n).Set(s, "cell_efficiency", k[c].eff).Set(s, "transmission_efficiency", k[c].tr); f.Set(u, "prescaler", ps); }
    std::string path = f.Write("pw.ini"); environment::ClockGenerator clk; clk.ClearTimerCount(); auto* srp = &w->local->GetSolarRadiationPressure(); auto* lc = &w->local->GetCelestialInformation(); double step = how == 2 ? 0.1 : 0.25; int pr = how == 2 ? 10 : ps ? ps : 1; K c = k[id];
    BatM m; m.ser = 2; m.par = 2; m.cap = 1.5; m.curve = {4.0, -0.3}; m.dod = 60; m.ccrate = 1; m.cv = 8.4; m.r = 0.1; m.dt = step * pr;
    std::unique_ptr<SolarArrayPanel> a; if (how == 0) a.reset(new SolarArrayPanel(InitSAP(&clk, id, path, srp, lc, step))); else if (how == 1) a.reset(new SolarArrayPanel(InitSAP(&clk, id, path, srp, step))); else a.reset(new SolarArrayPanel(&clk, id, c.ser, c.par, c.area, c.n, c.eff, c.tr, srp, lc));
    if (copy) { std::unique_ptr<SolarArrayPanel> b(new SolarArrayPanel(*a)); a.swap(b); }
    std::unique_ptr<Battery> b; if (how == 2) b.reset(new Battery(&clk, m.ser, m.par, m.cap, m.curve, m.dod, m.ccrate, m.cv, m.r)); else b.reset(new Battery(pr, &clk, m.ser, m.par, m.cap, m.curve, m.dod, m.ccrate, m.cv, m.r, step));
    if (copy) { std::unique_ptr<Battery> o(new Battery(*b)); b.swap(o); } Same(p, *b, m, "constructed"); p.Near(b->GetCcChargeCurrent_C(), m.CC(), 1e-12, "battery-getter");
    std::unique_ptr<PcuInitialStudy> u; if (how == 2) u.reset(new PcuInitialStudy(&clk, {a.get()}, b.get())); else u.reset(new PcuInitialStudy(InitPCU_InitialStudy(&clk, id, path, {a.get()}, b.get(), step)));
    // the order of registration differs: let each update be seen by the others in the order panel, battery, unit or battery-last
    p.Check(a->GetLogHeader() == "sap" + std::to_string(id) + "_generated_power[W],", "panel-header", "%s", a->GetLogHeader().c_str()); int moves = 0;
    for (int t = 0; t < (how == 2 ? 40 : 14); t++) { double dod0 = Cells(b->GetLogValue())[1]; (void)dod0; clk.TickToComponents(); if (t % pr) continue; const Line* l = At(v, t * step); V3 d = Unit(MakeV(l->x, l->y, l->z)); double g = std::max(0.0, c.eff * c.tr * 1366 * l->flag * c.area * c.par * c.ser * Dot(Unit(c.n), d)); p.Near(a->GetPowerGeneration_W(), g, 1e-9, "panel-scenario-power"); p.Near(Cells(a->GetLogValue())[0], g, Rel(g), "panel-log");
      m.Step(); Same(p, *b, m, "constructed"); double V = m.V(), I = (-V + std::sqrt(V * V + 4 * m.r * (g - l->pw))) / (2 * m.r), lim = (m.cv - V) / m.r; I = std::min(I, std::min(m.CC(), lim)); m.i = I; auto lg = Cells(u->GetLogValue()); p.Near(lg[0], l->pw, Rel(l->pw), "pcu-load", "consumption"); p.Near(lg[1], V + m.r * I, Rel(V + m.r * I), "pcu-bus", "bus voltage"); p.Obs({m.dod, g, I}); moves += g > 0; }
    Scn(false, Csv(v)); p.Check(moves > 0, "harness", "the panel never generates");
  });
}
