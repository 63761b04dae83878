// Sun sensor: detection, angles, errors.
#include <components/ports/power_port.hpp>
#include <components/real/aocs/sun_sensor.hpp>
#include <environment/global/clock_generator.hpp>
#include <sstream>
#include "env.hpp"
using namespace mc; using namespace env;
using namespace s2e; using namespace s2e::components;
const char* kProperty = "N03";
const char* kAssumptions = "Positive illumination threshold; the spacecraft is in full sunlight or in the umbra of the earth (penumbra is V03).";
static std::vector<double> Cells(const std::string& s) { std::vector<double> v; std::istringstream i(s); std::string c; while (std::getline(i, c, ',')) if (c.size()) v.push_back(atof(c.c_str())); return v; }
static const double kAu = 149597870700.0;
static double Rad(double d) { return d * M_PI / 180; }
static World& W() { static World* w = new World(); return *w; }
struct Geo { double th, ph, au; bool dark; Quat at; };
// puts the sun at angle th from the boresight of the sensor (azimuth ph in its frame)
static V3 Put(const Geo& g, const Quat& mount) {
  World& w = W(); V3 d = MakeV(std::sin(g.th) * std::cos(g.ph), std::sin(g.th) * std::sin(g.ph), std::cos(g.th)), di = MulT(RotOf(g.at), MulT(RotOf(mount), d)); SetBody("SUN", Scale(g.au * kAu, di)); SetBody("MOON", Scale(4e8, Unit(Cross(di, MakeV(0.1, 0.2, 0.3))))); w.Place(Scale(g.dark ? -7e6 : 7e6, di), MakeV(0, 0, 0), g.at, MakeV(0, 0, 0)); return d;
}
static void Same(Path& p, const SunSensor& s, const Geo& g, const V3& d, double fov, double thr, const char* when) {
  double dist = g.au * kAu + (g.dark ? 7e6 : -7e6), flux = g.dark ? 0 : 1366 * std::pow(kAu / dist, 2), il = std::max(0.0, flux * std::cos(g.th)), lim = thr / 100 * 1366; bool want = g.th < fov && il >= lim; p.Note("%s angle %.6g deg, %s, %g au", when, g.th * 180 / M_PI, g.dark ? "dark" : "lit", g.au);
  p.Near(s.GetSolarIlluminance_W_m2(), il, 1e-6 * flux + 1e-4 * flux * (std::fabs(g.th) < 1e-3) + 1e-9, "illuminance", when); p.Eq(s.GetSunDetectedFlag(), want, "sun-detected", when); V3 m = s.GetMeasuredSunDirection_c();
  if (want) { p.NearV(m, d, 3, 1e-9, "sun-direction", when); p.Near(s.GetSunAngleAlpha_rad(), std::atan2(d[0], d[2]), 1e-9, "sun-angle", when); p.Near(s.GetSunAngleBeta_rad(), std::atan2(d[1], d[2]), 1e-9, "sun-angle", when); } else { p.Near(Norm(m), 0, 0, "no-sun-direction", when); p.Near(s.GetSunAngleAlpha_rad(), 0, 0, "no-sun-angle"); p.Near(s.GetSunAngleBeta_rad(), 0, 0, "no-sun-angle"); }
  auto c = Cells(s.GetLogValue()); p.Eq(c.size(), 4, "sun-log"); for (int i = 0; i < 3; i++) p.Near(c[i], m[i], 2e-5, "sun-log"); p.Near(c[3], want, 0, "sun-log"); p.Outcome(want ? "detected" : g.dark ? "dark" : g.th >= fov ? "outside" : "dim");
}

void Register() {
  for (const char* o : {"detected", "dark", "outside", "dim"}) RequireOutcome("geometry", o);
  Scenario("geometry", "angle from the boresight {0, 1e-9, 10, 44.99, 45.01, fov-0.01, fov+0.01, 89.9, 90.1, 135, 180} deg x azimuth 4/8 x 2/12 mountings x field of view {30,60,85,120} deg x threshold {5,60} percent x sun {0.7,1,1.4} au, lit or dark; first update of a new sensor", [](Path& p) {
    double fov = p.Pick({30, 60, 85, 120}); int t = p.Choose(11); const double T[11] = {0, 1e-9, 10, 44.99, 45.01, fov - 0.01, fov + 0.01, 89.9, 90.1, 135, 180}; if (t > 6 && T[t] == fov) throw Skip(); double thr = p.Pick({5, 60}), au = p.Pick({0.7, 1, 1.4}); bool dark = p.Flag("dark"); int ph = p.Choose(Q(4, 8)); if ((t == 0 || t == 10) && ph) throw Skip(); int mi = p.Choose(Q(2, 12)); Quat mount = Rotations()[(mi * 4 + 1) % 12]; Geo g{Rad(T[t]), ph * (Thorough() ? 1 : 2) * M_PI / 4 + 0.1, au, dark, Rotations()[(mi * 5 + 3) % 12]};
    double flux = 1366 / au / au * std::cos(g.th); if (std::fabs(flux - thr / 100 * 1366) < 1) throw Skip(); V3 d = Put(g, mount); World& w = W(); environment::ClockGenerator clk; clk.ClearTimerCount(); SunSensor s(1, &clk, 0, mount, Rad(fov), 0, 0, thr, &w.local->GetSolarRadiationPressure(), &w.local->GetCelestialInformation()); clk.TickToComponents(); Same(p, s, g, d, Rad(fov), thr, "first update"); p.Obs({fov, g.th, g.ph, thr, au, (double)dark, (double)mi});
  }, {3});
  Scenario("histories", "all histories of depth 4/5 over {centre lit, inside lit, edge outside, behind, centre dark, power off} x threshold {1,50} percent: the output depends on the present update only; unpowered it is kept", [](Path& p) {
    double thr = p.Pick({1, 50}), fov = Rad(50); Quat mount = Rotations()[6]; World& w = W(); environment::ClockGenerator clk; clk.ClearTimerCount(); PowerPort pp(0, 10, 3, 1); pp.SetVoltage_V(5); SunSensor s(1, &clk, &pp, 0, mount, fov, 0, 0, thr, &w.local->GetSolarRadiationPressure(), &w.local->GetCelestialInformation()); std::string last = s.GetLogValue();
    for (int k = 0, n = Q(4, 5); k < n; k++) { int a = p.Choose(6); if (a == 5) { pp.SetVoltage_V(0); Put({0.2, 1, 1, false, Rotations()[2]}, mount); clk.TickToComponents(); p.Check(s.GetLogValue() == last, "sun-unpowered", "fresh output without power"); continue; } pp.SetVoltage_V(5); Geo g{a == 0 || a == 4 ? 0.0 : a == 1 ? Rad(49) : a == 2 ? Rad(50.5) : Rad(130), 0.7 * k, 1, a == 4, Rotations()[(3 * k + a) % 12]}; V3 d = Put(g, mount); clk.TickToComponents(); Same(p, s, g, d, fov, thr, "update"); last = s.GetLogValue(); p.Obs({thr, g.th, (double)a, (double)k, (double)s.GetSunDetectedFlag()}); }
  }, {3});
  Scenario("settings", "InitSunSensor: 2 sections x 12 mountings x field of view {20,70} deg x prescaler {0,1,2,3} x port or none; 3 directions", [](Path& p) {
    int id = p.Choose(2), d = p.Choose(12), ps = p.PickI({0, 1, 2, 3}); double fov = p.Pick({20, 70}); bool port = p.Flag("port"); Ini f; Quat q; for (int k = 0; k < 2; k++) { std::string s = "SUN_SENSOR_" + std::to_string(k); const Quat& x = Rotations()[(d + 2 * k) % 12]; f.Set(s, "prescaler", ps).SetV(s, "quaternion_b2c", {x[0], x[1], x[2], x[3]}).Set(s, "field_of_view_deg", k == id ? fov : 50).Set(s, "white_noise_standard_deviation_deg", 0.0).Set(s, "bias_standard_deviation_deg", 0.0).Set(s, "intensity_lower_threshold_percent", 10 + 30 * k); if (k == id) q = x; }
    f.Set("POWER_PORT", "minimum_voltage_V", 3.3).Set("POWER_PORT", "assumed_power_consumption_W", 2.0); World& w = W(); environment::ClockGenerator clk; clk.ClearTimerCount(); PowerPort pp(0, 10); std::string path = f.Write("sun.ini"); auto *a = &w.local->GetSolarRadiationPressure(); auto* b = &w.local->GetCelestialInformation(); SunSensor s = port ? InitSunSensor(&clk, &pp, id, path, a, b) : InitSunSensor(&clk, id, path, a, b); pp.SetVoltage_V(5);
    for (double th : {fov - 1, fov + 1, 5.0}) { Geo g{Rad(th), 2, 1, false, Rotations()[(d + 5) % 12]}; V3 v = Put(g, q); for (int i = 0; i < (ps ? ps : 1); i++) clk.TickToComponents(); Same(p, s, g, v, Rad(fov), 10 + 30 * id, "from settings"); p.Obs({th, (double)d, (double)id, (double)ps}); }
  });
  Scenario("errors", "white noise {0,1} deg x bias {0,2} deg x built directly or from settings with and without power port x 40/120 seeds, sun at 20 deg, half way lost once in the dark, behind the sensor and (with a port) by power: the bias is one constant per sensor and axis, of the configured size over the seeds; the noise has the configured size on both axes", [](Path& p) {
    int how = p.Choose(3); double dn = p.Pick({0, 1}), db = p.Pick({0, 2}), sn = Rad(dn), sb = Rad(db); Ini f; if (how) { for (int k = 0; k < 2; k++) { std::string c = "SUN_SENSOR_" + std::to_string(k); const Quat& x = Rotations()[4]; f.Set(c, "prescaler", 1).SetV(c, "quaternion_b2c", {x[0], x[1], x[2], x[3]}).Set(c, "field_of_view_deg", 60).Set(c, "white_noise_standard_deviation_deg", k ? dn : 3).Set(c, "bias_standard_deviation_deg", k ? db : 5).Set(c, "intensity_lower_threshold_percent", 10); } f.Set("POWER_PORT", "minimum_voltage_V", 3.3).Set("POWER_PORT", "assumed_power_consumption_W", 2.0); } std::string path = how ? f.Write("sun_made.ini") : ""; Quat mount = Rotations()[4]; Geo g{Rad(20), 0.5, 1, false, Rotations()[2]}; V3 d = Put(g, mount); World& w = W(); double ba = 0, bb = 0, bab = 0; const int S = Q(40, 120), N = 60; randomization::global_randomization.SetSeed(4711); double na = 0, nb = 0;
    for (int k = 0; k < S; k++) { environment::ClockGenerator clk; clk.ClearTimerCount(); PowerPort pp(0, 10); auto *ea = &w.local->GetSolarRadiationPressure(); auto* eb = &w.local->GetCelestialInformation(); SunSensor s = how == 0 ? SunSensor(1, &clk, 0, mount, Rad(60), sn, sb, 10, ea, eb) : how == 1 ? InitSunSensor(&clk, 1, path, ea, eb) : InitSunSensor(&clk, &pp, 1, path, ea, eb); pp.SetVoltage_V(5); double ma = 0, mb = 0; std::vector<double> va, vb; for (int i = 0; i < N; i++) { if (i == N / 2) { Put({0.2, 1, 1, true, Rotations()[5]}, mount); clk.TickToComponents(); Put({Rad(130), 2, 1, false, Rotations()[3]}, mount); clk.TickToComponents(); if (how == 2) { pp.SetVoltage_V(0); clk.TickToComponents(); pp.SetVoltage_V(5); } Put(g, mount); } clk.TickToComponents(); double a = s.GetSunAngleAlpha_rad() - std::atan2(d[0], d[2]), b = s.GetSunAngleBeta_rad() - std::atan2(d[1], d[2]); va.push_back(a); vb.push_back(b); ma += a / N; mb += b / N; V3 m = s.GetMeasuredSunDirection_c(); p.Near(Norm(m), 1, 1e-12, "sun-direction"); p.Near(std::atan2(m[0], m[2]), s.GetSunAngleAlpha_rad(), 1e-9, "sun-angle"); p.Near(std::atan2(m[1], m[2]), s.GetSunAngleBeta_rad(), 1e-9, "sun-angle"); } for (int i = 0; i < N; i++) { na += std::pow(va[i] - ma, 2) / N / S; nb += std::pow(vb[i] - mb, 2) / N / S; if (sn == 0) { p.Near(va[i], va[0], 1e-12, "sun-bias"); p.Near(vb[i], vb[0], 1e-12, "sun-bias"); } } ba += ma * ma / S; bb += mb * mb / S; bab += ma * mb / S; }
    auto size = [&](double s, double want, double tol, const char* n) { double q = std::sqrt(s); if (want == 0) p.Near(q, 0, sn > 0 ? sn * 0.3 : 1e-12, "sun-errors", n); else p.Check(q > (1 - tol) * want && q < (1 + tol) * want, "sun-errors", "%s %.4g instead of %.4g", n, q, want); }; size(na, sn, 0.15, "noise alpha"); size(nb, sn, 0.15, "noise beta"); size(ba, sb, 0.35, "bias alpha"); size(bb, sb, 0.35, "bias beta"); if (sb > 0) p.Check(std::fabs(bab) < 0.5 * std::sqrt(ba * bb), "sun-errors", "biases of the axes correlated"); p.Obs({sn, sb});
  });
}
