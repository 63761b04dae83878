// Sunlight, shadow, albedo and infrared.
#include <environment/local/solar_radiation_pressure_environment.hpp>
#include "env.hpp"
#include <sstream>
using namespace mc; using namespace env; using namespace s2e::environment;
const char* kProperty = "V01";
const char* kAssumptions = "Occulting bodies are much nearer than the sun (at most 0.014 au); inside the penumbra the area fraction is compared within 0.015, elsewhere to rounding.";
static const double kAu = 149597870700.0, kC = 299792458.0, kSun = 696000e3, kEarth = std::cbrt(6378136.6 * 6378136.6 * 6356751.9), kMoon = 1737400, kVenus = 6051800;
static std::vector<double> Cells(const std::string& s) { std::vector<double> v; std::istringstream i(s); std::string c; while (std::getline(i, c, ',')) if (c.size()) v.push_back(atof(c.c_str())); return v; }
// uncovered area fraction of a disc of radius a by a disc of radius b at distance d: chords of the sun disc integrated numerically
static double Fraction(double a, double b, double d) {
  if (d >= a + b) return 1; if (b >= a && d <= b - a) return 0; if (a > b && d <= a - b) return 1 - b * b / (a * a);
  const int N = 4000; double cov = 0;  // chords at height x along the line of centres
  for (int i = 0; i < N; i++) { double x = -a + 2 * a * (i + 0.5) / N, h = std::sqrt(std::max(0.0, a * a - x * x)), hb = b * b - (x - d) * (x - d); if (hb <= 0) continue; cov += 2 * std::min(h, std::sqrt(hb)) * (2 * a / N); }
  return 1 - cov / (M_PI * a * a);
}
struct Occ { double r; V3 pos; };  // from the spacecraft
static void Range(const Occ& o, const V3& sun, double* lo, double* hi) {
  double a = std::asin(kSun / Norm(sun)), b = std::asin(o.r / Norm(o.pos)); V3 u = Unit(sun), w = Unit(o.pos); double d = std::atan2(Norm(Cross(u, w)), Dot(u, w));
  double e = 1e-9 + 1.05 * Norm(o.pos) / Norm(sun) * std::sin(d);  // direction of the sun from the occulter instead of from the spacecraft
  double f1 = Fraction(a, b, std::max(0.0, d - e)), f2 = Fraction(a, b, d + e); *lo = std::min(f1, f2); *hi = std::max(f1, f2);
  bool sure = (*lo == *hi); double s = sure ? 1e-9 : 0.015; *lo = std::max(0.0, *lo - s); *hi = std::min(1.0, *hi + s); if (sure && *lo < 1e-8) *lo = 0;
}
static const char* kBodyN[4] = {"SUN", "EARTH", "MOON", "VENUS"};
static s2e::environment::SimulationTime* T() { static auto* t = new s2e::environment::SimulationTime(1e6, 1, 1, 1, 1, 1, 1, 1, 1, 1, "2020/04/01 12:00:00.0", 0); return t; }
static CelestialInformation* Cel(const std::string& center) {
  static std::map<std::string, CelestialInformation*> m; auto& c = m[center];
  if (!c) { int* ids = new int[4]; for (int i = 0; i < 4; i++) ids[i] = stub::IdOf(kBodyN[i]); c = new CelestialInformation("J2000", "NONE", center, 4, ids, std::vector<std::string>(4, "DISABLE")); }
  return c;
}
// place bodies as seen from the spacecraft; the centre body is at the origin of the inertial frame
static void Arrange(LocalCelestialInformation& l, CelestialInformation& c, const std::string& center, const std::map<std::string, V3>& from_sc, const Quat& q) {
  ClearBodies(); V3 o = from_sc.at(center); for (auto& k : from_sc) SetBody(k.first, Sub(k.second, o)); c.UpdateAllObjectsInformation(*T()); l.UpdateAllObjectsInformation(Scale(-1, o), MakeV(0, 0, 0), q, MakeV(0, 0, 0));
}
static void Compare(Path& p, SolarRadiationPressureEnvironment& e, const V3& sun, const std::vector<Occ>& occ, const char* what) {
  double lo = 1, hi = 1; for (auto& o : occ) { double a, b; Range(o, sun, &a, &b); lo *= a; hi *= b; }
  double s = e.GetShadowCoefficient(); p.Check(s >= 0 && s <= 1, "coefficient-range", "%s: %g", what, s); p.Check(s >= lo - 1e-12 && s <= hi + 1e-12, lo == hi ? (hi == 0 ? "umbra" : hi == 1 ? "full-sun" : "annular") : "penumbra", "%s: coefficient %.9g, uncovered fraction in [%.9g, %.9g]", what, s, lo, hi);
  double r = Norm(sun) / kAu, pr = 1366 / kC / r / r; p.Near(e.GetPressureWithoutEclipse_Nm2(), pr, 1e-9 * pr, "pressure", what); p.Near(e.GetPressure_N_m2(), pr * s, 1e-9 * pr, "pressure-in-shadow", what); p.Near(e.GetPowerDensity_W_m2(), pr * kC * s, 1e-6, "power-density", what); p.Eq(e.GetIsEclipsed(), s < 1, "eclipsed", what);
  auto lg = Cells(e.GetLogValue()); p.Eq(lg.size(), 2, "log", what); p.Near(lg[0], pr * s, 2e-5 * pr * s + 1e-12, "log", what); p.Near(lg[1], s, 2e-6, "log", what);
  p.Outcome(s == 0 ? "umbra" : s == 1 ? "full" : "partial");
}
static V3 Perp(const V3& u, int k) { V3 a = Unit(Cross(u, std::fabs(u[0]) < 0.9 ? MakeV(1, 0, 0) : MakeV(0, 1, 0))), b = Cross(u, a); double t = k * 0.9; return Add(Scale(std::cos(t), a), Scale(std::sin(t), b)); }
static V3 At(const V3& u, double delta, double dist, int side) { return Add(Scale(dist * std::cos(delta), u), Scale(dist * std::sin(delta), Perp(u, side))); }
static std::vector<double> Deltas(double a, double b) {  // angular separations around every boundary of the overlap
  double m = std::fabs(a - b), s = a + b; std::vector<double> v = {0, 0.25 * m, 0.9 * m, m, s, 1.3 * s, M_PI / 2, 3.0, M_PI};
  for (double k : {0.02, 0.2, 0.5, 0.8, 0.98}) v.push_back(m + k * (s - m));
  for (double k : {0.97, 1.0001, 1.03}) { v.push_back(k * s); v.push_back(k * m); }
  return v;
}
// occulters: name, radius, distances giving discs larger than, about as large as, and smaller than the sun disc
struct Kind { const char* name; double r; std::vector<double> dist; };
static const std::vector<Kind>& Kinds() { static std::vector<Kind> k = {{"EARTH", kEarth, {6.9e6, 4.2e7, 4e8, 1.36e9, 2.0e9}}, {"MOON", kMoon, {1.8e6, 5e7, 3.73e8, 4.2e8}}, {"VENUS", kVenus, {7e6, 1.2e9, 2.1e9}}}; return k; }

void Register() {
  Scenario("single-occulter", "occulters EARTH/MOON/VENUS at 3-5 distances (larger, equal and smaller discs) x 20 separations around every boundary x 3 sun directions x 3 sides x 2 sun distances; every coefficient against chord integration", [](Path& p) {
    int ki = p.Choose(3); auto& k = Kinds()[ki]; double dist = k.dist[p.Choose((int)k.dist.size())], au = p.Pick({1, 0.72}); V3 u = p.Choose(3) == 0 ? MakeV(1, 0, 0) : p.choices_.back() == 1 ? Unit(MakeV(0.3, -0.8, 0.4)) : MakeV(0, 0, -1);
    V3 sun = Scale(au * kAu, u); double a = std::asin(kSun / Norm(sun)), b = std::asin(k.r / dist); auto ds = Deltas(a, b); double d = ds[p.Choose((int)ds.size())]; int side = p.Choose(3); V3 o = At(u, d, dist, side);
    std::string center = k.name; CelestialInformation* c = Cel(center); LocalCelestialInformation l(c); std::map<std::string, V3> at = {{"SUN", sun}, {"EARTH", Scale(-3e8, u)}, {"MOON", Scale(-5e8, u)}, {"VENUS", Scale(-9e8, u)}}; at[k.name] = o;
    Arrange(l, *c, center, at, Rotations()[side * 4 + 1]); p.Note("%s dist %g sep %g (sun %g body %g)", k.name, dist, d, a, b);
    SolarRadiationPressureEnvironment e(&l); p.Near(e.GetShadowCoefficient(), 1, 0, "initial"); e.UpdateAllStates(); Compare(p, e, sun, {{k.r, o}}, "update"); p.Obs({(double)ki, dist, au, d, (double)side, u[0]});
    e.UpdateAllStates(); Compare(p, e, sun, {{k.r, o}}, "second update");
  }, {3});
  for (const char* o : {"umbra", "full", "partial"}) RequireOutcome("single-occulter", o);
  Scenario("transit-monotone", "each occulter and distance moves across the sun in 60/400 steps: the coefficient never increases towards alignment, varies continuously, and recovers identically on the way out", [](Path& p) {
    int ki = p.Choose(3); auto& k = Kinds()[ki]; double dist = k.dist[p.Choose((int)k.dist.size())]; V3 u = Unit(MakeV(0.5, 0.7, -0.2)); V3 sun = Scale(kAu, u); int side = p.Choose(3); CelestialInformation* c = Cel(k.name); LocalCelestialInformation l(c); SolarRadiationPressureEnvironment e(&l);
    double a = std::asin(kSun / kAu), b = std::asin(k.r / dist), s = 1.1 * (a + b); const int N = Q(60, 400); std::vector<double> in; double prev = 1;
    for (int i = 0; i <= 2 * N; i++) { double lo = std::max(0.0, std::fabs(a - b) - 0.5 * a), d = i <= N ? s - (s - lo) * i / N : s - (s - lo) * (2 * N - i) / N; V3 o = At(u, d, dist, side); std::map<std::string, V3> at = {{"SUN", sun}, {"EARTH", Scale(-3e8, u)}, {"MOON", Scale(-5e8, u)}, {"VENUS", Scale(-9e8, u)}}; at[k.name] = o; Arrange(l, *c, k.name, at, Rotations()[0]); e.UpdateAllStates(); double f = e.GetShadowCoefficient();
      if (i <= N) { p.Check(f <= prev + 1e-12, "monotone", "%s dist %g step %d: %.12g after %.12g", k.name, dist, i, f, prev); p.Check(std::fabs(f - prev) <= 2.2 * (s - lo) / N / std::min(a, std::max(b, 0.3 * a)) , "continuous", "%s dist %g sep %g: %.9g after %.9g", k.name, dist, d, f, prev); in.push_back(f); prev = f; } else p.Near(f, in[2 * N - i], 1e-12, "recovery"); p.Obs({(double)ki, dist, d, f}); }
  });
  Scenario("several-bodies", "centre EARTH/MOON/SUN x third sources (none, one, two, the sun, in any order) through the settings x 5x5 separations of two bodies; coefficients multiply and each update starts afresh", [](Path& p) {
    std::string center = p.Pick(std::vector<std::string>{"EARTH", "MOON", "SUN"}); static const std::vector<std::vector<std::string>> L = {{}, {"MOON"}, {"EARTH"}, {"EARTH", "MOON"}, {"MOON", "EARTH"}, {"SUN", "MOON"}, {"VENUS", "MOON", "EARTH"}, {"MOON", "VENUS"}}; auto list = p.Pick(L);
    bool dup = false; for (auto& s : list) dup |= s == center && s != "SUN"; if (dup) throw Skip();
    V3 u = Unit(MakeV(-0.4, 0.1, 0.9)), sun = Scale(kAu, u); double a = std::asin(kSun / kAu); double bd[3] = {1.9e9, 4e8, 2.0e9}, R[3] = {kEarth, kMoon, kVenus};
    std::vector<std::map<std::string, V3>> hist; int h = p.Choose(5), g = p.Choose(5), v = p.Choose(2); static const double S[5] = {0, 0.5, 0.9, 1.4, 30};
    for (int s = 0; s < 2; s++) hist.push_back({{"SUN", sun}, {"EARTH", At(u, S[(h + 2 * s) % 5] * (a + std::asin(kEarth / bd[0])) / 1.4, bd[0], 0)}, {"MOON", At(u, S[(g + 3 * s) % 5] * (a + std::asin(kMoon / bd[1])) / 1.4, bd[1], 2)}, {"VENUS", At(u, v ? 0.004 : 0.5, bd[2], 1)}});
    Ini f; f.Set("SOLAR_RADIATION_PRESSURE_ENVIRONMENT", "calculation", "ENABLE").Set("SOLAR_RADIATION_PRESSURE_ENVIRONMENT", "logging", "DISABLE").Set("SOLAR_RADIATION_PRESSURE_ENVIRONMENT", "number_of_third_shadow_source", (double)list.size()); for (size_t i = 0; i < list.size(); i++) f.Set("SOLAR_RADIATION_PRESSURE_ENVIRONMENT", "third_shadow_source_name(" + std::to_string(i) + ")", list[i]);
    CelestialInformation* c = Cel(center); LocalCelestialInformation l(c); Arrange(l, *c, center, hist[0], Rotations()[8]); SolarRadiationPressureEnvironment e = InitSolarRadiationPressureEnvironment(f.Write("srp.ini"), &l); std::string w = center; for (auto& s : list) w += "+" + s;
    std::vector<std::string> all = {center}; for (auto& s : list) all.push_back(s);
    for (int s = 0; s < 2; s++) { Arrange(l, *c, center, hist[s], Rotations()[8]); e.UpdateAllStates(); std::vector<Occ> occ; for (auto& n : all) if (n != "SUN") occ.push_back({R[n == "EARTH" ? 0 : n == "MOON" ? 1 : 2], hist[s][n]}); Compare(p, e, sun, occ, w.c_str()); p.Obs({(double)h, (double)g, (double)v, (double)s, (double)Hash(w)}); }
  }, {3});
  Scenario("switches", "SRP x albedo x infrared switches x albedo factor x temperatures x lit/partial/dark histories of length 3, through the local environment update", [](Path& p) {
    bool cs = p.Flag("srp"), ca = p.Flag("albedo"), ci = p.Flag("infrared"); int ps = p.Choose(Q(2, 4)); double fac = ps & 1 ? 0.05 : 0.3, hot = ps & 2 ? 250 : 288, cold = ps & 1 ? 240 : 200; int h = p.Choose(27);
    Settings s; s.local.Set("SOLAR_RADIATION_PRESSURE_ENVIRONMENT", "calculation", cs ? "ENABLE" : "DISABLE").Set("EARTH_ALBEDO", "calculation", ca ? "ENABLE" : "DISABLE").Set("EARTH_ALBEDO", "earth_albedo_factor", fac).Set("EARTH_INFRARED", "calculation", ci ? "ENABLE" : "DISABLE").Set("EARTH_INFRARED", "earth_infrared_temperature_hot_side_K", hot).Set("EARTH_INFRARED", "earth_infrared_temperature_cold_side_K", cold);
    ClearBodies(); V3 u = Unit(MakeV(1, -1, 1)), sun = Scale(kAu, u); SetBody("SUN", sun); SetBody("MOON", Scale(4e8, u)); World w(s); double pr0 = 1366 / kC; static const double kSB = 5.670374419e-8;
    for (int k = 0; k < 3; k++, h /= 3) {
      double dist = 7e6, b = std::asin(kEarth / dist), d = h % 3 == 0 ? 2.0 : h % 3 == 1 ? b : 0.3; V3 sc = Scale(-1, At(u, d, dist, 1)); w.Place(sc, MakeV(0, 0, 0), Rotations()[k], MakeV(0, 0, 0)); auto& e = w.local->GetSolarRadiationPressure(); double sh = e.GetShadowCoefficient();
      if (cs) { p.Check(h % 3 == 0 ? sh == 1 : h % 3 == 1 ? (sh > 0.3 && sh < 0.7) : sh == 0, "switch-shadow", "separation %g coefficient %g", d, sh); double r = Norm(Sub(sun, sc)) / kAu; p.Near(e.GetPressure_N_m2(), pr0 / r / r * sh, 1e-9 * pr0, "switch-pressure"); }
      else { p.Near(sh, 1, 0, "srp-disabled"); p.Near(e.GetPressure_N_m2(), pr0, 1e-9 * pr0, "srp-disabled"); }
      double al = w.local->GetEarthAlbedo().GetEarthAlbedoRadiationPower_W_m2(), ir = w.local->GetEarthInfrared().GetEarthInfraredRadiationPower_W_m2();
      p.Near(al, ca ? fac * e.GetPowerDensity_W_m2() : 0, 1e-6, "albedo"); double t = sh >= 1 ? hot : cold; p.Near(ir, ci ? kSB * t * t * t * t : 0, 1e-3, "infrared"); p.Obs({(double)cs, (double)ca, (double)ci, fac, t, d, sh});
    }
  }, {4});
}
