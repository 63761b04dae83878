// Celestial positions: right body, right observer, right instant, right frame.
#include <environment/global/celestial_information.hpp>
#include <environment/local/local_celestial_information.hpp>
#include "env.hpp"
using namespace mc; using namespace env; using namespace s2e::environment;
const char* kProperty = "V02";
const char* kAssumptions = "SPICE is a stand-in that answers distinct states for every (target, observer, instant); planets other than earth and moon are asked for by barycentre name as the code documents. Velocities in the body frame are C v - w x (C r).";
static const char* kN[11] = {"EARTH", "SUN", "MOON", "MERCURY", "VENUS", "MARS", "JUPITER", "SATURN", "URANUS", "NEPTUNE", "PLUTO"};
static const double* State(const std::string& body, const std::string& center, double et) {
  static double s[6]; std::string t = body; (void)center;
  for (const char* n : {"MARS", "JUPITER", "SATURN", "URANUS", "NEPTUNE", "PLUTO"}) if (t == n) t += "_BARYCENTER";
  double a[6], b[6]; stub::BodyState(stub::IdOf(t), et, a); stub::BodyState(stub::IdOf(center), et, b); for (int i = 0; i < 6; i++) s[i] = (a[i] - b[i]) * 1000.0; return s;
}
static void CheckAll(Path& p, const CelestialInformation& c, const std::vector<std::string>& sel, const std::string& center, double et) {
  p.Eq(c.GetNumberOfSelectedBodies(), sel.size(), "count", "number of bodies");
  for (size_t i = 0; i < sel.size(); i++) {
    const double* w = State(sel[i], center, et); double sc = 1e-12 * (std::fabs(w[0]) + std::fabs(w[1]) + std::fabs(w[2])) + 1e-3;
    p.NearV(c.GetPositionFromCenter_i_m(i), w, 3, sc, "position-index", sel[i].c_str()); p.NearV(c.GetPositionFromCenter_i_m(sel[i].c_str()), w, 3, sc, "position-name", sel[i].c_str());
    p.NearV(c.GetVelocityFromCenter_i_m_s(i), w + 3, 3, 1e-6, "velocity-index", sel[i].c_str()); p.NearV(c.GetVelocityFromCenter_i_m_s(sel[i].c_str()), w + 3, 3, 1e-6, "velocity-name", sel[i].c_str());
    p.Eq(c.CalcBodyIdFromName(sel[i].c_str()), i, "index-of-name", sel[i].c_str());
    const stub::Body* b = nullptr; for (auto& x : stub::Bodies()) if (sel[i] == x.name) b = &x;
    p.Near(c.GetGravityConstant_m3_s2(sel[i].c_str()) / (b->gm_km3_s2 * 1e9), 1, 1e-12, "gm", sel[i].c_str());
    double mean = std::cbrt(b->radii_km[0] * b->radii_km[1] * b->radii_km[2]) * 1e3; p.Near(c.GetMeanRadiusFromName_m(sel[i].c_str()), mean, 1e-6 * mean, "mean-radius", sel[i].c_str());
    for (int k = 0; k < 3; k++) { p.Near(c.GetRadii_m(i)[k], b->radii_km[k] * 1e3, 1e-6, "radii", sel[i].c_str()); p.Near(c.GetRadiiFromName_m(sel[i].c_str())[k], b->radii_km[k] * 1e3, 1e-6, "radii-name", sel[i].c_str()); }
    for (auto& o : sel) { const double* q = State(o, center, et); double v[6]; memcpy(v, q, sizeof v); w = State(sel[i], center, et); V3 d = MakeV(w[0] - v[0], w[1] - v[1], w[2] - v[2]), dv = MakeV(w[3] - v[3], w[4] - v[4], w[5] - v[5]);
      p.NearV(c.GetPositionFromSelectedBody_i_m(sel[i].c_str(), o.c_str()), d, 3, 1e-2, "relative-position", "between bodies"); p.NearV(c.GetVelocityFromSelectedBody_i_m_s(sel[i].c_str(), o.c_str()), dv, 3, 1e-5, "relative-velocity", "between bodies"); }
  }
  for (const char* n : kN) { bool in = false; for (auto& s : sel) in |= s == n; if (in) continue; V3 q = c.GetPositionFromCenter_i_m(n);
    for (auto& s : sel) { const double* w = State(s, center, et); if (w[0] == 0 && w[1] == 0 && w[2] == 0) continue; p.Check(std::fabs(q[0] - w[0]) + std::fabs(q[1] - w[1]) + std::fabs(q[2] - w[2]) > 1, "unselected-body", "unselected %s is reported at the position of %s", n, s.c_str()); } }
  { std::vector<std::string> other(kN, kN + 11); other.push_back("NO SUCH BODY"); for (auto& o : other) { bool in = false; for (auto& s : sel) in |= s == o; if (in) continue; const char* n = o.c_str(); p.Check(Norm(c.GetPositionFromCenter_i_m(n)) == 0 && Norm(c.GetVelocityFromCenter_i_m_s(n)) == 0 && c.GetGravityConstant_m3_s2(n) == 0 && c.GetMeanRadiusFromName_m(n) == 0 && Norm(c.GetRadiiFromName_m(n)) == 0, "body-not-selected", "%s is not selected but has the data of another body", n); } }
  for (const char* n : {"EARTH", "SUN"}) if (center == n) { bool in = false; for (auto& s : sel) in |= s == n; if (in) { const stub::Body* b = nullptr; for (auto& x : stub::Bodies()) if (center == x.name) b = &x; p.Near(c.GetCenterBodyGravityConstant_m3_s2() / (b->gm_km3_s2 * 1e9), 1, 1e-12, "center-gm", "centre"); } }
}
static void CheckLocal(Path& p, const CelestialInformation& c, const std::vector<std::string>& sel, const std::string& center, double et, LocalCelestialInformation& l, const V3& r, const V3& v, const Quat& q, const V3& w) {
  l.UpdateAllObjectsInformation(r, v, q, w); Rot C = RotOf(q); std::string want;
  for (auto& s : sel) {
    const double* b = State(s, center, et); V3 ri = MakeV(b[0] - r[0], b[1] - r[1], b[2] - r[2]), vi = MakeV(b[3] - v[0], b[4] - v[1], b[5] - v[2]);
    V3 rb = Mul(C, ri), vb = Sub(Mul(C, vi), Cross(w, rb)); double tol = 1e-11 * Norm(ri) + 1e-3;
    p.NearV(l.GetPositionFromSpacecraft_i_m(s.c_str()), ri, 3, tol, "spacecraft-position-i", s.c_str()); p.NearV(l.GetPositionFromSpacecraft_b_m(s.c_str()), rb, 3, tol, "spacecraft-position-b", s.c_str());
    if (s == center) { p.NearV(l.GetCenterBodyPositionFromSpacecraft_i_m(), ri, 3, tol, "center-position-i", "centre"); p.NearV(l.GetCenterBodyPositionFromSpacecraft_b_m(), rb, 3, tol, "center-position-b", "centre"); }
    // velocities are only observable in the log, at 6 significant digits
    for (int i = 0; i < 3; i++) { char t[64]; snprintf(t, 64, "%.17g,", rb[i]); want += t; } for (int i = 0; i < 3; i++) { char t[64]; snprintf(t, 64, "%.17g,", vb[i]); want += t; }
  }
  std::string got = l.GetLogValue(); const char *a = got.c_str(), *b = want.c_str(); int n = 0;
  while (*b) { char *ea, *eb; double x = strtod(a, &ea), y = strtod(b, &eb); p.Check(ea != a && *ea == ',', "log-format", "body-frame log '%s'", got.c_str());
    double scale = 0; { const char* bb = want.c_str(); int k = 0, g = n / 3; while (*bb) { char* e2; double z = strtod(bb, &e2); if (k / 3 == g) scale += std::fabs(z); k++; bb = e2 + 1; } }
    p.Near(x, y, 2e-5 * std::fabs(y) + 1e-9 * scale + 1e-6 * Norm(w) * 1, n % 6 < 3 ? "log-position-b" : "log-velocity-b", "logged body-frame value"); a = ea + 1; b = eb + 1; n++; }
  p.Check(*a == 0, "log-length", "log has more values than bodies");
}
static SimulationTime* Time(const char* start) { return new SimulationTime(1e7, 3600, 3600, 3600, 3600, 3600, 3600, 3600, 3600, 3600, start, 0); }
void Register() {
  Scenario("body-lists", "every ordered list of 1..3 (thorough 4) distinct bodies out of 11, centre EARTH/SUN/MARS BARYCENTER, 3 updates", [](Path& p) {
    std::string center = p.Pick(std::vector<std::string>{"EARTH", "SUN", "MARS BARYCENTER"}); int n = 1 + p.Choose(Q(3, 4)); std::vector<std::string> sel;
    for (int i = 0; i < n; i++) { std::string b = kN[p.Choose(11)]; for (auto& s : sel) if (s == b) throw Skip(); sel.push_back(b); p.Note("%s", b.c_str()); }
    int* ids = new int[n]; std::vector<std::string> modes(n, "DISABLE"); for (int i = 0; i < n; i++) ids[i] = stub::IdOf(sel[i]);
    stub::Reset(); CelestialInformation c("J2000", "NONE", center, n, ids, modes); std::unique_ptr<SimulationTime> t(Time("2020/4/1 12:0:0.0")); t->ResetClock();
    for (int k = 0; k < 3; k++) { if (k) t->UpdateTime(); double et = t->GetCurrentEphemerisTime(); stub::g_queries.clear(); stub::g_record = true; c.UpdateAllObjectsInformation(*t); stub::g_record = false;
      for (auto& q : stub::g_queries) { p.Check(q.ref == "J2000" && q.abcorr == "NONE" && q.observer == center, "query-settings", "asked %s relative to %s in %s with %s", q.target.c_str(), q.observer.c_str(), q.ref.c_str(), q.abcorr.c_str()); p.Near(q.et, et, 1e-6, "query-time", "instant asked"); }
      CheckAll(p, c, sel, center, et); CelestialInformation d(c); CheckAll(p, d, sel, center, et); uint64_t h = Hash(center + std::to_string(k)); for (auto& s : sel) h = Mix(h, Hash(s)); p.ObsHash(h); }
  }, {3});
  Scenario("long-lists", "lists of 4 to 11 of the 11 bodies: every starting body and stride through them, from the constructor or a settings file, centre EARTH/SUN, 2 updates", [](Path& p) {
    int n = 4 + p.Choose(8), first = p.Choose(11), stride = 1 + p.Choose(10); std::string center = p.Flag("sun") ? "SUN" : "EARTH"; bool file = p.Flag("file"); std::vector<std::string> sel; for (int i = 0; i < n; i++) sel.push_back(kN[(first + i * stride) % 11]);
    stub::Reset(); std::unique_ptr<CelestialInformation> c; if (file) { Settings s; s.base.Set("CELESTIAL_INFORMATION", "number_of_selected_body", n).Set("CELESTIAL_INFORMATION", "center_object", center); for (int i = 0; i < n; i++) s.base.Set("CELESTIAL_INFORMATION", "selected_body_name(" + std::to_string(i) + ")", sel[i]).Set("CELESTIAL_INFORMATION", "rotation_mode(" + std::to_string(i) + ")", "DISABLE"); c.reset(InitCelestialInformation(s.base.Write("cel_long.ini"))); }
    else { int* ids = new int[n]; for (int i = 0; i < n; i++) ids[i] = stub::IdOf(sel[i]); c.reset(new CelestialInformation("J2000", "NONE", center, n, ids, std::vector<std::string>(n, "DISABLE"))); }
    std::unique_ptr<SimulationTime> t(Time("2020/4/1 12:0:0.0")); t->ResetClock(); for (int k = 0; k < 2; k++) { if (k) t->UpdateTime(); c->UpdateAllObjectsInformation(*t); CheckAll(p, *c, sel, center, t->GetCurrentEphemerisTime()); } p.Obs({(double)n, (double)first, (double)stride, (double)file});
  });
  Scenario("settings-file", "InitCelestialInformation with frame/correction/centre/list from the file, rotation modes", [](Path& p) {
    std::string fr = p.Pick(std::vector<std::string>{"J2000", "ECLIPJ2000"}), ab = p.Pick(std::vector<std::string>{"NONE", "LT+S"}), ce = p.Pick(std::vector<std::string>{"EARTH", "SUN"}); int perm = p.Choose(6); static const int P[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    Settings s; std::vector<std::string> sel; for (int i = 0; i < 3; i++) { sel.push_back(kN[P[perm][i]]); s.base.Set("CELESTIAL_INFORMATION", "selected_body_name(" + std::to_string(i) + ")", sel[i]); s.base.Set("CELESTIAL_INFORMATION", "rotation_mode(" + std::to_string(i) + ")", sel[i] == "EARTH" ? "SIMPLE" : sel[i] == "MOON" ? "IAU_MOON" : "DISABLE"); }
    s.base.Set("CELESTIAL_INFORMATION", "inertial_frame", fr).Set("CELESTIAL_INFORMATION", "aberration_correction", ab).Set("CELESTIAL_INFORMATION", "center_object", ce);
    stub::Reset(); std::unique_ptr<CelestialInformation> c(InitCelestialInformation(s.base.Write("cel.ini"))); std::unique_ptr<SimulationTime> t(Time("2021/2/3 1:2:3.0")); t->ResetClock(); t->UpdateTime();
    p.Eq(stub::g_furnished.size(), 5, "kernels", "kernels loaded"); stub::g_queries.clear(); stub::g_record = true; c->UpdateAllObjectsInformation(*t); stub::g_record = false;
    for (auto& q : stub::g_queries) p.Check(q.ref == fr && q.abcorr == ab && q.observer == ce, "query-settings", "asked %s %s %s", q.ref.c_str(), q.abcorr.c_str(), q.observer.c_str());
    CheckAll(p, *c, sel, ce, t->GetCurrentEphemerisTime());
    // rotation modes follow the body they were declared for
    auto de = c->GetEarthRotation().GetDcmJ2000ToEcef(); auto dm = c->GetMoonRotation().GetDcmJ2000ToMcmf(); bool ie = true, im = true; for (int i = 0; i < 3; i++) { ie &= std::fabs(de[i][i] - 1) < 1e-9; im &= std::fabs(dm[i][i] - 1) < 1e-9; }
    p.Check(!ie, "earth-rotation-mode", "earth does not rotate although SIMPLE is declared"); p.Check(!im, "moon-rotation-mode", "moon does not rotate although IAU_MOON is declared"); p.Obs({(double)perm, (double)fr.size(), (double)ab.size(), (double)ce.size()});
  });
  Scenario("spacecraft-relative", "12 attitudes x 6 rates x 4 positions x 3 velocities x centre EARTH/SUN, bodies SUN EARTH MOON MARS, 2 updates", [](Path& p) {
    std::string center = p.Pick(std::vector<std::string>{"EARTH", "SUN"}); std::vector<std::string> sel = {"SUN", "EARTH", "MOON", "MARS"};
    Quat q = Rotations()[p.Choose(12)]; static const V3 W[6] = {MakeV(0, 0, 0), MakeV(0.1, 0, 0), MakeV(0, -0.2, 0), MakeV(0, 0, 0.05), MakeV(0.01, 0.02, -0.03), MakeV(-1, 0.5, 0.25)}; V3 w = W[p.Choose(6)];
    static const V3 R[4] = {MakeV(0, 0, 0), MakeV(7e6, 0, 0), MakeV(-2e6, 5e6, -4e6), MakeV(3e8, -2e8, 1e8)}, V[3] = {MakeV(0, 0, 0), MakeV(0, 7500, 0), MakeV(-1000, 2000, 6000)};
    int* ids = new int[4]; for (int i = 0; i < 4; i++) ids[i] = stub::IdOf(sel[i]); stub::Reset(); CelestialInformation c("J2000", "NONE", center, 4, ids, std::vector<std::string>(4, "DISABLE")); std::unique_ptr<SimulationTime> t(Time("2020/4/1 12:0:0.0")); t->ResetClock();
    LocalCelestialInformation l(&c); int ir = p.Choose(4), iv = p.Choose(3); p.Note("center %s r%d v%d q(%g %g %g %g) w(%g %g %g)", center.c_str(), ir, iv, q[0], q[1], q[2], q[3], w[0], w[1], w[2]);
    for (int k = 0; k < 2; k++) { c.UpdateAllObjectsInformation(*t); V3 v = V[(iv + k) % 3], r = R[(ir + k) % 4]; CheckLocal(p, c, sel, center, t->GetCurrentEphemerisTime(), l, r, v, q, w); p.Obs({q[0], q[1], q[2], q[3], w[0], w[1], (double)ir, (double)iv, (double)k, (double)center.size()}); t->UpdateTime(); }
    V3 z = l.GetPositionFromSpacecraft_i_m("VENUS"), zb = l.GetPositionFromSpacecraft_b_m("VENUS"); for (auto& s : sel) p.Check(Norm(Sub(z, l.GetPositionFromSpacecraft_i_m(s.c_str()))) > 1 || Norm(z) == 0, "unselected-body", "unselected VENUS reported as %s", s.c_str()); p.Check(Norm(zb) == Norm(z), "unselected-body", "unselected body differs by frame");
  }, {3});
  Scenario("whole-update", "World: spacecraft placed by settings, local environment updated through the simulation path; centre-relative minus spacecraft", [](Path& p) {
    ClearBodies(); World w; Quat q = Rotations()[p.Choose(12)]; V3 d = Directions26()[p.Choose(26)]; V3 r = Scale(7e6, d); w.Place(r, Cross(d, MakeV(300, 4000, 6000)), q, MakeV(0.01, 0, -0.02));
    auto& l = w.local->GetCelestialInformation(); double et = w.time().GetCurrentEphemerisTime(); Rot C = RotOf(q);
    for (const char* n : {"EARTH", "SUN", "MOON"}) { const double* s = State(n, "EARTH", et); V3 ri = Sub(MakeV(s[0], s[1], s[2]), r); p.NearV(l.GetPositionFromSpacecraft_i_m(n), ri, 3, 1e-3 + 1e-11 * Norm(ri), "spacecraft-position-i", n); p.NearV(l.GetPositionFromSpacecraft_b_m(n), Mul(C, ri), 3, 1e-3 + 1e-11 * Norm(ri), "spacecraft-position-b", n); }
    p.Obs({r[0], r[1], r[2], q[0], q[1], q[2]});
  });
}
