// Gravity, gravity gradient, third bodies and the residual magnetic moment.
#include <disturbances/geopotential.hpp>
#include <disturbances/gravity_gradient.hpp>
#include <disturbances/lunar_gravity_field.hpp>
#include <disturbances/magnetic_disturbance.hpp>
#include <disturbances/third_body_gravity.hpp>
#include <math_physics/gravity/gravity_potential.hpp>
#include "env.hpp"
#include <sstream>
using namespace mc; using namespace env; using namespace s2e; using namespace s2e::disturbances;
const char* kProperty = "D03";
const char* kAssumptions = "Random parts of the residual moment are switched off; coefficient files are generated in the format of EGM96 and GRGM1200A.";
typedef long double LD;
struct Field { int deg; std::vector<std::vector<double>> c, s; };
static double Coef(int n, int m, int k) { return std::sin(12.9898 * (n * 37 + m * 5 + k * 3 + 1)) * 1e-4 / (n * n); }
static Field MakeField(int deg, int kind) {  // kind 0: all terms, 1: a single term, 2: zonal only
  Field f; f.deg = deg; f.c.assign(deg + 1, std::vector<double>(deg + 1, 0)); f.s = f.c;
  for (int n = 1; n <= deg; n++) for (int m = 0; m <= n; m++) { bool on = kind == 0 || (kind == 1 && n == deg && m == (deg + 1) / 2) || (kind == 2 && m == 0); if (on) { f.c[n][m] = Coef(n, m, 0); if (m) f.s[n][m] = Coef(n, m, 1); } }
  return f;
}
// potential of the degrees lo..hi with normalised coefficients, by the normalised Legendre functions in latitude and longitude
static LD Potential(const Field& f, int lo, int hi, LD gm, LD R, LD x, LD y, LD z) {
  LD r = sqrtl(x * x + y * y + z * z), t = z / r, u = sqrtl(x * x + y * y) / r, lam = atan2l(y, x), sum = 0; std::vector<std::vector<LD>> P(hi + 1, std::vector<LD>(hi + 1, 0)); P[0][0] = 1;
  for (int m = 1; m <= hi; m++) P[m][m] = u * sqrtl(m == 1 ? 3.0L : (2 * m + 1.0L) / (2.0L * m)) * P[m - 1][m - 1];
  for (int m = 0; m < hi; m++) { P[m + 1][m] = sqrtl(2 * m + 3.0L) * t * P[m][m]; for (int n = m + 2; n <= hi; n++) { LD a = sqrtl((2 * n - 1.0L) * (2 * n + 1.0L) / ((LD)(n - m) * (n + m))), b = sqrtl((2 * n + 1.0L) * (n + m - 1.0L) * (n - m - 1.0L) / ((LD)(n - m) * (n + m) * (2 * n - 3.0L))); P[n][m] = a * t * P[n - 1][m] - b * P[n - 2][m]; } }
  LD q = 1; for (int n = 1; n <= hi; n++) { q *= R / r; if (n < lo) continue; LD a = 0; for (int m = 0; m <= n; m++) a += P[n][m] * (f.c[n][m] * cosl(m * lam) + f.s[n][m] * sinl(m * lam)); sum += q * a; }
  return gm / r * sum;
}
static V3 Gradient(const Field& f, int lo, int hi, double gm, double R, const V3& p) {
  V3 g; LD h = Norm(p) * 1e-5L; for (int i = 0; i < 3; i++) { auto at = [&](LD k) { LD q[3] = {p[0], p[1], p[2]}; q[i] += k * h; return Potential(f, lo, hi, gm, R, q[0], q[1], q[2]); }; g[i] = (double)((8 * (at(1) - at(-1)) - (at(2) - at(-2))) / (12 * h)); } return g;
}
static const std::vector<V3>& Points(double R) {
  static std::map<double, std::vector<V3>> m; auto& v = m[R]; if (v.empty()) { for (auto& d : Directions26()) v.push_back(Scale(1.06 * R, d)); for (double k : {1.0001, 1.3, 6.6, 60.0}) { v.push_back(Scale(k * R, Unit(MakeV(0.3, -0.7, 0.2)))); v.push_back(Scale(k * R, Unit(MakeV(1e-9, 2e-9, -1)))); v.push_back(Scale(k * R, Unit(MakeV(-0.5, 0.01, 0.9)))); } }
  return v;
}
static const double kGm = 3.986004415e14, kRe = 6378136.6;
static std::string Egm(const Field& f, int lines_to) { std::string o; char b[120]; for (int n = 2; n <= lines_to; n++) for (int m = 0; m <= n; m++) { snprintf(b, 120, "%4d%4d %.15E %.15E 0.1E-09 0.2E-09\n", n, m, n <= f.deg ? f.c[n][m] : 0.0, n <= f.deg ? f.s[n][m] : 0.0); o += b; } return o; }
static std::string Grgm(const Field& f, double R, double gm) { std::string o; char b[160]; snprintf(b, 160, "%.15e, %.15e, 0.0, %d, %d, 1, 0, 0\n", R / 1e3, gm / 1e9, f.deg, f.deg); o = b; for (int n = 1; n <= f.deg; n++) for (int m = 0; m <= n; m++) { snprintf(b, 160, "%d, %d, %.15e, %.15e, 1e-10, 1e-10\n", n, m, f.c[n][m], f.s[n][m]); o += b; } return o; }
static std::vector<double> Cells(const std::string& s) { std::vector<double> v; std::istringstream i(s); std::string c; while (std::getline(i, c, ',')) if (c.size()) v.push_back(atof(c.c_str())); return v; }
static World& W(const std::string& center, const std::string& mode, bool mag = false) {
  static std::map<std::string, std::unique_ptr<World>> m; auto& w = m[center + mode + (mag ? "m" : "")];
  if (!w) { Settings s; s.base.Set("CELESTIAL_INFORMATION", "center_object", center).Set("CELESTIAL_INFORMATION", "number_of_selected_body", "5"); const char* n[5] = {"EARTH", "SUN", "MOON", "MARS", "JUPITER"}; for (int i = 0; i < 5; i++) s.base.Set("CELESTIAL_INFORMATION", "selected_body_name(" + std::to_string(i) + ")", n[i]).Set("CELESTIAL_INFORMATION", "rotation_mode(" + std::to_string(i) + ")", n[i] == center ? mode : "DISABLE"); s.sat.Set("ORBIT", "calculation", "ENABLE");
    if (mag) s.local.Set("MAGNETIC_FIELD_ENVIRONMENT", "calculation", "ENABLE").Set("MAGNETIC_FIELD_ENVIRONMENT", "coefficient_file", CORE_DIR_FROM_EXE "/example/settings/environment/magnetic_field/igrf13.coef");
    w.reset(new World(s)); }
  return *w;
}
// The orbit's earth-fixed position at the present rotation, without moving the spacecraft (the world's clock is shared by all executions of a worker).
static void Still(World& w) { const_cast<s2e::dynamics::orbit::Orbit&>(w.dynamics->GetOrbit()).Propagate(0, w.time().GetCurrentTime_jd()); }
static void Refresh(World& w) { w.local->Update(w.dynamics.get(), &w.time()); }

void Register() {
  Scenario("gravity-potential", "degrees 0-5, 8, 12 (and 40 in depth) x coefficient kinds (all, one, zonal) x 38 points (every octant, axis, pole, near pole, surface to 60 radii) x 2 (gm, radius): acceleration is the gradient of the potential, its partial derivatives those of the acceleration", [](Path& p) {
    static const int D[9] = {0, 1, 2, 3, 4, 5, 8, 12, 40}; int d = D[p.Choose(Q(8, 9))], kind = p.Choose(3), body = p.Choose(2); double gm = body ? 4.9028e12 : kGm, R = body ? 1738000.0 : kRe; Field f = MakeField(std::max(d, 1), kind);
    if (d < 2) { f.c[1][0] = f.c[1][1] = 0; } gravity::GravityPotential g(d, f.c, f.s, gm, R);
    for (auto& r : Points(R)) {
      V3 a = g.CalcAcceleration_xcxf_m_s2(r), w = d < 2 ? MakeV(0, 0, 0) : Gradient(f, 1, d, gm, R, r); double sc = 0; for (int n = 1; n <= d; n++) sc += (n + 1) * gm / Dot(r, r) * std::pow(R / Norm(r), n) * 2e-4 / (n * n); p.NearV(a, w, 3, 1e-8 * sc + 1e-30, "acceleration", "gradient of the potential");
      auto J = g.CalcPartialDerivative_xcxf_s2(r); double h = Norm(r) * 1e-4;
      for (int j = 0; j < 3; j++) { V3 q[4]; for (int k = 0; k < 4; k++) { V3 s = r; s[j] += (k < 2 ? k + 1 : 1 - k) * h; q[k] = g.CalcAcceleration_xcxf_m_s2(s); } for (int i = 0; i < 3; i++) p.Near(J[i][j], (8 * (q[0][i] - q[2][i]) - (q[1][i] - q[3][i])) / (12 * h), 2e-6 * (d + 2) * sc / Norm(r) + 1e-30, "partial-derivative", "of the acceleration"); }
      p.Near(J[0][0] + J[1][1] + J[2][2], 0, 1e-9 * (d + 2) * (d + 2) * sc / Norm(r) + 1e-30, "laplace", "trace"); p.Obs({(double)d, (double)kind, (double)body, r[0], r[1], r[2]});
    }
  }, {2});
  Scenario("geopotential", "settings degree -1..6, 12, 400 (limit 360) x file with as many, more or fewer degrees or missing x 6 positions x rotation SIMPLE/FULL: inertial acceleration is the rotated gradient of exactly the degrees up to the limit", [](Path& p) {
    static const int D[10] = {-1, 0, 1, 2, 3, 4, 5, 6, 12, 400}; int d = D[p.Choose(10)], file = p.Choose(5); if (d == 400 && file > 1) throw Skip(); std::string mode = p.Pick(std::vector<std::string>{"SIMPLE", "FULL"}); int use = d < 2 ? 0 : std::min(d, 360), have = file == 0 ? use : file == 1 ? use + 2 : file == 2 ? use - 1 : use; if (d == 400) have = std::min(have, 361); Field f = MakeField(std::max(have, 2), 0);
    std::string text = Egm(f, have); if (file == 4) text = text.substr(0, text.size() / 2); std::string path = file == 3 ? Scratch() + "/absent" : WriteFile("egm", text); if (file == 4 && use >= 2) use = 0; if (file == 2 || file == 3) use = 0;
    std::string ini = Ini().Set("GEOPOTENTIAL", "calculation", "ENABLE").Set("GEOPOTENTIAL", "logging", "ENABLE").Set("GEOPOTENTIAL", "degree", std::to_string(d)).Set("GEOPOTENTIAL", "coefficients_file_path", path).Write("gp.ini");
    Geopotential g = InitGeopotential(ini); World& w = W("EARTH", mode); static const V3 R[6] = {MakeV(7e6, 0, 0), MakeV(-3e6, 4e6, 5e6), MakeV(0, 0, 6.7e6), MakeV(1e6, -6.5e6, -2e6), MakeV(2, 3, -7e6), MakeV(-4.2e7, 1e6, 3e5)};
    int at = p.Choose(d == 400 ? 2 : 6); w.Place(R[at], MakeV(100, 3000, 6500), Rotations()[9], MakeV(0, 0, 0)); Still(w); Refresh(w);
    auto E = w.cel().GetEarthRotation().GetDcmJ2000ToEcef(); Rot C; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) C.m[i][j] = E[i][j]; V3 r = w.dynamics->GetOrbit().GetPosition_i_m(), re = Mul(C, r);
    for (int k = 0; k < 2; k++) { g.UpdateIfEnabled(*w.local, *w.dynamics); V3 a = g.GetAcceleration_i_m_s2(), we = use < 2 ? MakeV(0, 0, 0) : Gradient(f, 2, use, kGm, kRe, re), want = MulT(C, we); p.NearV(a, want, 3, use > 12 ? 1e-9 : 1e-11, "geopotential", "acceleration"); auto l = Cells(g.GetLogValue()); for (int i = 0; i < 3; i++) p.Near(l[i], we[i], use > 12 ? 1e-9 : 1e-11, "log", "body-fixed acceleration"); p.Check(Norm(g.GetForce_b_N()) == 0 && Norm(g.GetTorque_b_Nm()) == 0, "no-force", "geopotential"); }
    p.Outcome(use < 2 ? "none" : "field"); p.Obs({(double)d, (double)file, (double)at, (double)Hash(mode)});
  }, {2});
  RequireOutcome("geopotential", "none"); RequireOutcome("geopotential", "field");
  Scenario("lunar-field", "degrees 0..6, 12 x files with own radius and gm x 4 positions x rotation SIMPLE/IAU_MOON: acceleration about the moon", [](Path& p) {
    static const int D[7] = {0, 1, 2, 3, 4, 6, 12}; int d = D[p.Choose(7)], more = p.Choose(2); std::string mode = p.Pick(std::vector<std::string>{"SIMPLE", "IAU_MOON"}); double gm = p.Pick({4.9028001224453e12, 4.5e12}), R = 1738000 + 1000 * more; Field f = MakeField(std::max(d + more, 2), 0);
    std::string path = WriteFile("grgm", Grgm(f, R, gm)), ini = Ini().Set("LUNAR_GRAVITY_FIELD", "calculation", "ENABLE").Set("LUNAR_GRAVITY_FIELD", "logging", "ENABLE").Set("LUNAR_GRAVITY_FIELD", "degree", std::to_string(d)).Set("LUNAR_GRAVITY_FIELD", "coefficients_file_path", path).Write("lg.ini");
    LunarGravityField g = InitLunarGravityField(ini); World& w = W("MOON", mode); static const V3 P[4] = {MakeV(1.84e6, 0, 0), MakeV(-1e6, 1.2e6, 1.3e6), MakeV(0, 0, -1.9e6), MakeV(3e6, -4e6, 1e5)}; int at = p.Choose(4); w.Place(P[at], MakeV(10, 1000, 1100), Rotations()[9], MakeV(0, 0, 0)); Still(w); Refresh(w);
    auto M = w.cel().GetMoonRotation().GetDcmJ2000ToMcmf(); Rot C; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) C.m[i][j] = M[i][j]; V3 r = w.dynamics->GetOrbit().GetPosition_i_m(); g.UpdateIfEnabled(*w.local, *w.dynamics);
    V3 a = g.GetAcceleration_i_m_s2(), wf = d < 2 ? MakeV(0, 0, 0) : Gradient(f, 1, d, gm, R, Mul(C, r)); p.NearV(a, MulT(C, wf), 3, 1e-11, "lunar-field", "acceleration"); auto l = Cells(g.GetLogValue()); for (int i = 0; i < 3; i++) p.Near(l[i], wf[i], 1e-11, "log", "body-fixed acceleration"); p.Obs({(double)d, (double)more, (double)at, (double)Hash(mode), gm});
  }, {2});
  Scenario("gravity-gradient", "12 attitudes x 26 directions x 4 distances x 4 inertia tensors (isotropic, diagonal, full, changed during the run) x gravity constants of earth, moon and default x about the earth or the moon: the local vertical is that of the centre body", [](Path& p) {
    int qi = p.Choose(12), g = p.Choose(3), in = p.Choose(4); std::string ini = Ini().Set("GRAVITY_GRADIENT", "calculation", "ENABLE").Set("GRAVITY_GRADIENT", "logging", "ENABLE").Write("gg.ini"); double gm = g == 0 ? kGm : g == 1 ? 4.9e12 : kGm; GravityGradient gg = g == 0 ? InitGravityGradient(ini, gm) : g == 1 ? InitGravityGradient(ini, gm) : InitGravityGradient(ini);
    const bool moon = qi % 2; World& w = moon ? W("MOON", "DISABLE") : W("EARTH", "SIMPLE"); static bool placedat[2] = {false, false}; bool& placed = placedat[moon]; if (!placed || !w.dynamics) { ClearBodies(); if (moon) SetBody("EARTH", MakeV(-3.8e8, 2e7, 1e7)); w.Place(MakeV(7e6, 0, 0), MakeV(0, 7500, 0), Rotations()[0], MakeV(0, 0, 0)); ClearBodies(); placed = true; } w.dynamics->SetAttitude().SetQuaternion_i2b(Rotations()[qi]);
    static const double I[4][6] = {{0.3, 0.3, 0.3, 0, 0, 0}, {0.1, 0.2, 0.4, 0, 0, 0}, {0.2, 0.3, 0.4, 0.01, -0.02, 0.03}, {5, 1, 3, -0.4, 0.2, 0.1}}; math::Matrix<3, 3> J; double T[3][3] = {{I[in][0], I[in][3], I[in][4]}, {I[in][3], I[in][1], I[in][5]}, {I[in][4], I[in][5], I[in][2]}}; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) J[i][j] = T[i][j]; w.structure->GetToSetKinematicsParameters().SetInertiaTensor_b_kgm2(J);
    auto& lc = const_cast<environment::LocalCelestialInformation&>(w.local->GetCelestialInformation());
    for (auto& d : Directions26()) for (double k : {6.5e6, 7.2e6, 4.2e7, 3.8e8}) {
      V3 r = Scale(k, d); lc.UpdateAllObjectsInformation(r, MakeV(0, 0, 0), Rotations()[qi], MakeV(0, 0, 0)); gg.UpdateIfEnabled(*w.local, *w.dynamics); V3 u = Mul(RotOf(Rotations()[qi]), d), Iu; for (int i = 0; i < 3; i++) Iu[i] = T[i][0] * u[0] + T[i][1] * u[1] + T[i][2] * u[2];
      V3 want = Scale(3 * gm / (k * k * k), Cross(u, Iu)); double sc = 3 * gm / (k * k * k) * 6; p.NearV(gg.GetTorque_b_Nm(), want, 3, 1e-12 * sc, "gravity-gradient", "torque"); p.Check(Norm(gg.GetForce_b_N()) == 0 && Norm(gg.GetAcceleration_i_m_s2()) == 0, "no-force", "gravity gradient"); auto l = Cells(gg.GetLogValue()); for (int i = 0; i < 3; i++) p.Near(l[i], want[i], 2e-5 * std::fabs(want[i]) + 1e-12 * sc, "log", "torque"); p.Obs({(double)qi, (double)g, (double)in, d[0], d[1], d[2], k});
    }
  }, {2});
  Scenario("third-body", "every subset and order of up to 4 of SUN MOON MARS JUPITER x 12 geometries x two successive updates: acceleration is the sum of differences of point-mass attractions", [](Path& p) {
    static const char* N[4] = {"SUN", "MOON", "MARS", "JUPITER"}; std::vector<std::string> list; int left = 15; while (left) { std::vector<int> c; for (int i = 0; i < 4; i++) if (left >> i & 1) c.push_back(i); int k = p.Choose((int)c.size() + 1); if (k == 0) break; list.push_back(N[c[k - 1]]); left &= ~(1 << c[k - 1]); }
    World& w = W("EARTH", "SIMPLE"); Ini f; f.Set("THIRD_BODY_GRAVITY", "calculation", "ENABLE").Set("THIRD_BODY_GRAVITY", "logging", "ENABLE").Set("THIRD_BODY_GRAVITY", "number_of_third_body", std::to_string(list.size())); for (size_t i = 0; i < list.size(); i++) f.Set("THIRD_BODY_GRAVITY", "third_body_name(" + std::to_string(i) + ")", list[i]); ThirdBodyGravity t = InitThirdBodyGravity(f.Write("tb.ini"), w.set.base.Write("base_tb.ini"));
    static bool placed = false; if (!placed || !w.dynamics) { w.Place(MakeV(7e6, 0, 0), MakeV(0, 7500, 0), Rotations()[3], MakeV(0, 0, 0)); placed = true; }
    for (int g = 0; g < 12; g++) {
      V3 r = w.dynamics->GetOrbit().GetPosition_i_m(), at[4]; static const double dist[4] = {1.5e11, 3.84e8, 8e10, 6e11}; for (int i = 0; i < 4; i++) { V3 d = Directions26()[(g * 7 + i * 5) % 26]; at[i] = Scale(dist[i] * (g % 3 == 0 ? 1 : g % 3 == 1 ? 0.1 : 3), d); SetBody(i < 2 ? N[i] : std::string(N[i]) + "_BARYCENTER", at[i]); }
      const_cast<environment::CelestialInformation&>(w.cel()).UpdateAllObjectsInformation(w.time()); Refresh(w); t.UpdateIfEnabled(*w.local, *w.dynamics); V3 want = MakeV(0, 0, 0); double sc = 0;
      for (auto& n : list) { int i = std::find_if(N, N + 4, [&](const char* c) { return n == c; }) - N; double gm = 0; for (auto& b : stub::Bodies()) if (n == b.name) gm = b.gm_km3_s2 * 1e9; V3 d = Sub(at[i], r); want = Add(want, Sub(Scale(gm / std::pow(Norm(d), 3), d), Scale(gm / std::pow(Norm(at[i]), 3), at[i]))); sc += gm / Dot(at[i], at[i]); }
      p.NearV(t.GetAcceleration_i_m_s2(), want, 3, 1e-11 * sc, "third-body", "acceleration"); p.Check(Norm(t.GetForce_b_N()) == 0 && Norm(t.GetTorque_b_Nm()) == 0, "no-force", "third body"); auto l = Cells(static_cast<logger::ILoggable&>(t).GetLogValue()); for (int i = 0; i < 3; i++) p.Near(l[i], want[i], 2e-5 * std::fabs(want[i]) + 1e-11 * sc, "log", "acceleration");
      p.Obs({(double)list.size(), list.size() ? (double)Hash(list[0] + list.back()) : 0, (double)g});
    }
    p.Outcome(list.empty() ? "none" : "some");
  }, {1});
  Scenario("residual-moment", "12 attitudes x 6 positions x 5 constant moments, changed during the run (set and added): torque is the moment crossed with the field in the body frame", [](Path& p) {
    int at = p.Choose(6), m0 = p.Choose(5); World& w = W("EARTH", "SIMPLE", true); static const V3 R[6] = {MakeV(7e6, 0, 0), MakeV(-3e6, 4e6, 5e6), MakeV(100, 200, 6.7e6), MakeV(1e6, -6.5e6, -2e6), MakeV(-2e6, 3e6, -7e6), MakeV(-4.2e7, 1e6, 3e5)}, M[5] = {MakeV(0, 0, 0), MakeV(0.04, 0, 0), MakeV(0, -0.03, 0), MakeV(0.01, 0.02, -0.05), MakeV(1, -2, 3)};
    std::string ini = Ini().Set("MAGNETIC_DISTURBANCE", "calculation", "ENABLE").Set("MAGNETIC_DISTURBANCE", "logging", "ENABLE").Write("md.ini"); auto& rmm = w.structure->GetToSetResidualMagneticMoment(); rmm.SetRmmConstant_b_Am2(M[m0]); MagneticDisturbance d = InitMagneticDisturbance(ini, w.structure->GetResidualMagneticMoment());
    w.Place(R[at], MakeV(10, 7000, 1100), Rotations()[0], MakeV(0, 0, 0)); V3 m = M[m0];
    for (int step = 0; step < 3; step++) { if (step == 1) { rmm.SetRmmConstant_b_Am2(M[(m0 + 1) % 5]); m = M[(m0 + 1) % 5]; } if (step == 2) { rmm.AddRmmConstant_b_Am2(M[3]); m = Add(m, M[3]); }
      for (int qi = 0; qi < 12; qi++) { w.dynamics->SetAttitude().SetQuaternion_i2b(Rotations()[qi]); Refresh(w); V3 bi = w.local->GetGeomagneticField().GetGeomagneticField_i_nT(), bb = Mul(RotOf(Rotations()[qi]), bi); p.Check(Norm(bi) > 50, "setup", "field"); d.UpdateIfEnabled(*w.local, *w.dynamics); V3 want = Scale(1e-9, Cross(m, bb)); p.NearV(d.GetTorque_b_Nm(), want, 3, 1e-12 * Norm(m) * Norm(bi) * 1e-9 + 1e-22, "magnetic-torque", "torque");
        p.Check(Norm(d.GetForce_b_N()) == 0 && Norm(d.GetAcceleration_i_m_s2()) == 0, "no-force", "magnetic"); auto l = Cells(d.GetLogValue()); for (int i = 0; i < 3; i++) { p.Near(l[i], m[i], 2e-5 * std::fabs(m[i]), "log", "moment"); p.Near(l[3 + i], want[i], 2e-5 * std::fabs(want[i]) + 1e-22, "log", "torque"); } p.Obs({(double)at, (double)m0, (double)step, (double)qi}); } }
  }, {2});
  Scenario("residual-moment-noise", "two spacecraft with walk/noise settings from {none, walk, noise, both}^2, updated alternately 40 times, the first another 2000 times: a moment without noise never moves, the walk of one does not enter the other, the noise has its size and the axes are independent", [](Path& p) {
    int a = p.Choose(4), b = p.Choose(4); World& w = W("EARTH", "SIMPLE", true); w.Place(MakeV(7e6, 0, 0), MakeV(10, 7000, 1100), Rotations()[0], MakeV(0, 0, 0)); auto mk = [](int k) { return spacecraft::ResidualMagneticMoment(MakeV(0.1, 0.2, 0.3), k & 1 ? 0.01 : 0, k & 1 ? 0.05 : 0, k & 2 ? 0.02 : 0); }; auto ra = mk(a), rb = mk(b); MagneticDisturbance da(ra, true), db(rb, true);
    MagneticDisturbance* D[2] = {&da, &db}; int K[2] = {a, b}; int moved[2] = {0, 0}; for (int i = 0; i < 40; i++) for (int s = 0; s < 2; s++) { D[s]->UpdateIfEnabled(*w.local, *w.dynamics); auto l = Cells(D[s]->GetLogValue()); double e = std::fabs(l[0] - 0.1) + std::fabs(l[1] - 0.2) + std::fabs(l[2] - 0.3); if (K[s] == 0) p.Near(e, 0, 0, "noise-free", "moment without noise"); if (K[s] == 1) p.Check(e < 3 * 0.08, "walk-limit", "walk leaves its limit: %g", e); if (e > 0) moved[s]++; }
    for (int s = 0; s < 2; s++) if (K[s]) p.Check(moved[s] > 30, "noise-present", "only %d of 40 moments moved", moved[s]); p.Obs({(double)a, (double)b});
    if (b == 0 && a) { const int N = 2000; double s2[3] = {}, m[3] = {}, x[3] = {}; for (int i = 0; i < N; i++) { da.UpdateIfEnabled(*w.local, *w.dynamics); auto l = Cells(da.GetLogValue()); double e[3] = {l[0] - 0.1, l[1] - 0.2, l[2] - 0.3}; for (int k = 0; k < 3; k++) s2[k] += e[k] * e[k] / N, m[k] += e[k] / N, x[k] += e[k] * e[(k + 1) % 3] / N; }
      for (int k = 0; k < 3; k++) { double sd = std::sqrt(s2[k]); if (a == 2) { p.Check(sd > 0.018 && sd < 0.022, "noise-size", "axis %d: %g instead of 0.02", k, sd); p.Check(std::fabs(m[k]) < 0.002, "noise-mean", "axis %d: %g", k, m[k]); p.Check(std::fabs(x[k]) < 0.15 * s2[k], "noise-axes", "axes %d and %d move together", k, (k + 1) % 3); } p.Check(x[k] < 0.9 * std::sqrt(s2[k] * s2[(k + 1) % 3]), "walk-axes", "axes %d and %d move together", k, (k + 1) % 3); } }
  });
}
