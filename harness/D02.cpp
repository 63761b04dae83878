// Drag and radiation pressure on surfaces.
#include <disturbances/air_drag.hpp>
#include <disturbances/solar_radiation_pressure_disturbance.hpp>
#include "env.hpp"
#include <sstream>
using namespace mc; using namespace env; using namespace s2e;
const char* kProperty = "D02";
const char* kAssumptions = "Air speed is not exactly zero. The free molecular flow coefficients are those of the settings (one speed ratio from the wall temperature).";
struct Face { V3 pos, n; double area, rho, sp, air; V3 given; };
static std::vector<Face> Faces(int set) {
  std::vector<Face> f; auto add = [&](V3 pos, V3 n, double a, double r, double s, double air, double k = 1) { f.push_back({pos, Unit(n), a, r, s, air, Scale(k, Unit(n))}); };
  if (set == 0) { for (int i = 0; i < 6; i++) { V3 n = MakeV(i / 2 == 0, i / 2 == 1, i / 2 == 2); if (i % 2) n = Scale(-1, n); add(Add(Scale(0.5 + 0.1 * i, n), MakeV(0.01 * i, -0.02, 0.03)), n, 0.5 + 0.13 * i, 0.2 * (i % 5), i == 5 ? 1 : 0.25 * (i % 4), i == 2 ? 0 : i == 4 ? 1 : 0.3 * (i % 3)); } }
  else if (set == 1) for (int i = 0; i < 9; i++) add(MakeV(std::sin(3 * i), std::cos(5 * i), 0.4 - 0.1 * i), MakeV(std::sin(1.7 * i + 1), std::cos(2.3 * i), std::sin(0.9 * i * i + 0.3)), i == 3 ? 0 : 0.3 + 0.2 * i, 0.11 * i, i == 4 ? 0 : 0.1 * i, 0.12 * i, i % 3 == 0 ? 1 : i % 3 == 1 ? 0.5 : 2.5);
  else if (set == 2) { add(MakeV(0.1, 0.2, 0.3), MakeV(1, 2, 3), 1, 1, 1, 1, 1 + 5e-7); add(MakeV(0, 0, 0), MakeV(-1, -2, -3), 2, 0, 0, 0, 1 - 5e-7); add(MakeV(0, 1, 0), MakeV(0.6, -0.64, 0.48), 1.5, 0.5, 0.5, 0.5, 1 + 9e-7); }
  else if (set == 4) for (int i = 0; i < 45; i++) add(MakeV(std::sin(3 * i), std::cos(5 * i), std::sin(7 * i + 0.2)), MakeV(std::sin(1.7 * i + 1), std::cos(2.3 * i), std::sin(0.9 * i * i + 0.3)), 0.3 + 0.05 * i, 0.02 * i, 0.5 - 0.01 * i, 0.1 + 0.015 * i);
  return f;  // set 3: no surfaces
}
static const int kSets = 5;
static const V3& Cog(int s) { static V3 c[2] = {MakeV(0.01, -0.02, 0.03), MakeV(-0.3, 0.25, 0.1)}; return c[s]; }
static Settings Set(int set, const std::string& atmosphere) {
  Settings s; s.structure.SetV("KINEMATIC_PARAMETERS", "center_of_gravity_b_m", {Cog(0)[0], Cog(0)[1], Cog(0)[2]}); auto f = Faces(set); s.structure.Set("SURFACES", "number_of_surfaces", std::to_string(f.size()));
  for (size_t i = 0; i < f.size(); i++) { std::string k = "_" + std::to_string(i); s.structure.Set("SURFACES", "area" + k + "_m2", f[i].area).Set("SURFACES", "reflectivity" + k, f[i].rho).Set("SURFACES", "specularity" + k, f[i].sp).Set("SURFACES", "air_specularity" + k, f[i].air).Set("SURFACES", "position" + k + "_b_m", f[i].pos).Set("SURFACES", "normal_vector" + k + "_b", f[i].given); }
  s.local.Set("ATMOSPHERE", "calculation", atmosphere == "FIXED" ? "DISABLE" : atmosphere); s.sat.Set("ORBIT", "calculation", atmosphere == "FIXED" ? "DISABLE" : "ENABLE");
  return s;
}
static World& W(int set, const std::string& atmosphere, const V3& r, const V3& v) {
  struct Slot { std::unique_ptr<World> w; V3 r, v; bool placed = false; }; static std::map<std::string, Slot> m; Slot& s = m[std::to_string(set) + atmosphere]; static Slot* last = nullptr;
  if (!s.w) s.w.reset(new World(Set(set, atmosphere)));
  if (last != &s || !s.placed || Norm(Sub(s.r, r)) > 0 || Norm(Sub(s.v, v)) > 0) { s.w->Place(r, v, Rotations()[0], MakeV(0, 0, 0)); if (atmosphere != "FIXED") s.w->Tick(); s.r = r; s.v = v; s.placed = true; last = &s; }
  return *s.w;
}
// attitude that turns the inertial direction u into the body direction d, then rolls about it
static Quat Align(const V3& u, const V3& d, double roll) {
  V3 e = Cross(d, u); double w = 1 + Dot(u, d); if (w < 1e-7) { e = Cross(u, std::fabs(u[0]) < 0.7 ? MakeV(1, 0, 0) : MakeV(0, 1, 0)); w = 0; }
  double n = std::sqrt(Dot(e, e) + w * w); double x = e[0] / n, y = e[1] / n, z = e[2] / n; w /= n; double c = std::cos(roll / 2), s = std::sin(roll / 2), a = d[0] * s, b = d[1] * s, g = d[2] * s;
  return Quat(w * a + x * c + y * g - z * b, w * b - x * g + y * c + z * a, w * g + x * b - y * a + z * c, w * c - x * a - y * b - z * g);  // product up to the sense of the roll, which is arbitrary
}
static std::vector<V3> BodyDirections(int set) {
  std::vector<V3> d = Directions26(); auto fs = Faces(set); if (fs.size() > 9) fs.erase(fs.begin() + 2, fs.end() - 2); for (auto& f : fs) { d.push_back(f.n); d.push_back(Scale(-1, f.n)); V3 t = Unit(Cross(f.n, std::fabs(f.n[2]) < 0.8 ? MakeV(0, 0, 1) : MakeV(1, 0, 0))); for (double a : {1e-9, 1e-5, 0.4, M_PI / 2 - 1e-4, M_PI / 2 + 1e-4, 2.5}) d.push_back(Add(Scale(std::cos(a), f.n), Scale(std::sin(a), t))); }
  return d;
}
struct Sum { double floor = 0; V3 f = MakeV(0, 0, 0), t = MakeV(0, 0, 0); double scale = 0; int lit = 0; };
static void AddFace(Sum& s, const Face& f, const V3& cog, const V3& dir, double cn, double ct) {  // cn against the normal, ct along -dir in the plane
  double c = Dot(f.n, dir); V3 tang = Sub(dir, Scale(c, f.n)); double sn = Norm(tang); V3 force = Scale(-cn, f.n); if (sn > 0) force = Sub(force, Scale(ct / sn, tang)); s.f = Add(s.f, force); s.t = Add(s.t, Cross(Sub(f.pos, cog), force)); s.scale += std::fabs(cn) + std::fabs(ct); s.lit++;
}
static Sum Srp(const std::vector<Face>& fs, const V3& cog, const V3& dir, double pressure) {
  // a fraction rho is reflected, sp of it like a mirror, the rest by Lambert's law
  Sum s; for (auto& f : fs) { s.floor += pressure * f.area * 1e-9; double c = Dot(f.n, dir); if (c <= 1e-12) continue; double sn = std::sqrt(std::max(0.0, 1 - c * c)), k = pressure * f.area * c; AddFace(s, f, cog, dir, k * (c * (1 + f.rho * f.sp) + 2.0 / 3 * f.rho * (1 - f.sp)), k * sn * (1 - f.rho * f.sp)); }
  return s;
}
static const double kWall = 303, kGas = 276, kMol = 18;
// faces edge-on within rounding may count or not: mask tells
static Sum Drag(const std::vector<Face>& fs, const V3& cog, const V3& vel, double density, int mask, int* edges) {
  Sum s; double v = Norm(vel); V3 dir = Unit(vel); double S = v / std::sqrt(2 * 8.31446261815324 / (kMol * 1e-3) * kWall), sp = std::sqrt(M_PI);
  *edges = 0; for (auto& f : fs) { s.floor += density * v * v * f.area * 1e-9; double c = Dot(f.n, dir); if (std::fabs(c) <= 1e-12) { if (!(mask >> (*edges)++ & 1)) continue; c = 0; } if (c < 0) continue; double a = S * c, b = S * std::sqrt(std::max(0.0, 1 - c * c)), sg = 1 - f.air, ex = std::exp(-a * a), er = 1 + std::erf(a), pi = a * ex + sp * (a * a + 0.5) * er, chi = ex + sp * a * er, k = 0.5 * density * v * v * f.area / (S * S); AddFace(s, f, cog, dir, k * ((2 - sg) / sp * pi + sg / 2 * std::sqrt(kWall / kGas) * chi), k * sg / sp * b * chi); }
  return s;
}
static void Compare(Path& p, const Sum& want, const V3& f, const V3& t, const V3& dir, const char* what, const V3& cog, bool exact_norms) {
  for (int i = 0; i < 3; i++) p.Check(std::isfinite(f[i]) && std::isfinite(t[i]), "finite", "%s: force (%g %g %g) torque (%g %g %g), direction (%.17g %.17g %.17g)", what, f[0], f[1], f[2], t[0], t[1], t[2], dir[0], dir[1], dir[2]);
  double tol = (exact_norms ? 1e-7 : 4e-3) * want.scale + want.floor + 1e-300; p.NearV(f, want.f, 3, tol, "force", what); p.NearV(t, want.t, 3, tol * 3, "torque", what);
  p.Check(Dot(f, dir) <= 1e-9 * want.scale + want.floor, "opposes", "%s: component %g along the incoming direction", what, Dot(f, dir)); p.Outcome(want.scale == 0 ? "none" : want.lit > 1 ? "several" : "one");
}
static std::vector<double> Cells(const std::string& s) { std::vector<double> v; std::istringstream i(s); std::string c; while (std::getline(i, c, ',')) if (c.size()) v.push_back(atof(c.c_str())); return v; }
static void Log(Path& p, const std::string& h, const std::string& l, const V3& t, const V3& f) { auto c = Cells(l); p.Eq(c.size(), (size_t)std::count(h.begin(), h.end(), ','), "log-columns", "columns"); for (int i = 0; i < 3; i++) { p.Near(c[i], t[i], 2e-5 * std::fabs(t[i]) + 1e-30, "log", "torque"); p.Near(c[3 + i], f[i], 2e-5 * std::fabs(f[i]) + 1e-30, "log", "force"); } }
static const V3 kR = MakeV(6.9e6, 2e5, -3e5), kV = MakeV(-300, 5200, 5400);

void Register() {
  Scenario("radiation", "5 surface sets (box, nine and forty-five generic plates with normals of any length, plates with normals off by rounding, none) x 26 directions plus aligned, grazing and rear directions of every plate x 3 rolls x 3 sun directions x sunlit/penumbra/umbra x 2 sun distances x 2 centres of mass", [](Path& p) {
    int set = p.Choose(kSets), sd = p.Choose(3), ecl = p.Choose(3), far = p.Choose(2); auto faces = Faces(set); World& w = W(set, "FIXED", kR, kV);
    static const V3 D[3] = {Unit(MakeV(1, 2, 3)), MakeV(0, -1, 0), Unit(MakeV(-0.7, 0.1, -0.2))}; V3 u = D[sd], r = w.dynamics->GetOrbit().GetPosition_i_m();
    V3 perp = Unit(Cross(u, MakeV(0.3, 0.2, -0.9)));
    // the earth is the centre body: put it beside, nearly in front of, or exactly in front of the sun by moving the satellite instead
    double dist = Norm(r), a = std::asin(6371e3 / dist), off = ecl == 0 ? a + 0.3 : ecl == 1 ? a + 0.0005 : 0.3; V3 target = Scale(-dist, Add(Scale(std::cos(off), u), Scale(std::sin(off), perp)));
    SetBody("SUN", Add(target, Scale((far ? 2.2e11 : 1.4e11), u))); World& w2 = W(set, "FIXED", target, kV); auto srp = disturbances::InitSolarRadiationPressureDisturbance(w2.set.base.Write("srp.ini"), w2.structure->GetSurfaces(), w2.structure->GetKinematicsParameters().GetCenterOfGravity_b_m());
    const_cast<environment::CelestialInformation&>(w2.cel()).UpdateAllObjectsInformation(w2.time()); w2.local->Update(w2.dynamics.get(), &w2.time());
    V3 sun_i = w2.local->GetCelestialInformation().GetPositionFromSpacecraft_i_m("SUN"); double shadow = w2.local->GetSolarRadiationPressure().GetShadowCoefficient(); if (ecl == 0) p.Near(shadow, 1, 1e-12, "setup", "sunlit"); if (ecl == 2) p.Near(shadow, 0, 0, "setup", "umbra"); if (ecl == 1) p.Check(shadow > 0 && shadow < 1, "setup", "penumbra %g", shadow);
    double pressure = 1366 / 299792458.0 * std::pow(149597870700.0 / Norm(sun_i), 2) * shadow; V3 ui = Unit(sun_i);
    for (auto& d : BodyDirections(set)) for (int roll = 0; roll < 3; roll++) for (int c = 0; c < 2; c++) {
      w2.dynamics->SetAttitude().SetQuaternion_i2b(Align(ui, d, roll * 2.1)); w2.structure->GetToSetKinematicsParameters().SetCenterOfGravityVector_b_m(Cog(c)); w2.local->Update(w2.dynamics.get(), &w2.time());
      Quat q = w2.dynamics->GetAttitude().GetQuaternion_i2b(); V3 db = Unit(Mul(RotOf(q), sun_i)); srp.Update(*w2.local, *w2.dynamics); V3 f = srp.GetForce_b_N(), t = srp.GetTorque_b_Nm(); Sum s = Srp(faces, Cog(c), db, pressure);
      Compare(p, s, f, t, db, "radiation", Cog(c), set != 2); Log(p, srp.GetLogHeader(), srp.GetLogValue(), t, f); V3 acc = srp.GetAcceleration_i_m_s2(); p.Check(acc[0] == 0 && acc[1] == 0 && acc[2] == 0, "acceleration", "not zero");
      if (pressure == 0) p.Check(Norm(f) == 0 && Norm(t) == 0, "eclipse", "force in umbra"); p.Obs({(double)set, (double)ecl, (double)far, db[0], db[1], db[2], (double)c});
    }
  }, {3});
  for (const char* o : {"none", "one", "several"}) RequireOutcome("radiation", o);
  Scenario("drag", "5 surface sets x 26 directions plus aligned, grazing and rear directions of every plate x 3 rolls x 5 orbits (heights 180-900 km, one retrograde, one slow) x atmosphere on/off x 2 centres of mass", [](Path& p) {
    int set = p.Choose(kSets), o = p.Choose(5); bool on = p.Flag(); auto faces = Faces(set);
    static const V3 R[5] = {MakeV(6.9e6, 2e5, -3e5), MakeV(0, 6.56e6, 0), MakeV(100, 3e6, 6.4e6), MakeV(-4e6, -4e6, 4e6), MakeV(6.8e6, 0, 0)}, V[5] = {MakeV(-300, 5200, 5400), MakeV(-7790, 0, 5), MakeV(7000, 1000, -500), MakeV(4000, -4000, 100), MakeV(3, 700, -20)};
    World& w = W(set, on ? "ENABLE" : "DISABLE", R[o], V[o]); static std::string ini; ini = Ini().Set("AIR_DRAG", "calculation", "ENABLE").Set("AIR_DRAG", "logging", "ENABLE").Set("AIR_DRAG", "wall_temperature_degC", kWall - 273).Set("AIR_DRAG", "molecular_temperature_degC", kGas - 273).Set("AIR_DRAG", "molecular_weight_g_mol", kMol).Write("drag.ini");
    auto drag = disturbances::InitAirDrag(ini, w.structure->GetSurfaces(), w.structure->GetKinematicsParameters().GetCenterOfGravity_b_m());
    // air turns with the earth
    auto& orb = w.dynamics->GetOrbit(); V3 r = orb.GetPosition_i_m(), v = orb.GetVelocity_i_m_s(); auto E = w.cel().GetEarthRotation().GetDcmJ2000ToEcef(); V3 axis = MakeV(E[2][0], E[2][1], E[2][2]); V3 rel = Sub(v, Cross(Scale(7.292115e-5, axis), r)); double density = w.local->GetAtmosphere().GetAirDensity_kg_m3(); if (!on) p.Near(density, 0, 0, "setup", "no atmosphere"); else p.Check(density > 0, "setup", "density");
    V3 ui = Unit(rel);
    for (auto& d : BodyDirections(set)) for (int roll = 0; roll < 3; roll++) for (int c = 0; c < 2; c++) {
      w.dynamics->SetAttitude().SetQuaternion_i2b(Align(ui, d, roll * 2.1)); w.structure->GetToSetKinematicsParameters().SetCenterOfGravityVector_b_m(Cog(c)); Quat q = w.dynamics->GetAttitude().GetQuaternion_i2b(); V3 vb = Mul(RotOf(q), rel), db = Unit(vb);
      drag.Update(*w.local, *w.dynamics); V3 f = drag.GetForce_b_N(), t = drag.GetTorque_b_Nm(); int edges; Sum s = Drag(faces, Cog(c), vb, density, 0, &edges); for (int m = 1; m < (1 << edges); m++) { Sum o = Drag(faces, Cog(c), vb, density, m, &edges); if (Norm(Sub(o.f, f)) < Norm(Sub(s.f, f))) s = o; } Compare(p, s, f, t, db, "drag", Cog(c), set != 2); Log(p, drag.GetLogHeader(), drag.GetLogValue(), t, f); if (!on) p.Check(Norm(f) == 0 && Norm(t) == 0, "vacuum", "force without atmosphere");
      V3 acc = drag.GetAcceleration_i_m_s2(); p.Check(acc[0] == 0 && acc[1] == 0 && acc[2] == 0, "acceleration", "not zero"); p.Obs({(double)set, (double)o, (double)on, db[0], db[1], db[2], (double)c});
    }
  }, {2});
  for (const char* o : {"none", "one", "several"}) RequireOutcome("drag", o);
}
