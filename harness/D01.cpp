// Summation of the disturbances and their way into the dynamics.
#include <disturbances/disturbances.hpp>
#include <simulation/spacecraft/spacecraft.hpp>
#include <simulation/spacecraft/installed_components.hpp>
#include "env.hpp"
using namespace mc; using namespace env; using namespace s2e; using disturbances::Disturbances;
const char* kProperty = "D01";
const char* kAssumptions = "Random parts of the disturbances are switched off. Between its update instants a disturbance keeps its value: orbit-only ones follow the orbit period, the others the orbit and attitude periods.";
static const char* kSec[8] = {"GRAVITY_GRADIENT", "SOLAR_RADIATION_PRESSURE_DISTURBANCE", "THIRD_BODY_GRAVITY", "AIR_DRAG", "MAGNETIC_DISTURBANCE", "GEOPOTENTIAL", "LUNAR_GRAVITY_FIELD"};
enum { GG, SRP, TB, DRAG, MAG, GEO, LUN, kN };
static bool Attitude(int k) { return k == GG || k == SRP || k == DRAG || k == MAG; }
static std::string DistIni(const std::string& name, int mask, bool junk, const std::string& center) {
  Ini f; for (int k = 0; k < kN; k++) f.Set(kSec[k], "calculation", mask >> k & 1 ? "ENABLE" : "DISABLE").Set(kSec[k], "logging", "ENABLE"); static std::string egm, grgm;
  egm = WriteFile("egm", "2 0 -4.8e-4 0 0 0\n2 1 -2e-10 1e-9 0 0\n2 2 2.4e-6 -1.4e-6 0 0\n3 0 9.5e-7 0 0 0\n3 1 2e-6 2.4e-7 0 0\n3 2 9e-7 -6e-7 0 0\n3 3 7e-7 1.4e-6 0 0\n"); grgm = WriteFile("grgm", "1738.0,4902.8,0,2,2,1,0,0\n1,0,0,0,0,0\n1,1,0,0,0,0\n2,0,-9e-5,0,0,0\n2,1,0,0,0,0\n2,2,3e-5,1e-7,0,0\n");
  bool j[kN]; for (int k = 0; k < kN; k++) j[k] = junk && !(mask >> k & 1);
  f.Set(kSec[TB], "number_of_third_body", j[TB] ? "7" : "2").Set(kSec[TB], "third_body_name(0)", j[TB] ? "NOTHING" : "SUN").Set(kSec[TB], "third_body_name(1)", j[TB] ? center : center == "MOON" ? "EARTH" : "MOON");
  f.Set(kSec[DRAG], "wall_temperature_degC", j[DRAG] ? -300 : 30).Set(kSec[DRAG], "molecular_temperature_degC", j[DRAG] ? -300 : 3).Set(kSec[DRAG], "molecular_weight_g_mol", j[DRAG] ? 0 : 18);
  f.Set(kSec[GEO], "degree", j[GEO] ? "6" : "3").Set(kSec[GEO], "coefficients_file_path", j[GEO] ? "absent" : egm).Set(kSec[LUN], "degree", j[LUN] ? "1" : "2").Set(kSec[LUN], "coefficients_file_path", j[LUN] ? "absent" : grgm);
  return f.Write(name);
}
static Settings Set(const std::string& center, double step, double att, double orb, int mask = -1) {
  Settings s; s.base.Set("CELESTIAL_INFORMATION", "center_object", center).Set("TIME", "simulation_step_s", step); for (const char* k : {"attitude_update_period_s", "attitude_integral_step_s"}) s.base.Set("TIME", k, att); for (const char* k : {"orbit_update_period_s", "orbit_integral_step_s"}) s.base.Set("TIME", k, orb); for (const char* k : {"thermal_update_period_s", "thermal_integral_step_s", "component_update_period_s", "log_output_period_s"}) s.base.Set("TIME", k, step);
  if (center == "MOON") { s.base.Set("CELESTIAL_INFORMATION", "rotation_mode(0)", "DISABLE"); s.sat.SetV("ORBIT", "initial_position_i_m", {1.9e6, 1e5, 2e5}).SetV("ORBIT", "initial_velocity_i_m_s", {10, 1100, 1000}); } else { s.base.Set("CELESTIAL_INFORMATION", "rotation_mode(2)", "DISABLE"); s.sat.SetV("ORBIT", "initial_position_i_m", {6.65e6, 3e5, -2e5}).SetV("ORBIT", "initial_velocity_i_m_s", {-500, 5200, 5500}); }
  s.sat.Set("ORBIT", "calculation", "ENABLE").SetV("ATTITUDE", "initial_angular_velocity_b_rad_s", {0.01, -0.02, 0.03}).SetV("ATTITUDE", "initial_quaternion_i2b", {0.1, -0.2, 0.3, 0.9});
  s.structure.Set("SURFACES", "number_of_surfaces", "6"); for (int i = 0; i < 6; i++) { std::string k = "_" + std::to_string(i); V3 n = MakeV(i / 2 == 0, i / 2 == 1, i / 2 == 2); if (i % 2) n = Scale(-1, n); s.structure.Set("SURFACES", "area" + k + "_m2", 4.0 + i).Set("SURFACES", "reflectivity" + k, 0.4).Set("SURFACES", "specularity" + k, 0.5).Set("SURFACES", "air_specularity" + k, 0.3).Set("SURFACES", "position" + k + "_b_m", Add(Scale(1.5, n), MakeV(0.3, 0.2, -0.1 * i))).Set("SURFACES", "normal_vector" + k + "_b", n); }
  s.structure.SetV("RESIDUAL_MAGNETIC_MOMENT", "rmm_constant_b_Am2", {3, -2, 5}).Set("KINEMATIC_PARAMETERS", "mass_kg", 3);
  if (center == "EARTH") s.local.Set("ATMOSPHERE", "calculation", "ENABLE").Set("MAGNETIC_FIELD_ENVIRONMENT", "calculation", "ENABLE").Set("MAGNETIC_FIELD_ENVIRONMENT", "coefficient_file", CORE_DIR_FROM_EXE "/example/settings/environment/magnetic_field/igrf13.coef");
  (void)mask; return s;
}
struct T3 { V3 f, t, a; };
static T3 Tot(const Disturbances& c) { auto& d = const_cast<Disturbances&>(c); return {d.GetForce_b_N(), d.GetTorque_b_Nm(), d.GetAcceleration_i_m_s2()}; }
static T3 Plus(const T3& x, const T3& y) { return {Add(x.f, y.f), Add(x.t, y.t), Add(x.a, y.a)}; }
static std::unique_ptr<Disturbances> Make(World& w, const std::string& ini) { static std::string sat; Ini s = w.set.sat; s.Set("SETTING_FILES", "disturbance_file", ini); auto keep = w.cfg.spacecraft_file_list_; w.cfg.spacecraft_file_list_ = {s.Write("d_sat.ini")}; auto d = std::make_unique<Disturbances>(&w.cfg, 0, w.structure.get(), w.global.get()); w.cfg.spacecraft_file_list_ = keep; return d; }

class Sat : public spacecraft::Spacecraft { public: Sat(const simulation::SimulationConfiguration* c, const environment::GlobalEnvironment* g) : Spacecraft(c, g, 0) { components_ = new spacecraft::InstalledComponents; } dynamics::Dynamics& D() { return *dynamics_; } spacecraft::Structure& S() { return *structure_; } };

void Register() {
  Scenario("subset-sums", "every subset of the disturbances (128 about the earth, 16 about the moon) x settings of the disabled ones sound or nonsense x periods (attitude, orbit) in {(1,1),(1,3),(2,1),(2,3),(3,2)} steps over 7 steps: total equals the sum of single disturbances at every step", [](Path& p) {
    bool moon = p.Choose(2); static const int A[5] = {1, 1, 2, 2, 3}, O[5] = {1, 3, 1, 3, 2}; int sc = p.Choose(5); bool junk = p.Choose(2); std::string center = moon ? "MOON" : "EARTH"; int high = p.Choose(moon ? 4 : 16);
    static std::map<std::string, std::unique_ptr<World>> ws; auto& w = ws[center + std::to_string(sc)]; w.reset(new World(Set(center, 1, A[sc], O[sc]))); w->dynamics->SetAttitude().SetQuaternion_i2b(Rotations()[9]);
    std::vector<int> ids = moon ? std::vector<int>{GG, SRP, TB, LUN} : std::vector<int>{GG, SRP, TB, DRAG, MAG, GEO}; int n = ids.size(), low_n = moon ? 2 : 2; (void)low_n;
    std::vector<std::unique_ptr<Disturbances>> single; for (int k : ids) single.push_back(Make(*w, DistIni("ds.ini", 1 << k, false, center)));
    std::vector<int> masks; for (int m = 0; m < (1 << n); m++) if ((m >> 2) == high) masks.push_back(m); std::vector<std::unique_ptr<Disturbances>> comb; for (int m : masks) { int mm = 0; for (int i = 0; i < n; i++) if (m >> i & 1) mm |= 1 << ids[i]; comb.push_back(Make(*w, DistIni("dc.ini", mm, junk, center))); }
    std::vector<T3> hold(n, T3{MakeV(0, 0, 0), MakeV(0, 0, 0), MakeV(0, 0, 0)});
    bool seen_orb = false, seen_att = false;
    for (int step = 0; step < 7; step++) {
      w->global->Update(); w->local->Update(w->dynamics.get(), &w->time()); bool att = w->time().GetAttitudePropagateFlag(), orb = w->time().GetOrbitPropagateFlag();
      seen_orb |= orb; seen_att |= att;
      for (int i = 0; i < n; i++) {
        single[i]->Update(*w->local, *w->dynamics, &w->time()); T3 t = Tot(*single[i]); bool due = orb || (att && Attitude(ids[i])); p.Check(std::isfinite(Norm(t.f) + Norm(t.t) + Norm(t.a)), "finite", "%s at step %d", kSec[ids[i]], step); if (due) hold[i] = t; p.NearV(t.f, hold[i].f, 3, 0, "held-force", kSec[ids[i]]); p.NearV(t.t, hold[i].t, 3, 0, "held-torque", kSec[ids[i]]); p.NearV(t.a, hold[i].a, 3, 0, "held-acceleration", kSec[ids[i]]);
        if (due && seen_orb && (seen_att || ids[i] != MAG)) p.Check(Norm(t.f) + Norm(t.t) + Norm(t.a) > 0, "setup", "%s gives nothing", kSec[ids[i]]); if (due && seen_orb && (seen_att || ids[i] != MAG)) { bool acc = !Attitude(ids[i]), force = ids[i] == SRP || ids[i] == DRAG; p.Check(acc ? Norm(t.f) + Norm(t.t) == 0 && Norm(t.a) > 0 : Norm(t.a) == 0 && Norm(t.t) > 0 && (Norm(t.f) > 0) == force, "kind", "%s", kSec[ids[i]]); }
      }
      for (size_t c = 0; c < masks.size(); c++) {
        comb[c]->Update(*w->local, *w->dynamics, &w->time()); T3 t = Tot(*comb[c]), s{MakeV(0, 0, 0), MakeV(0, 0, 0), MakeV(0, 0, 0)}; double sf = 0, st = 0, sa = 0; for (int i = 0; i < n; i++) if (masks[c] >> i & 1) { s = Plus(s, hold[i]); sf += Norm(hold[i].f); st += Norm(hold[i].t); sa += Norm(hold[i].a); }
        char m[64]; snprintf(m, 64, "%s subset %d step %d", center.c_str(), masks[c], step); p.NearV(t.f, s.f, 3, 1e-13 * sf, "force-sum", m); p.NearV(t.t, s.t, 3, 1e-13 * st, "torque-sum", m); p.NearV(t.a, s.a, 3, 1e-13 * sa, "acceleration-sum", m); p.Obs({(double)moon, (double)sc, (double)junk, (double)masks[c], (double)step});
      }
      w->dynamics->ClearForceTorque(); w->dynamics->Update(&w->time(), &w->local->GetCelestialInformation()); p.Outcome(orb ? "orbit" : att ? "attitude" : "none");
    }
  }, {3});
  for (const char* o : {"orbit", "attitude", "none"}) RequireOutcome("subset-sums", o);
  Scenario("spacecraft-motion", "the real spacecraft over 5 steps x every subset about the earth x steps of 1 and 5 s: velocity and angular velocity change by exactly the total force over mass turned to the inertial frame, acceleration and torque", [](Path& p) {
    double step = p.Pick({1, 5}); int mask = p.Choose(64); int mm = 0; const int ids[6] = {GG, SRP, TB, DRAG, MAG, GEO}; for (int i = 0; i < 6; i++) if (mask >> i & 1) mm |= 1 << ids[i];
    std::unique_ptr<World> w(new World(Set("EARTH", step, step, step))); w->dynamics.reset(); Ini s = w->set.sat; s.Set("SETTING_FILES", "disturbance_file", DistIni("dm.ini", mm, true, "EARTH")); w->cfg.spacecraft_file_list_ = {s.Write("m_sat.ini")};
    Sat sat(&w->cfg, w->global.get()); Quat q0 = sat.GetDynamics().GetAttitude().GetQuaternion_i2b(); V3 wv = sat.GetDynamics().GetAttitude().GetAngularVelocity_b_rad_s(); bool pushed = false;
    for (int k = 0; k < 5; k++) {
      V3 r0 = sat.GetDynamics().GetOrbit().GetPosition_i_m(), v0 = sat.GetDynamics().GetOrbit().GetVelocity_i_m_s(); q0 = sat.GetDynamics().GetAttitude().GetQuaternion_i2b(); wv = sat.GetDynamics().GetAttitude().GetAngularVelocity_b_rad_s();
      w->global->Update(); sat.Update(&w->time()); T3 t = Tot(sat.GetDisturbances()); V3 a = Add(t.a, Scale(1 / 3.0, MulT(RotOf(q0), t.f))); pushed |= Norm(a) > 0 || Norm(t.t) > 0;
      // own integration of the declared equations, in one step like the simulation
      auto grav = [&](const V3& r) { return Add(Scale(-w->cel().GetGravityConstant_m3_s2("EARTH") / std::pow(Norm(r), 3), r), a); }; double h = step; V3 k1r = v0, k1v = grav(r0), k2r = Add(v0, Scale(h / 2, k1v)), k2v = grav(Add(r0, Scale(h / 2, k1r))), k3r = Add(v0, Scale(h / 2, k2v)), k3v = grav(Add(r0, Scale(h / 2, k2r))), k4r = Add(v0, Scale(h, k3v)), k4v = grav(Add(r0, Scale(h, k3r)));
      V3 v1 = Add(v0, Scale(h / 6, Add(Add(k1v, Scale(2, k2v)), Add(Scale(2, k3v), k4v)))), r1 = Add(r0, Scale(h / 6, Add(Add(k1r, Scale(2, k2r)), Add(Scale(2, k3r), k4r)))); (void)k4r;
      p.NearV(sat.GetDynamics().GetOrbit().GetVelocity_i_m_s(), v1, 3, 2e-11 * 1e4 * 1e-4 + 1e-6 * Norm(a) * h, "velocity", "after one step"); p.NearV(sat.GetDynamics().GetOrbit().GetPosition_i_m(), r1, 3, 1e-8, "position", "after one step");
      auto I = sat.GetStructure().GetKinematicsParameters().GetInertiaTensor_b_kgm2(); double J[3][3]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) J[i][j] = I[i][j]; double det = J[0][0] * (J[1][1] * J[2][2] - J[1][2] * J[2][1]) - J[0][1] * (J[1][0] * J[2][2] - J[1][2] * J[2][0]) + J[0][2] * (J[1][0] * J[2][1] - J[1][1] * J[2][0]);
      auto mul = [&](const V3& x) { V3 y; for (int i = 0; i < 3; i++) y[i] = J[i][0] * x[0] + J[i][1] * x[1] + J[i][2] * x[2]; return y; }; auto solve = [&](const V3& b) { V3 x; for (int c = 0; c < 3; c++) { double M[3][3]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) M[i][j] = j == c ? b[i] : J[i][j]; x[c] = (M[0][0] * (M[1][1] * M[2][2] - M[1][2] * M[2][1]) - M[0][1] * (M[1][0] * M[2][2] - M[1][2] * M[2][0]) + M[0][2] * (M[1][0] * M[2][1] - M[1][1] * M[2][0])) / det; } return x; };
      V3 x = wv; const int N = 1; for (int i = 0; i < N; i++) { auto d = [&](const V3& o) { return solve(Sub(t.t, Cross(o, mul(o)))); }; double e = h / N; V3 a1 = d(x), a2 = d(Add(x, Scale(e / 2, a1))), a3 = d(Add(x, Scale(e / 2, a2))), a4 = d(Add(x, Scale(e, a3))); x = Add(x, Scale(e / 6, Add(Add(a1, Scale(2, a2)), Add(Scale(2, a3), a4)))); }
      p.NearV(sat.GetDynamics().GetAttitude().GetAngularVelocity_b_rad_s(), x, 3, 1e-9 * h + 1e-7 * Norm(t.t) * h, "angular-velocity", "after one step"); p.Obs({step, (double)mask, (double)k});
    }
    p.Check(pushed == (mask != 0), "setup", "disturbed");
  }, {2});
}
