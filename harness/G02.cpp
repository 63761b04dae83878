// Mass properties, surfaces and residual moment: operation histories against their own model and against a spacecraft configured with the result.
#include <disturbances/disturbances.hpp>
#include <dynamics/dynamics.hpp>
#include "env.hpp"
using namespace mc; using namespace env; using namespace s2e; using disturbances::Disturbances;
const char* kProperty = "G02";
const char* kAssumptions = "Random parts of the magnetic moment are off; zero normals and sums of masses of exactly zero are outside the alphabet; areas and coefficients within 1e-6 outside their range are not judged.";

struct Srf { V3 pos, nrm; double area, ref, spe, air; };
struct Model { double mass; V3 cg, rmm; std::array<double, 9> I; std::vector<Srf> s; };
static Model Base() {
  Model m{14, MakeV(0.01, -0.02, 0.03), MakeV(0.3, -0.2, 0.5), {0.2, 0.01, -0.02, 0.01, 0.3, 0.03, -0.02, 0.03, 0.4}, {}};
  m.s = {{MakeV(0.5, 0.1, -0.2), MakeV(1, 0, 0), 1.1, 0.4, 0.5, 0.3}, {MakeV(-0.1, 0.6, 0.2), MakeV(0, 0.6, 0.8), 0.7, 0.2, 0.9, 0.6}, {MakeV(0.2, -0.3, -0.4), MakeV(0, -1, 0), 1.9, 0.8, 0.1, 0.2}};
  return m;
}
static void PutSurface(Ini& f, int i, const Srf& s) { std::string k = "_" + std::to_string(i); f.Set("SURFACES", "area" + k + "_m2", s.area).Set("SURFACES", "reflectivity" + k, s.ref).Set("SURFACES", "specularity" + k, s.spe).Set("SURFACES", "air_specularity" + k, s.air).Set("SURFACES", "position" + k + "_b_m", s.pos).Set("SURFACES", "normal_vector" + k + "_b", s.nrm); }
static Ini File(const Model& m, Ini f) {
  for (int i = 0; i < 9; i++) { char k[48]; snprintf(k, 48, "inertia_tensor_kgm2(%d)", i); f.Set("KINEMATIC_PARAMETERS", k, m.I[i]); snprintf(k, 48, "inertia_tensor_cantilever_kgm2(%d)", i); f.Set("CANTILEVER_PARAMETERS", k, i % 4 == 0 ? 0.1 + 0.02 * i : 0.01); }
  f.Set("CANTILEVER_PARAMETERS", "damping_ratio_cantilever", 0.05).Set("CANTILEVER_PARAMETERS", "intrinsic_angular_velocity_cantilever_rad_s", 0.6);
  f.Set("KINEMATIC_PARAMETERS", "mass_kg", m.mass).Set("KINEMATIC_PARAMETERS", "center_of_gravity_b_m", m.cg).Set("RESIDUAL_MAGNETIC_MOMENT", "rmm_constant_b_Am2", m.rmm); f.Set("SURFACES", "number_of_surfaces", std::to_string(m.s.size())); for (size_t i = 0; i < m.s.size(); i++) PutSurface(f, i, m.s[i]); return f;
}
static std::string Key(const Model& m) { std::string k; char b[40]; auto put = [&](double x) { snprintf(b, 40, "%.17g,", x); k += b; }; put(m.mass); for (int i = 0; i < 3; i++) { put(m.cg[i]); put(m.rmm[i]); } for (double x : m.I) put(x); for (auto& s : m.s) { for (int i = 0; i < 3; i++) { put(s.pos[i]); put(s.nrm[i]); } put(s.area); put(s.ref); put(s.spe); put(s.air); } return k; }
static math::Matrix<3, 3> Mat(const std::array<double, 9>& a) { math::Matrix<3, 3> m; for (int i = 0; i < 9; i++) m[i / 3][i % 3] = a[i]; return m; }

static const int kOps = 25;
static const char* kName[kOps] = {"mass 10", "mass 0", "mass -1", "mass +1.5", "mass -0.75", "mass -100", "cg A", "cg B", "inertia A", "inertia B", "rmm set", "rmm add", "area 0.5", "area -1", "area 0", "reflectivity 0.9", "reflectivity 1.2", "specularity 0.05", "specularity -0.1", "air specularity 1", "air specularity 1.1", "normal", "position", "add surface", "remove surface"};
// applies the operation to the model and to the real structure
static bool Op(int o, Model& m, spacecraft::Structure& st) {
  auto& k = st.GetToSetKinematicsParameters(); auto& s = st.GetToSetSurfaces(); auto& r = st.GetToSetResidualMagneticMoment(); size_t n = m.s.size();
  if (n < 2 && o >= 12 && o <= 22) return false;
  switch (o) {
    case 0: k.SetMass_kg(10); m.mass = 10; break; case 1: k.SetMass_kg(0); break; case 2: k.SetMass_kg(-1); break;
    case 3: k.AddMass_kg(1.5); m.mass += 1.5; break; case 4: k.AddMass_kg(-0.75); m.mass -= 0.75; break; case 5: k.AddMass_kg(-100); break;
    case 6: m.cg = MakeV(-0.05, 0.3, 0.1); k.SetCenterOfGravityVector_b_m(m.cg); break; case 7: m.cg = MakeV(0.2, -0.1, -0.4); k.SetCenterOfGravityVector_b_m(m.cg); break;
    case 8: m.I = {0.5, -0.02, 0.01, -0.02, 0.45, 0.05, 0.01, 0.05, 0.35}; k.SetInertiaTensor_b_kgm2(Mat(m.I)); break; case 9: m.I = {0.15, 0.02, 0.01, 0.02, 0.2, -0.01, 0.01, -0.01, 0.25}; k.SetInertiaTensor_b_kgm2(Mat(m.I)); break;
    case 10: m.rmm = MakeV(1, -2, 0.5); r.SetRmmConstant_b_Am2(m.rmm); break; case 11: m.rmm = Add(m.rmm, MakeV(0.25, 0.5, -1)); r.AddRmmConstant_b_Am2(MakeV(0.25, 0.5, -1)); break;
    case 12: s[0].SetArea_m2(m.s[0].area = 0.5); break; case 13: s[0].SetArea_m2(-1); break; case 14: s[1].SetArea_m2(0); break;
    case 15: s[n - 1].SetReflectivity(m.s[n - 1].ref = 0.9); break; case 16: s[1].SetReflectivity(1.2); break; case 17: s[1].SetSpecularity(m.s[1].spe = 0.05); break; case 18: s[0].SetSpecularity(-0.1); break;
    case 19: s[0].SetAirSpecularity(m.s[0].air = 1); break; case 20: s[1].SetAirSpecularity(1.1); break;
    case 21: s[n - 1].SetNormal_b(MakeV(3, -2, 6)); m.s[n - 1].nrm = MakeV(3 / 7., -2 / 7., 6 / 7.); break; case 22: s[1].SetPosition_b_m(m.s[1].pos = MakeV(-0.7, 0.2, 0.9)); break;
    case 23: { Srf a{MakeV(0.4, 0.4, 0.9), MakeV(0.36, 0.48, 0.8), 2.5, 0.3, 0.3, 0.7}; if (n > 4) return false; m.s.push_back(a); s.push_back(spacecraft::Surface(a.pos, a.nrm, a.area, a.ref, a.spe, a.air)); break; }
    case 24: if (n < 2) return false; m.s.pop_back(); s.pop_back(); break;
  }
  return true;
}
static void Getters(Path& p, const spacecraft::Structure& st, const Model& m, const char* at) {
  auto& k = st.GetKinematicsParameters(); p.Near(k.GetMass_kg(), m.mass, 0, "mass", at); p.NearV(k.GetCenterOfGravity_b_m(), m.cg, 3, 0, "center-of-gravity", at); for (int i = 0; i < 9; i++) p.Near(k.GetInertiaTensor_b_kgm2()[i / 3][i % 3], m.I[i], 0, "inertia", at); p.NearV(st.GetResidualMagneticMoment().GetConstantValue_b_Am2(), m.rmm, 3, 0, "residual-moment", at);
  auto& s = st.GetSurfaces(); p.Eq(s.size(), m.s.size(), "surfaces"); for (size_t i = 0; i < m.s.size(); i++) { p.Near(s[i].GetArea_m2(), m.s[i].area, 0, "area", at); p.Near(s[i].GetReflectivity(), m.s[i].ref, 0, "reflectivity", at); p.Near(s[i].GetSpecularity(), m.s[i].spe, 0, "specularity", at); p.Near(s[i].GetAirSpecularity(), m.s[i].air, 0, "air-specularity", at); p.NearV(s[i].GetPosition_b_m(), m.s[i].pos, 3, 0, "position", at); p.NearV(s[i].GetNormal_b(), m.s[i].nrm, 3, 1e-15, "normal", at); }
}

static Settings Set(bool cantilever) {
  Settings s; s.base.Set("CELESTIAL_INFORMATION", "rotation_mode(2)", "DISABLE"); s.local.Set("ATMOSPHERE", "calculation", "ENABLE").Set("MAGNETIC_FIELD_ENVIRONMENT", "calculation", "ENABLE").Set("MAGNETIC_FIELD_ENVIRONMENT", "coefficient_file", CORE_DIR_FROM_EXE "/example/settings/environment/magnetic_field/igrf13.coef"); s.local.Set("SOLAR_RADIATION_PRESSURE_ENVIRONMENT", "calculation", "ENABLE");
  s.sat.Set("ORBIT", "calculation", "ENABLE").Set("ATTITUDE", "propagate_mode", cantilever ? "CANTILEVER_VIBRATION" : "RK4").SetV("ATTITUDE", "initial_quaternion_i2b", {0.1, -0.2, 0.3, 0.9}).SetV("ORBIT", "initial_position_i_m", {6.65e6, 3e5, -2e5}).SetV("ORBIT", "initial_velocity_i_m_s", {-500, 5200, 5500}); return s;
}
static std::string DistFile() { Ini f; for (const char* k : {"GRAVITY_GRADIENT", "SOLAR_RADIATION_PRESSURE_DISTURBANCE", "AIR_DRAG", "MAGNETIC_DISTURBANCE"}) f.Set(k, "calculation", "ENABLE").Set(k, "logging", "ENABLE"); for (const char* k : {"THIRD_BODY_GRAVITY", "GEOPOTENTIAL", "LUNAR_GRAVITY_FIELD"}) f.Set(k, "calculation", "DISABLE"); f.Set("AIR_DRAG", "wall_temperature_degC", 30).Set("AIR_DRAG", "molecular_temperature_degC", 3).Set("AIR_DRAG", "molecular_weight_g_mol", 18); return f.Write("dist.ini"); }
// structure, disturbances and dynamics of one spacecraft, on the environment of a world
struct Craft {
  std::unique_ptr<spacecraft::Structure> st; std::unique_ptr<Disturbances> ds; std::unique_ptr<dynamics::Dynamics> dy; World& w;
  Craft(World& world, const Model& m, const Quat& q) : w(world) {
    static const std::string dist = DistFile(); w.Activate(); w.dynamics.reset(); Ini s = w.set.sat; s.Set("SETTING_FILES", "structure_file", File(m, Ini()).Write("c_structure.ini")).Set("SETTING_FILES", "disturbance_file", dist); auto keep = w.cfg.spacecraft_file_list_; w.cfg.spacecraft_file_list_ = {s.Write("c_sat.ini")};
    st = std::make_unique<spacecraft::Structure>(&w.cfg, 0); ds = std::make_unique<Disturbances>(&w.cfg, 0, st.get(), w.global.get()); dy = std::make_unique<dynamics::Dynamics>(&w.cfg, &w.time(), w.local.get(), 0, st.get()); w.cfg.spacecraft_file_list_ = keep; dy->SetAttitude().SetQuaternion_i2b(q);
  }
};
struct Effect { V3 f, t, a, v, w; double scale_f = 0, scale_t = 0; };
static Effect Measure(Craft& c) {
  Effect e; c.ds->Update(*c.w.local, *c.dy, &c.w.time()); e.f = c.ds->GetForce_b_N(); e.t = c.ds->GetTorque_b_Nm(); e.a = c.ds->GetAcceleration_i_m_s2();
  c.dy->ClearForceTorque(); c.dy->AddForce_b_N(MakeV(100, -50, 30)); c.dy->AddTorque_b_Nm(MakeV(2e-9, -1e-9, 3e-9)); c.dy->Update(&c.w.time(), &c.w.local->GetCelestialInformation()); e.v = c.dy->GetOrbit().GetVelocity_i_m_s(); e.w = c.dy->GetAttitude().GetAngularVelocity_b_rad_s(); return e;
}

void Register() {
  Scenario("histories", "all sequences of 2 (3 thorough) of 25 operations, and of 3 (4 thorough) of 6 of them, on mass, centre of gravity, inertia, residual moment and surfaces (valid, refused and changing the number of surfaces) x rigid or flexible attitude x two attitudes, without and with the disturbances using the values in between: values read back, disturbances, motion under a force and a torque equal those of a spacecraft configured with the result", [](Path& p) {
    bool cant = p.Choose(2); int qi = p.Choose(2); Quat q = Rotations()[qi ? 9 : 11]; bool between = qi;
    static std::map<int, std::unique_ptr<World>> ws; auto& w = ws[cant * 2 + qi]; if (!w) { w.reset(new World(Set(cant))); w->Place(MakeV(6.65e6, 3e5, -2e5), MakeV(-500, 5200, 5500), q, MakeV(0, 0, 0)); }
    Model m = Base(); std::unique_ptr<Craft> own(new Craft(*w, m, q)); Craft& live = *own; bool small = p.Choose(2); static const int kSmall[6] = {3, 8, 11, 21, 23, 24}; int depth = Q(2, 3) + small; std::string ops;
    for (int i = 0; i < depth; i++) { int o = small ? kSmall[p.Choose(6)] : p.Choose(kOps); if (!Op(o, m, *live.st)) throw Skip(); ops += std::string(kName[o]) + "; "; Getters(p, *live.st, m, ops.c_str()); if (between && i + 1 < depth) live.ds->Update(*w->local, *live.dy, &w->time()); }
    Effect got = Measure(live); own.reset(); static std::map<std::string, Effect> memo; std::string key = std::to_string(cant * 2 + qi) + Key(m); auto it = memo.find(key); if (it == memo.end()) { Craft fresh(*w, m, q); Getters(p, *fresh.st, m, "configured"); it = memo.emplace(key, Measure(fresh)).first; p.Outcome("state"); }
    const Effect& want = it->second; double sf = Norm(want.f) + 1e-12, stq = Norm(want.t) + 1e-12; p.Check(Norm(want.f) > 0 && Norm(want.t) > 0, "setup", "no disturbance");
    p.NearV(got.f, want.f, 3, 1e-12 * sf, "disturbance-force", ops.c_str()); p.NearV(got.t, want.t, 3, 1e-11 * stq, "disturbance-torque", ops.c_str()); p.NearV(got.v, want.v, 3, 1e-11, "velocity", ops.c_str()); p.NearV(got.w, want.w, 3, 1e-6 * Norm(want.w), "angular-velocity", ops.c_str());
    // own law: force over mass, and torque through the inertia of a rigid body
    static std::map<int, V3> coast; if (!coast.count(cant * 2 + qi)) { Craft c(*w, Base(), q); c.dy->ClearForceTorque(); c.dy->Update(&w->time(), &w->local->GetCelestialInformation()); coast[cant * 2 + qi] = c.dy->GetOrbit().GetVelocity_i_m_s(); }
    V3 dv = Scale(1 / m.mass, MulT(RotOf(q), MakeV(100, -50, 30))); p.NearV(Sub(got.v, coast[cant * 2 + qi]), dv, 3, 1e-5 * Norm(dv), "force-over-mass", ops.c_str());
    if (!cant) { V3 h; for (int i = 0; i < 3; i++) h[i] = m.I[3 * i] * got.w[0] + m.I[3 * i + 1] * got.w[1] + m.I[3 * i + 2] * got.w[2]; p.NearV(h, MakeV(2e-9, -1e-9, 3e-9), 3, 1e-14, "torque-through-inertia", ops.c_str()); }
    p.Obs({(double)cant, (double)qi, got.f[0], got.t[0], got.v[0], got.w[0]});
  }, {4});
  RequireOutcome("histories", "state");
  Scenario("turning", "changes of the inertia (all sequences of 3 of {keep, A, B}) between steps of a slowly turning rigid spacecraft x 3 axes x steps of 1 and 5 s: the angular momentum stays", [](Path& p) {
    double step = p.Pick({1, 5}); int axis = p.Choose(3); Settings s = Set(false); for (const char* k : {"simulation_step_s", "attitude_update_period_s", "attitude_integral_step_s", "orbit_update_period_s", "orbit_integral_step_s", "thermal_update_period_s", "thermal_integral_step_s", "component_update_period_s", "log_output_period_s"}) s.base.Set("TIME", k, step);
    static std::map<double, std::unique_ptr<World>> ws; auto& w = ws[step]; w.reset(new World(s)); Model m = Base(); Craft c(*w, m, Rotations()[9]); const double rate = 1e-6; c.dy->SetAttitude().SetAngularVelocity_b_rad_s(MakeV(rate * (axis == 0), rate * (axis == 1), rate * (axis == 2)));
    V3 h0, o0 = c.dy->GetAttitude().GetAngularVelocity_b_rad_s(); for (int i = 0; i < 3; i++) h0[i] = m.I[3 * i + axis] * rate; std::string ops; (void)o0;
    for (int k = 0; k < 4; k++) {
      w->global->Update(); int o = k < 3 ? p.Choose(3) : 0; if (o) Op(7 + o, m, *c.st); ops += std::to_string(o); c.dy->ClearForceTorque(); c.dy->Update(&w->time(), &w->local->GetCelestialInformation());
      V3 o1 = c.dy->GetAttitude().GetAngularVelocity_b_rad_s(), h; for (int i = 0; i < 3; i++) h[i] = m.I[3 * i] * o1[0] + m.I[3 * i + 1] * o1[1] + m.I[3 * i + 2] * o1[2]; p.NearV(h, h0, 3, 40 * rate * step * Norm(h0), "angular-momentum", ops.c_str()); p.Obs({step, (double)axis, o1[0], o1[1]});
    }
  }, {2});
  Scenario("structure-file", "0 to 6 surfaces x lengths of the normals {1, 2, 0.01} x one entry out of range (none or one of 7 kinds) at each index x inertia with nine different entries x random parameters: the structure holds exactly what the file says, normals of length one, and nothing from a refused surface on", [](Path& p) {
    static World* w = nullptr; if (!w) w = new World(Set(false)); int n = p.Choose(7); double len = p.Pick({1, 2, 0.01}); int bad = p.Choose(8), at = bad ? p.Choose(n ? n : 1) : 0; if (bad && !n) throw Skip(); int rp = p.Choose(2);
    Model m = Base(); m.s.clear(); for (int i = 0; i < 9; i++) m.I[i] = 0.1 + 0.07 * ((i * 5 + 3) % 9); m.mass = 0.5 + 3 * n; m.cg = MakeV(-0.1 * n, 0.2, len);
    const V3 dirs[7] = {MakeV(1, 0, 0), MakeV(0, 0.6, -0.8), MakeV(2 / 7., 3 / 7., 6 / 7.), MakeV(-1 / 3., 2 / 3., 2 / 3.), MakeV(0, 0, -1), MakeV(0.48, -0.64, 0.6), MakeV(0, 1, 0)};
    for (int i = 0; i < n; i++) m.s.push_back({MakeV(0.1 * i, -0.2, 0.3 + i), dirs[(i + n) % 7], i == 2 ? 0.0 : 1.0 + i, i == 1 ? 0.0 : i == 3 ? 1.0 : 0.1 + 0.1 * i, i == 0 ? 1.0 : 0.15 * i, i == 4 ? 0.0 : 0.9 - 0.1 * i});
    Model file = m; for (auto& s : file.s) s.nrm = Scale(len, s.nrm); if (bad) { Srf& s = file.s[at]; double* f[7] = {&s.area, &s.ref, &s.ref, &s.spe, &s.spe, &s.air, &s.air}; static const double v[7] = {-0.1, -0.1, 1.1, -0.2, 2, -1, 1.01}; *f[bad - 1] = v[bad - 1]; }
    Ini ini = File(file, Ini()); const double rnd[3] = {rp ? 1e-3 : 0, rp ? 2e-3 : 0, rp ? 3e-4 : 0}; ini.Set("RESIDUAL_MAGNETIC_MOMENT", "rmm_random_walk_speed_Am2", rnd[0]).Set("RESIDUAL_MAGNETIC_MOMENT", "rmm_random_walk_limit_Am2", rnd[1]).Set("RESIDUAL_MAGNETIC_MOMENT", "rmm_white_noise_standard_deviation_Am2", rnd[2]);
    w->Activate(); Ini s = w->set.sat; s.Set("SETTING_FILES", "structure_file", ini.Write("s_structure.ini")); auto keep = w->cfg.spacecraft_file_list_; w->cfg.spacecraft_file_list_ = {s.Write("s_sat.ini")}; spacecraft::Structure st(&w->cfg, 0); w->cfg.spacecraft_file_list_ = keep;
    if (bad) m.s.resize(at); char msg[80]; snprintf(msg, 80, "%d surfaces, length %g, bad %d at %d", n, len, bad, at); Getters(p, st, m, msg); for (auto& q : st.GetSurfaces()) p.Near(Norm(q.GetNormal_b()), 1, 1e-15 * 4, "unit-normal", msg);
    auto& r = st.GetResidualMagneticMoment(); p.Check(r.GetRandomWalkStandardDeviation_Am2() == rnd[0] && r.GetRandomWalkLimit_Am2() == rnd[1] && r.GetRandomNoiseStandardDeviation_Am2() == rnd[2], "random-parameters", "%s", msg); p.Outcome(bad ? "refused" : "accepted"); p.Obs({(double)n, len, (double)bad, (double)at});
  }, {1});
  for (const char* o : {"refused", "accepted"}) RequireOutcome("structure-file", o);
  Scenario("many-surfaces", "{10, 16, 31, 32, 33, 64, 100, 255, 256, 257} surfaces in a file: the structure holds exactly those before a refused one (at the end, in the middle or none)", [](Path& p) {
    static World* w = nullptr; if (!w) w = new World(Set(false)); int n = p.PickI({10, 16, 31, 32, 33, 64, 100, 255, 256, 257}), bad = p.PickI({-1, n / 2, n - 1}); Model m = Base(); m.s.clear(); for (int i = 0; i < n; i++) m.s.push_back({MakeV(0.1 * i, -0.2, 0.3 + i), Directions26()[(5 * i) % 26], 1.0 + i, (i % 10) * 0.1, (i % 7) * 0.125, (i % 3) * 0.25}); Model file = m; if (bad >= 0) { file.s[bad].area = -1; m.s.resize(bad); }
    w->Activate(); Ini s = w->set.sat; s.Set("SETTING_FILES", "structure_file", File(file, Ini()).Write("many_structure.ini")); auto keep = w->cfg.spacecraft_file_list_; w->cfg.spacecraft_file_list_ = {s.Write("many_sat.ini")}; spacecraft::Structure st(&w->cfg, 0); w->cfg.spacecraft_file_list_ = keep; Getters(p, st, m, "many surfaces"); p.Obs({(double)n, (double)bad});
  });
  Scenario("setters", "every setter of a surface x a lattice of values at and around the ends of its range x the value before; normals of 26 directions x 4 lengths: a value within the range is taken, any other leaves the surface as it was", [](Path& p) {
    spacecraft::Surface s(MakeV(1, 2, 3), MakeV(0, 0, 1), 2, 0.5, 0.25, 0.75); double cur[4] = {2, 0.5, 0.25, 0.75}; V3 nrm = MakeV(0, 0, 1);
    for (int k = 0; k < 3; k++) {
      int which = p.Choose(5); if (which == 4) { int d = p.Choose(k ? 3 : 26); double l = p.Pick({1, 3, 1e-3, 1e5}); nrm = Unit(Directions26()[d]); s.SetNormal_b(Scale(l, Directions26()[d])); p.Near(Norm(s.GetNormal_b()), 1, 4e-16, "unit-normal"); }
      else { double v = p.Pick({0.3, 0, 1, -0.0, -1e-9, 1 + 1e-9, -5, 1e4, std::nan(""), 1e-9}); bool ok = which == 0 ? v > 0 : v >= 0 && v <= 1; if (ok) cur[which] = v; if (which == 0) s.SetArea_m2(v); if (which == 1) s.SetReflectivity(v); if (which == 2) s.SetSpecularity(v); if (which == 3) s.SetAirSpecularity(v); p.Outcome(ok ? "taken" : "refused"); }
      p.Near(s.GetArea_m2(), cur[0], 0, "area"); p.Near(s.GetReflectivity(), cur[1], 0, "reflectivity"); p.Near(s.GetSpecularity(), cur[2], 0, "specularity"); p.Near(s.GetAirSpecularity(), cur[3], 0, "air-specularity"); p.NearV(s.GetNormal_b(), nrm, 3, 1e-15, "normal"); p.NearV(s.GetPosition_b_m(), MakeV(1, 2, 3), 3, 0, "position");
    }
  }, {1});
  for (const char* o : {"taken", "refused"}) RequireOutcome("setters", o);
}
