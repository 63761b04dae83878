// What moves a spacecraft in one update: exactly the forces and torques its disturbances and components generate in that update.
#include <components/base/component.hpp>
#include <disturbances/disturbances.hpp>
#include <simulation/spacecraft/installed_components.hpp>
#include <simulation/spacecraft/spacecraft.hpp>
#include "env.hpp"
using namespace mc; using namespace env; using namespace s2e;
const char* kProperty = "T03";
const char* kAssumptions = "Forces are constant over one update; with an update period longer than the simulation step the forces present at the update that propagates act over the whole interval, as designed. The sums of the disturbances themselves are taken from the disturbances (judged by D01).";
enum { kNone, kF, kT, kFT, kKinds };
static V3 Force(int sc, int k) { return k == kF || k == kFT ? Scale(sc ? -0.7 : 1, MakeV(0.6, -0.9, 0.3)) : MakeV(0, 0, 0); }
static V3 Torque(int sc, int k) { return k == kT || k == kFT ? Scale(sc ? 0.6 : 1, MakeV(-0.002, 0.001, 0.003)) : MakeV(0, 0, 0); }
struct Plan { int kind = kNone; int runs = 0, interferences = 0; bool burn = false; V3 seen_r, seen_b; };
class Sat;
// a component that acts in the step in which it runs, and looks at its surroundings when it does
class Thruster : public components::Component {
 public: Thruster(environment::ClockGenerator* c, Sat* s, Plan* p) : Component(1, c), s_(s), p_(p) {} V3 f = MakeV(0, 0, 0), t = MakeV(0, 0, 0);
 protected: void MainRoutine(const int) override; private: Sat* s_; Plan* p_;
};
class Parts : public spacecraft::InstalledComponents {
 public: Parts(environment::ClockGenerator* c, Sat* s, Plan* p) : a(c, s, p), b(c, s, p), p_(p) {} Thruster a, b;
  // the interference of this step scales what is generated in this step
  V3 GenerateForce_b_N() override { return Scale(p_->interferences, Add(a.f, b.f)); } V3 GenerateTorque_b_Nm() override { return Scale(p_->interferences, Add(a.t, b.t)); } void ComponentInterference() override { p_->interferences++; } void LogSetup(logger::Logger&) override {}
 private: Plan* p_;
};
class Sat : public spacecraft::Spacecraft {
 public: Plan plan; int id; Sat(const simulation::SimulationConfiguration* c, const environment::GlobalEnvironment* g, int i) : Spacecraft(c, g, i), id(i) { components_ = new Parts(&clock_generator_, this, &plan); }
  spacecraft::Structure& S() { return *structure_; }
};
void Thruster::MainRoutine(const int) { p_->runs++; p_->seen_r = s_->GetDynamics().GetOrbit().GetPosition_i_m(); p_->seen_b = s_->GetLocalEnvironment().GetGeomagneticField().GetGeomagneticField_b_nT(); f = Scale(.5, Force(s_->id, p_->kind)); t = Scale(.5, Torque(s_->id, p_->kind)); if (p_->burn) s_->S().GetToSetKinematicsParameters().AddMass_kg(-0.125); }
// the independent motion: two-body plus constant acceleration, and quaternion with inertial momentum
struct Motion {
  V3 r, v; double q[4]; V3 H; double J[3][3]; double mu;
  explicit Motion(const Sat& s, double m) : mu(m) { auto& d = s.GetDynamics(); r = d.GetOrbit().GetPosition_i_m(); v = d.GetOrbit().GetVelocity_i_m_s(); auto I = s.GetStructure().GetKinematicsParameters().GetInertiaTensor_b_kgm2(); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) J[i][j] = I[i][j]; Quat a = d.GetAttitude().GetQuaternion_i2b(); for (int i = 0; i < 4; i++) q[i] = a[i]; H = MulT(R(), Mu(d.GetAttitude().GetAngularVelocity_b_rad_s())); }
  Rot R() const { return RotOf(q[0], q[1], q[2], q[3]); }
  V3 Mu(const V3& x) const { return MakeV(J[0][0] * x[0] + J[0][1] * x[1] + J[0][2] * x[2], J[1][0] * x[0] + J[1][1] * x[1] + J[1][2] * x[2], J[2][0] * x[0] + J[2][1] * x[1] + J[2][2] * x[2]); }
  V3 Solve(const V3& b) const { auto det = [](const double M[3][3]) { return M[0][0] * (M[1][1] * M[2][2] - M[1][2] * M[2][1]) - M[0][1] * (M[1][0] * M[2][2] - M[1][2] * M[2][0]) + M[0][2] * (M[1][0] * M[2][1] - M[1][1] * M[2][0]); }; V3 x; for (int c = 0; c < 3; c++) { double M[3][3]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) M[i][j] = j == c ? b[i] : J[i][j]; x[c] = det(M) / det(J); } return x; }
  V3 Rate() const { return Solve(Mul(R(), H)); }
  void Orbit(double t, const V3& a) { int n = std::max(1, (int)std::lround(t / 0.5)); double h = t / n; auto g = [&](const V3& x) { return Add(Scale(-mu / std::pow(Norm(x), 3), x), a); };
    for (int i = 0; i < n; i++) { V3 k1r = v, k1 = g(r), k2r = Add(v, Scale(h / 2, k1)), k2 = g(Add(r, Scale(h / 2, k1r))), k3r = Add(v, Scale(h / 2, k2)), k3 = g(Add(r, Scale(h / 2, k2r))), k4r = Add(v, Scale(h, k3)), k4 = g(Add(r, Scale(h, k3r))); r = Add(r, Scale(h / 6, Add(Add(k1r, k4r), Scale(2, Add(k2r, k3r))))); v = Add(v, Scale(h / 6, Add(Add(k1, k4), Scale(2, Add(k2, k3))))); } }
  void Turn(double t, const V3& T) { int n = std::max(1, (int)std::lround(t / 0.05)); double h = t / n; struct D { double q[4]; V3 H; };
    auto der = [&](const double* s, const V3& Hs) { Rot m = RotOf(s[0], s[1], s[2], s[3]); V3 o = Solve(Mul(m, Hs)); return D{{.5 * (s[3] * o[0] + s[1] * o[2] - s[2] * o[1]), .5 * (s[3] * o[1] + s[2] * o[0] - s[0] * o[2]), .5 * (s[3] * o[2] + s[0] * o[1] - s[1] * o[0]), -.5 * (s[0] * o[0] + s[1] * o[1] + s[2] * o[2])}, MulT(m, T)}; };
    for (int i = 0; i < n; i++) { double s[4]; auto st = [&](const D& k, double f) { for (int j = 0; j < 4; j++) s[j] = q[j] + f * k.q[j]; return Add(H, Scale(f, k.H)); }; D a = der(q, H); V3 x = st(a, h / 2); D b = der(s, x); x = st(b, h / 2); D c = der(s, x); x = st(c, h); D e = der(s, x); double nn = 0; for (int j = 0; j < 4; j++) q[j] += h / 6 * (a.q[j] + 2 * b.q[j] + 2 * c.q[j] + e.q[j]), nn += q[j] * q[j]; for (int j = 0; j < 4; j++) q[j] /= sqrt(nn); H = Add(H, Scale(h / 6, Add(Add(a.H, e.H), Scale(2, Add(b.H, c.H))))); } }
};
struct Judge { Motion m; double orb_at = 0, att_at = 0; };
// one update of one spacecraft, judged
static void Step(Path& p, World& w, Sat& s, Judge& j, int kind, bool burn, const char* what) {
  auto& c = w.time(); auto& d = s.GetDynamics(); V3 r0 = d.GetOrbit().GetPosition_i_m(), v0 = d.GetOrbit().GetVelocity_i_m_s(), w0 = d.GetAttitude().GetAngularVelocity_b_rad_s(); Rot rot = RotOf(d.GetAttitude().GetQuaternion_i2b()); double mass = s.S().GetKinematicsParameters().GetMass_kg();
  s.plan.kind = kind; s.plan.burn = burn; s.plan.runs = s.plan.interferences = 0; bool at = c.GetAttitudePropagateFlag(), ob = c.GetOrbitPropagateFlag(); double t = c.GetElapsedTime_s(); s.Update(&c);
  p.Eq(s.plan.runs, 2, "component-runs", what); p.Eq(s.plan.interferences, 1, "interference", what); p.NearV(s.plan.seen_r, r0, 3, 0, "components-before-motion", what); p.NearV(s.plan.seen_b, s.GetLocalEnvironment().GetGeomagneticField().GetGeomagneticField_b_nT(), 3, 0, "components-after-environment", what); p.Check(Norm(s.plan.seen_b) > 0, "setup", "no field");
  auto& dist = const_cast<disturbances::Disturbances&>(s.GetDisturbances()); if (burn) mass -= 0.25; p.Near(s.S().GetKinematicsParameters().GetMass_kg(), mass, 1e-12, "mass", what);
  V3 f = Add(dist.GetForce_b_N(), Force(s.id, kind)), T = Add(dist.GetTorque_b_Nm(), Torque(s.id, kind)), a = Add(dist.GetAcceleration_i_m_s2(), Scale(1 / mass, MulT(rot, f)));
  if (ob) j.m.Orbit(t - j.orb_at, a), j.orb_at = t; if (at) j.m.Turn(t - j.att_at, T), j.att_at = t;
  V3 v = d.GetOrbit().GetVelocity_i_m_s(), r = d.GetOrbit().GetPosition_i_m(), o = d.GetAttitude().GetAngularVelocity_b_rad_s(); Quat q = d.GetAttitude().GetQuaternion_i2b();
  p.NearV(v, j.m.v, 3, 2e-8, "velocity", what); p.NearV(r, j.m.r, 3, 2e-7, "position", what); p.NearV(o, j.m.Rate(), 3, 1e-8, "angular-velocity", what); double sg = 0; for (int i = 0; i < 4; i++) sg += q[i] * j.m.q[i]; for (int i = 0; i < 4; i++) p.Near(q[i] * (sg < 0 ? -1 : 1), j.m.q[i], 1e-8, "attitude", what);
  if (!ob) p.NearV(v, v0, 3, 0, "velocity-between-updates", what); if (!at) p.NearV(o, w0, 3, 0, "rate-between-updates", what);
  p.Outcome(ob && at ? "both" : ob ? "orbit" : at ? "attitude" : "none"); p.Obs({v[0], v[1], v[2], o[0], o[1], o[2], (double)kind});
}
static std::string DistIni(const char* name, bool on) { static std::string egm = WriteFile("egm", "2 0 -4.8e-4 0 0 0\n2 1 -2e-10 1e-9 0 0\n2 2 2.4e-6 -1.4e-6 0 0\n"); Ini f; for (const char* k : {"GRAVITY_GRADIENT", "SOLAR_RADIATION_PRESSURE_DISTURBANCE", "THIRD_BODY_GRAVITY", "AIR_DRAG", "MAGNETIC_DISTURBANCE", "GEOPOTENTIAL", "LUNAR_GRAVITY_FIELD"}) f.Set(k, "calculation", "DISABLE").Set(k, "logging", "DISABLE");
  if (on) { for (const char* k : {"GRAVITY_GRADIENT", "SOLAR_RADIATION_PRESSURE_DISTURBANCE", "GEOPOTENTIAL"}) f.Set(k, "calculation", "ENABLE"); f.Set("GEOPOTENTIAL", "degree", "2").Set("GEOPOTENTIAL", "coefficients_file_path", egm); } return f.Write(name); }
static Settings Set(double att, double orb, bool on) {
  Settings s; s.base.Set("TIME", "simulation_step_s", 1).Set("TIME", "attitude_update_period_s", att).Set("TIME", "attitude_integral_step_s", 0.1).Set("TIME", "orbit_update_period_s", orb).Set("TIME", "orbit_integral_step_s", orb); for (const char* k : {"thermal_update_period_s", "thermal_integral_step_s", "component_update_period_s", "log_output_period_s"}) s.base.Set("TIME", k, 1);
  s.base.Set("CELESTIAL_INFORMATION", "rotation_mode(2)", "DISABLE"); s.sat.Set("ORBIT", "calculation", "ENABLE").SetV("ORBIT", "initial_position_i_m", {6.65e6, 3e5, -2e5}).SetV("ORBIT", "initial_velocity_i_m_s", {-500, 5200, 5500}).SetV("ATTITUDE", "initial_angular_velocity_b_rad_s", {0.04, -0.02, 0.03}).SetV("ATTITUDE", "initial_quaternion_i2b", {0.1, -0.3, 0.3, 0.9}).Set("ATTITUDE", "propagate_mode", "RK4").Set("SETTING_FILES", "disturbance_file", DistIni(on ? "t3on.ini" : "t3off.ini", on));
  s.structure.Set("SURFACES", "number_of_surfaces", "6"); for (int i = 0; i < 6; i++) { std::string k = "_" + std::to_string(i); V3 n = MakeV(i / 2 == 0, i / 2 == 1, i / 2 == 2); if (i % 2) n = Scale(-1, n); s.structure.Set("SURFACES", "area" + k + "_m2", 1 + 0.3 * i).SetV("SURFACES", "position" + k + "_b_m", {n[0] * 0.5 + 0.1, n[1] * 0.5, n[2] * 0.5}).SetV("SURFACES", "normal_vector" + k + "_b", {n[0], n[1], n[2]}).Set("SURFACES", "reflectivity" + k, 0.4).Set("SURFACES", "specularity" + k, 0.3).Set("SURFACES", "air_specularity" + k, 0.4); }
  s.structure.Set("KINEMATIC_PARAMETERS", "mass_kg", 4).SetV("KINEMATIC_PARAMETERS", "inertia_tensor_kgm2", {0.2, 0.01, -0.02, 0.01, 0.15, 0.01, -0.02, 0.01, 0.3});
  s.local.Set("MAGNETIC_FIELD_ENVIRONMENT", "calculation", "ENABLE").Set("MAGNETIC_FIELD_ENVIRONMENT", "coefficient_file", CORE_DIR_FROM_EXE "/example/settings/environment/magnetic_field/igrf13.coef"); return s;
}
void Register() {
  Scenario("one-spacecraft", Thorough() ? "every history of 5 updates over the alphabet of the quick tier" : "every history of 3 updates over {nothing, force, torque, force and torque from two components} x disturbances off or on x attitude and orbit update periods of 1 and 2 steps x mass consumed by the components or not, on the real spacecraft: the motion is that of an independent integration under exactly the sum generated in that update", [](Path& p) {
    bool on = p.Flag(); int pa = p.Choose(2), po = p.Choose(2); bool burn = p.Flag(); World w(Set(1 + pa, 1 + po, on)); w.dynamics.reset(); Sat s(&w.cfg, w.global.get(), 0); Judge j{Motion(s, w.cel().GetGravityConstant_m3_s2("EARTH"))}; int n = Thorough() ? 5 : 3;
    bool pushed = false; for (int k = 0; k < n; k++) { w.global->Update(); int kind = p.Choose(kKinds); Step(p, w, s, j, kind, burn && kind, ("update " + std::to_string(k)).c_str()); auto& dist = const_cast<disturbances::Disturbances&>(s.GetDisturbances()); pushed |= Norm(dist.GetForce_b_N()) > 0 && Norm(dist.GetTorque_b_Nm()) > 0 && Norm(dist.GetAcceleration_i_m_s2()) > 0; }
    p.Check(pushed == on, "setup", "disturbances");
  }, {5});
  for (const char* o : {"both", "orbit", "attitude", "none"}) RequireOutcome("one-spacecraft", o);
  Scenario("two-spacecraft", Thorough() ? "two real spacecraft as in the quick tier, with every pair of histories of 2 updates" : "two real spacecraft of different mass in one simulation, every pair of histories of 2 updates (the second one nothing or force and torque) x the order in which they are updated x disturbances on one of them or the other, followed by an update without thrust: each moves under its own forces and torques alone", [](Path& p) {
    int on = Thorough() ? p.Choose(4) : p.Flag() ? 1 : 2; bool swap = p.Flag(); World w(Set(1, 1, on & 1)); w.dynamics.reset(); Ini st = w.set.structure; st.Set("KINEMATIC_PARAMETERS", "mass_kg", 7); Ini sat = w.set.sat; sat.Set("SETTING_FILES", "disturbance_file", DistIni(on & 2 ? "t3bon.ini" : "t3boff.ini", on & 2)).Set("SETTING_FILES", "structure_file", st.Write("t3st.ini")).SetV("ORBIT", "initial_position_i_m", {-6.9e6, 2e5, 4e5}).SetV("ORBIT", "initial_velocity_i_m_s", {300, 7200, -1500}).SetV("ATTITUDE", "initial_quaternion_i2b", {0.5, 0.5, -0.1, 0.7});
    w.cfg.spacecraft_file_list_.push_back(sat.Write("t3sat.ini")); w.cfg.number_of_simulated_spacecraft_ = 2; Sat a(&w.cfg, w.global.get(), 0), b(&w.cfg, w.global.get(), 1); Sat* s[2] = {&a, &b}; double mu = w.cel().GetGravityConstant_m3_s2("EARTH"); Judge j[2] = {{Motion(a, mu)}, {Motion(b, mu)}}; int n = 2;
    for (int k = 0; k <= n; k++) { w.global->Update(); int kind[2]; for (int i = 0; i < 2; i++) kind[i] = k >= n ? kNone : k == 0 || Thorough() ? p.Choose(kKinds) : p.Flag() ? kFT : kNone; for (int i = 0; i < 2; i++) { int x = swap ? 1 - i : i; Step(p, w, *s[x], j[x], kind[x], false, (std::string(x ? "second" : "first") + " spacecraft, update " + std::to_string(k)).c_str()); } }
  }, {4});
}
