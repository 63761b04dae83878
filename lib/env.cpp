#include "env.hpp"
#include <cmath>
#include <fstream>
#include <sstream>
namespace env {
static std::string Num(double v) { char b[40]; snprintf(b, sizeof b, "%.17g", v); return b; }
Ini& Ini::Set(const std::string& sec, const std::string& key, const std::string& val) {
  for (auto& s : s_) if (s.first == sec) { for (auto& k : s.second) if (k.first == key) { k.second = val; return *this; } s.second.push_back({key, val}); return *this; }
  s_.push_back({sec, {{key, val}}}); return *this;
}
Ini& Ini::Set(const std::string& sec, const std::string& key, double val) { return Set(sec, key, Num(val)); }
Ini& Ini::SetV(const std::string& sec, const std::string& key, std::initializer_list<double> v) { int i = 0; for (double d : v) Set(sec, key + "(" + std::to_string(i++) + ")", Num(d)); return *this; }
std::string Ini::Text() const { std::string o; for (auto& s : s_) { o += "[" + s.first + "]\n"; for (auto& k : s.second) o += k.first + " = " + k.second + "\n"; } return o; }
std::string Ini::Write(const std::string& name) const { return mc::WriteFile(name, Text()); }

Settings::Settings() {
  base.Set("TIME", "simulation_start_time_utc", "2020/04/01 12:00:00.0").Set("TIME", "simulation_duration_s", 1e6).Set("TIME", "simulation_step_s", 1);
  for (const char* k : {"attitude_update_period_s", "attitude_integral_step_s", "orbit_update_period_s", "orbit_integral_step_s", "thermal_update_period_s", "thermal_integral_step_s", "component_update_period_s", "log_output_period_s"}) base.Set("TIME", k, 1);
  base.Set("TIME", "simulation_speed_setting", "0");
  base.Set("CELESTIAL_INFORMATION", "logging", "DISABLE").Set("CELESTIAL_INFORMATION", "inertial_frame", "J2000").Set("CELESTIAL_INFORMATION", "center_object", "EARTH").Set("CELESTIAL_INFORMATION", "aberration_correction", "NONE").Set("CELESTIAL_INFORMATION", "number_of_selected_body", "3");
  const char* nm[3] = {"EARTH", "SUN", "MOON"}; const char* md[3] = {"SIMPLE", "DISABLE", "SIMPLE"};
  for (int i = 0; i < 3; i++) base.Set("CELESTIAL_INFORMATION", "selected_body_name(" + std::to_string(i) + ")", nm[i]);
  for (int i = 0; i < 3; i++) base.Set("CELESTIAL_INFORMATION", "rotation_mode(" + std::to_string(i) + ")", md[i]);
  for (const char* k : {"tls", "tpc1", "tpc2", "tpc3", "bsp"}) base.Set("CSPICE_KERNELS", k, "none");
  base.Set("HIPPARCOS_CATALOGUE", "catalogue_file_path", "none").Set("HIPPARCOS_CATALOGUE", "max_magnitude", "3.0").Set("HIPPARCOS_CATALOGUE", "calculation", "DISABLE").Set("HIPPARCOS_CATALOGUE", "logging", "DISABLE");
  gnss.Set("GNSS_SATELLITES", "calculation", "DISABLE").Set("GNSS_SATELLITES", "logging", "DISABLE");
  sat.Set("ATTITUDE", "propagate_mode", "RK4").Set("ATTITUDE", "initialize_mode", "MANUAL").SetV("ATTITUDE", "initial_angular_velocity_b_rad_s", {0, 0, 0}).SetV("ATTITUDE", "initial_quaternion_i2b", {0, 0, 0, 1}).SetV("ATTITUDE", "initial_torque_b_Nm", {0, 0, 0});
  sat.Set("ORBIT", "calculation", "DISABLE").Set("ORBIT", "logging", "DISABLE").Set("ORBIT", "propagate_mode", "RK4").Set("ORBIT", "initialize_mode", "POSITION_VELOCITY_I").SetV("ORBIT", "initial_position_i_m", {7e6, 0, 0}).SetV("ORBIT", "initial_velocity_i_m_s", {0, 7500, 0});
  sat.Set("THERMAL", "calculation", "DISABLE").Set("THERMAL", "debug", "DISABLE").Set("THERMAL", "solar_calc_setting", "DISABLE").Set("THERMAL", "thermal_file_directory", "none");
  local.Set("MAGNETIC_FIELD_ENVIRONMENT", "calculation", "DISABLE").Set("MAGNETIC_FIELD_ENVIRONMENT", "logging", "DISABLE").Set("MAGNETIC_FIELD_ENVIRONMENT", "coefficient_file", "none");
  for (const char* k : {"magnetic_field_random_walk_standard_deviation_nT", "magnetic_field_random_walk_limit_nT", "magnetic_field_white_noise_standard_deviation_nT"}) local.Set("MAGNETIC_FIELD_ENVIRONMENT", k, 0.0);
  local.Set("SOLAR_RADIATION_PRESSURE_ENVIRONMENT", "calculation", "ENABLE").Set("SOLAR_RADIATION_PRESSURE_ENVIRONMENT", "logging", "DISABLE").Set("SOLAR_RADIATION_PRESSURE_ENVIRONMENT", "number_of_third_shadow_source", "0");
  local.Set("EARTH_ALBEDO", "calculation", "DISABLE").Set("EARTH_ALBEDO", "earth_albedo_factor", 0.3);
  local.Set("EARTH_INFRARED", "calculation", "DISABLE").Set("EARTH_INFRARED", "earth_infrared_temperature_hot_side_K", 250).Set("EARTH_INFRARED", "earth_infrared_temperature_cold_side_K", 240);
  local.Set("ATMOSPHERE", "calculation", "DISABLE").Set("ATMOSPHERE", "logging", "DISABLE").Set("ATMOSPHERE", "model", "STANDARD").Set("ATMOSPHERE", "is_manual_parameter_used", "ENABLE").Set("ATMOSPHERE", "manual_daily_f107", 150).Set("ATMOSPHERE", "manual_average_f107", 150).Set("ATMOSPHERE", "manual_ap", 3).Set("ATMOSPHERE", "air_density_standard_deviation", 0.0).Set("ATMOSPHERE", "nrlmsise00_table_file", "none");
  local.Set("LOCAL_CELESTIAL_INFORMATION", "logging", "DISABLE");
  structure.SetV("KINEMATIC_PARAMETERS", "inertia_tensor_kgm2", {0.2, 0.01, -0.02, 0.01, 0.3, 0.03, -0.02, 0.03, 0.4}).Set("KINEMATIC_PARAMETERS", "mass_kg", 14).SetV("KINEMATIC_PARAMETERS", "center_of_gravity_b_m", {0.01, -0.02, 0.03});
  structure.Set("SURFACES", "number_of_surfaces", "0");
  structure.SetV("RESIDUAL_MAGNETIC_MOMENT", "rmm_constant_b_Am2", {0, 0, 0}).Set("RESIDUAL_MAGNETIC_MOMENT", "rmm_random_walk_speed_Am2", 0.0).Set("RESIDUAL_MAGNETIC_MOMENT", "rmm_random_walk_limit_Am2", 0.0).Set("RESIDUAL_MAGNETIC_MOMENT", "rmm_white_noise_standard_deviation_Am2", 0.0);
}
static int g_n = 0;
static World* g_active = nullptr;  // the attitude registers itself under a unique name: one dynamics at a time
void World::Activate() { if (g_active && g_active != this) g_active->dynamics.reset(); g_active = this; }
World::World(const Settings& s) : set(s) {
  Activate();
  std::string t = "w" + std::to_string(g_n++ % 4) + "_";
  set.sat.Set("SETTING_FILES", "local_environment_file", set.local.Write(t + "local.ini")).Set("SETTING_FILES", "structure_file", set.structure.Write(t + "structure.ini"));
  cfg.initialize_base_file_name_ = set.base.Write(t + "base.ini");
  cfg.main_logger_ = new s2e::logger::Logger("x.csv", "x", "x", false, false);
  cfg.number_of_simulated_spacecraft_ = 1; cfg.spacecraft_file_list_ = {set.sat.Write(t + "sat.ini")};
  cfg.number_of_simulated_ground_station_ = 0; cfg.gnss_file_ = set.gnss.Write(t + "gnss.ini");
  global.reset(new s2e::environment::GlobalEnvironment(&cfg));
  global->Reset();
  local.reset(new s2e::environment::LocalEnvironment(&cfg, global.get(), 0));
  structure.reset(new s2e::spacecraft::Structure(&cfg, 0));
  dynamics.reset(new s2e::dynamics::Dynamics(&cfg, &global->GetSimulationTime(), local.get(), 0, structure.get()));
}
World::~World() { if (g_active == this) g_active = nullptr; dynamics.reset(); structure.reset(); local.reset(); global.reset(); }
void World::Place(const V3& pos_i, const V3& vel_i, const Quat& q, const V3& w) {
  set.sat.Set("ORBIT", "initial_position_i_m", pos_i).Set("ORBIT", "initial_velocity_i_m_s", vel_i);
  std::ofstream(cfg.spacecraft_file_list_[0]) << set.sat.Text();
  Activate(); dynamics.reset();
  dynamics.reset(new s2e::dynamics::Dynamics(&cfg, &global->GetSimulationTime(), local.get(), 0, structure.get()));
  global->Update();
  dynamics->SetAttitude().SetQuaternion_i2b(q); dynamics->SetAttitude().SetAngularVelocity_b_rad_s(w);
  local->Update(dynamics.get(), &global->GetSimulationTime());
}
void World::Tick() { global->Update(); dynamics->ClearForceTorque(); dynamics->Update(&global->GetSimulationTime(), &local->GetCelestialInformation()); local->Update(dynamics.get(), &global->GetSimulationTime()); }

static std::map<int, std::array<double, 6>> g_bodies;
void SetBody(const std::string& name, const V3& p, const V3& v) {
  int id = stub::IdOf(name);
  g_bodies[id] = {p[0] / 1e3, p[1] / 1e3, p[2] / 1e3, v[0] / 1e3, v[1] / 1e3, v[2] / 1e3};
  stub::g_ephemeris = [](int t, int o, double et, double* s) {
    double a[6], b[6];
    auto it = g_bodies.find(t); auto io = g_bodies.find(o);
    if (t == o) { for (int i = 0; i < 6; i++) s[i] = 0; return; }
    if (it != g_bodies.end()) { for (int i = 0; i < 6; i++) s[i] = it->second[i]; if (io != g_bodies.end()) for (int i = 0; i < 6; i++) s[i] -= io->second[i]; return; }
    stub::BodyState(t, et, a); stub::BodyState(o, et, b); for (int i = 0; i < 6; i++) s[i] = a[i] - b[i];
  };
}
void ClearBodies() { g_bodies.clear(); stub::Reset(); }

Rot RotOf(double x, double y, double z, double w) {
  // frame conversion: v' = C v with C = (w^2 - |e|^2) I + 2 e e^T - 2 w [e x]
  Rot r; double e[3] = {x, y, z}, k = w * w - x * x - y * y - z * z;
  double c[3][3] = {{0, -z, y}, {z, 0, -x}, {-y, x, 0}};
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r.m[i][j] = (i == j ? k : 0) + 2 * e[i] * e[j] - 2 * w * c[i][j];
  return r;
}
V3 Mul(const Rot& r, const V3& v) { V3 o; for (int i = 0; i < 3; i++) o[i] = r.m[i][0] * v[0] + r.m[i][1] * v[1] + r.m[i][2] * v[2]; return o; }
V3 MulT(const Rot& r, const V3& v) { V3 o; for (int i = 0; i < 3; i++) o[i] = r.m[0][i] * v[0] + r.m[1][i] * v[1] + r.m[2][i] * v[2]; return o; }
V3 Cross(const V3& a, const V3& b) { return MakeV(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]); }
const std::vector<Quat>& Rotations() {
  static std::vector<Quat> r;
  if (r.empty()) {
    const double h = std::sqrt(0.5);
    auto add = [&](double x, double y, double z, double w) { double n = std::sqrt(x * x + y * y + z * z + w * w); r.push_back(Quat(x / n, y / n, z / n, w / n)); };
    add(0, 0, 0, 1); add(h, 0, 0, h); add(0, h, 0, h); add(0, 0, -h, h); add(1, 0, 0, 0); add(0, 1, 0, 0); add(0, 0, 1, 0); add(0.5, 0.5, 0.5, 0.5);
    add(0.1, -0.2, 0.3, 0.9); add(-0.4, 0.5, -0.1, 0.7); add(0.6, 0.3, -0.7, -0.2); add(0.2, -0.9, 0.1, 0.05);
  }
  return r;
}
const std::vector<V3>& Directions26() {
  static std::vector<V3> d;
  if (d.empty()) for (int x = -1; x <= 1; x++) for (int y = -1; y <= 1; y++) for (int z = -1; z <= 1; z++) if (x || y || z) d.push_back(Unit(MakeV(x, y, z)));
  return d;
}
}  // namespace env
