// Log columns: the name of every column says what is in it - quantity, frame, axis and unit.
#include <components/ideal/angular_velocity_observer.hpp>
#include <components/ideal/attitude_observer.hpp>
#include <components/ideal/force_generator.hpp>
#include <components/ideal/orbit_observer.hpp>
#include <components/ideal/torque_generator.hpp>
#include <components/real/aocs/gnss_receiver.hpp>
#include <components/real/aocs/gyro_sensor.hpp>
#include <components/real/aocs/magnetometer.hpp>
#include <components/real/aocs/magnetorquer.hpp>
#include <components/real/aocs/reaction_wheel.hpp>
#include <components/real/aocs/star_sensor.hpp>
#include <components/real/aocs/sun_sensor.hpp>
#include <components/real/communication/ground_station_calculator.hpp>
#include <components/real/mission/telescope.hpp>
#include <components/real/power/battery.hpp>
#include <components/real/power/pcu_initial_study.hpp>
#include <components/real/power/solar_array_panel.hpp>
#include <components/real/propulsion/simple_thruster.hpp>
#include <disturbances/air_drag.hpp>
#include <disturbances/geopotential.hpp>
#include <disturbances/gravity_gradient.hpp>
#include <disturbances/lunar_gravity_field.hpp>
#include <disturbances/magnetic_disturbance.hpp>
#include <disturbances/solar_radiation_pressure_disturbance.hpp>
#include <disturbances/third_body_gravity.hpp>
#include <dynamics/attitude/attitude_with_cantilever_vibration.hpp>
#include <dynamics/thermal/temperature.hpp>
#include <environment/global/clock_generator.hpp>
#include <cstdarg>
#include <simulation/ground_station/ground_station.hpp>
#include <simulation/spacecraft/spacecraft.hpp>
#include <sstream>
#include "env.hpp"
using namespace mc; using namespace env;
using namespace s2e; using namespace s2e::components;
const char* kProperty = "S10";
const char* kAssumptions = "Names, frames and units are those the plotting scripts of the repository read; a column is found by its name, its position in the row is not judged. Values are printed to six significant digits or more.";
static const double kD = M_PI / 180;
static std::vector<std::string> Split(const std::string& s) { std::vector<std::string> o; std::stringstream t(s); std::string x; while (std::getline(t, x, ',')) o.push_back(x); return o; }
// one element's columns by name
struct Table {
  Path& p; std::string who; std::map<std::string, std::string> m; std::set<std::string> seen;
  Table(Path& path, const std::string& w, const logger::ILoggable& o) : p(path), who(w) { auto h = Split(o.GetLogHeader()), v = Split(o.GetLogValue()); p.Eq((long)h.size(), (long)v.size(), "columns", w.c_str()); for (size_t i = 0; i < h.size() && i < v.size(); i++) { p.Check(!m.count(h[i]), "name-twice", "%s: two columns are called %s", w.c_str(), h[i].c_str()); m[h[i]] = v[i]; } }
  std::string Text(const std::string& n) { auto i = m.find(n); if (i == m.end() && n.size() > 2 && n.substr(n.size() - 2) == "[]") { std::string b = n.substr(0, n.size() - 2); for (const char* u : {"", "[-]"}) if (i == m.end()) i = m.find(b + u); } if (i == m.end()) { p.Fail("no-column", "%s: no column %s", who.c_str(), n.c_str()); } seen.insert(i->first); return i->second; }
  double At(const std::string& n) { return atof(Text(n).c_str()); }
  Table& S(const std::string& n, double want, double rel = 1e-5, double abs = 1e-30) { p.Near(At(n), want, rel * std::fabs(want) + abs, "column", (who + " " + n).c_str()); return *this; }
  Table& V(const std::string& n, const std::string& frame, const std::string& unit, const V3& w, double rel = 1e-5, double abs = 1e-30) { static const char* A[3] = {"_x", "_y", "_z"}; for (int i = 0; i < 3; i++) S(n + "_" + frame + A[i] + "[" + unit + "]", w[i], rel, abs); return *this; }
  Table& Q(const std::string& n, const std::string& frame, const Quat& w) { static const char* A[4] = {"_x", "_y", "_z", "_w"}; for (int i = 0; i < 4; i++) S(n + "_" + frame + A[i], w[i], 1e-5, 1e-9); return *this; }
  ~Table() {}
  void All() { for (auto& e : m) p.Check(seen.count(e.first), "undeclared-column", "%s: column %s is not one of those specified", who.c_str(), e.first.c_str()); }
};
static void Leave();
static World& W(bool fresh = false) {
  Leave();
  static World* w = nullptr; if (fresh) { delete w; w = nullptr; } if (!w) { Settings s; s.sat.Set("ORBIT", "calculation", "ENABLE"); s.local.Set("MAGNETIC_FIELD_ENVIRONMENT", "calculation", "ENABLE").Set("MAGNETIC_FIELD_ENVIRONMENT", "coefficient_file", CORE_DIR_FROM_EXE "/example/settings/environment/magnetic_field/igrf13.coef").Set("ATMOSPHERE", "calculation", "ENABLE").Set("EARTH_ALBEDO", "calculation", "ENABLE").Set("EARTH_ALBEDO", "earth_albedo_factor", 0.27).Set("EARTH_INFRARED", "calculation", "ENABLE");
    s.structure.Set("SURFACES", "number_of_surfaces", "2"); for (int i = 0; i < 2; i++) { std::string k = std::to_string(i); s.structure.Set("SURFACES", "area_" + k + "_m2", 0.5 + i).SetV("SURFACES", "position_" + k + "_b_m", {0.3, -0.2 * i, 0.7}).SetV("SURFACES", "normal_vector_" + k + "_b", {i ? -0.6 : 0.6, i ? 0.0 : 0.8, i ? 0.8 : 0.0}).Set("SURFACES", "reflectivity_" + k, 0.4).Set("SURFACES", "specularity_" + k, 0.3).Set("SURFACES", "air_specularity_" + k, 0.4); }
    s.structure.SetV("RESIDUAL_MAGNETIC_MOMENT", "rmm_constant_b_Am2", {0.04, -0.03, 0.07});
    w = new World(s); } w->Activate(); return *w;
}
static const V3 kR[4] = {MakeV(6.7e6, 4e5, -9e5), MakeV(-3e6, 5.2e6, 3.5e6), MakeV(2e6, -1e6, 7.4e6), MakeV(-4e6, -4.1e6, -3.3e6)};
// spacecraft, sun and moon at one of 4 places and 12 attitudes
static int Scene(Path& p, bool fresh = true, bool shadows = false) {
  int k = p.Choose(4), q = p.Choose(12), light = shadows ? p.Choose(3) : 0; World& w = W(fresh); V3 r = kR[k]; SetBody("SUN", Add(r, Scale(1.45e11, Unit(Add(r, Scale(0.6 * Norm(r), MakeV(0.3, -0.8, 0.52)))))));
  if (light) { double a = light == 1 ? 0 : std::asin(6378136.6 / Norm(r)); V3 u = Unit(r), e = Unit(Cross(u, MakeV(0.3, -0.8, 0.52))); SetBody("SUN", Add(r, Scale(1.45e11, Add(Scale(-std::cos(a), u), Scale(std::sin(a), e))))); } SetBody("MOON", Scale(3.7e8, Unit(MakeV(-1 + k, 2, 0.7))), MakeV(900, 300 - k, -200)); SetBody("EARTH", MakeV(0, 0, 0)); w.Place(r, Scale(7500 / Norm(r), Cross(r, Unit(MakeV(0.2, 0.5 + k, -0.7)))), Rotations()[q], MakeV(0.01 + 0.01 * k, -0.03, 0.02)); return k * 12 + q;
}
static const logger::ILoggable& Log(const logger::ILoggable& o) { return o; }
static const Rot Rtn(const V3& r, const V3& v) { V3 R = Unit(r), N = Unit(Cross(r, v)), T = Cross(N, R); Rot m; for (int i = 0; i < 3; i++) { m.m[0][i] = R[i]; m.m[1][i] = T[i]; m.m[2][i] = N[i]; } return m; }

struct Acc : dynamics::orbit::Orbit { static void Set(dynamics::orbit::Orbit& o, const V3& ri, const V3& re) { o.*(&Acc::spacecraft_position_i_m_) = ri; o.*(&Acc::spacecraft_position_ecef_m_) = re; } };
class Sat : public spacecraft::Spacecraft { public: Sat(const simulation::SimulationConfiguration* c, const environment::GlobalEnvironment* g, int id) : Spacecraft(c, g, id) { components_ = new spacecraft::InstalledComponents; } dynamics::Dynamics& D() { return *dynamics_; } };
struct Stage {
  std::unique_ptr<World> w; std::unique_ptr<Sat> s[2];
  Stage() { ClearBodies(); Settings st; st.base.Set("CELESTIAL_INFORMATION", "rotation_mode(0)", "SIMPLE"); w.reset(new World(st)); w->dynamics.reset(); w->cfg.spacecraft_file_list_.push_back(w->cfg.spacecraft_file_list_[0]); w->cfg.number_of_simulated_spacecraft_ = 2; for (int i = 0; i < 2; i++) s[i].reset(new Sat(&w->cfg, w->global.get(), i)); Ini f; for (int i = 0; i < 3; i++) { std::string k = "GROUND_STATION_" + std::to_string(i); f.Set(k, "latitude_deg", 30.0 - 50 * i).Set(k, "longitude_deg", 20.0 + 70 * i).Set(k, "height_m", 100.0 * i).Set(k, "elevation_limit_angle_deg", 10.0); } w->cfg.ground_station_file_list_ = {f.Write("gs.ini"), f.Write("gs.ini"), f.Write("gs.ini")}; }
  Rot Dcm() const { auto d = w->global->GetCelestialInformation().GetEarthRotation().GetDcmJ2000ToEcef(); Rot r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r.m[i][j] = d[i][j]; return r; }
  void Move(int i, const V3& ecef) { Acc::Set(const_cast<dynamics::orbit::Orbit&>(s[i]->D().GetOrbit()), MulT(Dcm(), ecef), ecef); }
};
static Stage* g_stage = nullptr;
static void Leave() { delete g_stage; g_stage = nullptr; }
static std::string F(const char* f, ...) { char b[300]; va_list a; va_start(a, f); vsnprintf(b, 300, f, a); va_end(a); return b; }
// an SP3 product of satellites that stand still
static V3 Still(int s) { return Scale(26560e3, Unit(MakeV(1 + 0.1 * s, 3 - 0.2 * s, 2 * std::sin(s)))); }
static double StillClock(int s) { return (s - 15) * 1.25e-5; }
static std::string Product(int n, int sats) {
  std::string o = F("#dP2020  6  1  0  0  0.00000000 %7d ORBIT WGS84 FIT MGEX\n## 1734 259200.00000000   900.00000000 56385 0.0000000000000\n", n);
  for (int l = 0; l < 5; l++) { o += l ? "+        " : F("+  %3d   ", sats); for (int i = 17 * l; i < 17 * l + 17; i++) o += i < sats ? F("G%02d", i + 1) : "  0"; o += "\n"; } for (int l = 0; l < 5; l++) { o += "++       "; for (int i = 17 * l; i < 17 * l + 17; i++) o += F("%3d", i < sats ? 2 : 0); o += "\n"; }
  for (const char* c : {"%c M  cc GPS ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc", "%c cc cc ccc ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc", "%f  1.2500000  1.025000000  0.00000000000  0.000000000000000", "%f  0.0000000  0.000000000  0.00000000000  0.000000000000000", "%i    0    0    0    0      0      0      0      0         0", "%i    0    0    0    0      0      0      0      0         0"}) o += std::string(c) + "\n"; for (int i = 0; i < 4; i++) o += "/* comment\n";
  for (int e = 0; e < n; e++) { int m = e * 15; o += F("*  2020  6  1 %2d %2d  0.00000000\n", m / 60, m % 60); for (int s = 0; s < sats; s++) { V3 p = Still(s); o += F("PG%02d%14.6f%14.6f%14.6f%14.6f\n", s + 1, p[0] / 1e3, p[1] / 1e3, p[2] / 1e3, StillClock(s) * 1e6); } }
  return o + "EOF\n";
}

void Register() {
  Scenario("truth", "4 places x 12 attitudes x {sunlight, umbra, penumbra} x 4 updates: orbit, attitude, clock, celestial bodies and local environment", [](Path& p) {
    int sc = Scene(p, true, true); World& w = W(); auto& D = *w.dynamics; w.dynamics->SetAttitude().SetTorque_b_Nm(MakeV(0.003, -0.001, 0.002)); w.dynamics->AddAcceleration_i_m_s2(MakeV(0.1, -0.2, 0.3));
    for (int n = 0; n < 4; n++) { if (n) { w.Tick(); w.dynamics->SetAttitude().SetTorque_b_Nm(MakeV(0.003, -0.001, 0.002)); } auto& o = D.GetOrbit(); auto& a = D.GetAttitude(); V3 r = o.GetPosition_i_m(), v = o.GetVelocity_i_m_s(); Quat q = a.GetQuaternion_i2b(); auto& rot = w.cel().GetEarthRotation(); (void)rot;
      Table(p, "orbit", o).V("spacecraft_position", "i", "m", r).V("spacecraft_position", "ecef", "m", o.GetPosition_ecef_m()).V("spacecraft_velocity", "i", "m/s", v).S("spacecraft_latitude[rad]", o.GetGeodeticPosition().GetLatitude_rad()).S("spacecraft_longitude[rad]", o.GetGeodeticPosition().GetLongitude_rad()).S("spacecraft_altitude[m]", o.GetGeodeticPosition().GetAltitude_m());
      if (n) Table(p, "orbit", o).V("spacecraft_velocity", "b", "m/s", Mul(RotOf(q), v), 1e-5, 1e-3); else Table(p, "orbit", o).V("spacecraft_acceleration", "i", "m/s2", MakeV(0.1, -0.2, 0.3));
      p.Near(Norm(o.GetPosition_ecef_m()), Norm(r), 1e-3, "setup"); p.Near(o.GetGeodeticPosition().GetLongitude_rad(), std::fmod(std::atan2(o.GetPosition_ecef_m()[1], o.GetPosition_ecef_m()[0]) + 2 * M_PI, 2 * M_PI), 1e-9, "setup"); p.Check(Norm(r) - o.GetGeodeticPosition().GetAltitude_m() > 6.35e6, "setup", "altitude");
      V3 om = a.GetAngularVelocity_b_rad_s(); auto& I = w.structure->GetKinematicsParameters().GetInertiaTensor_b_kgm2(); V3 h = I * om; Table(p, "attitude", a).V("spacecraft_angular_velocity", "b", "rad/s", om).Q("spacecraft_quaternion", "i2b", q).V("spacecraft_torque", "b", "Nm", MakeV(0.003, -0.001, 0.002)); if (n) Table(p, "attitude", a).S("spacecraft_total_angular_momentum[Nms]", Norm(h), 1e-4).S("spacecraft_kinematic_energy[J]", Dot(om, h) / 2, 1e-4);
      Table t(p, "clock", w.time()); t.S("elapsed_time[s]", w.time().GetElapsedTime_s()); int y, mo, d, hh, mi; double ss; p.Eq(sscanf(t.Text("time[UTC]").c_str(), "%d/%d/%d %d:%d:%lf", &y, &mo, &d, &hh, &mi, &ss), 6, "column", "time"); p.Eq(y, w.time().GetCurrentUtc().year, "column", "year"); p.Eq(d, w.time().GetCurrentUtc().day, "column", "day");
      Table c(p, "celestial", w.cel()), l(p, "local celestial", w.local->GetCelestialInformation()); auto& lc = w.local->GetCelestialInformation(); for (std::string b : {"EARTH", "SUN", "MOON"}) { std::string s = b; for (auto& x : s) x = tolower(x); c.V(s + "_position", "i", "m", w.cel().GetPositionFromCenter_i_m(b.c_str())).V(s + "_velocity", "i", "m/s", w.cel().GetVelocityFromCenter_i_m_s(b.c_str())); l.V(s + "_position_from_spacecraft", "b", "m", lc.GetPositionFromSpacecraft_b_m(b.c_str())); for (int i = 0; i < 3; i++) l.At(s + "_velocity_from_spacecraft_b_" + "xyz"[i] + std::string("[m/s]")); }
      p.NearV(lc.GetPositionFromSpacecraft_b_m("MOON"), Mul(RotOf(q), Sub(w.cel().GetPositionFromCenter_i_m("MOON"), r)), 3, 2e4, "setup"); auto& E = *w.local;
      Table(p, "sun environment", E.GetSolarRadiationPressure()).S("solar_radiation_pressure_at_spacecraft_position[N/m2]", E.GetSolarRadiationPressure().GetPressure_N_m2()).S("solar_radiation_pressure_at_spacecraft_position[N/m2]", E.GetSolarRadiationPressure().GetPowerDensity_W_m2() / 299792458.0).S("shadow_coefficient_at_spacecraft_position[]", E.GetSolarRadiationPressure().GetShadowCoefficient());
      { double c = E.GetSolarRadiationPressure().GetShadowCoefficient(); p.Outcome(c <= 0 ? "umbra" : c < 1 ? "penumbra" : "lit"); } double rho = E.GetAtmosphere().GetAirDensity_kg_m3(); Table(p, "atmosphere", E.GetAtmosphere()).S("air_density_at_spacecraft_position[kg/m3]", rho);
      Table(p, "magnetic field", E.GetGeomagneticField()).V("geomagnetic_field_at_spacecraft_position", "i", "nT", E.GetGeomagneticField().GetGeomagneticField_i_nT()).V("geomagnetic_field_at_spacecraft_position", "b", "nT", E.GetGeomagneticField().GetGeomagneticField_b_nT());
      Table(p, "albedo", E.GetEarthAlbedo()).S("earth_albedo_factor[]", 0.27).S("earth_albedo_W_m2[]", E.GetEarthAlbedo().GetEarthAlbedoRadiationPower_W_m2()); Table(p, "infrared", E.GetEarthInfrared()).S("earth_infrared_temperature_hot_side_K[]", 250).S("earth_infrared_temperature_cold_side_K[]", 240).S("earth_infrared_W_m2[]", E.GetEarthInfrared().GetEarthInfraredRadiationPower_W_m2()); p.Obs({(double)sc, (double)n}); }
  }, {1});
  for (const char* o : {"umbra", "penumbra", "lit"}) RequireOutcome("truth", o);
  Scenario("disturbances", "4 places x 12 attitudes: drag, radiation pressure, gravity gradient, third bodies, magnetic torque, earth and lunar gravity field", [](Path& p) {
    int sc = Scene(p); World& w = W(); auto& kin = w.structure->GetKinematicsParameters(); Ini f; for (const char* s : {"AIR_DRAG", "SOLAR_RADIATION_PRESSURE_DISTURBANCE", "GRAVITY_GRADIENT", "THIRD_BODY_GRAVITY", "MAGNETIC_DISTURBANCE", "GEOPOTENTIAL"}) f.Set(s, "calculation", "ENABLE").Set(s, "logging", "ENABLE"); f.Set("AIR_DRAG", "wall_temperature_degC", 30).Set("AIR_DRAG", "molecular_temperature_degC", 700).Set("AIR_DRAG", "molecular_weight_g_mol", 18).Set("THIRD_BODY_GRAVITY", "number_of_third_body", 2).Set("THIRD_BODY_GRAVITY", "third_body_name(0)", "SUN").Set("THIRD_BODY_GRAVITY", "third_body_name(1)", "MOON"); std::string path = f.Write("dist.ini");
    using namespace disturbances; auto dr = InitAirDrag(path, w.structure->GetSurfaces(), kin.GetCenterOfGravity_b_m()); auto sp = InitSolarRadiationPressureDisturbance(path, w.structure->GetSurfaces(), kin.GetCenterOfGravity_b_m()); auto gg = InitGravityGradient(path); auto tb = InitThirdBodyGravity(path, w.set.base.Write("base.ini")); auto md = InitMagneticDisturbance(path, w.structure->GetResidualMagneticMoment());
    dr.UpdateIfEnabled(*w.local, *w.dynamics); sp.UpdateIfEnabled(*w.local, *w.dynamics); gg.UpdateIfEnabled(*w.local, *w.dynamics); tb.UpdateIfEnabled(*w.local, *w.dynamics); md.UpdateIfEnabled(*w.local, *w.dynamics); p.Check(Norm(dr.GetForce_b_N()) > 0 || sc % 12, "setup", "no drag");
    Table(p, "drag", dr).V("air_drag_torque", "b", "Nm", dr.GetTorque_b_Nm()).V("air_drag_force", "b", "N", dr.GetForce_b_N()); Table(p, "radiation pressure", sp).V("srp_torque", "b", "Nm", sp.GetTorque_b_Nm()).V("srp_force", "b", "N", sp.GetForce_b_N()); Table(p, "gravity gradient", gg).V("gravity_gradient_torque", "b", "Nm", gg.GetTorque_b_Nm()); Table(p, "third body", static_cast<logger::ILoggable&>(tb)).V("third_body_acceleration", "i", "m/s2", tb.GetAcceleration_i_m_s2()); Table(p, "magnetic", md).V("spacecraft_magnetic_moment", "b", "Am2", MakeV(0.04, -0.03, 0.07)).V("magnetic_disturbance_torque", "b", "Nm", md.GetTorque_b_Nm());
    std::string egm; char b[120]; for (int n = 2; n <= 3; n++) for (int m = 0; m <= n; m++) { snprintf(b, 120, "%d %d %.6e %.6e 0 0\n", n, m, n == 2 && m == 0 ? -4.8e-4 : 1e-6 * (n + m), m ? 2e-6 * m : 0.0); egm += b; } Ini g; g.Set("GEOPOTENTIAL", "calculation", "ENABLE").Set("GEOPOTENTIAL", "logging", "ENABLE").Set("GEOPOTENTIAL", "degree", 3).Set("GEOPOTENTIAL", "coefficients_file_path", WriteFile("egm", egm)); auto gp = InitGeopotential(g.Write("gp.ini")); gp.UpdateIfEnabled(*w.local, *w.dynamics); V3 ai = gp.GetAcceleration_i_m_s2(); p.Check(Norm(ai) > 1e-4, "setup", "no geopotential"); Table(p, "geopotential", gp).V("geopotential_acceleration", "ecef", "m/s2", w.cel().GetEarthRotation().GetDcmJ2000ToEcef() * ai); p.Obs({(double)sc});
  }, {1});
  Scenario("sensors", "4 places x 12 attitudes x component numbers {1,3} x lit or dark: star, sun and magnetic sensors, gyro, observers, GNSS receiver", [](Path& p) {
    int sc = Scene(p), id = p.PickI({1, 3}); bool dark = p.Flag("dark"); World& w = W(); if (dark) { SetBody("SUN", Scale(-1.45e11, Unit(w.dynamics->GetOrbit().GetPosition_i_m()))); w.Tick(); } std::string n = std::to_string(id); environment::ClockGenerator clk; clk.ClearTimerCount(); Quat mq = Rotations()[(sc * 5 + id) % 12]; randomization::global_randomization.SetSeed(77 + sc); Ini f; for (int k = 1; k <= 3; k += 2) { std::string i = std::to_string(k); for (std::string s : {"STAR_SENSOR_", "SUN_SENSOR_", "GYRO_SENSOR_", "MAGNETOMETER_", "GNSS_RECEIVER_"}) f.Set(s + i, "prescaler", 1).SetV(s + i, "quaternion_b2c", {mq[0], mq[1], mq[2], mq[3]});
      f.Set("STAR_SENSOR_" + i, "standard_deviation_orthogonal_direction_rad", 0.001).Set("STAR_SENSOR_" + i, "standard_deviation_sight_direction_rad", 0.002).Set("STAR_SENSOR_" + i, "output_delay_s", 1).Set("STAR_SENSOR_" + i, "output_interval_s", 1); for (const char* b : {"sun", "earth", "moon"}) f.Set("STAR_SENSOR_" + i, std::string(b) + "_exclusion_angle_deg", 30); f.Set("STAR_SENSOR_" + i, "angular_rate_limit_deg_s", 5.0);
      f.Set("SUN_SENSOR_" + i, "field_of_view_deg", 85).Set("SUN_SENSOR_" + i, "white_noise_standard_deviation_deg", 0.1).Set("SUN_SENSOR_" + i, "bias_standard_deviation_deg", 0.1).Set("SUN_SENSOR_" + i, "intensity_lower_threshold_percent", 1); f.Set("GNSS_RECEIVER_" + i, "antenna_model", std::string("SIMPLE")).SetV("GNSS_RECEIVER_" + i, "antenna_position_b_m", {0, 0, 0}).Set("GNSS_RECEIVER_" + i, "antenna_half_width_deg", 60).SetV("GNSS_RECEIVER_" + i, "white_noise_standard_deviation_position_ecef_m", {20, 30, 40}).SetV("GNSS_RECEIVER_" + i, "white_noise_standard_deviation_velocity_ecef_m_s", {1, 2, 3}); }
    for (std::string i : {"1", "3"}) for (auto& u : {std::make_pair(std::string("GYRO_SENSOR"), std::string("rad_s")), std::make_pair(std::string("MAGNETOMETER"), std::string("nT"))}) { std::string s = "SENSOR_BASE_" + u.first + "_" + i; f.SetV(s, "scale_factor_c", {1, 0, 0, 0, 1, 0, 0, 0, 1}).Set(s, "constant_bias_c_" + u.second, MakeV(0, 0, 0)).Set(s, "normal_random_standard_deviation_c_" + u.second, MakeV(1e-4, 1e-4, 1e-4)).Set(s, "random_walk_standard_deviation_c_" + u.second, MakeV(0, 0, 0)).Set(s, "random_walk_limit_c_" + u.second, MakeV(0, 0, 0)).Set(s, "range_to_constant_" + u.second, 1e6).Set(s, "range_to_zero_" + u.second, 2e6); }
    f.Set("COMPONENT_BASE", "prescaler", 1).Set("ATTITUDE_OBSERVER", "error_angle_standard_deviation_deg", 1).Set("ORBIT_OBSERVER", "noise_frame", std::string("INERTIAL")).SetV("ORBIT_OBSERVER", "noise_standard_deviation", {100, 200, 300, 1, 2, 3}); std::string path = f.Write("sensors.ini");
    environment::GnssSatellites off((environment::EarthRotation(environment::EarthRotationMode::kIdle))); auto st = InitStarSensor(&clk, id, path, 1, w.dynamics.get(), w.local.get()); auto su = InitSunSensor(&clk, id, path, &w.local->GetSolarRadiationPressure(), &w.local->GetCelestialInformation()); auto gy = InitGyroSensor(&clk, id, path, 1, w.dynamics.get()); auto mg = InitMagnetometer(&clk, id, path, 1, &w.local->GetGeomagneticField()); auto gn = InitGnssReceiver(&clk, id, path, w.dynamics.get(), &off, &w.time());
    auto ao = InitializeAttitudeObserver(&clk, path, w.dynamics->GetAttitude()); auto oo = InitializeOrbitObserver(&clk, path, w.dynamics->GetOrbit()); auto wo = InitializeAngularVelocityObserver(&clk, f.Write("sensors_w.ini"), 1, w.dynamics->GetAttitude());
    for (int k = 0; k < 3; k++) { clk.TickToComponents(); Table(p, "star sensor", st).Q("stt" + n + "_measured_quaternion", "i2c", st.GetMeasuredQuaternion_i2c()).S("stt" + n + "_error_flag[]", st.GetErrorFlag()); Table(p, "sun sensor", su).V("sun_sensor" + n + "_measured_sun_direction", "c", "-", su.GetMeasuredSunDirection_c(), 1e-5, 1e-9).S("sun_sensor" + n + "_sun_detected_flag[-]", su.GetSunDetectedFlag()); Table(p, "gyro", gy).V("gyro_sensor" + n + "_measured_angular_velocity", "c", "rad/s", gy.GetMeasuredAngularVelocity_c_rad_s()); Table(p, "magnetometer", mg).V("magnetometer" + n + "_measured_magnetic_field", "c", "nT", mg.GetMeasuredMagneticField_c_nT());
      p.NearV(gy.GetMeasuredAngularVelocity_c_rad_s(), Mul(RotOf(mq), w.dynamics->GetAttitude().GetAngularVelocity_b_rad_s()), 3, 1e-3, "setup"); p.NearV(mg.GetMeasuredMagneticField_c_nT(), Mul(RotOf(mq), w.local->GetGeomagneticField().GetGeomagneticField_b_nT()), 3, 1, "setup");
      std::string g = "gnss_receiver" + n + "_"; auto geo = gn.GetMeasuredGeodeticPosition(); auto utc = w.time().GetCurrentUtc(); Table t(p, "gnss receiver", gn); t.V(g + "measured_position", "ecef", "m", gn.GetMeasuredPosition_ecef_m()).V(g + "measured_velocity", "ecef", "m/s", gn.GetMeasuredVelocity_ecef_m_s()).S(g + "measured_latitude[rad]", geo.GetLatitude_rad()).S(g + "measured_longitude[rad]", geo.GetLongitude_rad()).S(g + "measured_altitude[m]", geo.GetAltitude_m()).S(g + "measured_utc_time_year[]", utc.year).S(g + "measured_utc_time_month[]", utc.month).S(g + "measured_utc_time_day[]", utc.day).S(g + "measured_utc_time_hour[]", utc.hour).S(g + "measured_utc_time_min[]", utc.minute).S(g + "measured_utc_time_sec[]", utc.second, 1e-4); bool fix = t.At(g + "satellite_visible_flag[]"); p.Check(t.At(g + "satellite_visible_flag[]") == fix, "column", "fix flag is %s", t.Text(g + "satellite_visible_flag[]").c_str()); p.Eq(fix, Norm(gn.GetMeasuredPosition_ecef_m()) > 0, "column", "fix flag"); t.At(g + "number_of_visible_satellites[]"); p.Outcome(fix ? "fix" : "no fix");
      Table(p, "attitude observer", ao).Q("attitude_observer_quaternion", "i2b", ao.GetQuaternion_i2b()); Table(p, "orbit observer", oo).V("orbit_observer_position", "i", "m", oo.GetPosition_i_m()).V("orbit_observer_velocity", "i", "m/s", oo.GetVelocity_i_m_s()); Table(p, "rate observer", wo).V("angular_velocity_observer_measured_value", "b", "rad/s", wo.GetAngularVelocity_b_rad_s()); p.Outcome(su.GetSunDetectedFlag() ? "sun" : "no sun"); p.Outcome(st.GetErrorFlag() ? "error" : "no error"); }
    p.Obs({(double)sc, (double)id, (double)dark});
  }, {1});
  Scenario("actuators", "4 places x 12 attitudes x component numbers {0,2} x wheel jitter logged or not: reaction wheel, magnetorquer, thruster, force and torque generators over 4 updates", [](Path& p) {
    int sc = Scene(p), id = p.PickI({0, 2}); bool jit = p.Flag("jitter"); World& w = W(); std::string n = std::to_string(id); environment::ClockGenerator clk; clk.ClearTimerCount(); Quat mq = Rotations()[(sc * 5 + id + 3) % 12]; Quat q = w.dynamics->GetAttitude().GetQuaternion_i2b(); V3 r = w.dynamics->GetOrbit().GetPosition_i_m(), v = w.dynamics->GetOrbit().GetVelocity_i_m_s(); randomization::global_randomization.SetSeed(3 + sc);
    ReactionWheelJitter j({{1, 2e-4}, {2.5, 1e-4}}, {{1, 3e-5}, {3, 1e-5}}, 1e-3, mq, 300, 0.2, 2, sc & 1); ReactionWheel rw(1, &clk, id, 0.1, 2e-3, 0.05, 5000, mq, MakeV(0, 0, 0), 0, 0.05, {0.001}, 0.1, jit, jit, 1, j, true, 100 + 3 * sc);
    math::Vector<3> z(0.0), hi(0.6), lo(-0.6); Magnetorquer mt(1, &clk, id, mq, math::MakeIdentityMatrix<3>(), hi, lo, z, 0.1, z, z, z, &w.local->GetGeomagneticField());
    V3 dir = Unit(MakeV(1 + sc, -2, 0.5 * id + 0.3)), at = MakeV(0.3, -0.1, 0.7); SimpleThruster th(1, &clk, id, at, dir, 0.8, 0, 0, 0, 0, 0.1, w.structure.get(), w.dynamics.get()); ForceGenerator fg(1, &clk, 0.02, 0.03, w.dynamics.get()); TorqueGenerator tg(1, &clk, 0.02, 0.03, w.dynamics.get()); Table(p, "reaction wheel", rw).S("rw" + n + "_angular_velocity_upper_limit[rpm]", 5000);
    for (int k = 0; k < 4; k++) { double cmd = (k & 1 ? -1 : 1) * 0.01 * (k + 1), lim = 4000 - 500 * k; rw.SetVelocityLimit_rpm(lim); rw.SetTargetTorque_rw_Nm(cmd); V3 mo = MakeV(0.1 * k, -0.2, 0.3 + 0.05 * (sc % 4)), of = MakeV(1 + k, -2, 3), ot = MakeV(0.1, 0.2 * k, -0.3); mt.SetOutputMagneticMoment_c_Am2(mo); th.SetDuty(0.25 * k); fg.SetForce_b_N(of); tg.SetTorque_b_Nm(ot); double w0 = rw.GetAngularVelocity_rad_s(); clk.TickToComponents(); double om = rw.GetAngularVelocity_rad_s();
      if (jit) rw.FastUpdate(); Table a(p, "reaction wheel", rw); a.S("rw" + n + "_angular_velocity[rad/s]", om).S("rw" + n + "_angular_velocity[rpm]", om * 30 / M_PI).S("rw" + n + "_angular_velocity_upper_limit[rpm]", lim).S("rw" + n + "_target_angular_acceleration[rad/s2]", cmd / 2e-3).S("rw" + n + "_angular_acceleration[rad/s2]", (om - w0) / 0.1, 1e-4, 1e-4); p.Check(om != w0 || !k, "setup", "wheel at rest");
      if (jit) { V3 f = Mul(RotOf(mq), rw.GetJitterForce_b_N()), t = Mul(RotOf(mq), Sub(Scale(-2e-3 * (om - w0) / 0.1, MulT(RotOf(mq), MakeV(0, 0, 1))), rw.GetOutputTorque_b_Nm())); double sf = 1e-5 * Norm(f) + 1e-12; p.Check(Norm(f) > 0 && std::fabs(f[2]) < 1e-9 * Norm(f), "setup", "jitter force along the wheel axis"); a.V("rw" + n + "_jitter_force", "c", "N", f, 1e-5, sf).V("rw" + n + "_jitter_torque", "c", "Nm", t, 1e-4, 2e-8); p.Outcome("jitter"); } else p.Outcome("no jitter"); a.All();
      V3 mb = MulT(RotOf(mq), mo), B = Scale(1e-9, w.local->GetGeomagneticField().GetGeomagneticField_b_nT()); Table(p, "magnetorquer", mt).V("magnetorquer" + n + "_output_magnetic_moment", "b", "Am2", mb, 1e-5, 1e-9).V("magnetorquer" + n + "_output_torque", "b", "Nm", Cross(mb, B), 1e-5, 1e-5 * Norm(mb) * Norm(B)).All();
      double du = Norm(th.GetOutputThrust_b_N()); if (k == 3) p.Check(du > 0.1, "setup", "no thrust"); V3 f = Scale(du, dir), tq = Cross(Sub(at, w.structure->GetKinematicsParameters().GetCenterOfGravity_b_m()), f); Table(p, "thruster", th).V("simple_thruster" + n + "_output_thrust", "b", "N", f, 1e-5, 1e-9).V("simple_thruster" + n + "_output_torque", "b", "Nm", tq, 1e-5, 1e-6).S("simple_thruster" + n + "_output_thrust_norm[N]", du, 1e-5, 1e-9).All();
      V3 gf = fg.GetGeneratedForce_b_N(), gi = MulT(RotOf(q), gf), gr = Mul(Rtn(r, v), gi); double e = 1e-5 * Norm(gf); p.Check(Norm(Sub(gf, of)) > 1e-4, "setup", "force without error"); Table(p, "force generator", Log(fg)).V("ideal_force_generator_ordered_force", "b", "N", of, 1e-5, e).V("ideal_force_generator_generated_force", "b", "N", gf, 1e-5, e).V("ideal_force_generator_generated_force", "i", "N", gi, 1e-5, e).V("ideal_force_generator_generated_force", "rtn", "N", gr, 1e-5, e).All();
      V3 gt = tg.GetGeneratedTorque_b_Nm(); p.Check(Norm(Sub(gt, ot)) > 1e-4, "setup", "torque without error"); Table(p, "torque generator", Log(tg)).V("ideal_torque_generator_ordered_torque", "b", "Nm", ot, 1e-5, 1e-9).V("ideal_torque_generator_generated_torque", "b", "Nm", gt, 1e-5, 1e-9).All(); }
    p.Obs({(double)sc, (double)id, (double)jit});
  }, {1});
  for (const char* o : {"jitter", "no jitter"}) RequireOutcome("actuators", o);
  Scenario("power", "4 places x 12 attitudes x panel numbers {0,2} x lit or dark x 3 depths of discharge: battery, power unit and solar panels over 12 updates", [](Path& p) {
    int sc = Scene(p), id = p.PickI({0, 2}); bool dark = p.Flag("dark"); double d0 = p.Pick({10, 30, 60}); World& w = W(); if (dark) { SetBody("SUN", Scale(-1.45e11, Unit(w.dynamics->GetOrbit().GetPosition_i_m()))); w.Tick(); } environment::ClockGenerator clk; clk.ClearTimerCount(); auto &srp = w.local->GetSolarRadiationPressure(); auto& lc = w.local->GetCelestialInformation();
    std::vector<std::unique_ptr<SolarArrayPanel>> s; for (int i = 0; i < 2; i++) s.emplace_back(new SolarArrayPanel(1, &clk, id + i, 4, 3, 0.003, MakeV(1 - 2 * i, 0.2, 0.1), 0.3, 0.95, &srp, &lc, 0.1)); Battery b(1, &clk, 4, 2, 3, {4.1, -0.005, 0, 0, 0, 0}, d0, 0.5, 16.4, 0.05, 0.1); PcuInitialStudy u(1, &clk, {s[0].get(), s[1].get()}, &b, 0.1); double dod = d0, gen = 0;
    for (int k = 0; k < 12; k++) { clk.TickToComponents(); V3 sun = Unit(lc.GetPositionFromSpacecraft_b_m("SUN")); for (int i = 0; i < 2; i++) { double g = srp.GetPowerDensity_W_m2() * std::max(0.0, Dot(Unit(MakeV(1 - 2 * i, 0.2, 0.1)), sun)) * 0.003 * 12 * 0.3 * 0.95, got = s[i]->GetPowerGeneration_W(); Table t(p, "solar panel", *s[i]); t.S("sap" + std::to_string(id + i) + "_generated_power[W]", got, 1e-5, 1e-9); if (!dark && std::fabs(Norm(MakeV(1, 0.2, 0.1)) - 1) > 1e-9) p.Check(got > 0 == g > 0, "setup", "panel %d gives %g", i, got); gen += got; t.All(); }
      Table tb(p, "battery", b), tu(p, "power unit", Log(u)); double d = tb.At("battery_dod[%]"), V = tb.At("battery_voltage[V]"); p.Near(V, b.GetVoltage_V(), 1e-5 * V, "column"); p.Check(V > 8 && V < 20 && std::fabs(d - dod) < 0.1 && d > 5 && d < 65, "column", "battery: depth of discharge %g after %g, voltage %g", d, dod, V); if (!k) p.Near(d, d0, 0.1, "column", "depth of discharge in per cent"); dod = d; tb.S("battery_dod[%]", d).S("battery_voltage[V]", V).All(); double c = tu.At("pcu_initial_study_power_consumption[W]"), bus = tu.At("pcu_initial_study_bus_voltage[V]"); p.Check(c > 0.5 && bus > 8 && bus < 40 && c != bus, "column", "power unit: consumption %g bus %g", c, bus); tu.S("pcu_initial_study_power_consumption[W]", c).S("pcu_initial_study_bus_voltage[V]", bus).All(); p.Outcome(gen > 0 ? "sun" : "no sun"); p.Obs({d, V, c, bus}); }
  }, {1});
  for (const char* o : {"sun", "no sun"}) RequireOutcome("power", o);
  Scenario("telescope", "4 places x 12 attitudes x mountings 4 x sight on sun, moon, earth or ground x forbidden angles 8 patterns x logged stars {0,2}", [](Path& p) {
    int sc = Scene(p, false), m = p.Choose(4), tgt = p.Choose(3), pat = p.Choose(8), st = p.PickI({0, 2}); World& w = W(); V3 r = w.dynamics->GetOrbit().GetPosition_i_m(), v = w.dynamics->GetOrbit().GetVelocity_i_m_s(); const char* B[3] = {"SUN", "EARTH", "MOON"}; auto& lc = w.local->GetCelestialInformation(); Quat mq = Rotations()[(sc + 3 * m) % 12]; V3 c = Unit(MakeV(1, std::tan((m - 1.5) * 0.03), std::tan((1 + m) * 0.02)));
    V3 bc[3]; for (int i = 0; i < 3; i++) bc[i] = Sub(i == 1 ? MakeV(0, 0, 0) : w.cel().GetPositionFromCenter_i_m(B[i]), r); // attitude that puts the target at a known place of the image
    Rot a; { V3 x = c, y = Unit(Cross(MakeV(0.1, 0.2, 1), x)), z = Cross(x, y), X = Unit(bc[tgt]), Y = Unit(Cross(MakeV(0.3, -0.5, 0.4), X)), Z = Cross(X, Y); for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) a.m[i][k] = x[i] * X[k] + y[i] * Y[k] + z[i] * Z[k]; } // i -> c
    math::Matrix<3, 3> dm(0.0); Rot M = RotOf(mq); for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) for (int l = 0; l < 3; l++) dm[i][k] += M.m[l][i] * a.m[l][k]; Quat q = math::Quaternion::ConvertFromDcm(dm); w.Place(r, v, q, MakeV(0, 0, 0));
    static environment::HipparcosCatalogue* none = [] { auto* h = new environment::HipparcosCatalogue(3, "none"); h->IsCalcEnabled = false; return h; }(); static environment::HipparcosCatalogue* cat = [] { std::string t = "id,vmag,ra,de\n"; for (int i = 0; i < 40; i++) { char b[80]; snprintf(b, 80, "%d,%.2f,%.3f,%.3f\n", 1000 + i, -1 + 0.1 * i, 9.0 * i, -87 + 4.4 * i); t += b; } auto* h = new environment::HipparcosCatalogue(7, WriteFile("hip.csv", t)); h->ReadContents(WriteFile("hip.csv", t), ','); h->IsCalcEnabled = true; return h; }();
    double an[3], lim[3]; for (int i = 0; i < 3; i++) { an[i] = std::acos(std::max(-1.0, std::min(1.0, Dot(Mul(a, Unit(bc[i])), MakeV(1, 0, 0))))); lim[i] = std::max(0.001, an[i] + ((pat >> i & 1) ? 0.02 : -0.02)); } environment::ClockGenerator clk; clk.ClearTimerCount(); int nx = 200, ny = 120; double fx = 0.003, fy = 0.004; Telescope t(&clk, mq, lim[0], lim[1], lim[2], nx, ny, fx, fy, st, &w.dynamics->GetAttitude(), st ? cat : none, &lc, &w.dynamics->GetOrbit()); clk.TickToComponents();
    Table o(p, "telescope", Log(t)); o.S("telescope_sun_in_exclusion_angle[]", an[0] < lim[0]).S("telescope_earth_in_exclusion_angle[]", an[1] < lim[1]).S("telescope_moon_in_exclusion_angle[]", an[2] < lim[2]); const char* N[3] = {"sun", "earth", "moon"};
    auto image = [&](const V3& d, double* e) { V3 g = Unit(d); if (g[0] <= 0 || std::fabs(g[2] / g[0]) > std::tan(nx * fx / 2) || std::fabs(g[1] / g[0]) > std::tan(ny * fy / 2)) { e[0] = e[1] = -1; return false; } e[0] = nx / 2.0 * (1 + g[2] / g[0] / std::tan(nx * fx / 2)); e[1] = ny / 2.0 * (1 + g[1] / g[0] / std::tan(ny * fy / 2)); return true; };
    for (int i = 0; i < 3; i++) { double e[2]; bool in = image(Mul(a, bc[i]), e); for (int k = 0; k < 2; k++) o.S(std::string("telescope_") + N[i] + "_position_img(" + std::to_string(k) + ")[pix]", e[k], 1e-4, 2e-2); if (i == tgt) { p.Check(in, "setup", "target outside"); p.Outcome(N[i]); } }
    o.At("telescope_ground_position_x[pix]"); o.At("telescope_ground_position_y[pix]"); o.seen.insert("telescope_ground_position_x[pix]"); o.seen.insert("telescope_ground_position_y[pix]");
    for (int i = 0; i < st; i++) { std::string k = " (" + std::to_string(i) + ")"; double hid = o.At("telescope_hipparcos_id" + k + "[ ]"), mag = o.At("telescope_visible_magnitude" + k + "[ ]"); o.S("telescope_hipparcos_id" + k + "[ ]", hid).S("telescope_visible_magnitude" + k + "[ ]", mag); if (hid > 0) { p.Near(mag, -1 + 0.1 * (hid - 1000), 1e-4, "column", "magnitude of the star"); double ra = 9.0 * (hid - 1000) * kD, de = (-87 + 4.4 * (hid - 1000)) * kD, e[2]; image(Mul(a, MakeV(cos(de) * cos(ra), cos(de) * sin(ra), sin(de))), e); for (int l = 0; l < 2; l++) o.S("telescope_star_position" + k + "_img(" + std::to_string(l) + ")[pix]", e[l], 1e-4, 2e-2); p.Outcome("star"); } else for (int l = 0; l < 2; l++) o.S("telescope_star_position" + k + "_img(" + std::to_string(l) + ")[pix]", -1); }
    o.All(); p.Obs({(double)sc, (double)m, (double)tgt, (double)pat});
  }, {1});
  for (const char* o : {"sun", "earth", "moon", "star"}) RequireOutcome("telescope", o);
  Scenario("stations", "3 stations x 2 spacecraft each above every station or none x 4 places in the beam x 2 link budgets: flags, position and link columns", [](Path& p) {
    if (!g_stage) { g_stage = new Stage; } Stage& t = *g_stage; int g = p.Choose(3), a = p.Choose(4), b = p.Choose(4), k = p.Choose(4); bool rich = p.Flag("budget"); t.w->Activate(); ground_station::GroundStation gs(&t.w->cfg, g);
    auto at = [&](int s, int off) { ground_station::GroundStation o(&t.w->cfg, s % 3); V3 u = Unit(o.GetPosition_ecef_m()), e = Unit(Cross(MakeV(0, 0, 1), u)); return Add(Scale(6.378e6 + 7e5, u), Scale(2e5 * off, e)); }; for (int i = 0; i < 2; i++) { int s = i ? b : a; t.Move(i, s == 3 ? Scale(-1, at(g, k)) : at(s, k)); gs.Update(t.w->global->GetCelestialInformation().GetEarthRotation(), *t.s[i]); }
    std::string h = "ground_station" + std::to_string(g) + "_sc"; Table(p, "ground station", gs).S(h + "0_visible_flag[]", a == g).S(h + "1_visible_flag[]", b == g).V("ground_station_position", "eci", "m", MulT(t.Dcm(), gs.GetPosition_ecef_m()), 1e-5, 50).All(); p.Outcome(a == g || b == g ? "seen" : "hidden");
    AntennaParameters x{rich ? 30.0 : 3.0, 0, 0, AntennaGainModel::kIsotropic, AntennaRadiationPattern()}; Antenna tx(1, Quat(0, 0, 0, 1), true, false, 2200, 1e5, 1, x, 0, x), rx(2, Quat(0, 0, 0, 1), false, true, 2200, 1e5, 1, x, 200, x); GroundStationCalculator c(1, 2, 0.5, 0.25, 4, 1, 2, 3, 1e5 * (1 + k)); c.Update(*t.s[0], tx, gs, rx); double m = c.GetReceiveMargin_dB(), r = c.GetMaxBitrate_Mbps(); if (a == g) { p.Check(m > -300 && r > 0, "setup", "no link: %g %g", m, r); double per = 10 * std::log10(r * 1e6 / 1e5); p.Near(per, m - 3, 1e-3, "setup", "bit rate and margin"); p.Outcome("link"); } Table(p, "link", c).S("gs_calculator_max_bitrate[Mbps]", r, 1e-5, 1e-9).S("gs_calculator_receive_margin[dB]", m, 1e-5, 1e-6).All();
    p.Obs({(double)g, (double)a, (double)b, (double)k});
  }, {1});
  for (const char* o : {"seen", "hidden", "link"}) RequireOutcome("stations", o);
  Scenario("thermal", "4 places x 12 attitudes x lit or dark x which of 3 nodes is the boundary or none: temperatures and heat flows of every node by number and name", [](Path& p) {
    using namespace dynamics::thermal; int sc = Scene(p), bd = p.Choose(4); bool dark = p.Flag("dark"); World& w = W(); if (dark) { V3 r = w.dynamics->GetOrbit().GetPosition_i_m(), v = w.dynamics->GetOrbit().GetVelocity_i_m_s(); SetBody("SUN", Scale(-1.45e11, Unit(r))); w.Place(r, v, Rotations()[sc % 12], MakeV(0, 0, 0)); }
    static const char* N[3] = {"bus", "panel_x", "tank"}; std::vector<Node> nd; std::vector<Heatload> hl; std::vector<std::vector<double>> C(3, std::vector<double>(3, 0.0)), R = C; C[0][1] = C[1][0] = 0.4; C[1][2] = C[2][1] = 0.2; V3 nr[3] = {MakeV(1, 0.2, 0), MakeV(-1, -0.3, 0.4), MakeV(0, -1, -1)}; for (int i = 0; i < 3; i++) { nd.push_back(Node(i, N[i], i == bd ? NodeType::kBoundary : NodeType::kDiffusive, 0, 270 + 10 * i, 800 + 100 * i, 0.5 + 0.1 * i, 0.6 + 0.1 * i, 0.3 + 0.2 * i, Unit(nr[i]))); hl.push_back(Heatload(i, {0, 1e7}, {3.0 + 2 * i, 3.0 + 2 * i})); }
    Temperature t(C, R, nd, hl, {}, {}, 3, 0.05, &w.local->GetSolarRadiationPressure(), &w.local->GetEarthAlbedo(), &w.local->GetEarthInfrared(), true, SolarCalcSetting::kEnable, false); double tm = 0;
    for (int k = 0; k < 3; k++) { tm += 0.1; t.Propagate(&w.local->GetCelestialInformation(), tm); auto n = t.GetNodes(); Table o(p, "thermal", t); for (int i = 0; i < 3; i++) if (i != bd) { std::string e = "_" + std::to_string(i) + " (" + N[i] + ")"; double s = n[i].GetSolarRadiation_W(), a = n[i].GetAlbedoRadiation_W(), r = n[i].GetEarthInfraredRadiation_W(); p.Near(n[i].GetTemperature_K(), 270 + 10 * i, 2, "setup"); o.S("temp" + e + "[deg]", n[i].GetTemperature_K() - 273.15, 1e-5, 1e-5).S("heat" + e + "[W]", 3 + 2 * i + s + a + r, 1e-4, 1e-6).S("solar" + e + "[W]", s, 1e-5, 1e-12).S("albedo" + e + "[W]", a, 1e-5, 1e-12).S("earthIR" + e + "[W]", r, 1e-5, 1e-12); p.Outcome(s > 0 ? "solar" : "no solar"); p.Outcome(a > 0 ? "albedo" : "no albedo"); p.Outcome(r > 0 ? "infrared" : "no infrared"); p.Obs({s, a, r}); } o.All(); }
  }, {1});
  for (const char* o : {"solar", "no solar", "albedo", "infrared"}) RequireOutcome("thermal", o);
  Scenario("gnss satellites", "products of {1,7,20,32} satellites x 6 instants: position and clock of every GPS satellite under its number", [](Path& p) {
    int n = p.PickI({1, 7, 20, 32}), k = p.Choose(6); environment::EarthRotation idle(environment::EarthRotationMode::kIdle); environment::GnssSatellites g(idle, true, true); double t0 = 3600 + 700 * k; g.Initialize({gnss::Sp3FileReader(WriteFile("s10_" + std::to_string(n) + ".sp3", Product(13, n)))}, time_system::EpochTime(time_system::DateTime(2020, 6, 1, (int)t0 / 3600, (int)t0 / 60 % 60, (int)t0 % 60)));
    Table o(p, "gnss satellites", g); for (int i = 0; i < 32; i++) { std::string h = "GPS" + std::to_string(i) + "_"; if (i < n) { o.V(h + "position", "ecef", "m", Still(i), 1e-7, 0.01).S(h + "clock_offset[s]", StillClock(i), 1e-5, 1e-13); p.Outcome("satellite"); } else { for (const char* a : {"x", "y", "z"}) o.seen.insert(h + "position_ecef_" + a + "[m]"); o.seen.insert(h + "clock_offset[s]"); p.Outcome("absent"); } } o.All(); p.Obs({(double)n, (double)k});
  }, {1});
  for (const char* o : {"satellite", "absent"}) RequireOutcome("gnss satellites", o);
  Scenario("cantilever", "12 attitudes x 4 torques: vibration angle and rate with the rigid attitude, over 5 updates", [](Path& p) {
    int q = p.Choose(12), k = p.Choose(4); Leave(); std::unique_ptr<World> w; { Settings s; s.sat.Set("ORBIT", "calculation", "ENABLE").Set("ATTITUDE", "propagate_mode", "CANTILEVER_VIBRATION"); for (int i = 0; i < 9; i++) s.structure.Set("CANTILEVER_PARAMETERS", "inertia_tensor_cantilever_kgm2(" + std::to_string(i) + ")", i % 4 == 0 ? 0.02 + 0.004 * i : 0.0); s.structure.Set("CANTILEVER_PARAMETERS", "damping_ratio_cantilever", 0.02).Set("CANTILEVER_PARAMETERS", "intrinsic_angular_velocity_cantilever_rad_s", 0.6); w.reset(new World(s)); }
    w->Place(kR[k], Scale(7500 / Norm(kR[k]), Cross(kR[k], MakeV(0.6, 0.8, 0))), Rotations()[q], MakeV(0.001, 0.002, -0.001)); V3 e0 = MakeV(0, 0, 0), v0 = e0; double t0 = 0;
    for (int n = 0; n < 5; n++) { w->global->Update(); w->dynamics->ClearForceTorque(); w->dynamics->SetAttitude().AddTorque_b_Nm(MakeV(0.002 * (k - 1), 0.001, -0.003)); w->dynamics->Update(&w->time(), &w->local->GetCelestialInformation()); auto& a = w->dynamics->GetAttitude(); Table o(p, "cantilever attitude", a); o.Q("spacecraft_quaternion", "i2b", a.GetQuaternion_i2b()).V("spacecraft_angular_velocity", "b", "rad/s", a.GetAngularVelocity_b_rad_s(), 1e-5, 1e-9); V3 e, v; for (int i = 0; i < 3; i++) { std::string x(1, "xyz"[i]); e[i] = o.At("euler_angular_cantilever_c_" + x + "[rad]"); v[i] = o.At("angular_velocity_cantilever_c_" + x + "[rad/s]"); }
      double t = w->time().GetElapsedTime_s(), h = t - t0; if (n > 0) { p.Check(Norm(e) > 0 && Norm(v) > 0, "column", "no vibration"); V3 d = Scale(1 / h, Sub(e, e0)), m = Scale(0.5, Add(v, v0)); p.NearV(d, m, 3, 0.05 * Norm(m) + 1e-12, "column", "vibration rate is the derivative of its angle"); p.Outcome("vibrates"); } e0 = e; v0 = v; t0 = t; p.Obs({(double)q, (double)k, e[0], v[0]}); }
  }, {1});
  RequireOutcome("cantilever", "vibrates");
  for (const char* o : {"fix", "no fix", "sun", "no sun", "error", "no error"}) RequireOutcome("sensors", o);
}
