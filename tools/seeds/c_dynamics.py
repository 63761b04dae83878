bug("attitude-remainder-step", "T01", [("src/dynamics/attitude/attitude_rk4.cpp", "  RungeKuttaOneStep(current_propagation_time_s_, end_time_s - current_propagation_time_s_);\n", "  RungeKuttaOneStep(current_propagation_time_s_, propagation_step_s_);\n")],
 "an update interval that is not a multiple of the integration step", "the attitude turns for longer than the interval", "ALL",
 r'''#include <dynamics/attitude/attitude_rk4.hpp>
#include <cmath>
using namespace s2e;
int main() { math::Matrix<3, 3> I = math::MakeIdentityMatrix<3>(); math::Vector<3> w(0.0), t(0.0); w[2] = 0.1; dynamics::attitude::AttitudeRk4 a(w, math::Quaternion(0, 0, 0, 1), I, t, 0.1, "demo"); a.Propagate(0.25); double angle = 2 * std::asin(a.GetQuaternion_i2b()[2]); return std::fabs(angle - 0.025) < 1e-9 ? 0 : 1; }
''')
bug("quaternion-from-dcm-half-turn", "M02", [("src/math_physics/math/quaternion.cpp", "q[2] = (dcm[0][2] + dcm[2][0]) / (4 * q[0]);", "q[2] = (dcm[0][2] - dcm[2][0]) / (4 * q[0]);")],
 "a direction cosine matrix close to a half turn about an axis between x and z", "the quaternion of such a matrix describes another rotation", "src/math_physics/math/quaternion.cpp src/math_physics/math/vector.cpp",
 r'''#include <math_physics/math/quaternion.hpp>
#include <cmath>
using namespace s2e::math;
int main() { double n = std::sqrt(0.64 + 0.01 + 0.16 + 0.04); Quaternion q(0.8 / n, 0.1 / n, 0.4 / n, 0.2 / n); Quaternion r = Quaternion::ConvertFromDcm(q.ConvertToDcm()); double s = r[0] < 0 ? -1 : 1; for (int i = 0; i < 4; i++) if (std::fabs(s * r[i] - q[i]) > 1e-9) return 1; return 0; }
''')
bug("retrograde-elements", "O01", [("src/math_physics/orbit/orbital_elements.cpp", "inclination_rad_ = acos(h_direction[2]);", "inclination_rad_ = acos(fabs(h_direction[2]));")],
 "a retrograde orbit", "a retrograde orbit is described as the prograde one of the mirrored inclination", "ALL",
 r'''#include <math_physics/orbit/orbital_elements.hpp>
#include <cmath>
using namespace s2e;
int main() { double mu = 3.986004418e14; math::Vector<3> r(0.0), v(0.0); r[0] = 7e6; double s = std::sqrt(mu / 7e6); v[1] = s * std::cos(1.7); v[2] = s * std::sin(1.7); orbit::OrbitalElements e(mu, 0, r, v); return std::fabs(e.GetInclination_rad() - 1.7) < 1e-6 ? 0 : 1; }
''')
bug("geodetic-update-keeps-frame", "O03", [("src/math_physics/geodesy/geodetic_position.cpp", "  latitude_rad_ = lat_tmp_rad;\n\n  CalcQuaternionXcxfToLtc();", "  latitude_rad_ = lat_tmp_rad;")],
 "a geodetic position updated from an earth-fixed position", "the local frame stays the one of the earlier position", "ALL",
 r'''#include <math_physics/geodesy/geodetic_position.hpp>
#include <cmath>
using namespace s2e;
int main() { geodesy::GeodeticPosition a(0.1, 0.2, 100), b(0.9, -1.2, 300); a.UpdateFromEcef(b.CalcEcefPosition()); for (int i = 0; i < 4; i++) if (std::fabs(a.GetQuaternionXcxfToLtc()[i] - b.GetQuaternionXcxfToLtc()[i]) > 1e-6) return 1; return 0; }
''')
bug("second-normal-loses-mean", "S09", [("src/math_physics/randomization/normal_randomization.cpp", "    return holder_ * standard_deviation_ + average_;", "    return holder_ * standard_deviation_;")],
 "a distribution whose mean is not zero, every second draw", "every second draw is centred on zero", "src/math_physics/randomization/normal_randomization.cpp src/math_physics/randomization/minimal_standard_linear_congruential_generator.cpp src/math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.cpp",
 r'''#include <math_physics/randomization/normal_randomization.hpp>
#include <cmath>
int main() { s2e::randomization::NormalRand r(50, 1, 12345); for (int i = 0; i < 200; i++) { double x = r; if (std::fabs(x - 50) > 20) return 1; } return 0; }
''', stubs=False)
bug("wheel-stuck-at-lower-limit", "A01", [("src/components/real/aocs/reaction_wheel_ode.cpp", "angular_velocity_rad_s < -1.0 * velocity_limit_rad_s_) {\n    if (angular_acceleration_rad_s2_ < 0.0) {", "angular_velocity_rad_s < -1.0 * velocity_limit_rad_s_) {\n    if (angular_acceleration_rad_s2_ != 0.0) {")],
 "a wheel beyond its negative speed limit that is told to come back", "the wheel never leaves the negative limit", "src/components/real/aocs/reaction_wheel_ode.cpp",
 r'''#include <components/real/aocs/reaction_wheel_ode.hpp>
using namespace s2e::components;
int main() { ReactionWheelOde o(0.1, 100.0, -100.5); o.SetAngularAcceleration_rad_s2(20); double a = o.GetAngularVelocity_rad_s(); for (int i = 0; i < 5; i++) ++o; return o.GetAngularVelocity_rad_s() > a + 5 ? 0 : 1; }
''', stubs=False)
bug("relative-motion-drift-term", "O04", [("src/math_physics/orbit/relative_orbit_models.cpp", "stm[4][3] = -2.0 * sin(n * t);", "stm[4][3] = -2.0 * n * t;")],
 "relative motion with a radial rate over a considerable part of an orbit", "the along-track rate grows without bound", "src/math_physics/orbit/relative_orbit_models.cpp",
 r'''#include <math_physics/orbit/relative_orbit_models.hpp>
#include <cmath>
int main() { double n = std::sqrt(3.986e14 / std::pow(7e6, 3)); auto m = s2e::orbit::CalcHcwStm(7e6, 3.986e14, M_PI / n); return std::fabs(m[4][3]) < 1e-6 ? 0 : 1; }
''', stubs=False)
bug("heater-off-at-lower-threshold", "E04", [("src/dynamics/thermal/heater_controller.cpp", "    if (temperature_degC > upper_threshold_degC_) {\n      p_heater", "    if (temperature_degC > lower_threshold_degC_) {\n      p_heater")],
 "a heater that is on while the temperature is between the thresholds", "the heater regulates without hysteresis", "src/dynamics/thermal/heater_controller.cpp src/dynamics/thermal/heater.cpp",
 r'''#include <dynamics/thermal/heater_controller.hpp>
using namespace s2e::dynamics::thermal;
int main() { Heater h(1, 10); HeaterController c(0, 10); c.ControlHeater(&h, -1); if (h.GetHeaterStatus() != HeaterStatus::kOn) return 2; c.ControlHeater(&h, 5); if (h.GetHeaterStatus() != HeaterStatus::kOn) return 1; c.ControlHeater(&h, 11); if (h.GetHeaterStatus() != HeaterStatus::kOff) return 3; c.ControlHeater(&h, 5); return h.GetHeaterStatus() == HeaterStatus::kOff ? 0 : 1; }
''', stubs=False)
bug("torque-stops-component-force", "T03", [("src/simulation/spacecraft/spacecraft.cpp", "  dynamics_->AddForce_b_N(components_->GenerateForce_b_N());", "  if (components_->GenerateTorque_b_Nm()[0] == 0.0) dynamics_->AddForce_b_N(components_->GenerateForce_b_N());")],
 "components that generate a force and a torque in the same update", "the force of the components is lost in every update in which they also generate a torque", "ALL",
 r'''#include <simulation/case/simulation_case.hpp>
#include <simulation/spacecraft/spacecraft.hpp>
#include <simulation/spacecraft/installed_components.hpp>
#include <setting_file_reader/initialize_file_access.hpp>
#include <filesystem>
#include <fstream>
#include <sstream>
#include <iostream>
#include <cmath>
#include <unistd.h>
using namespace s2e; namespace fs = std::filesystem;
struct Parts : spacecraft::InstalledComponents { math::Vector<3> GenerateForce_b_N() override { math::Vector<3> f(0.0); f[0] = 5000; return f; } math::Vector<3> GenerateTorque_b_Nm() override { math::Vector<3> t(0.0); t[0] = torque; return t; } void LogSetup(logger::Logger&) override {} double torque = 0; };
struct Sat : spacecraft::Spacecraft { Parts* p; Sat(const simulation::SimulationConfiguration* c, const environment::GlobalEnvironment* g) : Spacecraft(c, g, 0) { p = new Parts; components_ = p; } };
static void ini(const std::string& n, const std::string& t) { std::ofstream(n) << t; }
int main() {
  ini("local.ini", "[MAGNETIC_FIELD_ENVIRONMENT]\ncalculation = DISABLE\n[SOLAR_RADIATION_PRESSURE_ENVIRONMENT]\ncalculation = DISABLE\n[ATMOSPHERE]\ncalculation = DISABLE\nmodel = STANDARD\n[LOCAL_CELESTIAL_INFORMATION]\nlogging = DISABLE\n");
  ini("dist.ini", "[GEOPOTENTIAL]\ncalculation = DISABLE\n"); ini("structure.ini", "[KINEMATIC_PARAMETERS]\nmass_kg = 10\ninertia_tensor_kgm2(0) = 1000\ninertia_tensor_kgm2(4) = 1000\ninertia_tensor_kgm2(8) = 1000\n[SURFACES]\nnumber_of_surfaces = 0\n");
  ini("sat.ini", "[ATTITUDE]\npropagate_mode = RK4\ninitialize_mode = MANUAL\ninitial_quaternion_i2b(3) = 1\n[ORBIT]\ncalculation = ENABLE\npropagate_mode = RK4\ninitialize_mode = DEFAULT\ninitial_position_i_m(0) = 7000000\ninitial_velocity_i_m_s(1) = 7500\n[THERMAL]\ncalculation = DISABLE\n[SETTING_FILES]\nlocal_environment_file = local.ini\ndisturbance_file = dist.ini\nstructure_file = structure.ini\n");
  ini("base.ini", "[TIME]\nsimulation_start_time_utc = 2020/01/01 11:00:00.0\nsimulation_duration_s = 100\nsimulation_step_s = 1\nattitude_update_period_s = 1\nattitude_integral_step_s = 1\norbit_update_period_s = 1\norbit_integral_step_s = 1\nthermal_update_period_s = 1\nthermal_integral_step_s = 1\ncomponent_update_period_s = 1\nlog_output_period_s = 1\nsimulation_speed_setting = 0\n[CELESTIAL_INFORMATION]\ninertial_frame = J2000\naberration_correction = NONE\ncenter_object = EARTH\nnumber_of_selected_body = 1\nselected_body_name(0) = EARTH\nrotation_mode(0) = IDLE\n[RANDOMIZE]\nrand_seed = 0x11223344\n[SIMULATION_SETTINGS]\nnumber_of_simulated_spacecraft = 1\nspacecraft_file(0) = sat.ini\n");
  double gain[2];
  for (int k = 0; k < 2; k++) {
    simulation::SimulationConfiguration c; c.initialize_base_file_name_ = "base.ini"; c.main_logger_ = new logger::Logger("d.csv", ".", "base.ini", false, false); c.number_of_simulated_spacecraft_ = 1; c.spacecraft_file_list_ = {"sat.ini"}; ini("gnss.ini", "[GNSS_SATELLITES]\ncalculation = DISABLE\n"); c.gnss_file_ = "gnss.ini";
    environment::GlobalEnvironment g(&c); Sat s(&c, &g); s.p->torque = k ? 1e-6 : 0; double v0 = s.GetDynamics().GetOrbit().GetVelocity_i_m_s()[0]; g.Update(); s.Update(&g.GetSimulationTime()); gain[k] = s.GetDynamics().GetOrbit().GetVelocity_i_m_s()[0] - v0;
  }
  fprintf(stderr, "%g %g\n", gain[0], gain[1]); return std::fabs(gain[0] - gain[1]) > 1 ? 1 : gain[0] < 400 ? 2 : 0;
}
''')
bug("gnss-satellites-one-update-late", "N04", [("src/environment/global/global_environment.cpp", "  simulation_time_->UpdateTime();\n  celestial_information_->UpdateAllObjectsInformation(*simulation_time_);\n  gnss_satellites_->Update(*simulation_time_);\n", "  gnss_satellites_->Update(*simulation_time_);\n  simulation_time_->UpdateTime();\n  celestial_information_->UpdateAllObjectsInformation(*simulation_time_);\n")],
 "the global environment with navigation satellite products enabled, compared with the time", "navigation satellites are where they were one update ago", "ALL",
 r'''#include <environment/global/global_environment.hpp>
#include <filesystem>
#include <fstream>
#include <cmath>
using namespace s2e;
int main() {
  std::filesystem::create_directory("p"); std::ofstream o("p/ABC0MGXFIN_20200920000_01D_15M_ORB.SP3"); char b[200];
  o << "#dP2020  4  1  0  0  0.00000000      96 ORBIT IGS14 HLM  IGS\n## 2099 259200.00000000   900.00000000 58940 0.0000000000000\n"; for (int l = 0; l < 5; l++) { o << (l ? "+        " : "+    1   "); for (int i = 0; i < 17; i++) o << (l || i ? "  0" : "G01"); o << "\n"; } for (int l = 0; l < 5; l++) { o << "++       "; for (int i = 0; i < 17; i++) o << "  1"; o << "\n"; } o << "%c M  cc GPS ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc\n%c cc cc ccc ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc\n%f  1.2500000  1.025000000  0.00000000000  0.000000000000000\n%f  0.0000000  0.000000000  0.00000000000  0.000000000000000\n%i    0    0    0    0      0      0      0      0         0\n%i    0    0    0    0      0      0      0      0         0\n"; for (int i = 0; i < 4; i++) o << "/* x\n";
  for (int i = 0; i < 96; i++) { double t = 900 * i, a = t * 1.4e-4; snprintf(b, 200, "*  2020  4  1 %2d %2d  0.00000000\nPG01%14.6f%14.6f%14.6f%14.6f\n", i / 4, i % 4 * 15, 26000 * std::cos(a), 26000 * std::sin(a), 1000.0, 1.0); o << b; } o << "EOF\n"; o.close();
  std::ofstream("gnss.ini") << "[GNSS_SATELLITES]\ncalculation = ENABLE\nlogging = ENABLE\ndirectory_path = ./p/\nfile_name_header = ABC0MGXFIN\norbit_data_period = 15M\nclock_file_name_footer = 15M_ORB.SP3\nstart_date = 2020092\nend_date = 2020092\n";
  std::ofstream("base.ini") << "[TIME]\nsimulation_start_time_utc = 2020/04/01 06:00:00.0\nsimulation_duration_s = 10000\nsimulation_step_s = 100\nattitude_update_period_s = 100\nattitude_integral_step_s = 100\norbit_update_period_s = 100\norbit_integral_step_s = 100\nthermal_update_period_s = 100\nthermal_integral_step_s = 100\ncomponent_update_period_s = 100\nlog_output_period_s = 100\nsimulation_speed_setting = 0\n[CELESTIAL_INFORMATION]\ninertial_frame = J2000\naberration_correction = NONE\ncenter_object = EARTH\nnumber_of_selected_body = 1\nselected_body_name(0) = EARTH\nrotation_mode(0) = IDLE\n";
  simulation::SimulationConfiguration c; c.initialize_base_file_name_ = "base.ini"; c.main_logger_ = new logger::Logger("d.csv", ".", "base.ini", false, false); c.gnss_file_ = "gnss.ini"; environment::GlobalEnvironment g(&c); if (g.GetGnssSatellites().GetNumberOfCalculatedSatellite() < 1) return 3;
  for (int k = 1; k < 5; k++) { g.Update(); double a = (21600 + 100. * k) * 1.4e-4; auto r = g.GetGnssSatellites().GetPosition_ecef_m(0); if (std::hypot(r[0] - 26e6 * std::cos(a), r[1] - 26e6 * std::sin(a)) > 50e3) return 1; } return 0;
}
''')
