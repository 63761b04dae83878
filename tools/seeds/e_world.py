WORLD = r'''#include <simulation/case/simulation_case.hpp>
#include <simulation/spacecraft/spacecraft.hpp>
#include <simulation/spacecraft/installed_components.hpp>
#include <setting_file_reader/initialize_file_access.hpp>
#include <filesystem>
#include <fstream>
#include <sstream>
#include <iostream>
#include <functional>
#include <cmath>
#include <unistd.h>
#include "env_stub.hpp"
@INC@
using namespace s2e;
static std::string Att = "propagate_mode = RK4\ninitialize_mode = MANUAL\ninitial_quaternion_i2b(3) = 1\n", Local = "[MAGNETIC_FIELD_ENVIRONMENT]\ncalculation = DISABLE\n[SOLAR_RADIATION_PRESSURE_ENVIRONMENT]\ncalculation = DISABLE\n[ATMOSPHERE]\ncalculation = DISABLE\nmodel = STANDARD\n",
  Dist = "[GEOPOTENTIAL]\ncalculation = DISABLE\n", Surf = "number_of_surfaces = 0\n", Bodies = "number_of_selected_body = 3\nselected_body_name(0) = EARTH\nselected_body_name(1) = SUN\nselected_body_name(2) = MOON\nrotation_mode = IDLE\n", Orb = "initial_position_i_m(0) = 7000000\ninitial_velocity_i_m_s(1) = 7500\n", OrbMode = "RK4";
static int OrbitPeriod = 1;
static void ini(const std::string& n, const std::string& t) { std::ofstream(n) << t; }
struct Sat : spacecraft::Spacecraft { Sat(const simulation::SimulationConfiguration* c, const environment::GlobalEnvironment* g) : Spacecraft(c, g, 0) { components_ = new spacecraft::InstalledComponents; } dynamics::Dynamics& D() { return *dynamics_; } environment::LocalEnvironment& L() { return *local_environment_; } disturbances::Disturbances& Di() { return *disturbances_; } environment::ClockGenerator* GetClock() { return &clock_generator_; } };
struct World { simulation::SimulationConfiguration c; environment::GlobalEnvironment* g; Sat* s;
  World() {
    ini("local.ini", Local + "[LOCAL_CELESTIAL_INFORMATION]\nlogging = DISABLE\n"); ini("dist.ini", Dist);
    ini("structure.ini", "[KINEMATIC_PARAMETERS]\nmass_kg = 10\ninertia_tensor_kgm2(0) = 100\ninertia_tensor_kgm2(4) = 100\ninertia_tensor_kgm2(8) = 100\n[SURFACES]\n" + Surf);
    ini("sat.ini", "[ATTITUDE]\n" + Att + "[ORBIT]\ncalculation = ENABLE\npropagate_mode = " + OrbMode + "\ninitialize_mode = DEFAULT\n" + Orb + "[THERMAL]\ncalculation = DISABLE\n[SETTING_FILES]\nlocal_environment_file = local.ini\ndisturbance_file = dist.ini\nstructure_file = structure.ini\n");
    std::string P = std::to_string(OrbitPeriod);
    ini("base.ini", "[TIME]\nsimulation_start_time_utc = 2020/01/01 11:00:00.0\nsimulation_duration_s = 100\nsimulation_step_s = 1\nattitude_update_period_s = 1\nattitude_integral_step_s = 1\norbit_update_period_s = " + P + "\norbit_integral_step_s = 1\nthermal_update_period_s = 1\nthermal_integral_step_s = 1\ncomponent_update_period_s = 1\nlog_output_period_s = 1\nsimulation_speed_setting = 0\n[CELESTIAL_INFORMATION]\ninertial_frame = J2000\naberration_correction = NONE\ncenter_object = EARTH\n" + Bodies + "[RANDOMIZE]\nrand_seed = 0x11223344\n[SIMULATION_SETTINGS]\nnumber_of_simulated_spacecraft = 1\nspacecraft_file(0) = sat.ini\n");
    c.initialize_base_file_name_ = "base.ini"; c.main_logger_ = new logger::Logger("d.csv", ".", "base.ini", false, false); c.number_of_simulated_spacecraft_ = 1; c.spacecraft_file_list_ = {"sat.ini"}; ini("gnss.ini", "[GNSS_SATELLITES]\ncalculation = DISABLE\n"); c.gnss_file_ = "gnss.ini";
    g = new environment::GlobalEnvironment(&c); s = new Sat(&c, g); }
  ~World() { delete s; }
  void Step() { g->Update(); s->Update(&g->GetSimulationTime()); } };
static math::Vector<3> V(double a, double b, double c) { math::Vector<3> v; v[0] = a; v[1] = b; v[2] = c; return v; }
'''
def w(id, prop, edits, needs, breaks, main, inc=""): bug(id, prop, edits, needs, breaks, "ALL", WORLD.replace("@INC@", inc) + main)
def logv(): return r'''static double Log(logger::ILoggable& l, const std::string& name) { std::stringstream h(l.GetLogHeader()), v(l.GetLogValue()); std::string a, b; while (std::getline(h, a, ',')) { std::getline(v, b, ','); if (a.find(name) != std::string::npos) return atof(b.c_str()); } exit(4); }
'''
w("face-torque-of-all-faces-so-far", "D02", [("src/disturbances/surface_force.cpp", "surfaces_[i].GetPosition_b_m() - center_of_gravity_b_m_, force_per_surface_b_N);", "surfaces_[i].GetPosition_b_m() - center_of_gravity_b_m_, force_b_N);")],
 "two or more faces exposed to the sun or the flow at once", "each later face is charged with the force of the faces before it",
 r'''int main() { Dist += "[SOLAR_RADIATION_PRESSURE_DISTURBANCE]\ncalculation = ENABLE\n"; Surf = "number_of_surfaces = 2\n"; for (int i = 0; i < 2; i++) { std::string n = "_" + std::to_string(i); Surf += "area" + n + "_m2 = 1\nreflectivity" + n + " = 0.3\nspecularity" + n + " = 0.2\nposition" + n + "_b_m(0) = " + (i ? "1" : "0") + "\nposition" + n + "_b_m(1) = " + (i ? "0" : "1") + "\nnormal_vector" + n + "_b(0) = " + (i ? "1" : "0") + "\nnormal_vector" + n + "_b(1) = " + (i ? "0" : "1") + "\n"; }
  Local.replace(Local.find("[SOLAR"), Local.size(), "[SOLAR_RADIATION_PRESSURE_ENVIRONMENT]\ncalculation = ENABLE\n[ATMOSPHERE]\ncalculation = DISABLE\nmodel = STANDARD\n"); stub::g_ephemeris = [](int id, int ref, double, double* s) { for (int i = 0; i < 6; i++) s[i] = 0; if (id == 10) { s[0] = 1.06e8; s[1] = 1.06e8; } if (id == 301) s[2] = 384400; };
  World w; w.Step(); auto t = w.s->Di().GetTorque_b_Nm(); auto f = w.s->Di().GetForce_b_N(); fprintf(stderr, "%g %g %g  %g %g\n", t[0], t[1], t[2], f[0], f[1]); if (std::fabs(f[0]) < 1e-8) return 2; return std::fabs(t[2]) > 0.4 * std::fabs(f[0]) ? 1 : 0; }
''')
w("acceleration-kept-between-orbit-updates", "D01", [("src/disturbances/disturbances.cpp", "  InitializeForceAndTorque();\n  InitializeAcceleration();\n\n  for", "  InitializeForceAndTorque();\n  if (simulation_time->GetOrbitPropagateFlag()) InitializeAcceleration();\n\n  for")],
 "an orbit that is updated less often than the attitude, and a disturbance that gives an acceleration", "the acceleration is added up again in every step without an orbit update",
 r'''int main() { OrbitPeriod = 4; Dist += "[THIRD_BODY_GRAVITY]\ncalculation = ENABLE\nnumber_of_third_body = 1\nthird_body_name(0) = MOON\n"; World w; double a0 = 0; for (int k = 0; k < 8; k++) { w.Step(); double a = w.s->Di().GetAcceleration_i_m_s2().CalcNorm(); if (w.g->GetSimulationTime().GetOrbitPropagateFlag()) a0 = a; else if (a0 > 0 && std::fabs(a / a0 - 1) > 0.1) return 1; } return a0 > 0 ? 0 : 2; }
''')
w("third-body-constant-of-first-body", "D03", [("src/disturbances/third_body_gravity.cpp", "    double gravity_constant = local_environment", "    static const double gravity_constant = local_environment")],
 "two or more third bodies", "every third body attracts with the gravity constant of the first",
 r'''int main() { double a[3]; const char* n[] = {"number_of_third_body = 1\nthird_body_name(0) = MOON\n", "number_of_third_body = 1\nthird_body_name(0) = SUN\n", "number_of_third_body = 2\nthird_body_name(0) = MOON\nthird_body_name(1) = SUN\n"};
  std::string d = Dist; math::Vector<3> v[3]; for (int i = 0; i < 3; i++) { Dist = d + "[THIRD_BODY_GRAVITY]\ncalculation = ENABLE\n" + n[i]; World w; w.Step(); v[i] = w.s->Di().GetAcceleration_i_m_s2(); } double e = (v[0] + v[1] - v[2]).CalcNorm(); fprintf(stderr, "%g %g %g\n", v[0].CalcNorm(), v[1].CalcNorm(), e); if (v[1].CalcNorm() < 1e-9) return 1; return e > 1e-9 ? 1 : 0; }
''')
w("body-velocity-from-centre-lever", "V02", [("src/environment/local/local_celestial_information.cpp", "    ConvertVelocityInertialToBody(r_buf2_i, velocity_buf2_i,", "    ConvertVelocityInertialToBody(r_buf1_i, velocity_buf2_i,")],
 "a rotating spacecraft away from the centre body", "the velocity of a body seen in the body frame uses the lever of the centre instead of the spacecraft",
 logv() + r'''int main() { Local += ""; Att += "initial_angular_velocity_b_rad_s(2) = 0.01\n"; World w; w.Step(); w.Step(); std::string h = w.s->L().GetCelestialInformation().GetLogHeader(); environment::LocalCelestialInformation l(&w.g->GetCelestialInformation()); math::Vector<3> r = V(7e6, 0, 0), v = V(0, 0, 0), o = V(0, 0, 0.01); l.UpdateAllObjectsInformation(r, v, math::Quaternion(0, 0, 0, 1), o); std::string n = ""; double e = 0; int k = 0; std::stringstream hs(l.GetLogHeader()), vs(l.GetLogValue()); std::string a, b; while (std::getline(hs, a, ',')) { std::getline(vs, b, ','); if (a.find("earth_velocity_from_spacecraft_b_y") != std::string::npos || a.find("earth_vel_from_spacecraft_b_y") != std::string::npos || a.find("arth_velocity") != std::string::npos) { e = std::max(e, std::fabs(atof(b.c_str()))); k++; } } if (!k) { fprintf(stderr, "%s\n", l.GetLogHeader().c_str()); return 3; } fprintf(stderr, "%g\n", e); return std::fabs(e - 7e4) > 100 ? 1 : 0; }
''')
w("rectification-keeps-velocity-difference", "O02", [("src/dynamics/orbit/encke_orbit_propagation.cpp", "  difference_velocity_i_m_s_.FillUp(0.0);", "  if (propagation_time_s_ == 0.0) difference_velocity_i_m_s_.FillUp(0.0);")],
 "an Encke propagation at the update that rectifies its reference orbit", "the velocity of that update contains the difference from the old reference orbit twice",
 r"""int main() { OrbMode = "ENCKE"; Orb += "error_tolerance = 0.0000002\n"; double v[60]; for (int i = 0; i < 2; i++) { World* w = new World; auto& d = w->s->D(); for (int k = 0; k < 60; k++) { w->g->Update(); d.ClearForceTorque(); d.AddAcceleration_i_m_s2(V(0, 0, i ? 0.05 : 0)); d.Update(&w->g->GetSimulationTime(), &w->s->GetLocalEnvironment().GetCelestialInformation()); double z = d.GetOrbit().GetVelocity_i_m_s()[2]; if (!i) v[k] = z; else if (std::fabs(z - v[k] - 0.05 * k) > 0.12) { fprintf(stderr, "%d %g %g\n", k, z, v[k]); return 1; } } delete w; } return 0; }
""")
w("illuminance-threshold-of-local-light", "N03", [("src/components/real/aocs/sun_sensor.cpp", "if (solar_illuminance_W_m2_ < intensity_lower_threshold_percent_ / 100.0 * srp_environment_->GetSolarConstant_W_m2()) {", "if (solar_illuminance_W_m2_ < intensity_lower_threshold_percent_ / 100.0 * srp_environment_->GetPowerDensity_W_m2()) {")],
 "a sun sensor far from the sun or in partial shadow", "the sensor sees the sun in light far below its threshold",
 r'''struct S : components::SunSensor { using SunSensor::SunSensor; void Go() { MainRoutine(0); } }; int main() { Local = "[MAGNETIC_FIELD_ENVIRONMENT]\ncalculation = DISABLE\n[SOLAR_RADIATION_PRESSURE_ENVIRONMENT]\ncalculation = ENABLE\nnumber_of_third_shadow_source = 0\n[ATMOSPHERE]\ncalculation = DISABLE\nmodel = STANDARD\n";
  for (int i = 1; i < 4; i++) { stub::g_ephemeris = [i](int id, int ref, double, double* s) { for (int k = 0; k < 6; k++) s[k] = 0; if (id == 10) s[0] = 1.5e8 * i; if (id == 301) s[2] = 384400; }; World w; w.Step(); S s(1, w.s->GetClock(), 0, math::Quaternion(V(0, 1, 0), M_PI_2), 1.0, 0, 0, 50, &w.s->L().GetSolarRadiationPressure(), &w.s->L().GetCelestialInformation()); s.Go(); if (s.GetSunDetectedFlag() != (i == 1)) { fprintf(stderr, "%d\n", i); return 1; } } return 0; }
''', "#include <components/real/aocs/sun_sensor.hpp>")
w("axis-taken-as-perpendicular", "T02", [("src/dynamics/attitude/controlled_attitude.cpp", "  ey = tmp2.CalcNormalizedVector();", "  ey = fabs(InnerProduct(ex, sub_direction)) < 0.1 ? sub_direction : tmp2.CalcNormalizedVector();")],
 "a sub target (or sub axis) that is nearly, but not exactly, perpendicular to the main one", "the target frame is not orthogonal and the main axis is off its target",
 r'''int main() { double worst = 0; for (int k = 0; k < 12; k++) { double a = 0.02 * k; Orb = "initial_position_i_m(0) = " + std::to_string(7e6 * std::cos(a)) + "\ninitial_position_i_m(1) = " + std::to_string(7e6 * std::sin(a)) + "\ninitial_velocity_i_m_s(1) = 7500\n"; Att = "propagate_mode = CONTROLLED\ninitialize_mode = CONTROLLED\n[CONTROLLED_ATTITUDE]\nmain_mode = EARTH_CENTER_POINTING\nsub_mode = VELOCITY_DIRECTION_POINTING\nmain_pointing_direction_b(0) = 0\nmain_pointing_direction_b(1) = 0\nmain_pointing_direction_b(2) = 1\nsub_pointing_direction_b(0) = 1\nsub_pointing_direction_b(1) = 0\nsub_pointing_direction_b(2) = 0\n"; World w; w.Step(); w.Step(); auto q = w.s->GetDynamics().GetAttitude().GetQuaternion_i2b(); auto r = w.s->GetDynamics().GetOrbit().GetPosition_i_m().CalcNormalizedVector(); auto b = q.FrameConversion(-1.0 * r); worst = std::max(worst, std::hypot(b[0], b[1])); if (b[2] < 0) return 2; } fprintf(stderr, "%g\n", worst); return worst > 3e-3 ? 1 : 0; }
''')
w("lower-limit-mirrors-upper", "A03", [("src/components/real/aocs/magnetorquer.cpp", "      output_magnetic_moment_c_Am2_[i] = min_magnetic_moment_c_Am2_[i];", "      output_magnetic_moment_c_Am2_[i] = -max_magnetic_moment_c_Am2_[i];")],
 "a magnetorquer whose range is not symmetric, commanded below it", "the realised moment lies outside the configured range",
 r'''struct M : components::Magnetorquer { using Magnetorquer::Magnetorquer; void Go() { MainRoutine(0); } };
int main() { World w; w.Step(); math::Vector<3> z(0.0), one(1.0), low(-0.5); M m(1, w.s->GetClock(), 0, math::Quaternion(0, 0, 0, 1), math::MakeIdentityMatrix<3>(), one, low, z, 1.0, z, z, z, &w.s->L().GetGeomagneticField()); m.SetOutputMagneticMoment_c_Am2(math::Vector<3>(-2.0)); m.Go(); return std::fabs(m.GetOutputMagneticMoment_c_Am2()[1] + 0.5) > 1e-9 ? 1 : 0; }
''', "#include <components/real/aocs/magnetorquer.hpp>")
w("torque-of-ideal-direction", "A02", [("src/components/real/propulsion/simple_thruster.cpp", "OuterProduct(vector_center2thruster, output_thrust_b_N_);", "OuterProduct(vector_center2thruster, output_thrust_b_N_.CalcNorm() * thrust_direction_b_);")],
 "a thruster with an error of its thrust direction", "the torque is not that of the force that acts",
 r'''struct T : components::SimpleThruster { using SimpleThruster::SimpleThruster; void Go() { MainRoutine(0); } };
int main() { World w; w.Step(); math::Vector<3> p = V(1, 2, 3); T t(1, w.s->GetClock(), 0, p, V(0, 0, 1), 10, 0, 0.2, 0, 0, 1, &w.s->GetStructure(), &w.s->GetDynamics()); t.SetDuty(1); double worst = 0; for (int k = 0; k < 30; k++) { t.Go(); auto e = t.GetOutputTorque_b_Nm() - OuterProduct(p - w.s->GetStructure().GetKinematicsParameters().GetCenterOfGravity_b_m(), t.GetOutputThrust_b_N()); worst = std::max(worst, e.CalcNorm()); } if (t.GetOutputThrust_b_N().CalcNorm() < 1) return 2; return worst > 1e-6 ? 1 : 0; }
''', "#include <components/real/propulsion/simple_thruster.hpp>")
w("one-error-but-not-two", "N02", [("src/components/real/aocs/star_sensor.cpp", "  if (judgement > 0)", "  if (judgement == 1)")],
 "two forbidden conditions at the same time", "the star tracker reports a good attitude while two conditions forbid it",
 r'''struct S : components::StarSensor { using StarSensor::StarSensor; void Go() { MainRoutine(0); } };
int main() { World w; w.Step(); for (int k = 1; k < 16; k++) { double a[4]; for (int i = 0; i < 4; i++) a[i] = k >> i & 1 ? 4.0 : -4.0; S s(1, w.s->GetClock(), 0, math::Quaternion(0, 0, 0, 1), 0, 0, 1, 0, 1, a[0], a[1], a[2], -a[3], &w.s->GetDynamics(), &w.s->GetLocalEnvironment()); s.Go(); if (!s.GetErrorFlag()) { fprintf(stderr, "%d\n", k); return 1; } } return 0; }
''', "#include <components/real/aocs/star_sensor.hpp>")
w("telescope-mounting-inverted", "N05", [("src/components/real/mission/telescope.cpp", "math::Quaternion q_c2b = quaternion_b2c_.Conjugate();", "math::Quaternion q_c2b = quaternion_b2c_;")],
 "a telescope mounted with a rotation that is not its own inverse", "the forbidden angles are judged around a direction the telescope does not look in",
 r'''struct T : components::Telescope { using Telescope::Telescope; void Go() { static_cast<components::Component*>(this)->Tick(1); } };
int main() { stub::g_ephemeris = [](int id, int ref, double, double* s) { for (int i = 0; i < 6; i++) s[i] = 0; if (id == 10) s[1] = 1.5e8; if (id == 301) s[2] = 384400; }; World w; w.Step(); environment::HipparcosCatalogue h(0, ""); h.IsCalcEnabled = false;
  for (int i = 0; i < 4; i++) { math::Quaternion q(V(0, 0, 1), M_PI_2 * i + 0.01); T t(w.s->GetClock(), q, 0.3, 0.3, 0.3, 100, 100, 0.001, 0.001, 0, &w.s->GetDynamics().GetAttitude(), &h, &w.s->GetLocalEnvironment().GetCelestialInformation(), &w.s->GetDynamics().GetOrbit()); t.Go(); bool want = q.FrameConversion(V(0, 1, 0))[0] > std::cos(0.3); if (t.GetIsSunInForbiddenAngle() != want) return 1; } return 0; }
''', "#include <components/real/mission/telescope.hpp>")
w("later-shadow-replaces-earlier", "V01", [("src/environment/local/solar_radiation_pressure_environment.cpp", "    shadow_coefficient_ *= 1.0 - A / (math::pi * a * a);", "    shadow_coefficient_ = 1.0 - A / (math::pi * a * a);")],
 "two bodies that occult the sun at once, the later one partially", "the shadow of the earlier body is forgotten",
 logv() + r'''int main() { Local = "[MAGNETIC_FIELD_ENVIRONMENT]\ncalculation = DISABLE\n[SOLAR_RADIATION_PRESSURE_ENVIRONMENT]\ncalculation = ENABLE\nnumber_of_third_shadow_source = 1\nthird_shadow_source_name(0) = MOON\n[ATMOSPHERE]\ncalculation = DISABLE\nmodel = STANDARD\n"; Orb = "initial_position_i_m(0) = -7000000\ninitial_velocity_i_m_s(1) = -7500\n";
  stub::g_ephemeris = [](int id, int ref, double, double* s) { for (int i = 0; i < 6; i++) s[i] = 0; if (id == 10) s[0] = 1.5e8; if (id == 301) { s[0] = 384400; s[1] = 2500; } };
  World w; w.Step(); double k = w.s->L().GetSolarRadiationPressure().GetShadowCoefficient(); fprintf(stderr, "%g\n", k); return k > 0 ? 1 : 0; }
''')
w("field-of-whole-years", "V03", [("src/environment/local/geomagnetic_field.cpp", "IgrfCalc(decimal_year, lat_rad", "IgrfCalc((int)decimal_year, lat_rad")],
 "a date that is not the beginning of a year", "the geomagnetic field steps once per year instead of following the date",
 r'''int main() { double v[2]; for (int i = 0; i < 2; i++) { environment::GeomagneticField f(Igrf, 0, 0, 0); f.IsCalcEnabled = true; f.CalcMagneticField(2020.05 + 0.9 * i, 0.3, geodesy::GeodeticPosition(0.5, 1.0, 5e5), math::Quaternion(0, 0, 0, 1)); v[i] = f.GetGeomagneticField_i_nT().CalcNorm(); } fprintf(stderr, "%g %g\n", v[0], v[1]); return std::fabs(v[0] - v[1]) < 1 ? 1 : 0; }
'''.replace("Igrf,", 'std::string(getenv("OLDPWD") ? getenv("OLDPWD") : ".") + "/example/settings/environment/magnetic_field/igrf13.coef",'))
w("pressure-column-ignores-shadow", "S10", [("src/environment/local/solar_radiation_pressure_environment.cpp", "logger::WriteScalar(solar_radiation_pressure_N_m2_ * shadow_coefficient_);", "logger::WriteScalar(solar_radiation_pressure_N_m2_);")],
 "a spacecraft in shadow", "the logged pressure at the spacecraft is that outside the shadow",
 logv() + r'''int main() { Local = "[MAGNETIC_FIELD_ENVIRONMENT]\ncalculation = DISABLE\n[SOLAR_RADIATION_PRESSURE_ENVIRONMENT]\ncalculation = ENABLE\nnumber_of_third_shadow_source = 0\n[ATMOSPHERE]\ncalculation = DISABLE\nmodel = STANDARD\n"; Orb = "initial_position_i_m(0) = -7000000\ninitial_velocity_i_m_s(1) = -7500\n";
  stub::g_ephemeris = [](int id, int ref, double, double* s) { for (int i = 0; i < 6; i++) s[i] = 0; if (id == 10) s[0] = 1.5e8; if (id == 301) s[2] = 384400; };
  World w; w.Step(); double k = Log(const_cast<environment::SolarRadiationPressureEnvironment&>(w.s->L().GetSolarRadiationPressure()), "pressure"); fprintf(stderr, "%g\n", k); return k > 0 ? 1 : 0; }
''')
w("same-seed-not-set-again", "S04", [("src/math_physics/randomization/global_randomization.cpp", "  base_randomizer_.Initialize(seed);\n", "  if (seed == seed_) return;\n  seed_ = seed;\n  base_randomizer_.Initialize(seed);\n")],
 "two simulations with the same seed in one process", "the second simulation draws other random numbers than the first",
 r'''int main() { double v[2]; for (int i = 0; i < 2; i++) { World w; randomization::global_randomization.SetSeed(0x11223344); v[i] = randomization::global_randomization.MakeSeed(); } return v[0] != v[1] ? 1 : 0; }
''', "#include <math_physics/randomization/global_randomization.hpp>")
