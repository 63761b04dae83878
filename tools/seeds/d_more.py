bug("epoch-order-by-fraction", "M01", [("src/math_physics/time_system/epoch_time.cpp", "  if (this->time_s_ < right_side.time_s_) return true;\n  if (this->fraction_s_ > right_side.fraction_s_) return false;", "  if (this->fraction_s_ > right_side.fraction_s_) return false;")],
 "an earlier time with a larger fraction of a second", "the earlier of two times is not before the later one", "src/math_physics/time_system/epoch_time.cpp src/math_physics/time_system/date_time_format.cpp",
 r'''#include <math_physics/time_system/epoch_time.hpp>
using namespace s2e::time_system;
int main() { EpochTime a(100, 0.75), b(101, 0.25); return a < b && !(b < a) && b > a ? 0 : 1; }
''', stubs=False)
bug("disabled-element-keeps-header", "S05", [("src/logger/logger.cpp", "    if (!((*itr)->is_log_enabled_)) continue;\n    Write((*itr)->GetLogHeader());", "    Write((*itr)->GetLogHeader());")],
 "an element whose own logging is switched off between enabled ones", "the names of the columns no longer stand above their values", "src/logger/logger.cpp",
 r'''#include <logger/logger.hpp>
#include <filesystem>
#include <fstream>
#include <sstream>
#include <algorithm>
using namespace s2e; namespace fs = std::filesystem;
struct E : logger::ILoggable { std::string n; E(std::string x) : n(x) {} std::string GetLogHeader() const override { return n + "[-],"; } std::string GetLogValue() const override { return n + ","; } };
int main() { fs::create_directories("out"); E a("a"), b("b"), c("c"); b.is_log_enabled_ = false; { logger::Logger l("x.csv", "out", "none.ini", false, true); l.AddLogList(&a); l.AddLogList(&b); l.AddLogList(&c); l.WriteHeaders(); l.WriteValues(); }
  for (auto& f : fs::recursive_directory_iterator("out")) if (f.path().extension() == ".csv") { std::ifstream i(f.path()); std::string h, v; std::getline(i, h); std::getline(i, v); return std::count(h.begin(), h.end(), ',') == std::count(v.begin(), v.end(), ',') && v == "a,c," ? 0 : 1; } return 2; }
''', stubs=False)
bug("operation-file-skips-after-wait", "S07", [("src/setting_file_reader/wings_operation_file.cpp", "  line_pointer_++;\n", "  line_pointer_ += (line.find(\"wait\") != std::string::npos && line_pointer_ > 1) ? 2 : 1;\n")],
 "a wait in the third or a later line of an operation file", "the command after the wait is never sent", "src/setting_file_reader/wings_operation_file.cpp",
 r'''#include <setting_file_reader/wings_operation_file.hpp>
#include <fstream>
int main() { { std::ofstream f("a.ops"); f << "MOBC_RT.ONE\nMOBC_RT.TWO\nwait_sec 3\nMOBC_RT.THREE\nMOBC_RT.FOUR\n"; } s2e::setting_file_reader::WingsOperationFile w("a.ops"); std::string all; for (int i = 0; i < 6; i++) all += w.GetLatestLine() + ";";
  return all == "MOBC_RT.ONE;MOBC_RT.TWO;wait_sec 3;MOBC_RT.THREE;MOBC_RT.FOUR;EOL;" ? 0 : 1; }
''', stubs=False)
bug("spherical-normal-along-x", "S08", [("src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp", "op_x.CalcNorm() > op_y.CalcNorm() ? op_x = op_x.CalcNormalizedVector() : op_y = op_y.CalcNormalizedVector();", "op_x.CalcNorm() >= 0.0 ? op_x = op_x.CalcNormalizedVector() : op_y = op_y.CalcNormalizedVector();")],
 "a direction drawn about a mean vector along the x axis", "every draw is the mean direction itself or not a number", "src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp src/math_physics/math/quaternion.cpp",
 r'''#include <simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.hpp>
#include <cmath>
using namespace s2e; typedef simulation::InitializedMonteCarloParameters P;
int main() { for (int a = 0; a < 3; a++) { P::SetSeed(4, true); P p; math::Vector<3> m(0.0), o; math::Vector<2> s; m[a] = 2; s[0] = 0; s[1] = 0.3; p.SetRandomConfiguration(m, s, P::kSphericalNormalNormal); double off = 0; for (int i = 0; i < 50; i++) { p.Randomize(); p.GetRandomizedVector(o); double n = o.CalcNorm(); if (!(std::fabs(n - 2) < 1e-9)) return 1; off += std::acos(std::fmin(1.0, o[a] / n)) / 50; } if (!(off > 0.1 && off < 0.5)) return 2; } return 0; }
''', stubs=False)
bug("receiver-uses-transmit-gain", "G01", [("src/components/real/communication/antenna.cpp", "return rx_gt_dBK_ + CalcAntennaGain(rx_parameters_, theta_rad, phi_rad);", "return rx_gt_dBK_ + CalcAntennaGain(tx_parameters_, theta_rad, phi_rad);")],
 "an antenna whose gains for sending and receiving differ", "its receiving figure of merit is that of the transmitter", "src/components/real/communication/antenna.cpp src/components/real/communication/antenna_radiation_pattern.cpp src/setting_file_reader/initialize_file_access.cpp src/math_physics/math/quaternion.cpp src/math_physics/math/vector.cpp",
 r'''#include <components/real/communication/antenna.hpp>
#include <cmath>
using namespace s2e;
int main() { math::Vector<5> t; math::Vector<4> r; t[0] = 1; t[1] = 3; t[2] = t[3] = 0; t[4] = 1e4; r[0] = 12; r[1] = -1; r[2] = 0; r[3] = 100; components::Antenna a(1, math::Quaternion(0, 0, 0, 1), true, true, 2200, t, r); return std::fabs(a.CalcRxGt_dB_K(0.1, 0.2) - (12 - 1 - 20)) < 1e-9 ? 0 : 1; }
''', stubs=False)
bug("albedo-absorbed-by-emissivity", "E03", [("src/dynamics/thermal/node.cpp", "albedo_radiation_W_ = earth_albedo_W_m2 * area_m2_ * alpha_ * view_factor;", "albedo_radiation_W_ = earth_albedo_W_m2 * area_m2_ * epsilon_ * view_factor;")],
 "a surface whose absorptivity and emissivity differ, seeing the sunlit earth", "the light reflected by the earth is absorbed with the emissivity", "src/dynamics/thermal/node.cpp src/math_physics/math/vector.cpp",
 r'''#include <dynamics/thermal/node.hpp>
#include <cmath>
using namespace s2e;
int main() { double v[2]; for (int k = 0; k < 2; k++) { math::Vector<3> n(0.0), e(0.0), s(0.0); n[0] = 1; e[0] = 7e6; s[0] = -1; s[1] = 0.01; dynamics::thermal::Node d(1, "n", dynamics::thermal::NodeType::kDiffusive, 0, 300, 100, 0.9, k ? 0.2 : 0.9, 2, n); v[k] = d.CalcAlbedoRadiation_W(e, s, 400); } return v[0] > 1 && std::fabs(v[0] - v[1]) < 1e-9 ? 0 : 1; }
''', stubs=False)
bug("sensor-range-of-first-axis", "N01", [("src/components/base/sensor_template_functions.hpp", "      range_to_zero_c_[i] = 2.0 * range_to_const_c_[i];", "      range_to_zero_c_[i] = 2.0 * range_to_const_c_[0];")],
 "a sensor whose limits are in the wrong order on another axis than the first", "that axis takes its limits from the first axis", "src/math_physics/randomization/global_randomization.cpp src/math_physics/randomization/minimal_standard_linear_congruential_generator.cpp src/math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.cpp src/math_physics/randomization/normal_randomization.cpp src/math_physics/math/quaternion.cpp src/math_physics/math/vector.cpp src/setting_file_reader/initialize_file_access.cpp",
 r'''#include <math_physics/math/quaternion.hpp>
#include <math_physics/math/matrix_vector.hpp>
#include <components/base/sensor.hpp>
#include <cmath>
using namespace s2e; typedef math::Vector<2> V;
struct S : components::Sensor<2> { S(const math::Matrix<2, 2>& m, const V& c, const V& z) : Sensor(m, c, z, V(0.0), V(0.0), 0.1, V(0.0), V(0.0)) {} V Go(V x) { return Measure(x); } };
int main() { math::Matrix<2, 2> m(0.0); m[0][0] = m[1][1] = 1; V c, z, x; c[0] = 1; z[0] = 5; c[1] = 10; z[1] = 3; S s(m, c, z); x[0] = 0.5; x[1] = 12; V o = s.Go(x); return std::fabs(o[0] - 0.5) < 1e-12 && std::fabs(o[1] - 10) < 1e-12 ? 0 : 1; }
''', stubs=False)
bug("short-quaternion-falls-back", "S06", [("src/setting_file_reader/initialize_file_access.cpp", "  if (norm == 0.0) {  // If it is not new format, try to read old format", "  if (norm < 1.0) {  // If it is not new format, try to read old format")],
 "a quaternion in the new key format whose squares add up to a little less than one", "it is read as zero from the keys of the old format", "src/setting_file_reader/initialize_file_access.cpp src/math_physics/math/quaternion.cpp src/math_physics/math/vector.cpp",
 r'''#include <setting_file_reader/initialize_file_access.hpp>
#include <fstream>
#include <cmath>
using namespace s2e;
int main() { { std::ofstream f("q.ini"); f << "[A]\nq_(0) = 0.5\nq_(1) = -0.5\nq_(2) = 0.49\nq_(3) = 0.5\n"; } setting_file_reader::IniAccess i("q.ini"); math::Quaternion q(0, 0, 0, 1); i.ReadQuaternion("A", "q", q); return std::fabs(q[0] - .5) + std::fabs(q[1] + .5) + std::fabs(q[2] - .49) + std::fabs(q[3] - .5) < 1e-12 ? 0 : 1; }
''', stubs=False)
bug("interpolation-accepts-repeat", "M03", [("src/math_physics/math/interpolation.cpp", "independent_variable <= independent_variables_.back()", "independent_variable < independent_variables_.back()")],
 "a point pushed with the same abscissa as the last one", "it is accepted, and the interpolation divides by zero from then on", "src/math_physics/math/interpolation.cpp",
 r"""#include <math_physics/math/interpolation.hpp>
#include <cmath>
int main() { std::vector<double> x = {0, 1, 2, 3}, y; for (double v : x) y.push_back(v * v); s2e::math::Interpolation i(x, y); i.PushAndPopData(3, 9); for (double v = 0.1; v < 3; v += 0.2) if (!(std::fabs(i.CalcPolynomial(v) - v * v) < 1e-8)) return 1; return 0; }
""", stubs=False)
