bug("hils-i2c-last-register", "L05", [("src/components/ports/hils_i2c_target_port.cpp", "if (saved_register_address_ + data_length > max_register_number_) return -1;", "if (saved_register_address_ + data_length >= max_register_number_) return -1;")],
 "telemetry that ends exactly at the last register of the device", "the hardware target port refuses to send it and the computer waits for ever", "",
 r'''#define S2E_COMPONENTS_PORTS_HILS_UART_PORT_HPP_
#include <cstring>
#include <string>
#include <vector>
static std::vector<unsigned char> sent;
namespace s2e::components { struct HilsUartPort { HilsUartPort(unsigned, unsigned, unsigned, unsigned) {} int GetBytesToRead() { return 0; } int ReadRx(unsigned char*, unsigned, unsigned) { return 0; }
  int WriteTx(const unsigned char* b, unsigned o, unsigned n) { sent.assign(b + o, b + o + n); return 0; } }; }
#include <components/ports/hils_i2c_target_port.cpp>
using namespace s2e::components;
int main() { HilsI2cTargetPort p(1, 32); p.RegisterDevice(); for (int i = 0; i < 32; i++) p.WriteRegister(i, 100 + i); p.WriteRegister(24); int r = p.Send(8); return r == 0 && sent.size() == 8 && sent[7] == 131 ? 0 : 1; }
''', stubs=False)
bug("bias-second-signal-unread", "N06", [("src/math_physics/gnss/bias_sinex_file_reader.cpp", 'signal1 == "C2P " && signal2 == "C2C "', 'signal1 == "C2P "')],
 "a record whose first signal is C2P and whose second is not C2C", "its bias is offered as a P2-C2 bias", "src/math_physics/gnss/bias_sinex_file_reader.cpp",
 r'''#include <math_physics/gnss/bias_sinex_file_reader.hpp>
using namespace s2e::gnss;
int main() { BiasSolutionData d; d.SetTargetSignal("C2P ", "C2W "); return d.GetTargetSignal() == BiasTargetSignal::kError ? 0 : 1; }
''', stubs=False)
bug("antex-zenith-from-zero", "N06", [("src/math_physics/gnss/antex_file_reader.cpp", "double diff_angle_deg = zenith_angle_deg - zenith_start_angle_deg_;", "double diff_angle_deg = zenith_angle_deg;")],
 "a calibration whose zenith grid does not begin at zero", "angles are assigned to a node too far from the boresight", "src/math_physics/gnss/antex_file_reader.cpp src/math_physics/gnss/gnss_satellite_number.cpp src/math_physics/time_system/date_time_format.cpp src/math_physics/time_system/epoch_time.cpp",
 r'''#include <math_physics/gnss/antex_file_reader.hpp>
int main() { s2e::gnss::AntexGridDefinition g(10, 80, 5); return g.CalcClosestZenithIndex(20.5) == 2 && g.CalcClosestZenithIndex(79) == 14 ? 0 : 1; }
''', stubs=False)
bug("beam-profile-of-the-waist", "M04", [("src/math_physics/optics/gaussian_beam_base.cpp", "(-2.0 * deviation_from_optical_axis_m * deviation_from_optical_axis_m) / (beam_width_radius_m * beam_width_radius_m)", "(-2.0 * deviation_from_optical_axis_m * deviation_from_optical_axis_m) / (beam_width_radius_m * radius_beam_waist_m_)")],
 "a point off the optical axis at a distance from the waist", "the beam falls off faster than its width and loses power on the way", "src/math_physics/optics/gaussian_beam_base.cpp",
 r'''#include <math_physics/optics/gaussian_beam_base.hpp>
#include <cmath>
int main() { s2e::optics::GaussianBeamBase b(1e-6, 0.01, 5); double z = 1000, w = b.CalcBeamWidthRadius_m(z), r = b.CalcIntensity_W_m2(z, w) / b.CalcIntensity_W_m2(z, 0); return std::fabs(r - std::exp(-2.0)) < 1e-9 ? 0 : 1; }
''', stubs=False)
