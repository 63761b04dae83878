// Building blocks of the library: Gaussian beam, first-order lag, quantization, byte-order copy.
#include <math_physics/control_utilities/first_order_lag.hpp>
#include <math_physics/optics/gaussian_beam_base.hpp>
#include <utilities/endian.hpp>
#include <utilities/quantization.hpp>
#include <cmath>
#include <cstring>
#include "mc.hpp"
using namespace mc; using namespace s2e;
const char* kProperty = "M04";
const char* kAssumptions = "Wavelength, waist and resolution are positive, time step and time constant not negative. A quotient within rounding of a whole number may be quantized to either neighbour. Little-endian machine.";
static double Width(double l, double w, double z) { double r = M_PI * w * w / l; return w * std::sqrt(1 + (z / r) * (z / r)); }
void Register() {
  Scenario("beam", "wavelength {355 nm, 1064 nm, 1.55 um, 10.6 um} x waist {0.5 mm, 1 cm, 0.3 m} x power {0, 1e-3, 5, 2e4 W}, given at construction or set afterwards in any of 6 orders after other values were in use x distances 0, +-{1, 1/3, 1, 10, 1e4} Rayleigh lengths: radius, on- and off-axis intensity, power through the cross-section, pointing kept", [](Path& p) {
    double l = p.Pick({355e-9, 1064e-9, 1.55e-6, 10.6e-6}), w = p.Pick({5e-4, 1e-2, 0.3}), P = p.Pick({0.0, 1e-3, 5.0, 2e4}); int how = p.Choose(7); optics::GaussianBeamBase b(how ? 2e-6 : l, how ? 0.05 : w, how ? 1.0 : P);
    static const int kO[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; if (how) { b.CalcIntensity_W_m2(3, 0.1); for (int k : kO[how - 1]) { if (k == 0) b.SetWaveLength_m(l); else if (k == 1) b.SetBeamWaistRadius_m(w); else b.SetTotalPower_W(P); b.CalcBeamWidthRadius_m(1); } }
    p.Check(b.GetWaveLength_m() == l && b.GetBeamWaistRadius_m() == w && b.GetTotalPower_W() == P, "parameters", "%g %g %g", b.GetWaveLength_m(), b.GetBeamWaistRadius_m(), b.GetTotalPower_W()); math::Vector<3> d(0.0), o(0.0); d[how % 3] = -1; o[0] = 7e6; o[1] = -w; o[2] = 1e3 * how; b.SetPointingVector_i(d); b.SetBeamWaistPosition_i_m(o);
    double r = M_PI * w * w / l; for (double f : {0.0, 1e-3, 1.0 / 3, 1.0, 10.0, 1e4}) for (int s : {1, -1}) { double z = s * f * r, want = Width(l, w, z), got = b.CalcBeamWidthRadius_m(z); p.Near(got, want, 1e-12 * want, "radius", "beam radius"); p.Check(got >= w * (1 - 1e-12), "waist", "%g narrower than the waist", got); if (f == 1) p.Near(got, w * std::sqrt(2.0), 1e-9 * w, "rayleigh", "radius at the Rayleigh length");
      double peak = 2 * P / (M_PI * want * want), sum = 0; for (double x : {0.0, 0.1, 0.5, 1.0, 2.0}) for (int t : {1, -1}) p.Near(b.CalcIntensity_W_m2(z, t * x * want), peak * std::exp(-2 * x * x), 1e-11 * peak + 1e-300, "intensity", "intensity off the axis");
      int n = 400; for (int i = 0; i < n; i++) { double x = (i + 0.5) * 4 * want / n; sum += b.CalcIntensity_W_m2(z, x) * 2 * M_PI * x * 4 * want / n; } p.Near(sum, P, 1e-4 * P + 1e-300, "power", "power through the cross-section"); }
    for (int i = 0; i < 3; i++) p.Check(b.GetPointingVector_i()[i] == d[i] && b.GetBeamWaistPosition_i_m()[i] == o[i], "pose", "component %d", i); p.Obs({l, w, P, (double)how}); p.Outcome(P > 0 ? "light" : "dark");
  }, {2});
  for (const char* o : {"light", "dark"}) RequireOutcome("beam", o);
  Scenario("lag", "all histories of depth 6 (8 thorough) over {0, 1, -2.5, 1e3, reset} x time step {0, 0.1, 1} x time constant {0, 0.1, 3} x gain {1, -0.5, 4}: constant (output - last) + step (output - gain input) = 0 at every step, zero where both vanish, never beyond the inputs", [](Path& p) {
    double h = p.Pick({0, 0.1, 1}), c = p.Pick({0, 0.1, 3}), g = p.Pick({1, -0.5, 4}); control_utilities::FirstOrderLag f(h, c, g); p.Check(f.GetOutput() == 0, "start", "%g", f.GetOutput()); double y = 0, top = 0;
    for (int d = 0, n = Q(6, 8); d < n; d++) { int a = p.Choose(5); if (a == 4) { f.Reset(); y = 0; top = 0; p.Check(f.GetOutput() == 0, "reset", "%g", f.GetOutput()); } else { double u = a == 0 ? 0 : a == 1 ? 1 : a == 2 ? -2.5 : 1e3, got = f.Update(u); top = std::max(top, std::fabs(g * u)); if (h + c <= 0) { p.Check(got == 0, "degenerate", "%g", got); y = 0; } else { y = (c * y + h * g * u) / (c + h); p.Near(got, y, 1e-12 * (1 + top), "law", "output"); p.Check(std::fabs(got) <= top * (1 + 1e-12), "bounded", "%g beyond %g", got, top); p.Check(got == f.GetOutput(), "returned", "%g %g", got, f.GetOutput()); } } p.Obs({y, h, c, g, (double)d}); }
    p.Outcome(h + c <= 0 ? "degenerate" : c == 0 ? "direct" : "lagging");
  }, {3});
  for (const char* o : {"degenerate", "direct", "lagging"}) RequireOutcome("lag", o);
  Scenario("quantization", "resolutions {2^-20, 2^-10, 0.25, 1, 3, 1e-3, 0.1, 7.5} x quotients of both signs {0, 1/8, 1/2, 7/8, 1} + {0..40, 1000 x powers of 4 up to 2^40}: the multiple next to the number toward zero, the number itself when it is a multiple, and its single-precision form", [](Path& p) {
    double r = p.Pick({std::ldexp(1, -20), std::ldexp(1, -10), 0.25, 1, 3, 1e-3, 0.1, 7.5}); int k = p.Choose(57); double f = p.Pick({0, 0.125, 0.5, 0.875}); int s = p.Choose(2) ? -1 : 1; double n = k <= 40 ? k : 1000 * std::pow(4.0, k - 41), x = s * (n + f) * r, q = utilities::quantization(x, r), m = q / r;
    p.Check(std::fabs(m - std::round(m)) <= 1e-15 * (1 + n) * 8, "multiple", "%.17g is not a multiple of %g", q, r); p.Check(std::fabs(q) <= std::fabs(x) * (1 + 1e-15) && std::fabs(x - q) <= r * (1 + 1e-9 + 1e-14 * n), "next", "%.17g quantized by %g to %.17g", x, r, q); if (f > 0 && n < 1e13) p.Near(m, s * n, 1e-14 * n + 1e-9, "next", "multiple"); if (r == 0.25 || r == 1 || r == 3 || r < 9e-4 || (r > 9e-4 && r < 1e-3)) p.Check(f > 0 || q == x, "exact", "%.17g by %g became %.17g", x, r, q); p.Check(x == 0 || q == 0 || (q > 0) == (x > 0), "sign", "%g %g", x, q);
    p.Check(utilities::quantization_float(x, r) == (float)q, "float", "%g", q); p.Obs({x, r}); p.Outcome(f > 0 ? "between" : "on a multiple");
  }, {2});
  for (const char* o : {"between", "on a multiple"}) RequireOutcome("quantization", o);
  Scenario("byte-order", "copies of 0..64 bytes at 4 alignments of source and target out of 3 byte patterns: the bytes in reverse order, nothing before or behind them, source and result pointer kept; twice gives the original", [](Path& p) {
    int n = p.Choose(65), a = p.Choose(4), b = p.Choose(4), pat = p.Choose(3); uint8_t src[80], dst[80], back[80], keep[80]; for (int i = 0; i < 80; i++) { src[i] = pat == 0 ? i + 1 : pat == 1 ? 255 - 3 * i : i * i + 7; dst[i] = 0xA5; back[i] = 0x5A; } memcpy(keep, src, 80); void* r = utilities::endian_memcpy(dst + b, src + a, n);
    p.Check(r == dst + b, "result", "pointer"); p.Check(!memcmp(src, keep, 80), "source", "changed"); for (int i = 0; i < 80; i++) { int k = i - b; uint8_t want = k >= 0 && k < n ? src[a + n - 1 - k] : 0xA5; p.Check(dst[i] == want, "bytes", "copy of %d bytes: byte %d is %d not %d", n, k, dst[i], want); } utilities::endian_memcpy(back + a, dst + b, n); for (int i = 0; i < 80; i++) p.Check(back[i] == (i >= a && i < a + n ? src[i] : 0x5A), "twice", "byte %d of %d", i - a, n); p.Obs({(double)n, (double)a, (double)b, (double)pat});
  }, {2});
}
