// Magnetorquer: bounded commanded moment, no memory, torque m x B; interference on the magnetometer.
#include <components/ports/power_port.hpp>
#include <components/real/aocs/magnetometer.hpp>
#include <components/real/aocs/magnetorquer.hpp>
#include <components/real/aocs/mtq_magnetometer_interference.hpp>
#include <environment/global/clock_generator.hpp>
#include <sstream>
#include "env.hpp"
using namespace mc; using namespace env;
using namespace s2e; using namespace s2e::components;
const char* kProperty = "A03";
const char* kAssumptions = "The field is that of the geomagnetic model (IGRF file of the repository), at places and attitudes of a lattice; an unpowered magnetorquer forgets its command.";
static std::vector<double> Cells(const std::string& s) { std::vector<double> v; std::istringstream i(s); std::string c; while (std::getline(i, c, ',')) if (c.size()) v.push_back(atof(c.c_str())); return v; }
typedef environment::GeomagneticField Field;
static Field& F() { static Field* f = new Field(CORE_DIR_FROM_EXE "/example/settings/environment/magnetic_field/igrf13.coef", 0, 0, 0); return *f; }
static void SetField(int k) { static const double P[4][3] = {{0.3, 1.2, 5e5}, {-1.2, -2, 7e5}, {1.5, 0.1, 4e5}, {0, 3, 3e7}}; F().CalcMagneticField(2020.5, 0.3 * k, geodesy::GeodeticPosition(P[k % 4][0], P[k % 4][1], P[k % 4][2]), Rotations()[(k * 5 + 3) % 12]); }
struct Mtq { Quat q; math::Matrix<3, 3> sf; V3 hi, lo, bias, cmd = MakeV(0, 0, 0), m = MakeV(0, 0, 0), mb = MakeV(0, 0, 0), t = MakeV(0, 0, 0);
  void Step(bool on) { if (!on) { cmd = m = mb = t = MakeV(0, 0, 0); return; } V3 c; for (int i = 0; i < 3; i++) c[i] = std::min(hi[i], std::max(lo[i], cmd[i])) + bias[i]; for (int i = 0; i < 3; i++) m[i] = sf[i][0] * c[0] + sf[i][1] * c[1] + sf[i][2] * c[2]; mb = MulT(RotOf(q), m); V3 b = F().GetGeomagneticField_b_nT(); t = Cross(mb, Scale(1e-9, b)); } };
static void Same(Path& p, const Magnetorquer& a, const Mtq& m) {
  double e = 1e-12 * (1 + Norm(m.m)); p.NearV(a.GetOutputMagneticMoment_c_Am2(), m.m, 3, e, "moment"); p.NearV(a.SetOutputMagneticMoment_b_Am2(), m.mb, 3, e, "moment-body"); p.NearV(a.GetOutputTorque_b_Nm(), m.t, 3, 1e-15 * (1 + 1e6 * Norm(m.t)), "mtq-torque");
  auto c = Cells(a.GetLogValue()); p.Eq(c.size(), 6, "mtq-log"); for (int i = 0; i < 3; i++) { p.Near(c[i], m.mb[i], 2e-5 * Norm(m.mb) + 1e-12, "mtq-log"); p.Near(c[3 + i], m.t[i], 2e-5 * Norm(m.t) + 1e-15, "mtq-log"); }
}
static math::Matrix<3, 3> Scale3(int k) { math::Matrix<3, 3> s = math::MakeIdentityMatrix<3>(); if (k == 1) { s[0][0] = 1.1; s[1][1] = 0.8; s[2][2] = -0.5; } if (k == 2) { s[0][1] = 0.2; s[1][2] = -0.3; s[2][0] = 0.05; s[2][2] = 2; } return s; }
static const V3 kCmd[6] = {MakeV(0, 0, 0), MakeV(0.5, -0.2, 0.1), MakeV(10, -10, 0.3), MakeV(-0.4, 3, -3), MakeV(0.001, 0, -0.7), MakeV(1, 0, 0)};

void Register() {
  Scenario("histories", "all histories of depth 4/6 over {6 commands incl. beyond the range, no command, toggle power, other field} with an update after each x scale factor {1, diagonal, coupled} x bias {0, set} x 3 mountings x symmetric or asymmetric range", [](Path& p) {
    Mtq m; int sk = p.Choose(3); m.sf = Scale3(sk); bool bi = p.Flag("bias"); m.bias = bi ? MakeV(0.01, -0.03, 0.002) : MakeV(0, 0, 0); m.q = Rotations()[p.PickI({0, 7, 10})]; bool asym = p.Flag("asymmetric range"); m.hi = asym ? MakeV(0.6, 0.9, 0.2) : MakeV(1, 1, 1); m.lo = asym ? MakeV(-0.3, -0.1, -0.8) : MakeV(-1, -1, -1);
    environment::ClockGenerator clk; clk.ClearTimerCount(); PowerPort pp(0, 10, 3, 1); pp.SetVoltage_V(5); bool on = true; int fk = 0; SetField(0); Magnetorquer a(1, &clk, &pp, 0, m.q, m.sf, m.hi, m.lo, m.bias, 0.1, V3(0.0), V3(0.0), V3(0.0), &F()); p.Near(Norm(a.GetOutputTorque_b_Nm()), 0, 0, "mtq-initial");
    for (int s = 0, n = Q(4, 6); s < n; s++) {
      int c = p.Choose(9); if (c < 6) { a.SetOutputMagneticMoment_c_Am2(kCmd[c]); m.cmd = kCmd[c]; } else if (c == 7) { on = !on; pp.SetVoltage_V(on ? 5 : 0.1); } else if (c == 8) SetField(++fk); p.Note("action %d", c);
      clk.TickToComponents(); m.Step(on); Same(p, a, m); p.Outcome(!on ? "off" : Norm(m.cmd) == 0 ? "idle" : "driven"); p.Obs({m.m[0], m.m[1], m.m[2], m.cmd[0], m.cmd[1], m.cmd[2], m.t[0], m.t[1], m.t[2], (double)on, (double)fk, (double)sk, (double)bi, (double)asym});
    }
  }, {4});
  for (const char* o : {"off", "idle", "driven"}) RequireOutcome("histories", o);
  Scenario("long-run", "scale factor 3 x bias 2 x 6 commands x prescaler {1,3}: 300/1000 updates under one command keep the same moment", [](Path& p) {
    Mtq m; m.sf = Scale3(p.Choose(3)); m.bias = p.Flag() ? MakeV(0.01, -0.03, 0.002) : MakeV(0, 0, 0); m.q = Rotations()[5]; m.hi = MakeV(1, 2, 0.4); m.lo = MakeV(-1, -2, -0.4); int c = p.Choose(6), ps = p.PickI({1, 3}); SetField(1); environment::ClockGenerator clk; clk.ClearTimerCount(); Magnetorquer a(ps, &clk, 0, m.q, m.sf, m.hi, m.lo, m.bias, 0.1, V3(0.0), V3(0.0), V3(0.0), &F());
    a.SetOutputMagneticMoment_c_Am2(kCmd[c]); m.cmd = kCmd[c]; m.Step(true); for (int i = 0; i < Q(300, 1000); i++) { for (int k = 0; k < ps; k++) clk.TickToComponents(); Same(p, a, m); } p.Obs({m.m[0], m.m[1], m.m[2]});
  });
  Scenario("settings", "InitMagnetorquer: 2 sections x 12 mountings x prescaler {0,1,2,3} x with or without port; 6 updates", [](Path& p) {
    int id = p.Choose(2), d = p.Choose(12), ps = p.PickI({0, 1, 2, 3}); bool port = p.Flag("port"); Ini f; Mtq w;
    for (int k = 0; k < 2; k++) { std::string s = "MAGNETORQUER_" + std::to_string(k); Mtq m; m.q = Rotations()[(d + k) % 12]; m.sf = Scale3(1 + k); m.hi = MakeV(0.3 + k, 0.4, 0.5); m.lo = MakeV(-0.2 - k, -0.6, -0.1); m.bias = MakeV(0.01, 0.02 * k, -0.03);
      f.Set(s, "prescaler", ps).SetV(s, "quaternion_b2c", {m.q[0], m.q[1], m.q[2], m.q[3]}).SetV(s, "scale_factor_c", {m.sf[0][0], m.sf[0][1], m.sf[0][2], m.sf[1][0], m.sf[1][1], m.sf[1][2], m.sf[2][0], m.sf[2][1], m.sf[2][2]}).Set(s, "max_output_magnetic_moment_c_Am2", m.hi).Set(s, "min_output_magnetic_moment_c_Am2", m.lo).Set(s, "constant_bias_noise_c_Am2", m.bias).Set(s, "random_walk_standard_deviation_c_Am2", MakeV(0, 0, 0)).Set(s, "random_walk_limit_c_Am2", MakeV(0, 0, 0)).Set(s, "white_noise_standard_deviation_c_Am2", MakeV(0, 0, 0)); if (k == id) w = m; }
    f.Set("POWER_PORT", "minimum_voltage_V", 3.3).Set("POWER_PORT", "assumed_power_consumption_W", 2.0); SetField(2); environment::ClockGenerator clk; clk.ClearTimerCount(); PowerPort pp(0, 10); std::string path = f.Write("mtq.ini"); Magnetorquer a = port ? InitMagnetorquer(&clk, &pp, id, path, 0.1, &F()) : InitMagnetorquer(&clk, id, path, 0.1, &F()); pp.SetVoltage_V(5);
    for (int s = 0; s < 6; s++) { a.SetOutputMagneticMoment_c_Am2(kCmd[s]); w.cmd = kCmd[s]; if (s == 5) pp.SetVoltage_V(1); for (int i = 0; i < (ps ? ps : 1); i++) clk.TickToComponents(); w.Step(!(port && s == 5)); Same(p, a, w); p.Obs({w.m[0], w.m[1], w.m[2], w.t[0], (double)d}); }
  });
  Scenario("noise", "white noise 0.05 Am2 and random walk (limit 0.02) on each axis x 4/16 seeds x 6 commands: 300 updates stay around the command, do not drift, use different numbers on each axis", [](Path& p) {
    int seed = p.Choose(Q(4, 16)), c = p.Choose(6); bool walk = p.Flag("walk"); randomization::global_randomization.SetSeed(17 + 1001 * seed); SetField(0); environment::ClockGenerator clk; clk.ClearTimerCount(); V3 hi = MakeV(1, 1, 1); Magnetorquer a(1, &clk, 0, Quat(0, 0, 0, 1), Scale3(0), hi, Scale(-1, hi), V3(0.0), 0.1, walk ? V3(0.01) : V3(0.0), V3(0.02), walk ? V3(0.0) : V3(0.05), &F()); a.SetOutputMagneticMoment_c_Am2(kCmd[c]);
    double s2[3] = {0, 0, 0}, mean[3] = {0, 0, 0}; int same = 0; const int N = 300; for (int i = 0; i < N; i++) { clk.TickToComponents(); V3 m = a.GetOutputMagneticMoment_c_Am2(), d; for (int k = 0; k < 3; k++) { d[k] = m[k] - std::min(1.0, std::max(-1.0, kCmd[c][k])); s2[k] += d[k] * d[k]; mean[k] += d[k] / N; } if (i && std::fabs(d[0] - d[1]) < 1e-12 && std::fabs(d[1] - d[2]) < 1e-12) same++; if (walk) for (int k = 0; k < 3; k++) p.Check(std::fabs(d[k]) < 0.03, "walk-limit", "walk at %.4g", d[k]); V3 b = F().GetGeomagneticField_b_nT(); p.NearV(a.GetOutputTorque_b_Nm(), Cross(m, Scale(1e-9, b)), 3, 1e-18, "mtq-torque"); }
    p.Check(same < N / 10, "noise-axes", "the same noise on all axes"); if (!walk) for (int k = 0; k < 3; k++) { double r = std::sqrt(s2[k] / N); p.Check(r > 0.04 && r < 0.06 && std::fabs(mean[k]) < 0.012, "noise-size", "noise of %.4g, mean %.4g", r, mean[k]); } p.Obs({(double)seed, (double)c, (double)walk});
  });
  Scenario("interference", "all histories of depth 4/6 over {4 commands, toggle power, update of the interference, update of the magnetometer, other field} x polynomial degree {0,1,2,3,5,9} x magnetometer mounting 2 x 2 pairs in the file", [](Path& p) {
    int deg = p.PickI({0, 1, 2, 3, 5, 9}), id = p.Choose(2); Quat q = Rotations()[p.PickI({0, 7})]; Ini f; double C[2][9][3][3]; for (int k = 0; k < 2; k++) { std::string s = "MTQ_MAGNETOMETER_INTERFERENCE_" + std::to_string(k); f.Set(s, "polynomial_degree", deg); for (int g = 0; g < deg; g++) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) C[k][g][i][j] = (100.0 - 30 * g) * (i == j) + 7 * i - 3 * j + 11 * k + 2 * g; auto& c = C[k][g]; f.SetV(s, "additional_bias_by_mtq_coefficients_" + std::to_string(g + 1), {c[0][0], c[0][1], c[0][2], c[1][0], c[1][1], c[1][2], c[2][0], c[2][1], c[2][2]}); } }
    SetField(0); int fk = 0; environment::ClockGenerator clk, clk2; clk.ClearTimerCount(); clk2.ClearTimerCount(); PowerPort pp(0, 10, 3, 1); pp.SetVoltage_V(5); bool on = true; Mtq m; m.q = Rotations()[3]; m.sf = Scale3(2); m.hi = MakeV(1, 1, 1); m.lo = MakeV(-1, -1, -1); m.bias = MakeV(0, 0.01, 0); Magnetorquer a(1, &clk, &pp, 0, m.q, m.sf, m.hi, m.lo, m.bias, 0.1, V3(0.0), V3(0.0), V3(0.0), &F());
    V3 b0 = MakeV(20, -30, 5); Sensor<3> base(Scale3(0), V3(1e9), V3(2e9), b0, V3(0.0), 0.1, V3(0.0), V3(0.0)); Magnetometer mag(1, &clk2, base, 0, q, &F()); static int nf = 0; std::string path = f.Write("intf.ini"); (void)nf; MtqMagnetometerInterference x(path, mag, a, id); V3 add = MakeV(0, 0, 0);
    for (int s = 0, n = Q(4, 6); s < n; s++) {
      int c = p.Choose(7); p.Note("action %d", c); if (c < 3) { a.SetOutputMagneticMoment_c_Am2(kCmd[c]); m.cmd = kCmd[c]; clk.TickToComponents(); m.Step(on); Same(p, a, m); } else if (c == 3) { on = !on; pp.SetVoltage_V(on ? 5 : 0); clk.TickToComponents(); m.Step(on); } else if (c == 4) { x.UpdateInterference(); for (int i = 0; i < 3; i++) { add[i] = 0; for (int g = 0; g < deg; g++) for (int j = 0; j < 3; j++) { double h = m.m[j]; for (int e = 0; e < g; e++) h *= m.m[j]; add[i] += C[id][g][i][j] * h; } } } else if (c == 5) SetField(++fk);
      clk2.TickToComponents(); V3 b = F().GetGeomagneticField_b_nT(), want = Add(Add(Mul(RotOf(q), b), b0), add); p.NearV(mag.GetMeasuredMagneticField_c_nT(), want, 3, 1e-7, "interference"); p.Obs({add[0], add[1], add[2], m.m[0], m.m[1], m.m[2], (double)fk, (double)on, (double)deg});
    }
    for (int i = 0; i < 50; i++) x.UpdateInterference(); clk2.TickToComponents(); V3 now = mag.GetMeasuredMagneticField_c_nT(); for (int i = 0; i < 50; i++) x.UpdateInterference(); clk2.TickToComponents(); p.NearV(mag.GetMeasuredMagneticField_c_nT(), now, 3, 1e-7, "interference-accumulates");
  }, {4});
}
