// Sensor error model: gyroscope, magnetometer, ideal observers.
#include <components/base/sensor.hpp>
#include <components/ideal/angular_velocity_observer.hpp>
#include <components/ideal/attitude_observer.hpp>
#include <components/ideal/orbit_observer.hpp>
#include <components/ports/power_port.hpp>
#include <components/real/aocs/gyro_sensor.hpp>
#include <components/real/aocs/magnetometer.hpp>
#include <environment/global/clock_generator.hpp>
#include <sstream>
#include "env.hpp"
using namespace mc; using namespace env;
using namespace s2e; using namespace s2e::components;
const char* kProperty = "N01";
const char* kAssumptions = "Sizes of random errors are judged over 400 updates for a fixed set of seeds; everything else is noise-free and exact.";
static std::vector<double> Cells(const std::string& s) { std::vector<double> v; std::istringstream i(s); std::string c; while (std::getline(i, c, ',')) if (c.size()) v.push_back(atof(c.c_str())); return v; }
static World& W() { static World* w = nullptr; if (!w) { ClearBodies(); w = new World(); w->Place(MakeV(7e6, 1e5, -3e5), MakeV(100, 7500, 200), Quat(0, 0, 0, 1), MakeV(0, 0, 0)); } return *w; }
typedef environment::GeomagneticField Field;
static Field& F() { static Field* f = new Field(CORE_DIR_FROM_EXE "/example/settings/environment/magnetic_field/igrf13.coef", 0, 0, 0); return *f; }
static void SetField(int k) { static const double P[4][3] = {{0.3, 1.2, 5e5}, {-1.2, -2, 7e5}, {1.5, 0.1, 4e5}, {0, 3, 3e7}}; F().CalcMagneticField(2020.5, 0.3 * k, geodesy::GeodeticPosition(P[k % 4][0], P[k % 4][1], P[k % 4][2]), Rotations()[(k * 5 + 3) % 12]); }
static double Clip(double v, double c, double z) { c = std::fabs(c); z = std::fabs(z); if (c > z) z = 2 * c; double a = std::fabs(v); return a < c ? v : a >= z ? 0 : v < 0 ? -c : c; }
template <size_t N> struct Bare : Sensor<N> { using Sensor<N>::Sensor; math::Vector<N> Go(const math::Vector<N>& v) { return this->Measure(v); } };
struct Model { math::Matrix<3, 3> sf; V3 bias; double c, z; V3 operator()(const V3& t) const { V3 o; for (int i = 0; i < 3; i++) o[i] = Clip(sf[i][0] * t[0] + sf[i][1] * t[1] + sf[i][2] * t[2] + bias[i], c, z); return o; } };
static math::Matrix<3, 3> Scale3(int k) { math::Matrix<3, 3> s = math::MakeIdentityMatrix<3>(); if (k == 1) { s[0][0] = 1.1; s[1][1] = 0.8; s[2][2] = -0.5; } if (k == 2) { s[0][1] = 0.2; s[1][2] = -0.3; s[2][0] = 0.05; s[2][2] = 2; } return s; }
static const V3 kW[5] = {MakeV(0, 0, 0), MakeV(0.01, -0.02, 0.3), MakeV(-1.2, 0.4, 0.9), MakeV(3, -5, 0), MakeV(0.5, 0.5, -0.5)};
static void WriteSensor(Ini& f, const std::string& sec, const std::string& unit, const Model& m, bool sf) {
  std::string s = "SENSOR_BASE_" + sec; if (sf) f.SetV(s, "scale_factor_c", {m.sf[0][0], m.sf[0][1], m.sf[0][2], m.sf[1][0], m.sf[1][1], m.sf[1][2], m.sf[2][0], m.sf[2][1], m.sf[2][2]});
  f.Set(s, "constant_bias_c_" + unit, m.bias).Set(s, "normal_random_standard_deviation_c_" + unit, MakeV(0, 0, 0)).Set(s, "random_walk_standard_deviation_c_" + unit, MakeV(0, 0, 0)).Set(s, "random_walk_limit_c_" + unit, MakeV(0, 0, 0)).Set(s, "range_to_constant_" + unit, m.c).Set(s, "range_to_zero_" + unit, m.z);
}

struct Peek : dynamics::orbit::Orbit { static void Set(dynamics::Dynamics& d, const V3& r, const V3& v) { auto& o = const_cast<dynamics::orbit::Orbit&>(d.GetOrbit()); o.*(&Peek::spacecraft_position_i_m_) = r; o.*(&Peek::spacecraft_velocity_i_m_s_) = v; } };
void Register() {
  Scenario("clipping", "one axis: 23 true values around both limits of both signs x limits {(2,5),(5,2),(-2,5),(2,-5),(-5,-2),(0,1),(3,3)} x scale {1,-2,0.5} x bias {0,0.7,-1} x all times {1,0.001,1e5}; two measurements", [](Path& p) {
    static const double L[7][2] = {{2, 5}, {5, 2}, {-2, 5}, {2, -5}, {-5, -2}, {0, 1}, {3, 3}}; int l = p.Choose(7); double u = p.Pick({1, 1e-3, 1e5}), k = p.Pick({1, -2, 0.5}), b = u * p.Pick({0, 0.7, -1}), lc = L[l][0] * u, lz = L[l][1] * u; math::Matrix<1, 1> sf; sf[0][0] = k; typedef math::Vector<1> V1; Bare<1> s(sf, V1(lc), V1(lz), V1(b), V1(0.0), 0.1, V1(0.0), V1(0.0));
    double out = u * p.Pick({-20, -10, -5.001, -5, -4.999, -3.001, -3, -2.999, -2.001, -2, -1.999, 0, 1e-9, 0.999, 1, 1.999, 2, 2.001, 3, 4.999, 5, 5.001, 12}); double in = (out - b) / k, want = Clip(k * in + b, lc, lz); bool exact = k == 1 && b == 0 && u == 1; if (!exact && std::fabs(std::fabs(out) - std::fabs(lz)) < 1e-9 * u) throw Skip(); for (int i = 0; i < 2; i++) p.Near(s.Go(V1(in))[0], want, 1e-12 * u, "clipping"); p.Outcome(want == 0 ? "zero" : want == k * in + b ? "linear" : "constant"); p.Obs({in, k, b, (double)l});
  });
  for (const char* o : {"zero", "linear", "constant"}) RequireOutcome("clipping", o);
  Scenario("clipping of three axes", "every assignment of 6 limit pairs (valid, swapped, negative) to the three axes x 9 true values on one axis and 2 on the others: each axis is limited by its own pair", [](Path& p) {
    static const double L[6][2] = {{2, 5}, {5, 2}, {-3, 8}, {1, -4}, {-6, -2.5}, {40, 90}}; int l[3]; V3 c, z; for (int i = 0; i < 3; i++) { l[i] = p.Choose(6); c[i] = L[l[i]][0]; z[i] = L[l[i]][1]; } Bare<3> s(Scale3(0), c, z, V3(0.0), V3(0.0), .1, V3(0.0), V3(0.0));
    for (int a = 0; a < 3; a++) for (double v : {-11.0, -7.0, -4.5, -2.2, 0.5, 2.7, 3.5, 6.5, 14.0}) for (double u : {-.9, 4.2}) { V3 in = MakeV(u, -u, u); in[a] = v; V3 o = s.Go(in); p.Note("axis %d value %g", a, v); for (int i = 0; i < 3; i++) p.Near(o[i], Clip(in[i], c[i], z[i]), 1e-12, "clipping", "axis"); } p.Obs({(double)l[0], (double)l[1], (double)l[2]});
  }, {1});
  Scenario("gyro-magnetometer", "all histories of depth 4/5 over {5 body rates / fields, attitude change, toggle power} for a gyroscope and a magnetometer x 4 mountings x scale factor 3 x bias 2 x ranges 2 x prescaler {1,2}", [](Path& p) {
    World& w = W(); Quat q = Rotations()[p.PickI({0, 4, 7, 11})]; Rot R = RotOf(q); Model g, m; int sk = p.Choose(3); g.sf = m.sf = Scale3(sk); bool b = p.Flag("bias"); g.bias = b ? MakeV(0.1, -0.2, 0.3) : MakeV(0, 0, 0); m.bias = Scale(1000, g.bias); bool r = p.Flag("narrow"); g.c = r ? 0.4 : 50; g.z = r ? 1 : 100; m.c = r ? 15000 : 1e6; m.z = r ? 30000 : 2e6; int ps = p.PickI({1, 2});
    environment::ClockGenerator clk; clk.ClearTimerCount(); PowerPort pp(0, 10, 3, 1); pp.SetVoltage_V(5); bool on = true; Sensor<3> gb(g.sf, V3(g.c), V3(g.z), g.bias, V3(0.0), 0.1, V3(0.0), V3(0.0)), mb(m.sf, V3(m.c), V3(m.z), m.bias, V3(0.0), 0.1, V3(0.0), V3(0.0));
    GyroSensor gy(ps, &clk, &pp, gb, 1, q, w.dynamics.get()); Magnetometer mg(ps, &clk, &pp, mb, 2, q, &F()); V3 eg = MakeV(0, 0, 0), em = eg; int f = 0, a = 0, wi = 0; SetField(0); auto& at = w.dynamics->SetAttitude(); at.SetAngularVelocity_b_rad_s(kW[0]); at.SetQuaternion_i2b(Quat(0, 0, 0, 1));
    for (int s = 0, n = Q(4, 5); s < n; s++) {
      int c = p.Choose(7); if (c < 5) { at.SetAngularVelocity_b_rad_s(kW[wi = c]); SetField(f = c); } else if (c == 5) at.SetQuaternion_i2b(Rotations()[a = (a + 5) % 12]); else { on = !on; pp.SetVoltage_V(on ? 5 : 0); } p.Note("action %d", c);
      for (int i = 0; i < ps; i++) clk.TickToComponents(); if (on) { eg = g(Mul(R, kW[wi])); V3 fb = F().GetGeomagneticField_b_nT(); em = m(Mul(R, fb)); }
      p.NearV(gy.GetMeasuredAngularVelocity_c_rad_s(), eg, 3, 1e-12, on ? "gyro" : "gyro-off"); p.NearV(mg.GetMeasuredMagneticField_c_nT(), em, 3, 1e-7, on ? "magnetometer" : "magnetometer-off");
      auto cg = Cells(gy.GetLogValue()), cm = Cells(mg.GetLogValue()); p.Eq(cg.size() + cm.size(), 6, "sensor-log"); for (int i = 0; i < 3; i++) { p.Near(cg[i], eg[i], 2e-5 * std::fabs(eg[i]), "sensor-log"); p.Near(cm[i], em[i], 2e-5 * std::fabs(em[i]), "sensor-log"); }
      V3 tr = at.GetAngularVelocity_b_rad_s(); p.NearV(tr, kW[wi], 3, 0, "truth-altered"); p.Outcome(!on ? "off" : eg[0] == 0 ? "zero" : "on"); p.Obs({eg[0], eg[1], eg[2], em[0], em[1], em[2], (double)on, (double)f, (double)a, (double)sk, (double)b, (double)r, (double)ps});
    }
  }, {4});
  Scenario("settings", "InitGyroSensor, InitMagnetometer and angular velocity observer from files of 2 sections each x 12 mountings x scale factor absent / 2 kinds x prescaler {0,1,2,3} x port or none; 5 rates", [](Path& p) {
    World& w = W(); int id = 1 + p.Choose(2), d = p.Choose(12), sk = p.Choose(3), ps = p.PickI({0, 1, 2, 3}); bool port = p.Flag("port"); Ini f; Model g, m, o; Quat q;
    for (int k = 1; k <= 2; k++) for (int t = 0; t < 2; t++) { std::string sec = (t ? "MAGNETOMETER_" : "GYRO_SENSOR_") + std::to_string(k); Model x; x.sf = Scale3(sk ? (sk + k) % 2 + 1 : 0); x.bias = Scale(t ? 1e3 : 1, MakeV(0.01 * k, 0.02, -0.03)); x.c = (t ? 3e4 : 0.9) * k; x.z = (t ? 4e4 : 2) * k; WriteSensor(f, sec, t ? "nT" : "rad_s", x, sk); const Quat& qq = Rotations()[(d + k) % 12]; f.Set(sec, "prescaler", ps).SetV(sec, "quaternion_b2c", {qq[0], qq[1], qq[2], qq[3]}); if (k == id) { (t ? m : g) = x; q = qq; } }
    o.sf = Scale3(sk); o.bias = MakeV(0.2, 0, -0.1); o.c = 0.7; o.z = 4; WriteSensor(f, "ANGULAR_VELOCITY_OBSERVER", "rad_s", o, sk); f.Set("COMPONENT_BASE", "prescaler", ps).Set("POWER_PORT", "minimum_voltage_V", 3.3).Set("POWER_PORT", "assumed_power_consumption_W", 2.0); std::string path = f.Write("sens.ini");
    environment::ClockGenerator clk; clk.ClearTimerCount(); PowerPort pp(0, 10), pq(1, 10); auto* D = w.dynamics.get(); GyroSensor gy = port ? InitGyroSensor(&clk, &pp, id, path, 0.1, D) : InitGyroSensor(&clk, id, path, 0.1, D); Magnetometer mg = port ? InitMagnetometer(&clk, &pq, id, path, 0.1, &F()) : InitMagnetometer(&clk, id, path, 0.1, &F()); AngularVelocityObserver ob = InitializeAngularVelocityObserver(&clk, path, 0.1, D->GetAttitude()); pp.SetVoltage_V(5); pq.SetVoltage_V(5);
    for (int s = 0; s < 5; s++) { D->SetAttitude().SetAngularVelocity_b_rad_s(kW[s]); SetField(s); for (int i = 0; i < (ps ? ps : 1); i++) clk.TickToComponents(); V3 fb = F().GetGeomagneticField_b_nT(); p.NearV(gy.GetMeasuredAngularVelocity_c_rad_s(), g(Mul(RotOf(q), kW[s])), 3, 1e-12, "gyro"); p.NearV(mg.GetMeasuredMagneticField_c_nT(), m(Mul(RotOf(q), fb)), 3, 1e-7, "magnetometer"); p.NearV(ob.GetAngularVelocity_b_rad_s(), o(kW[s]), 3, 1e-12, "rate-observer"); p.Obs({(double)id, (double)d, (double)sk, (double)ps, (double)s}); }
  });
  Scenario("observers", "attitude observer (12 attitudes) and orbit observer (3 orbits, inertial / RTN / unknown frame) without noise, prescaler {0,1,2,3}, attitude and orbit changing between updates: three updates follow the truth exactly and only at their updates", [](Path& p) {
    World& w = W(); int ini = p.Choose(4), ps = ini ? ini : 1, fr = p.Choose(3); Ini f; f.Set("COMPONENT_BASE", "prescaler", ini).Set("ATTITUDE_OBSERVER", "error_angle_standard_deviation_deg", 0.0).Set("ORBIT_OBSERVER", "noise_frame", fr == 0 ? "INERTIAL" : fr == 1 ? "RTN" : "OTHER").SetV("ORBIT_OBSERVER", "noise_standard_deviation", {0, 0, 0, 0, 0, 0}); std::string path = f.Write("obs.ini"); static World* z = nullptr; static const V3 R[3] = {MakeV(7e6, 0, 0), MakeV(1e6, 7e6, 2e6), MakeV(0, -1e5, 9e6)}, V[3] = {MakeV(0, 7e3, 10), MakeV(-7e3, 1, 2), MakeV(6e3, 3e3, 1)}; (void)z;
    int ob = p.Choose(3); w.Place(R[ob], V[ob], Quat(0, 0, 0, 1), MakeV(0, 0, 0)); environment::ClockGenerator clk; clk.ClearTimerCount(); AttitudeObserver a = InitializeAttitudeObserver(&clk, path, w.dynamics->GetAttitude()); OrbitObserver o = InitializeOrbitObserver(&clk, path, w.dynamics->GetOrbit());
    int k0 = p.Choose(12); for (int s = 0; s < 3; s++) { const Quat& q = Rotations()[(k0 + 5 * s) % 12]; w.dynamics->SetAttitude().SetQuaternion_i2b(q); int at = (ob + s) % 3; Peek::Set(*w.dynamics, R[at], V[at]); for (int i = 0; i < ps; i++) { clk.TickToComponents(); if (i == 0) { w.dynamics->SetAttitude().SetQuaternion_i2b(Rotations()[(k0 + 1) % 12]); Peek::Set(*w.dynamics, Scale(2, R[0]), Scale(.5, V[1])); } } Quat m = a.GetQuaternion_i2b(); double d = 0, e = 0; for (int i = 0; i < 4; i++) { d += std::fabs(m[i] - q[i]); e += std::fabs(m[i] + q[i]); } p.Check(std::min(d, e) < 1e-12, "attitude-observer", "differs from the truth by %.3g", std::min(d, e)); p.NearV(o.GetPosition_i_m(), R[at], 3, 0, "orbit-observer"); p.NearV(o.GetVelocity_i_m_s(), V[at], 3, 0, "orbit-observer"); p.NearV(w.dynamics->GetOrbit().GetPosition_i_m(), Scale(2, R[0]), 3, 1e-6, "truth-altered"); p.Obs({(double)ps, (double)fr, (double)ob, (double)k0, (double)s}); }
  });
  Scenario("noise", "attitude observer 3 deg; orbit observer with noise on one of 6 axes x {inertial, RTN}; gyroscope white noise on one of 3 axes; 6/24 seeds: size, direction and independence of the errors over 400 updates", [](Path& p) {
    World& w = W(); int seed = p.Choose(Q(6, 24)), ax = p.Choose(6); bool rtn = p.Flag("rtn"); randomization::global_randomization.SetSeed(31 + 733 * seed); w.Place(MakeV(1e6, 7e6, 2e6), MakeV(-7e3, 1e3, 2), Rotations()[5], kW[1]); V3 r = w.dynamics->GetOrbit().GetPosition_i_m(), v = w.dynamics->GetOrbit().GetVelocity_i_m_s(); V3 X[3] = {Unit(r), Cross(Unit(Cross(r, v)), Unit(r)), Unit(Cross(r, v))}; if (!rtn) for (int i = 0; i < 3; i++) X[i] = MakeV(i == 0, i == 1, i == 2);
    environment::ClockGenerator clk; clk.ClearTimerCount(); math::Vector<6> sd(0.0); sd[ax] = 2.5; OrbitObserver o(1, &clk, rtn ? NoiseFrame::kRtn : NoiseFrame::kInertial, sd, w.dynamics->GetOrbit()); double sa = 3 * M_PI / 180; AttitudeObserver a(1, &clk, sa, w.dynamics->GetAttitude()); V3 gs(0.0); gs[ax % 3] = 0.04; Model g; Sensor<3> b1(Scale3(0), V3(1e3), V3(2e3), V3(0.0), gs, 0.1, V3(0.0), V3(0.0)), b2(Scale3(0), V3(1e3), V3(2e3), V3(0.0), gs, 0.1, V3(0.0), V3(0.0)); GyroSensor g1(1, &clk, b1, 1, Quat(0, 0, 0, 1), w.dynamics.get()), g2(1, &clk, b2, 2, Quat(0, 0, 0, 1), w.dynamics.get());
    double so = 0, aa = 0, cov[3][3] = {}, s1 = 0, s2 = 0, s12 = 0; V3 axis = MakeV(0, 0, 0); const int N = 400;
    for (int i = 0; i < N; i++) {
      clk.TickToComponents(); V3 dp = Sub(o.GetPosition_i_m(), r), dv = Sub(o.GetVelocity_i_m_s(), v), d = ax < 3 ? dp : dv, z = ax < 3 ? dv : dp; p.Near(Norm(z), 0, 1e-9, "orbit-noise-axis", "noise on the other quantity"); double c = Dot(d, X[ax % 3]); p.Near(Norm(Sub(d, Scale(c, X[ax % 3]))), 0, 1e-7, "orbit-noise-axis"); so += c * c;
      Quat m = a.GetQuaternion_i2b(); Rot A = RotOf(m), B = RotOf(w.dynamics->GetAttitude().GetQuaternion_i2b()); double tr = 0, nn = 0; for (int x = 0; x < 3; x++) for (int y = 0; y < 3; y++) tr += A.m[x][y] * B.m[x][y]; for (int x = 0; x < 4; x++) nn += m[x] * m[x]; p.Near(nn, 1, 1e-9, "attitude-noise", "not a unit quaternion"); double an = std::acos(std::max(-1.0, std::min(1.0, (tr - 1) / 2))); aa += an * an; { double E[3][3]; for (int x = 0; x < 3; x++) for (int y = 0; y < 3; y++) { E[x][y] = 0; for (int z2 = 0; z2 < 3; z2++) E[x][y] += A.m[x][z2] * B.m[y][z2]; } V3 ev = Scale(.5, MakeV(E[2][1] - E[1][2], E[0][2] - E[2][0], E[1][0] - E[0][1])); for (int x = 0; x < 3; x++) for (int y = 0; y < 3; y++) cov[x][y] += ev[x] * ev[y]; }
      V3 e1 = g1.GetMeasuredAngularVelocity_c_rad_s(), e2 = g2.GetMeasuredAngularVelocity_c_rad_s(); for (int x = 0; x < 3; x++) if (x != ax % 3) { p.Near(e1[x], kW[1][x], 1e-12, "gyro-noise-axis"); p.Near(e2[x], kW[1][x], 1e-12, "gyro-noise-axis"); } double x1 = e1[ax % 3] - kW[1][ax % 3], x2 = e2[ax % 3] - kW[1][ax % 3]; s1 += x1 * x1; s2 += x2 * x2; s12 += x1 * x2;
    }
    auto size = [&](double s, double want, const char* what) { double q = std::sqrt(s / N); p.Check(q > 0.82 * want && q < 1.18 * want, "noise-size", "%s: %.4g instead of %.4g", what, q, want); }; size(so, 2.5, "orbit observer"); size(aa, sa, "attitude observer"); { double t3 = cov[0][0] + cov[1][1] + cov[2][2]; for (int x = 0; x < 3; x++) for (int y = 0; y <= x; y++) p.Near(cov[x][y] / t3, x == y ? 1.0 / 3 : 0, .16, "noise-direction", "attitude observer: share of the error about an axis / correlation of two axes"); } size(s1, 0.04, "gyroscope"); size(s2, 0.04, "gyroscope"); p.Check(std::fabs(s12) < 0.2 * std::sqrt(s1 * s2), "noise-independence", "correlation %.3g between two sensors", s12 / std::sqrt(s1 * s2)); p.Obs({(double)seed, (double)ax, (double)rtn});
  });
  Scenario("noise-settings", "gyroscope and magnetometer (with and without port) and rate observer from files: white noise or random walk declared on one of 3 axes x prescaler {1,2,3} x component step {0.1,0.5} x 2/8 seeds: the declared size on the declared axis, the walk's pace per second and limit", [](Path& p) {
    World& w = W(); int dev = p.Choose(5), ax = p.Choose(3), ps = p.PickI({1, 2, 3}), seed = p.Choose(Q(2, 8)); bool walk = p.Flag("walk"); double st = p.Pick({0.1, 0.5}); double u = dev == 2 || dev == 3 ? 1000 : 1, sd = 0.3 * u, lim = 0.9 * u * st * ps, dt = st * ps; std::string sec = dev == 4 ? "ANGULAR_VELOCITY_OBSERVER" : dev > 1 ? "MAGNETOMETER_1" : "GYRO_SENSOR_1", unit = u > 1 ? "nT" : "rad_s"; Model m; m.sf = Scale3(0); m.bias = MakeV(0, 0, 0); m.c = 1e7; m.z = 2e7; Ini f; WriteSensor(f, sec, unit, m, true);
    std::string b = "SENSOR_BASE_" + sec; auto on = [&](double x) { return MakeV(ax == 0 ? x : 0, ax == 1 ? x : 0, ax == 2 ? x : 0); }; f.Set(b, (walk ? "random_walk_standard_deviation_c_" : "normal_random_standard_deviation_c_") + unit, on(sd)); if (walk) f.Set(b, "random_walk_limit_c_" + unit, on(lim)); f.Set(sec, "prescaler", ps).SetV(sec, "quaternion_b2c", {0, 0, 0, 1}).Set("COMPONENT_BASE", "prescaler", ps).Set("POWER_PORT", "minimum_voltage_V", 3.3).Set("POWER_PORT", "assumed_power_consumption_W", 2.0); std::string path = f.Write("ns.ini");
    randomization::global_randomization.SetSeed(97 + 613 * seed); environment::ClockGenerator clk; clk.ClearTimerCount(); PowerPort pp(0, 10); pp.SetVoltage_V(5); auto* D = w.dynamics.get(); D->SetAttitude().SetAngularVelocity_b_rad_s(kW[1]); SetField(1); V3 B = F().GetGeomagneticField_b_nT(); std::unique_ptr<GyroSensor> gy; std::unique_ptr<Magnetometer> mg; std::unique_ptr<AngularVelocityObserver> ob;
    if (dev == 0) gy.reset(new GyroSensor(InitGyroSensor(&clk, 1, path, st, D))); if (dev == 1) gy.reset(new GyroSensor(InitGyroSensor(&clk, &pp, 1, path, st, D))); if (dev == 2) mg.reset(new Magnetometer(InitMagnetometer(&clk, 1, path, st, &F()))); if (dev == 3) mg.reset(new Magnetometer(InitMagnetometer(&clk, &pp, 1, path, st, &F()))); if (dev == 4) ob.reset(new AngularVelocityObserver(InitializeAngularVelocityObserver(&clk, path, st, D->GetAttitude()))); if (dev == 1 || dev == 3) pp.SetVoltage_V(5);
    double last = 0, s1 = 0, far = 0, sum = 0; const int N = 250; for (int k = 0; k < N; k++) { for (int i = 0; i < ps; i++) clk.TickToComponents(); V3 o = gy ? gy->GetMeasuredAngularVelocity_c_rad_s() : mg ? mg->GetMeasuredMagneticField_c_nT() : ob->GetAngularVelocity_b_rad_s(), t = u > 1 ? B : kW[1], e = Sub(o, t); for (int i = 0; i < 3; i++) if (i != ax) p.Near(e[i], 0, 1e-9 * u, "noise-axis", "error of an axis without declared noise"); double x = walk ? e[ax] - last : e[ax]; last = e[ax]; if (!walk || k) s1 += x * x; sum += x; far = std::max(far, std::fabs(e[ax])); }
    double q = std::sqrt(s1 / N); if (walk) { double want = 0.527 * sd * dt; p.Check(q > 0.75 * want && q < 1.3 * want, "walk-pace", "steps of %.4g instead of %.4g", q, want); p.Check(far < lim + 4 * want, "walk-limit", "walks to %.4g with a limit of %.4g", far, lim); p.Check(far > 0.7 * lim, "walk-limit", "walks only to %.4g with a limit of %.4g", far, lim); } else p.Check(q > 0.8 * sd && q < 1.2 * sd, "noise-size", "%.4g instead of %.4g", q, sd);
    p.Obs({(double)dev, (double)ax, (double)ps, (double)walk, st, (double)seed});
  });
  Scenario("random-walk", "true value {5,0} x walk deviation {0.5,3} x limit {0.2,1} x step {0.1,1} x 4/16 seeds: stays at its limit up to one step, moves, starts at zero", [](Path& p) {
    double tv = p.Pick({5, 0}), sd = p.Pick({0.5, 3}), lim = p.Pick({0.2, 1}), st = p.Pick({0.1, 1}); int seed = p.Choose(Q(4, 16)); randomization::global_randomization.SetSeed(7 + 97 * seed); typedef math::Vector<1> V1; math::Matrix<1, 1> sf; sf[0][0] = 1; Bare<1> s(sf, V1(1e6), V1(2e6), V1(0.0), V1(0.0), st, V1(sd), V1(lim)); double last = s.Go(V1(tv))[0]; p.Near(last, tv, 0, "walk-start"); double far = 0, moved = 0; for (int i = 0; i < 300; i++) { double x = s.Go(V1(tv))[0]; p.Check(std::fabs(x - last) < 4.5 * sd * st, "walk-step", "step of %.4g", x - last); moved += std::fabs(x - last) > 0; last = x; far = std::max(far, std::fabs(x - tv)); } p.Check(moved > 290, "walk-moves", "stands still"); p.Check(far < lim + 4.5 * sd * st, "walk-limit", "at %.4g", far); p.Obs({sd, lim, st, (double)seed});
  });
}
