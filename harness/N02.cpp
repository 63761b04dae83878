// Star sensor: delay line, output interval, frames, forbidden conditions.
#include <components/ports/power_port.hpp>
#include <components/real/aocs/star_sensor.hpp>
#include <environment/global/clock_generator.hpp>
#include <environment/global/physical_constants.hpp>
#include <sstream>
#include "env.hpp"
using namespace mc; using namespace env;
using namespace s2e; using namespace s2e::components;
const char* kProperty = "N02";
const char* kAssumptions = "Delay and interval count updates of the powered sensor; before the first delayed attitude exists the identity is given; a delay or interval below one update in the settings file counts as one.";
static World& W() { static World* w = nullptr; if (!w) { ClearBodies(); w = new World(); w->Place(MakeV(7e6, 1e5, -3e5), MakeV(100, 7500, 200), Quat(0, 0, 0, 1), MakeV(0, 0, 0)); } return *w; }
static std::vector<double> Cells(const std::string& s) { std::vector<double> v; std::istringstream i(s); std::string c; while (std::getline(i, c, ',')) if (c.size()) v.push_back(atof(c.c_str())); return v; }
static Rot Prod(const Rot& a, const Rot& b) { Rot r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { r.m[i][j] = 0; for (int k = 0; k < 3; k++) r.m[i][j] += a.m[i][k] * b.m[k][j]; } return r; }
static double Off(const Rot& a, const Rot& b) { double d = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) d = std::max(d, std::fabs(a.m[i][j] - b.m[i][j])); return d; }
struct Line { int delay, interval; Rot mount; std::vector<Rot> hist; size_t n = 0; Rot out = RotOf(0, 0, 0, 1); bool first = true;
  void Step(const Rot& i2b) { hist.push_back(Prod(mount, i2b)); size_t k = hist.size() - 1; if (k % interval == 0) out = k >= (size_t)delay ? hist[k - delay] : RotOf(0, 0, 0, 1); } };
static void Same(Path& p, const StarSensor& s, const Line& m) { Quat q = s.GetMeasuredQuaternion_i2c(); double n = 0; for (int i = 0; i < 4; i++) n += q[i] * q[i]; p.Near(n, 1, 1e-9, "star-quaternion"); double d = Off(RotOf(q), m.out); p.Check(d < 1e-9, "star-attitude", "attitude differs by %.3g at update %zu", d, m.hist.size()); }
static double Rad(double d) { return d * M_PI / 180; }

// A star sensor of the given errors and limits: by its constructor (how 0) or from a settings file without (1) or with (2) a power port
StarSensor MakeStar(int how, environment::ClockGenerator* clk, PowerPort* pp, const Quat& mq, double so, double ss, double sun, double earth, double moon, double rate_deg) {
  World& w = W(); if (how == 0) return StarSensor(1, clk, 0, mq, so, ss, 1, 0, 1, Rad(sun), Rad(earth), Rad(moon), Rad(rate_deg), w.dynamics.get(), w.local.get());
  Ini f; for (int k = 0; k < 2; k++) { std::string s = "STAR_SENSOR_" + std::to_string(k); double e = k == 1 ? 1 : 0.37; f.Set(s, "prescaler", 1).SetV(s, "quaternion_b2c", {mq[0], mq[1], mq[2], mq[3]}).Set(s, "standard_deviation_orthogonal_direction_rad", so * e).Set(s, "standard_deviation_sight_direction_rad", ss * e).Set(s, "output_delay_s", 0.0).Set(s, "output_interval_s", 1.0).Set(s, "sun_exclusion_angle_deg", sun * e).Set(s, "earth_exclusion_angle_deg", earth * e).Set(s, "moon_exclusion_angle_deg", moon * e).Set(s, "angular_rate_limit_deg_s", rate_deg * e); }
  f.Set("POWER_PORT", "minimum_voltage_V", 3.3).Set("POWER_PORT", "assumed_power_consumption_W", 2.0); std::string path = f.Write("stt_made.ini");
  if (how == 1) return InitStarSensor(clk, 1, path, 1, w.dynamics.get(), w.local.get()); StarSensor t = InitStarSensor(clk, pp, 1, path, 1, w.dynamics.get(), w.local.get()); pp->SetVoltage_V(5); return t;
}

void Register() {
  Scenario("delay-line", "delay {0,1,2,3,5,9} x interval {1,2,3} x step {0.05,1,5} s: all histories of 6/8 updates over {3 attitudes, power off} followed by 12 updates under changing attitudes", [](Path& p) {
    World& w = W(); Line m; m.delay = p.PickI({0, 1, 2, 3, 5, 9}); m.interval = p.PickI({1, 2, 3}); double st = p.Pick({0.05, 1, 5}); Quat mq = Rotations()[7]; m.mount = RotOf(mq); environment::ClockGenerator clk; clk.ClearTimerCount(); PowerPort pp(0, 10, 3, 1); pp.SetVoltage_V(5);
    StarSensor s(1, &clk, &pp, 0, mq, 0, 0, st, m.delay, m.interval, 0.1, 0.1, 0.1, 1, w.dynamics.get(), w.local.get()); p.Check(s.GetErrorFlag(), "star-initial", "no error flag before the first update");
    for (int k = 0, n = Q(6, 8); k < n + 12; k++) { int a = k < n ? p.Choose(4) : 4 + k % 5; if (a == 3) { pp.SetVoltage_V(0); clk.TickToComponents(); } else { pp.SetVoltage_V(5); const Quat& q = Rotations()[(a * 3 + 1) % 12]; w.dynamics->SetAttitude().SetQuaternion_i2b(q); bool fast = (a + k / 5) % 3 == 1; w.dynamics->SetAttitude().SetAngularVelocity_b_rad_s(MakeV(0, fast ? 1.5 : .2, 0)); clk.TickToComponents(); m.Step(RotOf(q)); environment::ClockGenerator c2; c2.ClearTimerCount(); StarSensor now(1, &c2, 1, mq, 0, 0, st, 0, 1, 0.1, 0.1, 0.1, 1, w.dynamics.get(), w.local.get()); c2.TickToComponents(); p.Eq(s.GetErrorFlag(), now.GetErrorFlag(), "star-flag-now", "flag of the present update"); if (fast) p.Check(s.GetErrorFlag(), "star-flag-now", "no flag at 1.5 rad/s"); p.Outcome(s.GetErrorFlag() ? "error" : "no error"); } w.dynamics->SetAttitude().SetAngularVelocity_b_rad_s(MakeV(0, 0, 0)); Same(p, s, m); if (k < n) p.Note("%d", a); p.Obs({(double)m.delay, (double)m.interval, m.out.m[0][0], m.out.m[0][1], m.out.m[1][2], (double)m.hist.size(), (double)a}); }
  }, {5});
  for (const char* o : {"error", "no error"}) RequireOutcome("delay-line", o);
  Scenario("long-delays", "delay {20,31,32,33,64,100,127,128,129,255,256,257,300,1000} updates x interval {1,3,17,130}, from the constructor or the settings file: 2.2 delays and 60 updates under attitudes that do not repeat with a period near the delay", [](Path& p) {
    World& w = W(); Line m; m.delay = p.PickI({20, 31, 32, 33, 64, 100, 127, 128, 129, 255, 256, 257, 300, 1000}); m.interval = p.PickI({1, 3, 17, 130}); Quat mq = Rotations()[4]; m.mount = RotOf(mq); environment::ClockGenerator clk; clk.ClearTimerCount(); bool file = p.Flag("settings file"); Ini f;
    f.Set("STAR_SENSOR_0", "prescaler", 1).SetV("STAR_SENSOR_0", "quaternion_b2c", {mq[0], mq[1], mq[2], mq[3]}).Set("STAR_SENSOR_0", "standard_deviation_orthogonal_direction_rad", 0.0).Set("STAR_SENSOR_0", "standard_deviation_sight_direction_rad", 0.0).Set("STAR_SENSOR_0", "output_delay_s", (m.delay + 0.5) * 0.25).Set("STAR_SENSOR_0", "output_interval_s", (m.interval + 0.5) * 0.25).Set("STAR_SENSOR_0", "sun_exclusion_angle_deg", 6).Set("STAR_SENSOR_0", "earth_exclusion_angle_deg", 6).Set("STAR_SENSOR_0", "moon_exclusion_angle_deg", 6).Set("STAR_SENSOR_0", "angular_rate_limit_deg_s", 60);
    StarSensor s = file ? InitStarSensor(&clk, 0, f.Write("stt_long.ini"), 0.25, w.dynamics.get(), w.local.get()) : StarSensor(1, &clk, 0, mq, 0, 0, 0.25, m.delay, m.interval, 0.1, 0.1, 0.1, 1, w.dynamics.get(), w.local.get()); w.dynamics->SetAttitude().SetAngularVelocity_b_rad_s(MakeV(0, 0, 0));
    for (int k = 0, n = m.delay * 11 / 5 + 60; k < n; k++) { double a = 0.01 * k * (1 + 0.003 * k); Quat q(std::sin(a) * 0.6, std::sin(a) * 0.64, std::sin(a) * 0.48, std::cos(a)); w.dynamics->SetAttitude().SetQuaternion_i2b(q); clk.TickToComponents(); m.Step(RotOf(q)); Same(p, s, m); } p.Obs({(double)m.delay, (double)m.interval, (double)file});
  });
  Scenario("settings", "InitStarSensor: delay {0,0.1,0.3,0.7,1,1.2} s x interval {0.1,0.3,0.6} s x prescaler {0,1,2,3} x step {0.1,0.02} s x 2 sections x port or none x 4 mountings: 30 updates", [](Path& p) {
    World& w = W(); double de = p.Pick({0, 0.1, 0.3, 0.7, 1, 1.2}), in = p.Pick({0.1, 0.3, 0.6}); int ps = p.PickI({0, 1, 2, 3}); double st = p.Pick({0.1, 0.02}); int id = p.Choose(2), d = p.Choose(4); bool port = p.Flag("port"); Ini f; Line m; for (int k = 0; k < 2; k++) { std::string s = "STAR_SENSOR_" + std::to_string(k); const Quat& q = Rotations()[(d * 3 + k + 1) % 12]; bool me = k == id; f.Set(s, "prescaler", ps).SetV(s, "quaternion_b2c", {q[0], q[1], q[2], q[3]}).Set(s, "standard_deviation_orthogonal_direction_rad", 0.0).Set(s, "standard_deviation_sight_direction_rad", 0.0).Set(s, "output_delay_s", me ? de : 0.5).Set(s, "output_interval_s", me ? in : 0.9).Set(s, "sun_exclusion_angle_deg", 60).Set(s, "earth_exclusion_angle_deg", 60).Set(s, "moon_exclusion_angle_deg", 60).Set(s, "angular_rate_limit_deg_s", 10); if (me) m.mount = RotOf(q); }
    f.Set("POWER_PORT", "minimum_voltage_V", 3.3).Set("POWER_PORT", "assumed_power_consumption_W", 2.0); if (!ps) ps = 1; double step = st * ps; m.delay = std::max(1, (int)std::floor(de / step + 1e-6)); m.interval = std::max(1, (int)std::floor(in / step + 1e-6)); environment::ClockGenerator clk; clk.ClearTimerCount(); PowerPort pp(0, 10); std::string path = f.Write("stt.ini"); StarSensor s = port ? InitStarSensor(&clk, &pp, id, path, st, w.dynamics.get(), w.local.get()) : InitStarSensor(&clk, id, path, st, w.dynamics.get(), w.local.get()); pp.SetVoltage_V(5);
    for (int k = 0; k < 30; k++) { const Quat& q = Rotations()[(k * 5 + 2) % 12]; w.dynamics->SetAttitude().SetQuaternion_i2b(q); for (int i = 0; i < ps; i++) clk.TickToComponents(); m.Step(RotOf(q)); Same(p, s, m); p.Obs({de, in, step, (double)d, (double)id, (double)k}); }
    auto c = Cells(s.GetLogValue()); p.Eq(c.size(), 5, "star-log"); Quat q = s.GetMeasuredQuaternion_i2c(); for (int i = 0; i < 4; i++) p.Near(c[i], q[i], 2e-5, "star-log"); p.Near(c[4], s.GetErrorFlag(), 0, "star-log");
  });
  Scenario("forbidden", "sight line placed at {0, limit-0.02, limit+0.02, 90, 180} deg from the sun, the moon and the edge of the earth (every combination) x orbit radius {6.9e6, 4.2e7, 3.8e8} m x rate {0, below, above} x 3/12 mountings x 3 attitudes x built directly or from settings with and without power port", [](Path& p) {
    World& w = W(); static const double lim[3] = {40, 21, 13}; double ang[3]; int in[3]; double r = p.Pick({6.9e6, 4.2e7, 3.8e8}), half = std::asin(environment::earth_equatorial_radius_m / r) * 180 / M_PI; int mi = p.Choose(Q(3, 12)); Quat mq = Rotations()[(mi * 3 + 2) % 12], at = Rotations()[p.PickI({0, 4, 10})]; Rot C = Prod(RotOf(mq), RotOf(at)); V3 s = MulT(C, MakeV(1, 0, 0)), e1 = MulT(C, MakeV(0, 0.6, 0.8)), e2 = MulT(C, MakeV(0, -0.8, 0.6));
    for (int b = 0; b < 3; b++) { double L = lim[b] + (b == 1 ? half : 0); int k = p.Choose(5); ang[b] = k == 0 ? 0 : k == 1 ? L - 0.02 : k == 2 ? L + 0.02 : k == 3 ? std::max(90.0, L + 5) : 180; in[b] = ang[b] < L; } auto dir = [&](double a, double ph) { return Add(Scale(std::cos(Rad(a)), s), Scale(std::sin(Rad(a)), Add(Scale(std::cos(ph), e1), Scale(std::sin(ph), e2)))); };
    V3 pos = Scale(-r, dir(ang[1], 1)); SetBody("SUN", Add(pos, Scale(1.5e11, dir(ang[0], 0.3)))); SetBody("MOON", Add(pos, Scale(3.8e8, dir(ang[2], -2)))); double rate = p.Pick({0, 0.99, 1.01}) * Rad(5); w.Place(pos, MakeV(100, 7500, 200), at, Scale(rate, Unit(MakeV(1, -2, 0.5))));
    environment::ClockGenerator clk; clk.ClearTimerCount(); PowerPort pp(0, 10); StarSensor t = MakeStar(mi == 0 ? p.Choose(3) : mi % 3, &clk, &pp, mq, 0, 0, lim[0], lim[1], lim[2], 5); clk.TickToComponents(); bool want = in[0] || in[1] || in[2] || rate > Rad(5); p.Note("sun %g earth %g moon %g rate %g", ang[0], ang[1], ang[2], rate); p.Eq(t.GetErrorFlag(), want, "forbidden"); p.Outcome(want ? "error" : "no error");
    w.dynamics->SetAttitude().SetAngularVelocity_b_rad_s(Scale(want && !in[0] && !in[1] && !in[2] ? 0.0 : 2 * Rad(5), MakeV(0, 1, 0))); clk.TickToComponents(); p.Eq(t.GetErrorFlag(), !(want && !in[0] && !in[1] && !in[2]), "forbidden", "after the rate changed"); p.Obs({ang[0], ang[1], ang[2], r, rate, (double)mi, at[0], at[1]});
  }, {3});
  RequireOutcome("forbidden", "error"); RequireOutcome("forbidden", "no error");
  Scenario("noise", "noise about the sight line {0, 0.01} x across {0, 0.003} rad x 6 mountings x 4/16 seeds x built directly or from settings with and without power port: size over 400 updates about each axis of the sensor", [](Path& p) {
    World& w = W(); double ss = p.Pick({0, 0.01}), so = p.Pick({0, 0.003}); Quat mq = Rotations()[p.Choose(6) * 2]; randomization::global_randomization.SetSeed(3 + 577 * p.Choose(Q(4, 16))); environment::ClockGenerator clk; clk.ClearTimerCount(); w.dynamics->SetAttitude().SetQuaternion_i2b(Rotations()[9]); PowerPort pp(0, 10); StarSensor t = MakeStar(p.Choose(3), &clk, &pp, mq, so, ss, 6, 6, 6, 60); clk.TickToComponents(); Rot C = Prod(RotOf(mq), RotOf(Rotations()[9])); double s2[3] = {0, 0, 0}; const int N = 400;
    for (int i = 0; i < N; i++) { clk.TickToComponents(); Rot A = RotOf(t.GetMeasuredQuaternion_i2c()), E; for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) { E.m[a][b] = 0; for (int k = 0; k < 3; k++) E.m[a][b] += A.m[a][k] * C.m[b][k]; } double v[3] = {(E.m[1][2] - E.m[2][1]) / 2, (E.m[2][0] - E.m[0][2]) / 2, (E.m[0][1] - E.m[1][0]) / 2}; for (int k = 0; k < 3; k++) s2[k] += v[k] * v[k]; }
    auto size = [&](double s, double want, const char* n) { double q = std::sqrt(s / N); if (want == 0) p.Near(q, 0, 1e-9 + 2e-4 * ss, "star-noise", n); else p.Check(q > 0.8 * want && q < 1.2 * want, "star-noise", "%s: %.4g instead of %.4g", n, q, want); }; size(s2[0], ss, "sight line"); size(s2[1] + s2[2], so, "across"); if (so > 0) p.Check(s2[1] > 0.5 * s2[2] && s2[2] > 0.5 * s2[1], "star-noise", "not isotropic"); p.Obs({ss, so, mq[0], mq[1]});
  });
}
