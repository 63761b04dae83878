// Reaction wheel: limits, dead time and lag, coasting, angular momentum balance, jitter.
#include <components/ports/power_port.hpp>
#include <components/real/aocs/reaction_wheel.hpp>
#include <deque>
#include <math_physics/randomization/global_randomization.hpp>
#include <environment/global/clock_generator.hpp>
#include <sstream>
#include "env.hpp"
using namespace mc; using namespace env;
using namespace s2e; using namespace s2e::components;
const char* kProperty = "A01";
const char* kAssumptions = "Velocity limits are not negative; the dead time counts whole steps and the command is sampled by the update after it is given (one update of its own).";
static const double kR = 2 * M_PI / 60;
struct Cfg { double step, J, tmax, vmax; int dead; double lag; std::vector<double> fric; double stop; bool on; double w0; double vmax_r() const { return vmax * kR; } };
struct Wheel {  // reference
  Cfg c; std::deque<double> q; double lag = 0, target = 0, w, dw = 0, lim; bool on;
  explicit Wheel(const Cfg& k) : c(k), q(k.dead + 1, 0.0), w(k.w0), lim(k.vmax_r()), on(k.on) {}
  void Torque(double t) { target = std::min(std::max(t, -c.tmax), c.tmax) / c.J; }
  // after the update the wheel turns at `now`; says what is wrong, or nothing
  std::string Step(double now, bool powered) {
    const double old = w; double lo, hi, tol = 1e-9 * (1 + std::fabs(old));
    if (!powered) on = false;
    if (!on) {
      std::fill(q.begin(), q.end(), 0.0); lag = 0; double f = 0, pw = 1; for (double k : c.fric) f += k * pw, pw *= std::fabs(old);
      double m = std::fabs(old) < c.stop ? 0 : std::max(0.0, std::fabs(old) - f * c.step); lo = hi = old < 0 ? -m : m;
    } else {
      double in = q.front(); q.pop_front(); q.push_back(target); lag = c.lag / (c.step + c.lag) * lag + c.step / (c.step + c.lag) * in;
      double want = old + lag * c.step, L = std::max(lim, std::fabs(old)); lo = hi = want;
      if (std::fabs(want) > lim && (lag > 0) == (want > 0) && lag != 0) {  // drive against the limit: somewhere up to the limit, not beyond
        if (want > 0) { lo = std::min(old, lim); hi = std::min(want, L); } else { hi = std::max(old, -lim); lo = std::max(want, -L); }
      }
    }
    w = now; dw = now - old; if (now < lo - tol || now > hi + tol) { char b[200]; snprintf(b, sizeof b, "%s: angular velocity %.12g, expected %.12g..%.12g (was %.12g)", on ? "driven" : "coasting", now, lo, hi, old); return b; }
    return "";
  }
};
static void Same(Path& p, ReactionWheel& r, Wheel& m, bool powered, const V3& axis) {
  double old = m.w; std::string e = m.Step(r.GetAngularVelocity_rad_s(), powered); if (e.size()) p.Fail("wheel-speed", "%s", e.c_str());
  p.Eq(r.GetDriveFlag(), m.on, "wheel-drive-flag"); p.Near(r.GetAngularVelocity_rpm(), m.w / kR, 1e-9 * (1 + std::fabs(m.w)), "wheel-rpm");
  V3 t = r.GetOutputTorque_b_Nm(), h = r.GetAngularMomentum_b_Nms();
  for (int i = 0; i < 3; i++) { p.Near(t[i], -m.c.J * m.dw / m.c.step * axis[i], 1e-10, "wheel-torque"); p.Near(h[i], m.c.J * m.w * axis[i], 1e-10, "wheel-momentum"); }
  if (m.on) { p.Check(Norm(t) <= m.c.tmax * (1 + 1e-9), "wheel-torque-limit", "torque %.9g above the limit", Norm(t)); p.Check(std::fabs(m.w) <= std::max(m.lim, std::fabs(old)) + 1e-9, "wheel-velocity-limit", "speed above the limit"); }
  p.Outcome(m.on ? (std::fabs(m.w) >= m.lim * 0.999999 ? "driven at the limit" : m.dw == 0 ? "driven, no torque" : "driven") : m.w == 0 && old != 0 ? "stopped" : m.w == 0 ? "still" : "coasting");
}
static ReactionWheelJitter NoJitter() { return ReactionWheelJitter({}, {}, 0.01, Quat(0, 0, 0, 1), 100, 0.1, 0.1, false); }
static std::vector<double> Cells(const std::string& s) { std::vector<double> v; std::istringstream i(s); std::string c; while (std::getline(i, c, ',')) if (c.size()) v.push_back(atof(c.c_str())); return v; }

void Register() {
  for (const char* o : {"driven at the limit", "stopped", "coasting", "driven, no torque"}) RequireOutcome("histories", o);
  Scenario("histories", "all histories of depth 4/6 over 9 actions (torque 0, +T, -T/2, 3T, -3T, toggle drive, toggle power, limit half, limit double), an update after each, then 6/8 more updates x 12 wheels (dead 0..3 steps, incl. steps that are not exact in binary; lag 0 / 0.25 s; friction orders 0..3; initial speeds incl. near the limit; initially on or off) x with or without power port", [](Path& p) {
    struct K { double step; int dead; double extra, lag; std::vector<double> f; bool on; double w0; };
    static const std::vector<K> ks = {{0.1, 0, 0, 0, {0.5}, true, 0}, {0.1, 1, 0, 0, {0.5, 0.2}, true, 3}, {0.1, 3, 0, 0, {}, true, -2}, {0.1, 2, 0.05, 0.25, {0.1, 0.3, 0.01}, true, 9.5}, {0.01, 1, 0.005, 0.25, {3}, false, -9.8}, {1, 0, 0.9, 0, {0.3, 0.1}, false, 4},
                                      {0.5, 2, 0, 0.25, {1, 0.5}, true, -5}, {0.05, 3, 0, 0.25, {20}, true, 0.2}, {0.1, 0, 0, 0.25, {0, 0, 0.4}, false, 10}, {0.3, 3, 0, 0, {0.5}, true, 1}, {0.7, 1, 0, 0, {0.05}, true, 10.4}, {0.1, 1, 0.099, 0.25, {4}, false, 0.05}};
    const K& k = ks[p.Choose((int)ks.size())]; bool port = p.Flag("power port"); Cfg c{k.step, 0.02, 0.05, 100, k.dead, k.lag, k.f, 0.1, k.on, k.w0};
    Quat q = Rotations()[7]; V3 axis = MulT(RotOf(q), MakeV(0, 0, 1)); auto jit = NoJitter(); environment::ClockGenerator clk; clk.ClearTimerCount(); PowerPort pp(0, 10, 3.3, 1); pp.SetVoltage_V(5); double dead = k.dead * k.step + k.extra * k.step / 0.1 * 0.1;
    std::unique_ptr<ReactionWheel> r; if (port) r.reset(new ReactionWheel(1, &clk, &pp, 0, k.step, c.J, c.tmax, c.vmax, q, V3(0.0), dead, k.lag, k.f, c.stop, false, false, 1, jit, k.on, k.w0)); else r.reset(new ReactionWheel(1, &clk, 0, k.step, c.J, c.tmax, c.vmax, q, V3(0.0), dead, k.lag, k.f, c.stop, false, false, 1, jit, k.on, k.w0));
    Wheel m(c); bool powered = true; p.Near(r->GetAngularVelocity_rad_s(), k.w0, 1e-12, "wheel-initial");
    for (int s = 0, n = Q(4, 6); s < n; s++) {
      int a = p.Choose(port ? 9 : 8); static const double T[5] = {0, 1, -0.5, 3, -3};
      if (a < 5) { if (s % 2) { r->SetTargetTorque_b_Nm(-T[a] * c.tmax); } else r->SetTargetTorque_rw_Nm(T[a] * c.tmax); m.Torque(T[a] * c.tmax); p.Note("torque %g", T[a]); }
      else if (a == 5) { m.on = !m.on; r->SetDriveFlag(m.on); p.Note("drive %d", m.on); }
      else if (a == 6) { r->SetVelocityLimit_rpm(c.vmax / 2); m.lim = c.vmax_r() / 2; p.Note("half limit"); }
      else if (a == 7) { r->SetVelocityLimit_rpm(c.vmax * 2); m.lim = c.vmax_r(); p.Note("full limit"); }
      else { powered = !powered; pp.SetVoltage_V(powered ? 5 : 1); p.Note("power %d", powered); }
      clk.TickToComponents(); Same(p, *r, m, powered, axis); p.Obs({m.w, m.lag, m.target, (double)m.on, (double)powered, m.lim, c.step, k.lag, (double)k.dead, (double)port});
    }
    for (int s = 0; s < Q(6, 8); s++) { clk.TickToComponents(); Same(p, *r, m, powered, axis); p.Obs({m.w, m.lag, m.target, (double)m.on, c.step}); }
  }, {3});
  Scenario("dead-time", "step {0.001..2, 9 values} x dead time of 0..20/40 whole steps plus {0, 0.5} steps x prescaler {1,3}: one torque command, the update at which the wheel reacts is counted; then switched off and on again: nothing of the old command is left", [](Path& p) {
    double step = p.Pick({0.001, 0.01, 0.02, 0.05, 0.1, 0.3, 0.7, 1, 2}); int n = p.Choose(Q(21, 41)); bool half = p.Flag(); int ps = p.PickI({1, 3}); double dead = (n + (half ? 0.5 : 0)) * step; if (p.Flag("as decimal")) { char b[40]; snprintf(b, sizeof b, "%.4f", dead); dead = atof(b); }
    auto jit = NoJitter(); environment::ClockGenerator clk; clk.ClearTimerCount(); ReactionWheel r(ps, &clk, 0, step, 0.01, 0.1, 6000, Quat(0, 0, 0, 1), V3(0.0), dead, 0, {}, 0, false, false, 1, jit, true, 0);
    auto upd = [&] { for (int i = 0; i < ps; i++) clk.TickToComponents(); };
    for (int i = 0; i < 3; i++) upd(); p.Near(r.GetAngularVelocity_rad_s(), 0, 0, "dead-time", "uncommanded");
    r.SetTargetTorque_rw_Nm(0.02); int at = 0; while (at < n + 5) { upd(); at++; if (r.GetAngularVelocity_rad_s() != 0) break; } p.Eq(at, n + 2, "dead-time", "updates until the command takes effect");
    p.Near(r.GetAngularVelocity_rad_s(), 2 * step, 1e-12, "dead-time", "first step"); upd(); p.Near(r.GetAngularVelocity_rad_s(), 4 * step, 1e-12, "dead-time", "second step");
    r.SetDriveFlag(false); upd(); p.Near(r.GetAngularVelocity_rad_s(), 4 * step, 1e-12, "dead-time-off"); r.SetDriveFlag(true); r.SetTargetTorque_rw_Nm(-0.01);
    for (int i = 0; i <= n; i++) { upd(); p.Near(r.GetAngularVelocity_rad_s(), 4 * step, 1e-12, "dead-time-cleared"); } upd(); p.Near(r.GetAngularVelocity_rad_s(), 3 * step, 1e-12, "dead-time-again"); p.Obs({step, (double)n, (double)half, (double)ps});
  });
  Scenario("limit-both-ways", "velocity limits {100,37,5,0} rpm x torque {5..100} percent x lag {0,0.5} x 3 steps: driven up to the limit, held, driven to the opposite limit, limit changed on the way", [](Path& p) {
    double lim = p.Pick({100, 37, 5, 0}), tq = p.Pick({0.05, 0.3, 1}), lag = p.Pick({0, 0.5}); double step = p.Pick({0.05, 0.1, 1}); int sgn = p.PickI({1, -1}); int lower = p.Choose(3);
    Cfg c{step, 0.01, 0.03, 100, 1, lag, {0.2}, 0.1, true, 0}; auto jit = NoJitter(); environment::ClockGenerator clk; clk.ClearTimerCount(); ReactionWheel r(1, &clk, 0, step, c.J, c.tmax, c.vmax, Quat(0, 0, 0, 1), V3(0.0), step, lag, c.fric, c.stop, false, false, 1, jit, true, 0); Wheel m(c); V3 ax = MakeV(0, 0, 1);
    r.SetVelocityLimit_rpm(lim); m.lim = lim * kR; int n = (int)(12 / (tq * 3) / step) + 12; if (n > 400) n = 400; double top = 0;
    for (int ph = 0; ph < 2; ph++) { r.SetTargetTorque_rw_Nm(sgn * tq * c.tmax); m.Torque(sgn * tq * c.tmax); for (int i = 0; i < n; i++) { if (lower && i == n / 2) { double l = lower == 1 ? lim / 3 : 1000; r.SetVelocityLimit_rpm(l); m.lim = std::min(l, 100.0) * kR; } clk.TickToComponents(); Same(p, r, m, true, ax); if (!lower && ph == 0) top = std::max(top, std::fabs(m.w)); } sgn = -sgn; p.Obs({lim, tq, lag, step, m.w, (double)lower}); }
    if (!lower && n < 400) p.Check(top > lim * kR - tq * 3 * step - 1e-9, "limit-reached", "speed only %.9g", top);
  });
  Scenario("coasting-law", "friction orders 0..6 x initial speeds {-12,-3,-0.5,0.5,3,12} rad/s x stop limit {0,0.4} x switched off by flag / by power x step {0.01,0.5}: 12 updates of coasting, switched on for 3, coasting again", [](Path& p) {
    int order = p.Choose(7); double w0 = p.Pick({-12, -3, -0.5, 0.5, 3, 12}), stop = p.Pick({0, 0.4}), step = p.Pick({0.01, 0.5}); bool power = p.Flag("by power"); std::vector<double> f; for (int i = 0; i < order; i++) f.push_back(0.3 / pow(6.0, i) * (1 + i));
    Cfg c{step, 0.02, 0.05, 200, 0, 0.25, f, stop, true, w0}; auto jit = NoJitter(); environment::ClockGenerator clk; clk.ClearTimerCount(); PowerPort pp(0, 10, 3.3, 1); pp.SetVoltage_V(5); V3 ax = MakeV(0, 0, 1); ReactionWheel r(1, &clk, &pp, 0, step, c.J, c.tmax, c.vmax, Quat(0, 0, 0, 1), V3(0.0), 0, 0.25, f, stop, false, false, 1, jit, true, w0); Wheel m(c); bool on = true;
    auto sw = [&](bool o) { if (power) { on = o; pp.SetVoltage_V(o ? 5 : 1); if (o) { m.on = true; r.SetDriveFlag(true); } } else { m.on = o; r.SetDriveFlag(o); } };
    auto run = [&](int k) { for (int i = 0; i < k; i++) { clk.TickToComponents(); Same(p, r, m, on, ax); p.Obs({m.w, m.lag, step, stop, (double)order, (double)power}); } };
    r.SetTargetTorque_rw_Nm(c.tmax); m.Torque(c.tmax); sw(false); run(12); sw(true); run(3); sw(false); run(8);
  });
  Scenario("switched-off-at-rest", "a wheel held at zero speed by a zero speed limit under torque {+,-} for 1..6 updates, lag {0.1,0.5}, dead time 0..2 steps, switched off for {1,2} updates by flag / by power, limit released, switched on with no torque ordered: nothing of the old command is left", [](Path& p) {
    double tq = p.Pick({1, -1}), lag = p.Pick({0.1, 0.5}); int n = 1 + p.Choose(6), dead = p.Choose(3), off = 1 + p.Choose(2); bool power = p.Flag("by power"); double step = 0.1; Cfg c{step, 0.02, 0.05, 200, dead, lag, {0.2}, 0.1, true, 0}; auto jit = NoJitter();
    environment::ClockGenerator clk; clk.ClearTimerCount(); PowerPort pp(0, 10, 3.3, 1); pp.SetVoltage_V(5); V3 ax = MakeV(0, 0, 1); ReactionWheel r(1, &clk, &pp, 0, step, c.J, c.tmax, c.vmax, Quat(0, 0, 0, 1), V3(0.0), dead * step, lag, c.fric, c.stop, false, false, 1, jit, true, 0); Wheel m(c); bool on = true;
    auto run = [&](int k) { for (int i = 0; i < k; i++) { clk.TickToComponents(); Same(p, r, m, on, ax); p.Obs({m.w, m.lag, (double)dead, (double)off, (double)power}); } };
    r.SetVelocityLimit_rpm(0); m.lim = 0; r.SetTargetTorque_rw_Nm(tq * c.tmax); m.Torque(tq * c.tmax); run(n); r.SetTargetTorque_rw_Nm(0); m.Torque(0);
    if (power) { on = false; pp.SetVoltage_V(1); } else { m.on = false; r.SetDriveFlag(false); } run(off); r.SetVelocityLimit_rpm(200); m.lim = 200 * kR; on = true; pp.SetVoltage_V(5); m.on = true; r.SetDriveFlag(true); run(6); p.Near(r.GetAngularVelocity_rad_s(), 0, 0, "dead-time-cleared");
  });
  Scenario("settings", "InitReactionWheel: 2 wheels per file x direction by quaternion {12} / by direction {26} x prescaler {0,1,2,4} x flags x with or without power port; 20 updates under a fixed command", [](Path& p) {
    int id = p.Choose(2); bool byq = p.Flag("quaternion"); int d = p.Choose(byq ? 12 : 26), ps = p.PickI({0, 1, 2, 4}); bool on = p.Flag("initially on"), port = p.Flag("port"); Ini f; Cfg w; V3 axis; const double base = 0.1;
    for (int k = 0; k < 2; k++) {
      std::string s = "REACTION_WHEEL_" + std::to_string(k), j = "REACTION_WHEEL_JITTER_" + std::to_string(k); Cfg c{base * (ps ? ps : 1), 0.003 + 0.001 * k, 0.04 + 0.05 * k, 300 - 90.0 * k, 0, 0.3 + k, {0.4 - 0.1 * k, 0.03, 0.002 * k}, 0.2 + k, on, 6.0 - 14 * k}; double dead = 0.1 * (ps ? ps : 1) * (k + 1); c.dead = k + 1;
      f.Set(s, "prescaler", ps).Set(s, "moment_of_inertia_kgm2", c.J).Set(s, "max_output_torque_Nm", c.tmax).Set(s, "max_angular_velocity_rpm", c.vmax).Set(s, "direction_determination_mode", byq ? "QUATERNION" : "DIRECTION");
      const Quat& q = Rotations()[(d + k) % 12]; V3 u = Scale(1.0 + k, Directions26()[(d + 5 * k) % 26]); f.SetV(s, "quaternion_b2c", {q[0], q[1], q[2], q[3]}).Set(s, "direction_b", u).SetV(s, "position_b_m", {0.1, 0.2, 0.3 * k}).Set(s, "dead_time_s", dead).Set(s, "time_constant_s", c.lag);
      f.Set(s, "friction_order", 2 + k).SetV(s, "friction_coefficients", {c.fric[0], c.fric[1], c.fric[2]}).Set(s, "stop_limit_angular_velocity_rad_s", c.stop).Set(s, "initial_motor_drive_flag", on ? "true" : "false").Set(s, "initial_angular_velocity_rad_s", c.w0);
      f.Set(j, "jitter_calculation", "DISABLE").Set(j, "jitter_logging", "DISABLE").Set(j, "fast_prescaler", 1).Set(j, "harmonics_degree", 0).Set(j, "considers_structural_resonance", "DISABLE"); c.fric.resize(2 + k);
      if (k == id) { w = c; axis = byq ? MulT(RotOf(q), MakeV(0, 0, 1)) : Unit(u); }
    }
    f.Set("POWER_PORT", "minimum_voltage_V", 3.3).Set("POWER_PORT", "assumed_power_consumption_W", 2.0);
    environment::ClockGenerator clk; clk.ClearTimerCount(); PowerPort pp(0, 10); std::string path = f.Write("rw.ini"); ReactionWheel r = port ? InitReactionWheel(&clk, &pp, id, path, base) : InitReactionWheel(&clk, id, path, base); pp.SetVoltage_V(5); Wheel m(w);
    for (int t = 0; t < 20; t++) { if (t == 4) { r.SetTargetTorque_rw_Nm(0.03); m.Torque(0.03); } if (t == 10) { r.SetDriveFlag(!m.on); m.on = !m.on; } if (t == 12 && port) pp.SetVoltage_V(3); for (int i = 0; i < (ps ? ps : 1); i++) clk.TickToComponents(); Same(p, r, m, !(port && t >= 12), axis); p.Obs({m.w, axis[0], axis[1], axis[2], (double)t}); }
    if (port) { pp.SetVoltage_V(4); p.Near(pp.GetCurrentConsumption_A(), 0.5, 1e-12, "wheel-power"); }
  });
  Scenario("fast-updates", "all histories of depth 5/7 over {normal update, fast update, toggle power, toggle drive} with jitter calculated, fast prescaler {1,2}, initial speed {8,-3} rad/s: only normal updates change the speed", [](Path& p) {
    int fp = p.PickI({1, 2}); double w0 = p.Pick({8, -3}); Cfg c{0.1, 0.02, 0.05, 100, 0, 0, {2.0}, 0.1, true, w0}; ReactionWheelJitter j({{1, 1e-6}}, {{1, 1e-7}}, 0.01, Quat(0, 0, 0, 1), 100, 0.1, 0.1, false);
    environment::ClockGenerator clk; clk.ClearTimerCount(); PowerPort pp(0, 10, 3.3, 1); pp.SetVoltage_V(5); ReactionWheel r(1, &clk, &pp, 0, c.step, c.J, c.tmax, c.vmax, Quat(0, 0, 0, 1), V3(0.0), 0, 0, c.fric, c.stop, true, false, fp, j, true, w0); r.SetTargetTorque_rw_Nm(c.tmax); Wheel m(c); m.Torque(c.tmax); bool powered = true; unsigned fc = 0, n = 0;
    for (int s = 0; s < Q(5, 7); s++) {
      int a = p.Choose(4);
      if (a == 0) { r.Tick(n++); std::string e = m.Step(r.GetAngularVelocity_rad_s(), powered); if (e.size()) p.Fail("wheel-speed", "%s", e.c_str()); }
      else if (a == 1) { double b = r.GetAngularVelocity_rad_s(); r.FastTick(fc); p.Near(r.GetAngularVelocity_rad_s(), b, 0, "fast-update-speed"); if (fc % fp == 0) p.Near(Norm(r.GetJitterForce_b_N()), 1e-6 * b * b, 1e-12, "jitter-size", "fast update"); fc++; }
      else if (a == 2) { powered = !powered; pp.SetVoltage_V(powered ? 5 : 1); } else { m.on = !m.on; r.SetDriveFlag(m.on); }
      p.Obs({m.w, (double)m.on, (double)powered, (double)fc, (double)fp, m.target});
    }
  });
  Scenario("jitter", "speeds {-300,-20,0,150} rad/s x harmonics lists {0,1,2 entries} x 6 mountings x wheel position 3 x resonance off; 5 fast updates: size and plane of the jitter, its rotation per update and its share of the torque; a second wheel from the same settings keeps its own", [](Path& p) {
    double w = p.Pick({-300, -20, 0, 150}); int nf = p.Choose(3), nt = p.Choose(3); Quat q = Rotations()[(p.Choose(6) * 2 + 1) % 12]; int ip = p.Choose(3); V3 pos = MakeV(ip == 1 ? 0.3 : 0, ip ? -0.2 : 0, ip == 2 ? 0.5 : 0); Ini f; double dt = 0.0002;
    std::string fc, tc; static const double H[2][2] = {{1, 2e-7}, {2.5, 5e-8}}, G[2][2] = {{1, 3e-8}, {3, 1e-8}}; for (int i = 0; i < nf; i++) fc += std::to_string(H[i][0]) + "," + (i ? "5e-8" : "2e-7") + "\n"; for (int i = 0; i < nt; i++) tc += std::to_string(G[i][0]) + "," + (i ? "1e-8" : "3e-8") + "\n";
    std::string ff = WriteFile("hf.csv", "coef,amp\n" + fc), tf = WriteFile("ht.csv", "coef,amp\n" + tc); (void)ff;
    std::vector<std::vector<double>> a, b; for (int i = 0; i < nf; i++) a.push_back({H[i][0], H[i][1]}); for (int i = 0; i < nt; i++) b.push_back({G[i][0], G[i][1]});
    ReactionWheelJitter j(a, b, dt, q, 100, 0.1, 0.1, false); environment::ClockGenerator clk; clk.ClearTimerCount();
    ReactionWheel r(1, &clk, 0, 0.1, 0.001, 0.1, 6000, q, pos, 0, 0, {}, 0, true, true, 1, j, true, w), o(1, &clk, 1, 0.1, 0.001, 0.1, 6000, q, pos, 0, 0, {}, 0, true, true, 1, j, true, -w / 2);
    clk.TickToComponents(); p.Check(r.GetNeedsFastUpdate(), "jitter-fast", "no fast updates"); V3 ax = MulT(RotOf(q), MakeV(0, 0, 1)); double lim_f = 0, lim_t = 0; for (int i = 0; i < nf; i++) lim_f += H[i][1] * w * w; for (int i = 0; i < nt; i++) lim_t += G[i][1] * w * w; V3 lf, lt;
    for (int t = 0; t < 5; t++) {
      r.FastTick(1); auto c = Cells(r.GetLogValue()); p.Eq(c.size(), 11, "jitter-log", "columns"); V3 F = MakeV(c[5], c[6], c[7]), T = MakeV(c[8], c[9], c[10]); V3 out = r.GetOutputTorque_b_Nm();
      V3 Fb = MulT(RotOf(q), F), Tb = MulT(RotOf(q), T), share = Scale(-1, Add(Cross(pos, Fb), Tb)); p.NearV(out, share, 3, 1e-5 * (lim_f + lim_t) + 1e-12, "jitter-torque");
      p.Check(std::fabs(F[2]) < 1e-12 && std::fabs(T[2]) < 1e-12, "jitter-plane", "jitter along the rotation axis"); double e = 1e-5;
      if (nf == 1) p.Near(Norm(F), lim_f, e * lim_f, "jitter-size", "force"); else p.Check(Norm(F) <= lim_f * (1 + e), "jitter-size", "force too big"); if (nt == 1) p.Near(Norm(T), lim_t, e * lim_t, "jitter-size", "torque"); else p.Check(Norm(T) <= lim_t * (1 + e), "jitter-size", "torque too big");
      if (t && nf == 1 && w) { double c1 = Dot(F, lf) / lim_f / lim_f; p.Near(c1, std::cos(H[0][0] * w * dt), 3 * e, "jitter-phase"); } if (t && nt == 1 && w) { double c1 = Dot(T, lt) / lim_t / lim_t; p.Near(c1, std::cos(G[0][0] * w * dt), 3 * e, "jitter-phase"); }
      lf = F; lt = T; std::string before = r.GetLogValue(); o.FastTick(1); o.FastTick(2); p.Check(before == r.GetLogValue(), "jitter-own", "another wheel changed this wheel's jitter");
      V3 fb = r.GetOutputTorque_b_Nm(); p.NearV(fb, out, 3, 0, "jitter-own"); p.Obs({w, (double)nf, (double)nt, q[0], q[1], q[2], (double)ip, (double)t});
    }
  });
  Scenario("resonance", "structural resonance {80,585} Hz x update interval {0.1,0.2} ms x damping {0.1,0.5} x bandwidth {0.001,1,2} x wheel speeds {0,60,-250} rad/s, changed after 20 updates, x 2 mountings; 60 updates against the unfiltered jitter of a twin passed through an independent realisation of the resonance", [](Path& p) {
    double f = p.Pick({80, 585}), dt = p.Pick({1e-4, 2e-4}), z = p.Pick({0.1, 0.5}), bw = p.Pick({0.001, 1, 2}), w = p.Pick({0, 60, -250}), w2 = p.Pick({0, 60, 200}); Quat q = Rotations()[p.Flag() ? 7 : 3]; std::vector<std::vector<double>> a{{1, 2e-6}, {2.5, 5e-7}}, b{{1, 3e-7}};
    randomization::global_randomization.SetSeed(12345); ReactionWheelJitter r(a, b, dt, q, f, z, bw, true); randomization::global_randomization.SetSeed(12345); ReactionWheelJitter u(a, b, dt, q, f, z, bw, false);
    // (s^2 + 2 z wn s + wn^2) / (s^2 + 2 z bw wn s + wn^2), frequency-matched trapezoidal integration of two integrators per axis
    double wn = 2 / dt * std::tan(2 * M_PI * f * dt / 2), h = dt / 2; struct Two { double x1 = 0, x2 = 0, d1 = 0, d2 = 0; } st[6];
    for (int t = 0; t < 60; t++) { double sp = t < 20 ? w : w2; r.CalcJitter(sp); u.CalcJitter(sp); V3 F = u.GetJitterForce_c_N(), T = u.GetJitterTorque_c_Nm(), gF = r.GetJitterForce_c_N(), gT = r.GetJitterTorque_c_Nm(); V3 wF, wT;
      for (int k = 0; k < 6; k++) { double in = k < 3 ? F[k] : T[k - 3]; Two& s = st[k]; double A = 2 * z * bw * wn, B = wn * wn; // x2' = in - A x2 - B x1, x1' = x2 (trapezoidal)
        double c1 = s.x1 + h * s.d1, c2 = s.x2 + h * s.d2; double x2 = (c2 + h * (in - B * c1)) / (1 + h * A + h * h * B), x1 = c1 + h * x2, d2 = in - A * x2 - B * x1; s = {x1, x2, x2, d2}; double y = d2 + 2 * z * wn * x2 + B * x1; (k < 3 ? wF[k] : wT[k - 3]) = y; }
      double m = 1e-7 * (1e-2 + Norm(wF)), n = 1e-7 * (1e-2 + Norm(wT)); p.NearV(gF, wF, 3, m, "jitter-resonance", "force"); p.NearV(gT, wT, 3, n, "jitter-resonance", "torque"); V3 fb = MulT(RotOf(q), wF), tb = MulT(RotOf(q), wT); p.NearV(r.GetJitterForce_b_N(), fb, 3, 2 * m, "jitter-resonance", "force in the body frame"); p.NearV(r.GetJitterTorque_b_Nm(), tb, 3, 2 * n, "jitter-resonance", "torque in the body frame"); p.Obs({wF[0], wF[1], wT[0], wT[1]}); if (Norm(wF) > 1.5 * Norm(F) + 1e-9) p.Outcome("amplified"); if (Norm(F) > 1.5 * Norm(wF) + 1e-9) p.Outcome("damped"); }
  });
  RequireOutcome("resonance", "amplified");
  Scenario("jitter-settings", "InitReactionWheel with jitter: 2 wheels per file x three harmonics x resonance on/off x fast prescaler {1,3} x calculation on/off x logging on/off: the jitter of 6 fast updates equals the one the constructor gives for the same seed", [](Path& p) {
    int id = p.Choose(2), deg = 3, fp = p.PickI({1, 3}); bool res = p.Flag(), calc = p.Flag(), log = p.Flag(); Ini f; ReactionWheelJitter want; const Quat& q = Rotations()[5]; double base = 1e-4;
    for (int k = 0; k < 2; k++) { std::string s = "REACTION_WHEEL_" + std::to_string(k), j = "REACTION_WHEEL_JITTER_" + std::to_string(k); std::vector<std::vector<double>> a, b; std::string fa, fb; for (int i = 0; i < 3; i++) { char c[80]; double n1 = 1 + 1.5 * i, c1 = (1 + i + 2 * k) * 1e-6, n2 = 1 + 2.25 * i, c2 = (2 + i + k) * 1e-7; snprintf(c, 80, "%.9g,%.9g\n", n1, c1); fa += c; snprintf(c, 80, "%.9g,%.9g\n", n2, c2); fb += c; if (i < deg) { a.push_back({n1, c1}); b.push_back({n2, c2}); } }
      std::string pa = WriteFile("ja" + std::to_string(k) + ".csv", fa), pb = WriteFile("jb" + std::to_string(k) + ".csv", fb);
      f.Set(s, "prescaler", 1).Set(s, "moment_of_inertia_kgm2", 1e-3).Set(s, "max_output_torque_Nm", 0.1).Set(s, "max_angular_velocity_rpm", 6000).Set(s, "direction_determination_mode", "QUATERNION").SetV(s, "quaternion_b2c", {q[0], q[1], q[2], q[3]}).SetV(s, "direction_b", {1, 0, 0}).SetV(s, "position_b_m", {0.1, 0.2, 0.3}).Set(s, "dead_time_s", 0.0).Set(s, "time_constant_s", 0.0).Set(s, "friction_order", 1).SetV(s, "friction_coefficients", {0.0}).Set(s, "stop_limit_angular_velocity_rad_s", 0.1).Set(s, "initial_motor_drive_flag", "true").Set(s, "initial_angular_velocity_rad_s", 120.0 + k);
      f.Set(j, "jitter_calculation", calc ? "ENABLE" : "DISABLE").Set(j, "jitter_logging", log ? "ENABLE" : "DISABLE").Set(j, "fast_prescaler", fp).Set(j, "harmonics_degree", deg).Set(j, "considers_structural_resonance", res ? "ENABLE" : "DISABLE").Set(j, "structural_resonance_frequency_Hz", 300.0 + 50 * k).Set(j, "damping_factor", 0.2 + 0.1 * k).Set(j, "bandwidth", 0.5 + k).Set(j, "radial_force_harmonics_coefficient_file", pa).Set(j, "radial_torque_harmonics_coefficient_file", pb);
      if (k == id) { randomization::global_randomization.SetSeed(777); want = ReactionWheelJitter(a, b, fp * base, q, 300.0 + 50 * k, 0.2 + 0.1 * k, 0.5 + k, res); } }
    randomization::global_randomization.SetSeed(777); environment::ClockGenerator clk; clk.ClearTimerCount(); ReactionWheel r = InitReactionWheel(&clk, id, f.Write("rwj.ini"), base); p.Eq((int)r.GetNeedsFastUpdate(), (int)calc, "jitter-fast"); p.Near(Norm(r.GetJitterForce_b_N()), 0, 0, "jitter-initial");
    auto h = Cells(r.GetLogValue()); p.Eq((int)h.size(), log && calc ? 11 : 5, "jitter-log", "columns");
    for (unsigned t = 0; t < 6u * fp; t++) { r.FastTick(t); if (calc && t % fp == 0) want.CalcJitter(120.0 + id); V3 F = want.GetJitterForce_b_N(); for (int i = 0; i < 3; i++) p.Near(r.GetJitterForce_b_N()[i], F[i], 1e-9 * (Norm(F) + 1e-6), "jitter-settings"); V3 T = want.GetJitterTorque_b_Nm(), out = Scale(-1, Add(Cross(MakeV(0.1, 0.2, 0.3), F), T)); if (calc) for (int i = 0; i < 3; i++) p.Near(r.GetOutputTorque_b_Nm()[i], out[i], 1e-9 * (Norm(out) + 1e-6), "jitter-settings", "torque"); p.Obs({F[0], F[1], T[0], (double)calc, (double)log}); }
  });
}
