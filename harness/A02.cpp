// Simple thruster and ideal force / torque generators: bounded command, dead time and lag, wrench about the present centre of mass, frames.
#include <components/ideal/force_generator.hpp>
#include <components/ideal/torque_generator.hpp>
#include <components/ports/power_port.hpp>
#include <components/real/propulsion/simple_thruster.hpp>
#include <deque>
#include <environment/global/clock_generator.hpp>
#include <sstream>
#include "env.hpp"
using namespace mc; using namespace env;
using namespace s2e; using namespace s2e::components;
const char* kProperty = "A02";
const char* kAssumptions = "The dead time counts whole steps and the duty is sampled by the update after it is set; delay and lag of an unpowered thruster stand still; the frames of an order are those at the time it is given.";
static World& W() { static World* w = nullptr; if (!w) { ClearBodies(); w = new World(); w->Place(MakeV(7e6, 0, 0), MakeV(0, 7500, 0), Quat(0, 0, 0, 1), MakeV(0, 0, 0)); } return *w; }
static std::vector<double> Cells(const std::string& s) { std::vector<double> v; std::istringstream i(s); std::string c; while (std::getline(i, c, ',')) if (c.size()) v.push_back(atof(c.c_str())); return v; }
struct Thr { double max; int dead; double lag, step; V3 pos, dir; std::deque<double> q; double out = 0, duty = 0; V3 f = MakeV(0, 0, 0), t = MakeV(0, 0, 0);
  Thr(double m, int d, double l, double s, V3 p, V3 u) : max(m), dead(d), lag(l), step(s), pos(p), dir(Unit(u)), q(d + 1, 0.0) {}
  void Step(bool powered, const V3& cg) { if (!powered) { f = t = MakeV(0, 0, 0); return; } double in = q.front(); q.pop_front(); q.push_back(std::min(1.0, std::max(0.0, duty))); out = lag / (lag + step) * out + step / (lag + step) * in; f = Scale(out * max, dir); t = Cross(Sub(pos, cg), f); } };
static void Same(Path& p, const SimpleThruster& s, const Thr& m) {
  V3 f = s.GetOutputThrust_b_N(), t = s.GetOutputTorque_b_Nm(); p.NearV(f, m.f, 3, 1e-12 * m.max, "thrust"); p.NearV(t, m.t, 3, 1e-11 * m.max, "thruster-torque");
  auto c = Cells(s.GetLogValue()); p.Eq(c.size(), 7, "thruster-log"); for (int i = 0; i < 3; i++) { p.Near(c[i], m.f[i], 2e-5 * m.max, "thruster-log"); p.Near(c[3 + i], m.t[i], 2e-5 * (std::fabs(m.t[i]) + m.max), "thruster-log"); } p.Near(c[6], Norm(m.f), 2e-5 * m.max, "thruster-log");
  p.Check(Norm(f) <= m.max * (1 + 1e-12), "thrust-limit", "thrust above the maximum"); p.Outcome(Norm(f) == 0 ? "no thrust" : Norm(f) > m.max * 0.9999 ? "full thrust" : "thrust");
}

void Register() {
  for (const char* o : {"no thrust", "full thrust", "thrust"}) RequireOutcome("thruster-histories", o);
  Scenario("thruster-histories", "all histories of depth 5/6 over {duty 0, 0.3, 1, 1.7, -0.4; toggle power; move centre of mass} with an update after each, then 5 updates x 8 thrusters (dead 0..3 steps, lag 0 / 0.3 s, mountings, directions, steps inexact in binary)", [](Path& p) {
    struct K { double step; int dead; double lag; V3 pos, dir; }; static const std::vector<K> ks = {{0.1, 0, 0, MakeV(0.1, 0.2, -0.3), MakeV(1, 0, 0)}, {0.1, 1, 0, MakeV(0, 0, 0), MakeV(0, -2, 0)}, {0.1, 3, 0, MakeV(0.5, 0, 0), MakeV(1, 1, 1)}, {0.1, 3, 0.3, MakeV(-1, 0.2, 0), MakeV(0, 0, -1)}, {0.05, 2, 0.3, MakeV(0, 0, 2), MakeV(0.3, -0.4, 1.2)}, {1, 1, 0.3, MakeV(0.3, 0.3, 0.3), MakeV(-1, 0, 0)}, {0.7, 3, 0, MakeV(0, 1, 0), MakeV(0, 1, 0.001)}, {0.3, 2, 0.05, MakeV(0.01, 0, 0), MakeV(5, 0, -5)}};
    const K& k = ks[p.Choose((int)ks.size())]; World& w = W(); auto& kin = w.structure->GetToSetKinematicsParameters(); V3 cg = MakeV(0, 0, 0); kin.SetCenterOfGravityVector_b_m(cg); environment::ClockGenerator clk; clk.ClearTimerCount(); PowerPort pp(0, 10, 3, 1); pp.SetVoltage_V(5);
    SimpleThruster t(1, &clk, &pp, 0, k.pos, k.dir, 0.8, 0, 0, k.dead * k.step, k.lag, k.step, w.structure.get(), w.dynamics.get()); Thr m(0.8, k.dead, k.lag, k.step, k.pos, k.dir); bool powered = true;
    for (int s = 0, n = Q(5, 6); s < n; s++) {
      int a = p.Choose(7); static const double D[5] = {0, 0.3, 1, 1.7, -0.4}; if (a < 5) { t.SetDuty(D[a]); m.duty = D[a]; p.Note("duty %g", D[a]); } else if (a == 5) { powered = !powered; pp.SetVoltage_V(powered ? 5 : 0.5); p.Note("power %d", powered); } else { cg = MakeV(cg[0] + 0.2, 0.1 - cg[1], cg[2] * 0.5 - 0.3); kin.SetCenterOfGravityVector_b_m(cg); p.Note("centre of mass"); }
      clk.TickToComponents(); m.Step(powered, cg); Same(p, t, m); p.Obs({m.duty, m.out, m.f[0], m.f[1], m.f[2], m.t[0], m.t[1], m.t[2], cg[0], (double)powered, m.q.back(), m.q.front()});
    }
    for (int s = 0; s < 5; s++) { clk.TickToComponents(); m.Step(powered, cg); Same(p, t, m); p.Obs({m.out, m.duty, m.t[0], m.t[1], cg[0]}); }
  }, {3});
  Scenario("thruster-dead-time", "step {9 values} x dead time 0..20/40 steps x prescaler {1,3}: updates from the duty to the first thrust and from its removal to the end of the thrust", [](Path& p) {
    double step = p.Pick({0.001, 0.01, 0.02, 0.05, 0.1, 0.3, 0.7, 1, 2}); int n = p.Choose(Q(21, 41)), ps = p.PickI({1, 3}); bool half = p.Flag(); World& w = W(); environment::ClockGenerator clk; clk.ClearTimerCount(); char b[40]; snprintf(b, sizeof b, "%.4f", (n + half * 0.5) * step);
    SimpleThruster t(ps, &clk, 0, MakeV(1, 0, 0), MakeV(0, 1, 0), 2, 0, 0, atof(b), 0, step, w.structure.get(), w.dynamics.get()); auto upd = [&] { for (int i = 0; i < ps; i++) clk.TickToComponents(); return t.GetOutputThrust_b_N()[1]; };
    upd(); t.SetDuty(0.5); int at = 0; while (at < n + 5) { at++; if (upd() != 0) break; } p.Eq(at, n + 2, "thruster-dead-time", "updates until thrust"); p.Near(t.GetOutputThrust_b_N()[1], 1, 1e-12, "thrust"); t.SetDuty(0); for (int i = 0; i <= n; i++) p.Near(upd(), 1, 1e-12, "thruster-dead-time", "thrust after the duty is removed"); p.Near(upd(), 0, 0, "thruster-dead-time", "end of thrust"); p.Obs({step, (double)n, (double)ps, (double)half});
  });
  Scenario("thruster-settings", "InitSimpleThruster: 2 thrusters per file x 26 directions x prescaler {0,1,2,3} x with or without port: 8 updates", [](Path& p) {
    int id = p.Choose(2), d = p.Choose(26), ps = p.PickI({0, 1, 2, 3}); bool port = p.Flag("port"); Ini f; World& w = W(); w.structure->GetToSetKinematicsParameters().SetCenterOfGravityVector_b_m(MakeV(0.1, -0.2, 0.05)); std::unique_ptr<Thr> m;
    for (int k = 0; k < 2; k++) { std::string s = "THRUSTER_" + std::to_string(k); V3 pos = MakeV(0.3 - k, 0.2 * k, 0.7), u = Scale(1 + k, Directions26()[(d + 3 * k) % 26]); f.Set(s, "prescaler", ps).Set(s, "thruster_position_b_m", pos).Set(s, "thruster_direction_b", u).Set(s, "thrust_magnitude_N", 0.3 + k).Set(s, "thrust_error_standard_deviation_N", 0.0).Set(s, "direction_error_standard_deviation_deg", 0.0).Set(s, "dead_time_s", 0.2 + 0.1 * k).Set(s, "time_constant_s", 0.4 * k).Set(s, "step_width_s", 0.1); if (k == id) m.reset(new Thr(0.3 + k, 2 + k, 0.4 * k, 0.1, pos, u)); }
    f.Set("POWER_PORT", "minimum_voltage_V", 3.3).Set("POWER_PORT", "assumed_power_consumption_W", 2.0); environment::ClockGenerator clk; clk.ClearTimerCount(); PowerPort pp(0, 10); std::string path = f.Write("thr.ini"); SimpleThruster t = port ? InitSimpleThruster(&clk, &pp, id, path, w.structure.get(), w.dynamics.get()) : InitSimpleThruster(&clk, id, path, w.structure.get(), w.dynamics.get()); pp.SetVoltage_V(5); t.SetDuty(0.6); m->duty = 0.6;
    for (int s = 0; s < 8; s++) { if (s == 6) pp.SetVoltage_V(1); for (int i = 0; i < (ps ? ps : 1); i++) clk.TickToComponents(); m->Step(!(port && s >= 6), MakeV(0.1, -0.2, 0.05)); Same(p, t, *m); p.Obs({m->f[0], m->f[1], m->f[2], m->t[0], m->t[1], m->t[2]}); }
  });
  Scenario("thruster-errors", "26 directions x magnitude error {0, 0.02 N} x direction error {0, 1, 20 deg} x 4/16 seeds: over 400 updates the deviations have the configured size, are perpendicular to and around the whole direction, and vanish without thrust", [](Path& p) {
    V3 u = Directions26()[p.Choose(26)]; double sm = p.Pick({0, 0.02}), sd = p.Pick({0, 1, 20}) * M_PI / 180; int seed = p.Choose(Q(4, 16)); World& w = W(); randomization::global_randomization.SetSeed(1000 + 77 * seed); environment::ClockGenerator clk; clk.ClearTimerCount();
    const V3 at = MakeV(0.7, -0.4, 0.9); SimpleThruster t(1, &clk, 0, at, u, 0.5, sm, sd, 0.2, 0, 0.1, w.structure.get(), w.dynamics.get()); u = Unit(u); V3 e1 = Unit(Cross(u, std::fabs(u[0]) < 0.6 ? MakeV(1, 0, 0) : MakeV(0, 1, 0))), e2 = Cross(u, e1);
    for (int i = 0; i < 3; i++) { clk.TickToComponents(); p.Near(Norm(t.GetOutputThrust_b_N()), 0, 0, "noise-without-thrust", "not ordered"); }
    t.SetDuty(1); for (int i = 0; i < 3; i++) { clk.TickToComponents(); p.Near(Norm(t.GetOutputThrust_b_N()), 0, 0, "noise-without-thrust", "during the dead time"); }
    double s2 = 0, a2 = 0, mean = 0, x2 = 0, y2 = 0; const int N = 400; for (int i = 0; i < N; i++) { clk.TickToComponents(); V3 f = t.GetOutputThrust_b_N(); p.NearV(t.GetOutputTorque_b_Nm(), Cross(Sub(at, w.structure->GetKinematicsParameters().GetCenterOfGravity_b_m()), f), 3, 1e-12, "torque", "with errors"); double n = Norm(f), an = std::atan2(Norm(Cross(u, f)), Dot(u, f)); s2 += (n - 0.5) * (n - 0.5); mean += n - 0.5; a2 += an * an; double x = Dot(e1, f), y = Dot(e2, f); x2 += x * x; y2 += y * y; }
    double rs = std::sqrt(s2 / N), ra = std::sqrt(a2 / N); if (sm == 0) p.Near(rs, 0, 1e-12, "magnitude-error"); else p.Check(rs > 0.8 * sm && rs < 1.2 * sm, "magnitude-error", "size %.4g instead of %.4g", rs, sm); p.Near(mean / N, 0, 0.3 * sm + 1e-12, "magnitude-error", "mean");
    if (sd == 0) p.Near(ra, 0, 1e-7, "direction-error"); else { p.Check(ra > 0.8 * sd && ra < 1.2 * sd, "direction-error", "size %.4g instead of %.4g", ra, sd); p.Check(x2 > 0.5 * y2 && y2 > 0.5 * x2, "direction-error-around", "%.4g and %.4g", x2, y2); } p.Obs({u[0], u[1], u[2], sm, sd, (double)seed});
  });
  Scenario("generators", "all histories of depth 3/4 over {order in body, inertial or orbital frame (3 vectors each), zero, attitude change, nothing} on 3 orbits for a force and a torque generator with no errors x prescaler {1,2}; power-off routine after every step", [](Path& p) {
    World& w = W(); int ps = p.PickI({1, 2}), ob = p.Choose(3); static const V3 OR[3] = {MakeV(7e6, 0, 0), MakeV(-2e6, 6e6, 3e6), MakeV(0, 0, -8e6)}, OV[3] = {MakeV(0, 7500, 0), MakeV(1e3, -2e3, 6.5e3), MakeV(3e3, 6e3, 2e3)}; w.Place(OR[ob], OV[ob], Quat(0, 0, 0, 1), MakeV(0, 0, 0)); Rot R = RotOf(Quat(0, 0, 0, 1)); int qi = 0; w.dynamics->SetAttitude().SetQuaternion_i2b(Rotations()[0]); R = RotOf(Rotations()[0]);
    V3 r = w.dynamics->GetOrbit().GetPosition_i_m(), v = w.dynamics->GetOrbit().GetVelocity_i_m_s();
    environment::ClockGenerator clk; clk.ClearTimerCount(); ForceGenerator f(ps, &clk, 0, 0, w.dynamics.get()); TorqueGenerator t(ps, &clk, 0, 0, w.dynamics.get()); PowerPort pp(0, 10, 3, 1);
    class PF : public ForceGenerator { public: using ForceGenerator::ForceGenerator; void Off() { PowerOffRoutine(); } }; PF pf(ps, &clk, 0, 0, w.dynamics.get()); class PT : public TorqueGenerator { public: using TorqueGenerator::TorqueGenerator; void Off() { PowerOffRoutine(); } }; PT pt(ps, &clk, 0, 0, w.dynamics.get());
    V3 want = MakeV(0, 0, 0), wt = want; static const V3 V[3] = {MakeV(0.3, -1, 2), MakeV(0, 0, -1e-6), MakeV(500, 0.1, 0)};
    auto lv = [&] { return std::array<V3, 3>{Unit(r), Cross(Unit(Cross(r, v)), Unit(r)), Unit(Cross(r, v))}; };
    for (int s = 0, n = Q(3, 4); s < n; s++) {
      int a = p.Choose(12); V3 x = a < 9 ? V[a % 3] : MakeV(0, 0, 0);
      if (a < 3) { f.SetForce_b_N(x); pf.SetForce_b_N(x); want = x; t.SetTorque_b_Nm(x); pt.SetTorque_b_Nm(x); wt = x; } else if (a < 6) { f.SetForce_i_N(x); pf.SetForce_i_N(x); want = Mul(R, x); } else if (a < 9) { f.SetForce_rtn_N(x); pf.SetForce_rtn_N(x); auto l = lv(); want = Mul(R, Add(Scale(x[0], l[0]), Add(Scale(x[1], l[1]), Scale(x[2], l[2])))); }
      else if (a == 9) { f.SetForce_b_N(x); pf.SetForce_b_N(x); want = x; t.SetTorque_b_Nm(x); pt.SetTorque_b_Nm(x); wt = x; } else if (a == 10) { qi = (qi + 5) % 12; const Quat& q = Rotations()[qi]; w.dynamics->SetAttitude().SetQuaternion_i2b(q); R = RotOf(q); }
      p.Note("action %d", a); for (int i = 0; i < ps; i++) clk.TickToComponents();
      double e = 1e-10 * (Norm(want) + 1e-6); V3 b = f.GetGeneratedForce_b_N(), g = f.GetGeneratedForce_i_N(), o = f.GetGeneratedForce_rtn_N(); p.NearV(b, want, 3, e, "force-body"); V3 wi = MulT(R, want); p.NearV(g, wi, 3, e, "force-inertial"); auto l = lv(); V3 wo = MakeV(Dot(l[0], wi), Dot(l[1], wi), Dot(l[2], wi)); p.NearV(o, wo, 3, e, "force-orbital"); p.NearV(t.GetGeneratedTorque_b_Nm(), wt, 3, 1e-10 * (Norm(wt) + 1e-6), "torque-body");
      auto c = Cells(f.GetLogValue()); p.Eq(c.size(), 12, "generator-log"); for (int i = 0; i < 3; i++) { double z = 2e-5 * Norm(want) + 1e-12; p.Near(c[i], want[i], z, "generator-log"); p.Near(c[3 + i], want[i], z, "generator-log"); p.Near(c[6 + i], wi[i], z, "generator-log"); p.Near(c[9 + i], wo[i], z, "generator-log"); }
      pf.Off(); pt.Off(); p.Near(Norm(pf.GetGeneratedForce_b_N()) + Norm(pf.GetGeneratedForce_i_N()) + Norm(pf.GetGeneratedForce_rtn_N()) + Norm(pt.GetGeneratedTorque_b_Nm()), 0, 0, "generator-off"); p.Obs({want[0], want[1], want[2], wt[0], (double)qi, (double)ob, (double)ps});
    }
  }, {2});
  Scenario("generator-errors", "26 ordered directions x magnitude error {0, 0.05} x direction error {0, 2, 25 deg} x 4/16 seeds, force and torque: size of the deviations and their spread about the ordered direction over 400 updates, nothing on a zero order", [](Path& p) {
    V3 u = Directions26()[p.Choose(26)]; double sm = p.Pick({0, 0.05}), sd = p.Pick({0, 2, 25}); bool tq = p.Flag("torque"); int seed = p.Choose(Q(4, 16)); World& w = W(); randomization::global_randomization.SetSeed(500 + 91 * seed); environment::ClockGenerator clk; clk.ClearTimerCount(); Ini f; f.Set("COMPONENT_BASE", "prescaler", 1).Set("FORCE_GENERATOR", "force_magnitude_standard_deviation_N", sm).Set("FORCE_GENERATOR", "force_direction_standard_deviation_deg", sd).Set("TORQUE_GENERATOR", "torque_magnitude_standard_deviation_Nm", sm).Set("TORQUE_GENERATOR", "torque_direction_standard_deviation_deg", sd); sd *= M_PI / 180;
    w.Place(MakeV(-2e6, 6e6, 3e6), MakeV(1e3, -2e3, 6.5e3), Rotations()[(3 * seed + 5) % 12], MakeV(0, 0, 0)); std::string path = f.Write("gen.ini"); ForceGenerator fg = InitializeForceGenerator(&clk, path, w.dynamics.get()); TorqueGenerator tg = InitializeTorqueGenerator(&clk, path, w.dynamics.get()); auto get = [&] { clk.TickToComponents(); return tq ? tg.GetGeneratedTorque_b_Nm() : fg.GetGeneratedForce_b_N(); };
    for (int i = 0; i < 3; i++) p.Near(Norm(get()), 0, 0, "generator-zero-order"); const double mag = 0.7; fg.SetForce_b_N(Scale(mag, Unit(u))); tg.SetTorque_b_Nm(Scale(mag, Unit(u))); double s2 = 0, a2 = 0, c11 = 0, c12 = 0, c22 = 0; V3 ud = Unit(u), e1 = Unit(Cross(ud, std::fabs(ud[2]) < .9 ? MakeV(0, 0, 1) : MakeV(1, 0, 0))), e2 = Cross(ud, e1); const int N = 400; for (int i = 0; i < N; i++) { V3 g = get(); { double x = Dot(g, e1), y = Dot(g, e2); c11 += x * x; c12 += x * y; c22 += y * y; } if (!tq && i < 20) { Rot R = RotOf(w.dynamics->GetAttitude().GetQuaternion_i2b()); V3 gi = MulT(R, g), r0 = w.dynamics->GetOrbit().GetPosition_i_m(), v0 = w.dynamics->GetOrbit().GetVelocity_i_m_s(), h = Unit(Cross(r0, v0)); p.NearV(fg.GetGeneratedForce_i_N(), gi, 3, 1e-12, "generated-frames"); p.NearV(fg.GetGeneratedForce_rtn_N(), MakeV(Dot(gi, Unit(r0)), Dot(gi, Cross(h, Unit(r0))), Dot(gi, h)), 3, 1e-9, "generated-frames"); } double n = Norm(g), an = std::atan2(Norm(Cross(u, g)), Dot(u, g)); s2 += (n - mag) * (n - mag); a2 += an * an; }
    double rs = std::sqrt(s2 / N), ra = std::sqrt(a2 / N); if (sm == 0) p.Near(rs, 0, 1e-12, "magnitude-error"); else p.Check(rs > 0.8 * sm && rs < 1.2 * sm, "magnitude-error", "size %.4g instead of %.4g", rs, sm); if (sd == 0) p.Near(ra, 0, 1e-7, "direction-error"); else { p.Check(ra > 0.8 * sd && ra < 1.2 * sd, "direction-error", "size %.4g instead of %.4g", ra, sd); double t = c11 + c22; p.Near(c11 / t, .5, .3, "direction-spread", "share of the error along one of two axes across the ordered direction"); p.Near(c12 / t, 0, .3, "direction-spread", "correlation of the errors along two axes"); } p.Obs({u[0], u[1], u[2], sm, sd, (double)tq, (double)seed});
  });
}
