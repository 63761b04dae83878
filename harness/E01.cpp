// Power ports and power control unit against a direct switching model.
#include <components/real/cdh/on_board_computer.hpp>
#include <components/real/power/power_control_unit.hpp>
#include <components/real/aocs/gnss_receiver.hpp>
#include <components/real/aocs/gyro_sensor.hpp>
#include <components/real/aocs/magnetometer.hpp>
#include <components/real/aocs/magnetorquer.hpp>
#include <components/real/aocs/reaction_wheel.hpp>
#include <components/real/aocs/star_sensor.hpp>
#include <components/real/aocs/sun_sensor.hpp>
#include <components/real/propulsion/simple_thruster.hpp>
#include <map>
#include <memory>

#include "env.hpp"
#include "mc.hpp"
using namespace mc;
using namespace s2e::components;
const char* kProperty = "E01";
const char* kAssumptions = "Minimum voltages are positive. A port whose load would reach its current limit trips: it is off at zero volt until a voltage is applied again.";
struct Port { double v = 0, p = 0, min = 3.3, lim = 10, i = 0; bool on = false;
  void Update() { if (v >= min - 1e-15) { on = true; i = p / v; } else { on = false; i = 0; } if (i >= lim - 1e-15) { i = 0; v = 0; on = false; } } };
static void Same(Path& p, const PowerPort& q, const Port& m, const char* what) {
  p.Eq(q.GetIsOn(), m.on, "on-state", what); p.Near(q.GetVoltage_V(), m.v, 1e-12, "voltage", what); p.Near(q.GetCurrentConsumption_A(), m.i, 1e-12, "current", what);
  p.Near(q.GetAssumedPowerConsumption_W(), m.p, 1e-12, "assumed-power", what);
}
static const int kOps = 19;
static void Op(Path& p, PowerPort& q, Port& m, int op) {
  static const double V[5] = {0, 3.2, 3.3, 5, 12};
  if (op < 5) { m.v = V[op]; m.Update(); bool r = q.SetVoltage_V(V[op]); p.Note("set %gV", V[op]); p.Eq(r, m.on, "set-voltage-result", "returned state"); p.Outcome(m.on ? "on" : V[op] >= m.min ? "tripped" : "off"); return; }
  switch (op) {
    case 5: q.SetAssumedPowerConsumption_W(m.p = 0); break;
    case 6: q.SetAssumedPowerConsumption_W(m.p = 2); break;
    case 7: q.SetAssumedPowerConsumption_W(m.p = 60); break;
    case 8: q.AddAssumedPowerConsumption_W(1.5); m.p += 1.5; break;
    case 9: q.SubtractAssumedPowerConsumption_W(0.5); m.p = std::max(0.0, m.p - 0.5); break;
    case 10: q.SubtractAssumedPowerConsumption_W(100); m.p = 0; break;
    case 11: q.SetMinimumVoltage_V(m.min = 5); break;
    case 12: q.SetMinimumVoltage_V(m.min = 3.3); break;
    case 13: q.SetCurrentLimit_A(m.lim = 0.5); break;
    case 14: q.SetCurrentLimit_A(m.lim = 12); break;
    case 15: q.SetCurrentLimit_A(m.lim = 1.2e-1); break;
    case 16: { static std::string f; f = WriteFile("pp.ini", "[POWER_PORT]\nminimum_voltage_V = 4.5\nassumed_power_consumption_W = 0.75\n"); q.InitializeWithInitializeFile(f); m.min = 4.5; m.p = 0.75; break; }
    default: { m.Update(); bool r = q.Update(); p.Eq(r, m.on, "update-result", "returned state"); }
  }
  p.Note("op%d", op);
}
void Register() {
  Scenario("port-histories", "one port (four ways to construct) x all histories of 18 operations, depth 4/5", [](Path& p) {
    int c = p.Choose(4); std::unique_ptr<PowerPort> q; Port m;
    if (c == 0) { q.reset(new PowerPort()); m.on = true; }
    else if (c == 1) { q.reset(new PowerPort(1, 0.7)); m.lim = 0.7; }
    else if (c == 2) { q.reset(new PowerPort(1, 4, 5.0, 2.5)); m.lim = 4; m.min = 5; m.p = 2.5; }
    else { q.reset(new PowerPort(1, 0.05, 1.0, 2.5)); m.lim = 0.05; m.min = 1; m.p = 2.5; }
    if (c) Same(p, *q, m, "initial");
    for (int s = 0, n = Q(4, 5); s < n; s++) { int op = p.Choose(18); if (op == 16 && s > 1) throw Skip(); Op(p, *q, m, op); Same(p, *q, m, "after operation"); p.Obs({m.v, m.p, m.min, m.lim, m.i, (double)m.on}); }
  }, {3});
  Scenario("control-unit", "PowerControlUnit: connect(2 forms)/close/set voltage/load on ports {0,3}, all histories of depth 5/6; ports independent", [](Path& p) {
    s2e::environment::ClockGenerator clk; clk.ClearTimerCount(); PowerControlUnit u(&clk); std::map<int, Port> m; int id[2] = {0, 3};
    for (int s = 0, n = Q(5, 6); s < n; s++) {
      int op = p.Choose(12), k = id[op % 2]; op /= 2; bool has = m.count(k);
      if (op == 0) { p.Note("connect %d", k); p.Eq(u.ConnectPort(k, 1.5) == 0, !has, "connect-result", "accepted"); if (!has) { m[k] = Port(); m[k].lim = 1.5; } }
      else if (op == 1) { p.Note("connect4 %d", k); p.Eq(u.ConnectPort(k, 2.0, 4.0, 3.0) == 0, !has, "connect-result", "accepted"); if (!has) { m[k] = Port(); m[k].lim = 2; m[k].min = 4; m[k].p = 3; } }
      else if (op == 2) { p.Note("close %d", k); p.Eq(u.ClosePort(k) == 0, has, "close-result", "closed"); m.erase(k); }
      else if (!has) throw Skip();
      else if (op == 3) { p.Note("5V %d", k); u.GetPowerPort(k)->SetVoltage_V(m[k].v = 5); m[k].Update(); }
      else if (op == 4) { p.Note("0V %d", k); u.GetPowerPort(k)->SetVoltage_V(m[k].v = 0); m[k].Update(); }
      else { p.Note("load %d", k); u.GetPowerPort(k)->AddAssumedPowerConsumption_W(4); m[k].p += 4; u.GetPowerPort(k)->Update(); m[k].Update(); }
      clk.TickToComponents();
      for (auto& x : m) { const PowerControlUnit& cu = u; Same(p, *cu.GetPowerPort(x.first), x.second, "port of the unit"); }
      uint64_t h = 3; for (auto& x : m) { h = Mix(h, x.first); h = Mix(h, Hash(x.second.v)); h = Mix(h, Hash(x.second.p)); h = Mix(h, x.second.on); } p.ObsHash(h);
    }
  });
  Scenario("many-ports", "1, 2, 7..10, 16, 17, 33, 64, 100 ports with consecutive, spread or negative numbers on one unit, two forms of connection, each given its own voltage, every third closed and reconnected: each port keeps its own state, a second connection is refused", [](Path& p) {
    s2e::environment::ClockGenerator clk; clk.ClearTimerCount(); PowerControlUnit u(&clk); int n = p.PickI({1, 2, 7, 8, 9, 10, 16, 17, 33, 64, 100}), spread = p.Choose(3); bool full = p.Flag(); auto id = [&](int i) { return spread == 0 ? i : spread == 1 ? 256 * i + 1 : 10 - i; };
    for (int i = 0; i < n; i++) { p.Eq(full ? u.ConnectPort(id(i), 10 + i, 3, 1 + i) : u.ConnectPort(id(i), 10 + i), 0, "connect", "connection of a new port"); if (!full) { u.GetPowerPort(id(i))->SetMinimumVoltage_V(3); u.GetPowerPort(id(i))->SetAssumedPowerConsumption_W(1 + i); } }
    for (int i = 0; i < n; i++) { p.Eq(u.ConnectPort(id(i), 1), -1, "connect", "second connection"); u.GetPowerPort(id(i))->SetVoltage_V(i % 4 == 3 ? 2 : 5 + i * .25); }
    for (int i = 0; i < n; i += 3) { p.Eq(u.ClosePort(id(i)), 0, "close", "closing a port"); p.Eq(u.ClosePort(id(i)), -1, "close", "closing a closed port"); p.Eq(u.ConnectPort(id(i), 10 + i, 3, 2), 0, "connect", "reconnection"); u.GetPowerPort(id(i))->SetVoltage_V(4); }
    for (int i = 0; i < n; i++) { auto* q = u.GetPowerPort(id(i)); if (!q) p.Fail("port", "port %d of %d is missing", id(i), n); double v = i % 3 == 0 ? 4 : i % 4 == 3 ? 2 : 5 + i * .25, w = i % 3 == 0 ? 2 : 1 + i; p.Eq(q->GetVoltage_V(), v, "voltage", "voltage of a port"); p.Eq((int)q->GetIsOn(), (int)(v >= 3), "on", "port on"); p.Near(q->GetCurrentConsumption_A(), v >= 3 ? w / v : 0, 1e-12, "current", "current of a port"); }
    p.Obs({(double)n, (double)spread, (double)full});
  }, {2});
  Scenario("component-settings", "the eight components with a power supply, from their settings files with 4 minimum voltages x 4 loads, then every sequence of 3 supply voltages one after another (below, at, above the minimum, off): switched on from the minimum voltage of the file, drawing its load", [](Path& p) {
    using namespace s2e; static const char* F[8] = {"gyro_sensor", "magnetometer", "sun_sensor", "star_sensor", "gnss_receiver", "magnetorquer", "reaction_wheel", "thruster"}; int c = p.Choose(8); double mn = p.Pick({.8, 3.3, 5, 12}), w = p.Pick({0, .4, 1, 20}); static env::World* pw = nullptr; if (!pw) { env::ClearBodies(); pw = new env::World(); } env::World& ew = *pw; std::string text = ReadFile(std::string(CORE_DIR_FROM_EXE) + "/example/settings/sample_satellite/components/" + F[c] + ".ini"); char b[120]; snprintf(b, 120, "[POWER_PORT]\nminimum_voltage_V = %g\nassumed_power_consumption_W = %g\n", mn, w); size_t at = text.find("[POWER_PORT]"); p.Check(at != std::string::npos, "settings", "no power port section"); text = text.substr(0, at) + b; for (size_t q; (q = text.find("SETTINGS_DIR_FROM_EXE")) != std::string::npos;) text.replace(q, 21, CORE_DIR_FROM_EXE "/example/settings"); std::string ini = WriteFile("component.ini", text);
    environment::ClockGenerator cg; PowerPort port; std::shared_ptr<void> keep; auto hold = [&](auto&& x) { keep = std::make_shared<std::decay_t<decltype(x)>>(std::move(x)); }; auto* d = ew.dynamics.get(); auto* l = ew.local.get();
    switch (c) { case 0: hold(InitGyroSensor(&cg, &port, 1, ini, 1, d)); break; case 1: hold(InitMagnetometer(&cg, &port, 1, ini, 1, &l->GetGeomagneticField())); break; case 2: hold(InitSunSensor(&cg, &port, 1, ini, &l->GetSolarRadiationPressure(), &l->GetCelestialInformation())); break; case 3: hold(InitStarSensor(&cg, &port, 1, ini, 1, d, l)); break; case 4: hold(InitGnssReceiver(&cg, &port, 1, ini, d, &ew.global->GetGnssSatellites(), &ew.time())); break; case 5: hold(InitMagnetorquer(&cg, &port, 1, ini, 1, &l->GetGeomagneticField())); break; case 6: hold(InitReactionWheel(&cg, &port, 1, ini, 1)); break; default: hold(InitSimpleThruster(&cg, &port, 1, ini, ew.structure.get(), d)); }
    p.Near(port.GetAssumedPowerConsumption_W(), w, 0, "settings-load", F[c]); Port m; m.min = mn; m.p = w; static const double U[4] = {0, .9, 1, 1.4}; for (int k = 0; k < 3 * 64; k++) { double v = U[(k / 3) >> (2 * (k % 3)) & 3] * mn; if (v > 0 && v < mn) v = mn - 1e-6; m.v = v; m.Update(); p.Note("%s %g V", F[c], v); p.Eq(port.SetVoltage_V(v), m.on, "settings-minimum", F[c]); p.Near(port.GetCurrentConsumption_A(), m.i, 1e-12, "settings-load", F[c]); p.Outcome(m.on ? "on" : v < mn ? "off" : "tripped"); p.Obs({(double)c, mn, w, v, m.i}); }
  }, {2});
  for (const char* o : {"on", "off", "tripped"}) RequireOutcome("component-settings", o);
  Scenario("component-supply", "a component with its own minimum voltage and load (computer): on/off over supply sequences of length 4", [](Path& p) {
    s2e::environment::ClockGenerator clk; clk.ClearTimerCount(); PowerPort q(2, 5.0); double mv = p.Pick({3.0, 5.0}), w = p.Pick({0.5, 2});
    OnBoardComputer obc(1, &clk, &q, mv, w); Port m; m.lim = 5; m.min = mv; m.p = w;
    for (int s = 0; s < 4; s++) { double v = p.Pick({0, 2.9, 3.0, 4.9, 5, 6}); q.SetVoltage_V(m.v = v); m.Update(); Same(p, q, m, "component port"); clk.TickToComponents(); p.Obs({v, mv, w, (double)s}); }
  });
  RequireOutcome("port-histories", "on"); RequireOutcome("port-histories", "off"); RequireOutcome("port-histories", "tripped");
}
