// Component scheduling: prescalers, power gating, registration order, destruction, copies.
#include <components/base/component.hpp>
#include <environment/global/clock_generator.hpp>
#include <memory>

#include "mc.hpp"
using namespace mc;
using namespace s2e;
const char* kProperty = "S03";
const char* kAssumptions = "Components are created and destroyed between ticks, not from inside a tick.";
struct Ev { int id, kind; int count; bool operator==(const Ev& o) const { return id == o.id && kind == o.kind && count == o.count; } };
static std::vector<Ev> g_ev;
struct Comp : components::Component {
  int id;
  Comp(int id, int ps, environment::ClockGenerator* c, components::PowerPort* pp, int fp, bool fast) : Component(ps, c, pp, fp), id(id) { SetNeedsFastUpdate(fast); }
  Comp(int id, int ps, environment::ClockGenerator* c) : Component(ps, c), id(id) {}
  Comp(const Comp& o, int id) : Component(o), id(id) {}
  void MainRoutine(const int t) override { g_ev.push_back({id, 0, t}); }
  void FastUpdate() override { g_ev.push_back({id, 1, -1}); }
  void PowerOffRoutine() override { g_ev.push_back({id, 2, -1}); }
};
struct M { int id, ps, fp; bool fast; int power; };  // power: index of its port
struct World {
  environment::ClockGenerator clk; components::PowerPort port[4]; bool on[4] = {true, true, true, true};
  std::vector<std::unique_ptr<Comp>> c; std::vector<M> m; int next = 0, tick = 0;
  World() { clk.ClearTimerCount(); for (auto& q : port) { q.SetMinimumVoltage_V(3); q.SetAssumedPowerConsumption_W(1); q.SetVoltage_V(5); } }
  void Add(int ps, int fp, bool fast) { int id = next++; c.emplace_back(new Comp(id, ps, &clk, &port[id % 4], fp, fast)); m.push_back({id, ps ? ps : 1, fp ? fp : 1, fast, id % 4}); }
  void Copy(int i) { int id = next++; c.emplace_back(new Comp(*c[i], id)); M k = m[i]; k.id = id; m.push_back(k); }
  void Destroy(int i) { c.erase(c.begin() + i); m.erase(m.begin() + i); }
  void Expect(std::vector<Ev>& w) {
    for (auto& k : m) {
      if (tick % k.ps == 0) { if (on[k.power]) w.push_back({k.id, 0, tick}); else w.push_back({k.id, 2, -1}); }
      if (k.fast && tick % k.fp == 0) { if (on[k.power]) w.push_back({k.id, 1, -1}); else w.push_back({k.id, 2, -1}); }
    }
  }
};
static void Tick(Path& p, World& w) {
  std::vector<Ev> want; w.Expect(want); g_ev.clear(); w.clk.TickToComponents(); 
  std::string s; for (auto& e : g_ev) s += std::to_string(e.id) + ":" + "MFO"[e.kind] + " ";
  std::string t; for (auto& e : want) t += std::to_string(e.id) + ":" + "MFO"[e.kind] + " ";
  p.Check(g_ev == want, "calls", "tick %d called [%s] want [%s]", w.tick, s.c_str(), t.c_str());
  w.tick++;
  for (auto& e : want) p.Outcome(e.kind == 0 ? "main" : e.kind == 1 ? "fast" : "off");
}
void Register() {
  Scenario("prescalers", "prescaler 0..5 x fast prescaler 0..3 x fast flag for two components x power {on, off, off at tick 3..6} x 24 ticks", [](Path& p) {
    World w; for (int i = 0; i < 2; i++) w.Add(p.Choose(i ? 4 : 6), p.Choose(i ? 2 : 4), p.Flag());
    int mode = p.Choose(6);
    for (int t = 0; t < 24; t++) {
      if (mode == 1 && t == 0) { w.on[0] = false; w.port[0].SetVoltage_V(0); }
      if (mode >= 2 && t == 1 + mode) { w.on[0] = false; w.port[0].SetVoltage_V(1); }
      if (mode >= 2 && t == 10 + mode) { w.on[0] = true; w.port[0].SetVoltage_V(5); }
      Tick(p, w); p.Obs({(double)w.m[0].ps, (double)w.m[0].fp, (double)w.m[0].fast, (double)w.m[1].ps, (double)w.on[0], (double)t});
    }
  });
  Scenario("long", "a component with a prescaler of 11 values from 1 to 70000 and a fast prescaler of 5 values, on or switched off and on meanwhile, over 210000 ticks", [](Path& p) {
    static const int L[11] = {1, 7, 100, 255, 256, 257, 1000, 32769, 65535, 65537, 70000}; int ps = L[p.Choose(11)]; int fp = p.PickI({0, 3, 255, 257, 65537}); bool toggle = p.Flag();
    World w; w.Add(ps, fp, fp > 0); bool on = true; std::vector<Ev> want;
    for (int t = 0; t < 210000; t++) {
      if (toggle && (t == 1000 || t == 66000 || t == 131000)) { on = !on; w.port[0].SetVoltage_V(on ? 5 : 0); }
      want.clear(); if (t % ps == 0) want.push_back(on ? Ev{0, 0, t} : Ev{0, 2, -1}); if (fp && t % fp == 0) want.push_back(on ? Ev{0, 1, -1} : Ev{0, 2, -1});
      g_ev.clear(); w.clk.TickToComponents(); if (!(g_ev == want)) p.Fail("calls", "prescaler %d, fast %d, tick %d: %zu calls, want %zu", ps, fp, t, g_ev.size(), want.size());
    }
    p.Obs({(double)ps, (double)fp, (double)toggle});
  }, {2});
  Scenario("many", "1, 2, 31..34, 64, 65, 130, 300 components of different prescalers, every 2nd, 3rd or none destroyed after 5 ticks, 12 ticks: each one exactly once, in order", [](Path& p) {
    int n = p.PickI({1, 2, 31, 32, 33, 34, 64, 65, 130, 300}), gone = p.PickI({0, 2, 3}); World w; for (int i = 0; i < n; i++) w.Add(1 + i % 5, 1 + i % 3, i % 4 == 1);
    for (int t = 0; t < 12; t++) { if (t == 5 && gone) for (int i = (int)w.c.size() - 1; i >= 0; i -= gone) w.Destroy(i); Tick(p, w); }
    p.Obs({(double)n, (double)gone});
  }, {2});
  Scenario("histories", "two components; all histories of {tick, power toggle 0/1, create, copy 0/last, destroy first/last, mid} to depth 6/8, ticked twice at the end", [](Path& p) {
    World w; w.Add(2, 1, false); w.Add(1, 3, true);
    for (int i = 0, n = Q(6, 7); i < n; i++) {
      int op = p.Choose(9); int k = w.c.size();
      switch (op) {
        case 0: p.Note("tick"); Tick(p, w); break;
        case 1: case 2: p.Note("power%d", op - 1); w.on[op - 1] = !w.on[op - 1]; w.port[op - 1].SetVoltage_V(w.on[op - 1] ? 5 : 0); break;
        case 3: if (k >= 4) throw Skip(); p.Note("create"); w.Add(1 + w.next % 3, 2, w.next % 2); break;
        case 4: case 5: if (!k || k >= 4 || (op == 5 && k == 1)) throw Skip(); p.Note("copy"); w.Copy(op == 4 ? 0 : k - 1); break;
        case 6: if (!k) throw Skip(); p.Note("destroy first"); w.Destroy(0); break;
        case 7: if (k < 2) throw Skip(); p.Note("destroy last"); w.Destroy(k - 1); break;
        case 8: if (k < 3) throw Skip(); p.Note("destroy middle"); w.Destroy(1); break;
      }
      uint64_t h = w.tick; for (auto& m : w.m) h = Mix(h, m.id * 100 + m.ps * 10 + w.on[m.power]); p.ObsHash(h);
    }
    Tick(p, w); Tick(p, w);
  });
  Scenario("clock-flag", "component period {1,2,3,4} steps x prescalers {1,2,3}: routine times driven by the simulation clock, 24 steps; counter restart", [](Path& p) {
    int per = 1 + p.Choose(4), a = 1 + p.Choose(3), b = 1 + p.Choose(3), restart = p.Choose(2);
    environment::SimulationTime t(100, 1, per, 1, per, 1, per, 1, per, 1, "2020/1/1 0:0:0.0", 0);
    World w; w.Add(a, 1, false); w.Add(b, 1, true);
    for (int k = 1; k <= 24; k++) {
      if (restart && k == 11) { w.clk.ClearTimerCount(); w.tick = 0; }
      t.UpdateTime(); std::vector<Ev> want; bool f = t.GetCompoUpdateFlag(); if (f) { w.Expect(want); w.tick++; }
      g_ev.clear(); w.clk.UpdateComponents(&t);
      p.Check(g_ev == want, "clock-calls", "step %d (flag %d): %zu calls want %zu", k, f, g_ev.size(), want.size()); p.Obs({(double)per, (double)a, (double)b, (double)k});
    }
  });
  Scenario("private-port", "component without a given power port is always powered, prescalers 0..4", [](Path& p) {
    int ps = p.Choose(5); environment::ClockGenerator clk; clk.ClearTimerCount(); Comp c(0, ps, &clk); int n = 0; if (!ps) ps = 1;
    for (int t = 0; t < 13; t++) { g_ev.clear(); clk.TickToComponents(); n = g_ev.size(); p.Eq(n, t % ps == 0, "default-port", "calls"); if (n) p.Eq(g_ev[0].kind, 0, "default-port", "main routine"); p.Obs({(double)ps, (double)t}); }
  });
}
