// I2C registers/commands and GPIO pins against maps keyed by (port, device, register) and (pin).
#include <components/base/gpio_connection_with_obc.hpp>
#include <components/base/i2c_target_communication_with_obc.hpp>
#include <components/ports/gpio_port.hpp>
#include <components/ports/i2c_port.hpp>
#include <components/real/cdh/on_board_computer_with_c2a.hpp>
#include <map>
#include <memory>

#include "mc.hpp"
using namespace mc;
using namespace s2e::components;
typedef unsigned char u8;
const char* kProperty = "L03";
const char* kAssumptions = "The read pointer is shared by a bus: sequential computer reads are specified only directly after addressing the same device. Transfers whose register number would wrap past 255 are outside the alphabet. Hardware-in-the-loop mode is the subject of L05.";

struct Bus {
  std::map<int, std::map<int, std::vector<u8>>> reg, cmd;  // port -> device -> registers / command bytes
  bool Has(int port, int dev) { return reg.count(port) && reg[port].count(dev); }
  void Add(int port, int dev) { reg[port][dev].assign(256, 0); cmd[port][dev].assign(256, 0); }
};
static const int kPorts[2] = {3, 4};
static const int kDev[3][2] = {{3, 0x10}, {3, 0x91}, {4, 0x10}};
static const int kRegs[6] = {0, 1, 2, 0x7f, 0xfd, 0xfe};
static bool g_full = false;
static int Reg(Path& p) { return g_full ? kRegs[p.Choose(6)] : p.PickI({0, 1, 0xfd, 0xfe}); }
static int Len(Path& p) { return g_full ? p.PickI({1, 2, 3}) : p.PickI({1, 3}); }
struct Target : I2cTargetCommunicationWithObc {
  using I2cTargetCommunicationWithObc::I2cTargetCommunicationWithObc;
  using I2cTargetCommunicationWithObc::ReadCommand;
  using I2cTargetCommunicationWithObc::ReadRegister;
  using I2cTargetCommunicationWithObc::WriteRegister;
};
// operations seen from the component side
struct Side {
  OnBoardComputer* obc; Target* t[3];
  void Write(int d, int reg, const u8* v, int n) { if (t[d]) t[d]->WriteRegister(reg, v, n); else obc->I2cComponentWriteRegister(kDev[d][0], kDev[d][1], reg, v, n); }
  void Read(int d, int reg, u8* v, int n) { if (t[d]) t[d]->ReadRegister(reg, v, n); else obc->I2cComponentReadRegister(kDev[d][0], kDev[d][1], reg, v, n); }
  void Cmd(int d, u8* v, int n) { if (t[d]) t[d]->ReadCommand(v, n); else obc->I2cComponentReadCommand(kDev[d][0], kDev[d][1], v, n); }
};
static void VerifyAll(Path& p, Side& s, Bus& b) {
  for (int d = 0; d < 3; d++) if (b.Has(kDev[d][0], kDev[d][1])) {
    auto& R = b.reg[kDev[d][0]][kDev[d][1]]; auto& C = b.cmd[kDev[d][0]][kDev[d][1]];
    for (int r = 0; r < 0xff; r++) { u8 v = 0xEE; s.Read(d, r, &v, 1); if (v != R[r]) p.Fail("register-value", "device %d/%02x register %02x holds %02x want %02x", kDev[d][0], kDev[d][1], r, v, R[r]); }
    u8 c[8]; s.Cmd(d, c, 8); for (int i = 0; i < 8; i++) if (c[i] != C[i]) p.Fail("command-value", "device %d/%02x command byte %d is %02x want %02x", kDev[d][0], kDev[d][1], i, c[i], C[i]);
    p.stats_->checks += 263;
  }
}
static void Step(Path& p, Side& s, Bus& b, bool c2a, int step) {
  int op = p.Choose(c2a ? 8 : 3, "op"), d = p.Choose(3, "dev"), port = kDev[d][0], dev = kDev[d][1];
  auto& R = b.reg[port][dev]; auto& C = b.cmd[port][dev];
  u8 v[8]; for (int i = 0; i < 8; i++) v[i] = (u8)(0x31 + 16 * step + 5 * i + 3 * d);
  if (op == 0) {  // component writes
    int r = Reg(p), n = Len(p); if (r + n > 0x100) throw Skip();
    p.Note("compo%d writes %d@%02x", d, n, r); s.Write(d, r, v, n); for (int i = 0; i < n; i++) if (r + i < 0xff) R[r + i] = v[i];
  } else if (op == 1) {  // component reads
    int r = Reg(p), n = Len(p); if (r + n > 0xff) throw Skip();
    u8 g[8] = {0}; p.Note("compo%d reads %d@%02x", d, n, r); s.Read(d, r, g, n); for (int i = 0; i < n; i++) p.Eq(g[i], R[r + i], "component-read", "register");
  } else if (op == 2) {  // out of range register: write ignored, read gives zero
    u8 g = 0x77; p.Note("compo%d out of range", d); s.Write(d, 0xff, v, 1); s.Read(d, 0xff, &g, 1); p.Eq(g, 0, "out-of-range-read", "register ff");
  } else if (op == 3) {  // computer writes registers
    int r = Reg(p), n = Len(p); if (r + n > 0x100) throw Skip();
    u8 m[8] = {(u8)r}; for (int i = 0; i < n; i++) m[i + 1] = v[i];
    p.Note("obc writes dev%d %d@%02x", d, n, r); p.Check(ObcWithC2a::I2cWriteRegister(port, dev, m, n + 1) >= 0, "obc-write", "write failed");
    for (int i = 0; i < n; i++) if (r + i < 0xff) R[r + i] = v[i];
  } else if (op == 4) {  // computer addresses and reads sequentially
    int r = Reg(p), n = Len(p), via = p.Choose(2); u8 a = r, g[8] = {0};
    p.Note("obc reads dev%d %d@%02x via%d", d, n, r, via);
    if (via == 0) ObcWithC2a::I2cWriteRegister(port, dev, &a, 1); else { ObcWithC2a::I2cWriteCommand(port, dev, &a, 1); C[0] = a; }
    p.Check(ObcWithC2a::I2cReadRegister(port, dev, g, n) >= 0, "obc-read", "read failed");
    for (int i = 0; i < n; i++) p.Eq(g[i], R[(r + i) % 0xff], "obc-read", "sequential register");
  } else if (op == 5) {  // command frame
    int n = p.PickI({2, 5}); u8 m[8]; for (int i = 0; i < 8; i++) m[i] = v[i]; if (n == 2) m[0] = Reg(p);
    p.Note("obc command dev%d len%d", d, n); p.Check(ObcWithC2a::I2cWriteCommand(port, dev, m, n) >= 0, "obc-command", "command failed");
    for (int i = 0; i < n; i++) C[i] = m[i]; if (n == 2) R[m[0]] = m[1];
  } else if (op == 6) {  // component reads the command
    int n = p.PickI({1, 4}); u8 g[8] = {0}; p.Note("compo%d reads command %d", d, n); s.Cmd(d, g, n); for (int i = 0; i < n; i++) p.Eq(g[i], C[i], "command-read", "byte");
  } else {  // unconnected port
    u8 g[4] = {7, 7, 7, 7}; p.Note("unconnected");
    p.Check(ObcWithC2a::I2cWriteRegister(99, dev, v, 3) < 0 && ObcWithC2a::I2cWriteCommand(99, dev, v, 2) < 0 && ObcWithC2a::I2cReadRegister(99, dev, g, 3) < 0 &&
            s.obc->I2cComponentReadRegister(99, dev, 0, g, 3) < 0 && s.obc->I2cComponentReadCommand(99, dev, g, 3) < 0 && s.obc->I2cComponentWriteRegister(99, dev, 0, v, 3) < 0 && g[0] == 7,
            "unconnected-port", "an operation on an unconnected port succeeded");
  }
  uint64_t h = 1; for (int i = 0; i < 3; i++) { h = HashBytes(b.reg[kDev[i][0]][kDev[i][1]].data(), 255, h); h = HashBytes(b.cmd[kDev[i][0]][kDev[i][1]].data(), 8, h); }
  p.ObsHash(h);
}
static void CloseAll(OnBoardComputer& o) { for (int q : kPorts) o.I2cCloseComPort(q); }

struct Gpio : GpioConnectionWithObc { using GpioConnectionWithObc::GpioConnectionWithObc; using GpioConnectionWithObc::Read; using GpioConnectionWithObc::Write; };
struct Irq : IGPIOCompo { std::vector<std::pair<int, bool>> ev; void GpioStateChanged(int id, bool up) override { ev.push_back({id, up}); } };

void Register() {
  auto run = [](Path& p, OnBoardComputer& obc, bool c2a, int depth) {
    CloseAll(obc);
    Bus b; for (auto& d : kDev) b.Add(d[0], d[1]);
    std::unique_ptr<Target> t[3]; Side s{&obc, {}};
    bool adapters = p.Flag("component adapters");
    for (int i = 0; i < 3; i++) { if (adapters) { t[i].reset(new Target(kDev[i][0], kDev[i][1], &obc)); s.t[i] = t[i].get(); } else p.Eq(obc.I2cConnectPort(kDev[i][0], kDev[i][1]), 0, "connect", "port"); }
    for (int i = 0; i < depth; i++) Step(p, s, b, c2a, i);
    VerifyAll(p, s, b);
    for (auto& x : t) x.reset();
    CloseAll(obc);
    p.Check(obc.I2cCloseComPort(kPorts[0]) < 0, "close-absent", "closing a closed port succeeded");
  };
  Scenario("i2c-c2a", "ObcWithC2a, 3 devices on 2 buses, registers {0,1,fd,fe,ff} (thorough {0,1,2,7f,fd,fe,ff}), transfers {1,3} (thorough 1..3), both sides + commands, depth 2", [run](Path& p) { s2e::environment::ClockGenerator c; ObcWithC2a o(&c); g_full = Thorough(); run(p, o, true, 2); }, {4});
  if (Thorough()) Scenario("i2c-c2a-deep", "reduced alphabet, depth 3", [run](Path& p) { s2e::environment::ClockGenerator c; ObcWithC2a o(&c); g_full = false; run(p, o, true, 3); }, {4});
  Scenario("i2c-obc", "OnBoardComputer, component side, depth 2/3", [run](Path& p) { s2e::environment::ClockGenerator c; OnBoardComputer o(&c); g_full = !Thorough(); run(p, o, false, Q(2, 3)); }, {4});
  Scenario("i2c-reconnect", "all connect/write/re-register/close histories, depth 4/5: registration clears only the named device, closing only the named bus", [](Path& p) {
    s2e::environment::ClockGenerator c; OnBoardComputer base(&c); ObcWithC2a with(&c); OnBoardComputer& obc = p.Flag() ? (OnBoardComputer&)with : base; CloseAll(obc);
    Bus b; Side s{&obc, {}};
    for (int i = 0, n = Q(4, 5); i < n; i++) {
      int op = p.Choose(8), d = op % 3, port = kDev[d][0], dev = kDev[d][1]; u8 v[2] = {(u8)(17 * i + 1), (u8)(17 * i + 9)};
      if (op < 3) { p.Note("connect dev%d", d); p.Eq(obc.I2cConnectPort(port, dev), 0, "connect", "result"); b.Add(port, dev); }
      else if (op < 6) { if (!b.Has(port, dev)) throw Skip(); p.Note("write dev%d", d); s.Write(d, 0xfd, v, 2); b.reg[port][dev][0xfd] = v[0]; b.reg[port][dev][0xfe] = v[1]; }
      else { int q = kPorts[op - 6]; bool open = b.reg.count(q); p.Note("close %d", q); p.Check((obc.I2cCloseComPort(q) == 0) == open, "close-result", "close of an %s bus", open ? "open" : "absent"); b.reg.erase(q); b.cmd.erase(q); }
      for (int k = 0; k < 3; k++) if (b.Has(kDev[k][0], kDev[k][1])) { u8 g[2]; s.Read(k, 0xfd, g, 2); auto& R = b.reg[kDev[k][0]][kDev[k][1]]; p.Check(g[0] == R[0xfd] && g[1] == R[0xfe], "reconnect-value", "device %d reads %02x %02x want %02x %02x", k, g[0], g[1], R[0xfd], R[0xfe]); }
      p.Obs({(double)b.Has(3, 0x10), (double)b.Has(3, 0x91), (double)b.Has(4, 0x10), (double)i});
    }
    CloseAll(obc);
  });
  Scenario("i2c-lifetime", "both computers, adapters (simulated-only, dual construction) on buses 3 and 4: all histories of creating, moving, destroying and writing, depth 5/6: a bus stays open exactly as long as its adapter; hardware-only adapters touch nothing", [](Path& p) {
    s2e::environment::ClockGenerator c; OnBoardComputer base(&c); ObcWithC2a with(&c); OnBoardComputer& obc = p.Flag() ? (OnBoardComputer&)with : base; CloseAll(obc); s2e::simulation::HilsPortManager h; bool dual = p.Flag();
    std::unique_ptr<Target> t[2]; int reg[2] = {0, 0};
    for (int i = 0, n = Q(5, 6); i < n; i++) {
      int op = p.Choose(5), k = p.Choose(2);
      if (op == 0) { if (t[k]) throw Skip(); t[k].reset(dual ? new Target(kPorts[k], 9u, (u8)0x10, &obc, &h) : new Target(kPorts[k], 0x10, &obc)); reg[k] = 0; p.Note("create %d", k); }
      else if (!t[k] && op != 4) throw Skip();
      else if (op == 1) { std::unique_ptr<Target> q(new Target(std::move(*t[k]))); t[k] = std::move(q); p.Note("move %d", k); }
      else if (op == 2) { t[k].reset(); p.Note("destroy %d", k); }
      else if (op == 3) { u8 v = reg[k] = 20 + i; t[k]->WriteRegister(0xfe, &v, 1); p.Note("write %d", k); }
      else { Target x(7u, (u8)0x10, &h); u8 v = 1, r = 0x5A; x.WriteRegister(0xfe, &v, 1); x.ReadRegister(0xfe, &r, 1); x.ReadCommand(&r, 1); p.Check(r == 0x5A, "hardware-only", "a hardware-only adapter reads %02x", r); p.Note("hardware-only"); }
      for (int j = 0; j < 2; j++) { u8 g = 0x77; int ret = obc.I2cComponentReadRegister(kPorts[j], 0x10, 0xfe, &g, 1); p.Eq(ret, t[j] ? 0 : -1, "bus-open", "result"); if (t[j]) { p.Eq((int)g, reg[j], "bus-value", "register"); t[j]->ReadRegister(0xfe, &g, 1); p.Eq((int)g, reg[j], "bus-value", "register through the adapter"); } }
      p.Obs({(double)!!t[0], (double)!!t[1], (double)reg[0], (double)reg[1], (double)op});
    }
    for (auto& x : t) x.reset(); CloseAll(obc);
  });
  Scenario("i2c-port", "I2cPort with register limit {4, 255}, two devices: all histories of depth 3/4 over {write, read, select a register then read on, store a command of 1 or 3 bytes, register the device anew} at the first, last and beyond the last register, limits rejected", [](Path& p) {
    int lim = p.PickI({4, 255}); I2cPort port((u8)lim); port.RegisterDevice(1); port.RegisterDevice(2);
    std::vector<u8> m[2] = {std::vector<u8>(256, 0), std::vector<u8>(256, 0)};
    int regs[4] = {0, lim - 1, lim, 255}; std::vector<u8> cm[2] = {std::vector<u8>(3, 0), std::vector<u8>(3, 0)};
    for (int i = 0, n = Q(3, 4); i < n; i++) {
      int op = p.Choose(6), d = p.Choose(2), r = op < 3 ? regs[p.Choose(4)] : 0; u8 v = 0x40 + i;
      if (op == 2) { int ret = port.WriteRegister(1 + d, (u8)r); p.Eq(ret != 0, r < lim, "select-result", "accepted"); if (r < lim) for (int k = 0; k < 3; k++) p.Eq(port.ReadRegister(1 + d), m[d][(r + k) % lim], "seq", "register"); }
      else if (op == 3 || op == 4) { u8 c[3] = {(u8)(op == 3 ? 1 : 0x90 + i), (u8)(0xa0 + i), (u8)(0xb0 + d)}; int len = op == 3 ? 1 : 3; p.Eq(port.WriteCommand(1 + d, c, len), len, "command-result"); for (int k = 0; k < len; k++) cm[d][k] = c[k]; }
      else if (op == 5) { port.RegisterDevice(1 + d); std::fill(m[d].begin(), m[d].end(), 0); std::fill(cm[d].begin(), cm[d].end(), 0); }
      for (int e = 0; e < 2 && op > 1; e++) { u8 g[3]; p.Eq(port.ReadCommand(1 + e, g, 3), 3, "command-result"); for (int k = 0; k < 3; k++) p.Eq(g[k], cm[e][k], "command"); }
      if (op > 1) { p.Note("op%d dev%d reg%02x", op, d, r); p.Obs({(double)lim, (double)op, (double)d, (double)r, (double)m[0][0], (double)m[1][0], (double)cm[0][0], (double)cm[1][2]}); continue; }
      if (op == 0) { int ret = port.WriteRegister(1 + d, r, v); p.Eq(ret != 0, r < lim, "write-result", "accepted"); if (r < lim) m[d][r] = v; }
      else p.Eq(port.ReadRegister(1 + d, (u8)r), r < lim ? m[d][r] : 0, "read", "register");
      p.Note("%s dev%d reg%02x", op ? "read" : "write", d, r);
      p.Obs({(double)lim, (double)m[0][0], (double)m[0][lim - 1], (double)m[1][0], (double)m[1][lim - 1]});
    }
    for (int d = 0; d < 2; d++) for (int r = 0; r < lim; r++) p.Eq(port.ReadRegister(1 + d, (u8)r), m[d][r], "final", "register");
    // sequential reads wrap at the limit
    port.WriteRegister(1, (u8)(lim - 1)); p.Eq(port.ReadRegister(1), m[0][lim - 1], "seq", "last"); p.Eq(port.ReadRegister(1), m[0][0], "seq", "wrapped");
  });
  Scenario("gpio", "both computers, pins {1,7} connected and 9 not, direct / adapter access, depth 6/8", [](Path& p) {
    s2e::environment::ClockGenerator c; OnBoardComputer base(&c); ObcWithC2a with(&c); bool c2a = p.Flag(); OnBoardComputer& obc = c2a ? (OnBoardComputer&)with : base;
    int pin[3] = {1, 7, 9}; bool st[3] = {false, false, false};
    Gpio g({1, 7}, &obc);
    if (c2a) { for (int i = 0; i < 2; i++) obc.GpioComponentWrite(pin[i], false); }  // pins are process-wide there
    else for (int i = 0; i < 2; i++) p.Check(!obc.GpioComponentRead(pin[i]), "initial", "pin %d starts high", pin[i]);
    for (int i = 0; i < 2; i++) p.Check(obc.GpioConnectPort(pin[i]) != 0, "reconnect", "second connection accepted");
    for (int i = 0, n = Q(6, 8); i < n; i++) {
      int op = p.Choose(7);
      if (op < 4) { int k = op / 2; bool hi = op % 2; if (i % 3 == 0) g.Write(k, hi); else if (c2a && i % 3 == 1) p.Eq(ObcWithC2a::GpioWrite_C2A(pin[k], hi), 0, "write", "result"); else p.Eq(obc.GpioComponentWrite(pin[k], hi), 0, "write", "result"); st[k] = hi; p.Note("pin%d=%d", pin[k], hi); }
      else if (op == 4) { p.Check(obc.GpioComponentWrite(9, true) < 0, "unconnected-write", "write to unconnected pin accepted"); if (c2a) p.Check(ObcWithC2a::GpioWrite_C2A(9, true) < 0, "unconnected-write", "computer write to unconnected pin accepted"); }
      else if (op == 5) p.Check(!obc.GpioComponentRead(9), "unconnected-read", "unconnected pin high");
      else for (int k = 0; k < 2; k++) p.Check(obc.GpioConnectPort(pin[k]) != 0, "reconnect", "second connection accepted");
      for (int k = 0; k < 2; k++) { p.Eq(obc.GpioComponentRead(pin[k]), st[k], "read", "pin"); p.Eq(g.Read(k), st[k], "read-adapter", "pin"); if (c2a) p.Eq(ObcWithC2a::GpioRead_C2A(pin[k]), st[k], "read-computer", "pin"); }
      p.Obs({(double)c2a, (double)st[0], (double)st[1], (double)op});
    }
  });
  Scenario("gpio-edges", "GpioPort: all write sequences of length 6/10; the component hears exactly the level changes", [](Path& p) {
    Irq q; GpioPort port(5, &q), quiet(6); bool st = false; size_t n = 0;
    for (int i = 0, m = Q(6, 10); i < m; i++) { bool hi = p.Flag(); if (hi != st) n++; st = hi; port.DigitalWrite(hi); quiet.DigitalWrite(!hi); p.Eq(q.ev.size(), n, "edges", "events"); if (n) { p.Eq(q.ev.back().second, st, "edge-level", "level"); p.Eq(q.ev.back().first, 5, "edge-pin", "pin"); } p.Eq(port.DigitalRead(), st, "read", "pin"); p.Eq(quiet.DigitalRead(), !st, "read", "other pin"); p.Obs({(double)st, (double)n}); }
  });
}
