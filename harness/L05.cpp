// Hardware-in-the-loop mode: the port manager and the adapters are compiled with USE_HILS, the Windows-only
// serial port class is replaced by a recorder of what goes over the wire.
#define USE_HILS
#define S2E_COMPONENTS_PORTS_HILS_UART_PORT_HPP_
#include <deque>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <cstring>
typedef unsigned char u8;
struct Wire { std::deque<u8> rx; std::vector<u8> tx; int opened = 0, closed = 0; unsigned baud = 0, txs = 0, rxs = 0; bool fail = false; };
static std::map<unsigned, Wire> g_wire;
namespace s2e::components {
class HilsUartPort {
 public:
  HilsUartPort(const unsigned id, const unsigned baud, const unsigned txs, const unsigned rxs) : w(&g_wire[id]) { w->opened++; w->baud = baud; w->txs = txs; w->rxs = rxs; }
  ~HilsUartPort() {}
  int OpenPort() { return 0; }
  int ClosePort() { w->closed++; return 0; }
  int WriteTx(const u8* b, const unsigned o, const unsigned n) { if (w->fail) return -1; w->tx.insert(w->tx.end(), b + o, b + o + n); return 0; }
  int ReadRx(u8* b, const unsigned o, const unsigned n) { if (w->fail) return -2; if (w->rx.empty()) return -1; unsigned k = 0; for (; k < n && !w->rx.empty(); k++) { b[o + k] = w->rx.front(); w->rx.pop_front(); } return (int)k; }
  int GetBytesToRead() { return (int)w->rx.size(); }
  int DiscardInBuffer() { w->rx.clear(); return 0; }
  int DiscardOutBuffer() { return 0; }
 private:
  Wire* w;
};
}  // namespace s2e::components
#include <components/ports/hils_i2c_target_port.cpp>
namespace s2e::simulation { using s2e::components::HilsUartPort; using s2e::components::HilsI2cTargetPort; }
#include <simulation/hils/hils_port_manager.cpp>
#include <components/base/i2c_controller.cpp>
#include <components/base/i2c_target_communication_with_obc.cpp>
#include <components/base/uart_communication_with_obc.cpp>
#include <components/examples/example_i2c_controller_for_hils.cpp>
#include <components/examples/example_i2c_target_for_hils.cpp>
#include <components/examples/example_serial_communication_for_hils.cpp>
#include "mc.hpp"
using namespace mc;
using namespace s2e::components;
using s2e::simulation::HilsPortManager;
const char* kProperty = "L05";
const char* kAssumptions = "The Windows-only serial port class is replaced by a recorder of its wire; the port manager, the I2C target port, the adapters and the example components are the repository's own, compiled with USE_HILS. Two owners of one hardware I2C port are outside the alphabet.";
struct Dev : UartCommunicationWithObc {
  Dev(unsigned h, unsigned baud, HilsPortManager* m) : UartCommunicationWithObc(h, baud, m) {}
  Dev(unsigned h, unsigned baud, unsigned tx, unsigned rx, HilsPortManager* m) : UartCommunicationWithObc(h, baud, tx, rx, m) {}
  Dev(int s, OnBoardComputer* o, unsigned h, unsigned baud, HilsPortManager* m) : UartCommunicationWithObc(s, o, h, baud, m) {}
  Dev(int s, OnBoardComputer* o) : UartCommunicationWithObc((unsigned)s, o) {}
  using UartCommunicationWithObc::ReceiveCommand; using UartCommunicationWithObc::SendTelemetry;
  using UartCommunicationWithObc::tx_buffer_; using UartCommunicationWithObc::rx_buffer_;
  std::vector<u8> got, tlm; int parsed = 0, off = 0, size = 0;
  int ParseCommand(const int n) override { parsed++; got.assign(rx_buffer_.begin() + off, rx_buffer_.begin() + off + n); return 100 + n; }
  int GenerateTelemetry() override { if (size < 0) return size; for (size_t i = 0; i < tlm.size(); i++) if (off + i < tx_buffer_.size()) tx_buffer_[off + i] = tlm[i]; return (int)tlm.size(); }
};
struct Tgt : I2cTargetCommunicationWithObc {
  using I2cTargetCommunicationWithObc::I2cTargetCommunicationWithObc;
  Tgt(Tgt&& o) : I2cTargetCommunicationWithObc(std::move(o)) {}
  using I2cTargetCommunicationWithObc::ReadRegister; using I2cTargetCommunicationWithObc::WriteRegister; using I2cTargetCommunicationWithObc::ReadCommand;
  using I2cTargetCommunicationWithObc::ReceiveCommand; using I2cTargetCommunicationWithObc::SendTelemetry; using I2cTargetCommunicationWithObc::StoreTelemetry; using I2cTargetCommunicationWithObc::GetStoredFrameCounter;
};
struct Ctl : I2cController {
  using I2cController::I2cController; using I2cController::ReceiveTelemetry; using I2cController::SendCommand; using I2cController::tx_buffer_; using I2cController::rx_buffer_;
};
static void Same(Path& p, const std::vector<u8>& a, const std::vector<u8>& b, const char* what) { p.Eq(a.size(), b.size(), what, "length"); for (size_t i = 0; i < std::min(a.size(), b.size()); i++) p.Eq((int)a[i], (int)b[i], what, "byte"); }
struct Model { bool open = false; int opened = 0, closed = 0; std::deque<u8> rx; std::vector<u8> tx; };
static void Compare(Path& p, unsigned id, const Model& m) {
  Wire& w = g_wire[id];
  p.Eq(w.opened, m.opened, "port-open", "times opened"); p.Eq(w.closed, m.closed, "port-close", "times closed");
  Same(p, w.tx, m.tx, "wire-tx"); Same(p, std::vector<u8>(w.rx.begin(), w.rx.end()), std::vector<u8>(m.rx.begin(), m.rx.end()), "wire-rx");
}
void Register() {
  Scenario("manager", "serial ports 1 and 7 by direct and I2C-controller calls: open {good, zero baud, zero sizes}, close, send {0,1,3} at offset {0,2}, incoming bytes, receive {1,4} at offset {0,1}; depth 4", [](Path& p) {
    g_wire.clear(); HilsPortManager h; Model m[2]; unsigned id[2] = {1, 7}; u8 v = 1;
    for (int s = 0, n = 4; s < n; s++) {
      int k = p.Choose(2), op = p.Choose(s ? 5 : 2); Model& M = m[k]; bool ctl = (s + k) % 2; char t[80];
      if (op == 0) {
        int how = p.Choose(4); unsigned b = how == 1 ? 0 : 9600 + k, x = how == 2 ? 0 : 64, r = how == 3 ? 0 : 32;
        int ret = ctl ? h.I2cControllerConnectComPort(id[k], b, x, r) : h.UartConnectComPort(id[k], b, x, r);
        bool ok = !M.open && how == 0; p.Eq(ret, ok ? 0 : -1, "open", "result");
        if (ok) { M.open = true; M.opened++; p.Eq(g_wire[id[k]].baud, b, "open", "baud rate"); p.Eq(g_wire[id[k]].txs, x, "open", "tx size"); p.Eq(g_wire[id[k]].rxs, r, "open", "rx size"); }
        snprintf(t, 80, "open %u how %d", id[k], how);
      } else if (op == 1) {
        int ret = ctl ? h.I2cControllerCloseComPort(id[k]) : h.UartCloseComPort(id[k]); p.Eq(ret, M.open ? 0 : -1, "close", "result");
        if (M.open) M.closed++; M.open = false; snprintf(t, 80, "close %u", id[k]);
      } else if (op == 2) {
        int c = p.PickI({0, 1, 3}), o = p.PickI({0, 2}); u8 b[8]; for (u8& x : b) x = v += 7;
        int ret = ctl ? h.I2cControllerSend(id[k], b, o, c) : h.UartSend(id[k], b, o, c); p.Eq(ret, M.open ? 0 : -1, "send", "result");
        if (M.open) M.tx.insert(M.tx.end(), b + o, b + o + c); snprintf(t, 80, "send %u %d@%d", id[k], c, o);
      } else if (op == 3) {
        int c = p.PickI({1, 3}); for (int i = 0; i < c; i++) { v += 11; g_wire[id[k]].rx.push_back(v); M.rx.push_back(v); } snprintf(t, 80, "incoming %u %d", id[k], c);
      } else {
        int c = p.PickI({1, 4}), o = p.PickI({0, 1}); u8 b[8]; memset(b, 0xEE, 8);
        int ret = ctl ? h.I2cControllerReceive(id[k], b, o, c) : h.UartReceive(id[k], b, o, c);
        if (!M.open) p.Eq(ret, -1, "receive", "result");
        else { int w = std::min<int>(c, M.rx.size()); if (w == 0) p.Check(ret <= 0, "receive", "%d bytes from an empty port", ret); else p.Eq(ret, w, "receive", "count"); for (int i = 0; i < w; i++) { p.Eq((int)b[o + i], (int)M.rx.front(), "receive", "byte"); M.rx.pop_front(); } }
        for (int i = 0; i < o; i++) p.Eq((int)b[i], 0xEE, "receive", "byte before the offset"); snprintf(t, 80, "receive %u %d@%d", id[k], c, o);
      }
      p.Note("%s", t); for (int i = 0; i < 2; i++) Compare(p, id[i], m[i]);
      p.Obs({(double)m[0].open, (double)m[1].open, (double)m[0].rx.size(), (double)m[1].rx.size(), (double)m[0].tx.size(), (double)m[1].tx.size(), (double)op});
    }
  }, {3});
  Scenario("uart-adapter", "three ways of construction x incoming {1,3} / failing line, reception offset {0,2} x size {0,1,4,buffer,buffer+1}, telemetry {none,1,4,error} x offset {0,2,beyond}; depth 3/4; a second adapter on the port; destruction", [](Path& p) {
    g_wire.clear(); HilsPortManager h; s2e::environment::ClockGenerator c; OnBoardComputer obc(&c); Model m; int how = p.Choose(3); unsigned size = how == 1 ? 6 : 1024; u8 v = 3;
    std::unique_ptr<Dev> d(how == 0 ? new Dev(5u, 19200u, &h) : how == 1 ? new Dev(5u, 19200u, 6u, 6u, &h) : new Dev(2, &obc, 5u, 19200u, &h));
    m.opened = 1; p.Eq(g_wire[5].baud, 19200u, "open", "baud rate"); p.Eq(g_wire[5].txs, size, "open", "tx size"); p.Eq(g_wire[5].rxs, size, "open", "rx size");
    if (how == 2) { u8 b[2] = {1, 2}; p.Check(obc.SendFromObc(2, b, 0, 1) < 0, "sils-port", "the simulated port was opened as well"); }
    if (p.Flag("a second adapter comes and goes")) { Dev e(5u, 9600u, &h); } Compare(p, 5, m);
    for (int s = 0, n = Q(3, 4); s < n; s++) {
      int op = p.Choose(4);
      if (op == 0) { int k = p.PickI({1, 3}); for (int i = 0; i < k; i++) { v += 13; g_wire[5].rx.push_back(v); m.rx.push_back(v); } p.Note("incoming %d", k); }
      else if (op == 1) { g_wire[5].fail = !g_wire[5].fail; p.Note("line %s", g_wire[5].fail ? "fails" : "works"); }
      else if (op == 2) {
        int o = p.PickI({0, 2}), k = p.PickI({0, 1, 4, (int)size, (int)size + 1}), before = d->parsed; d->off = o; d->got.clear(); bool fit = o + k <= (int)size;
        int ret = d->ReceiveCommand(o, k); int w = fit && !g_wire[5].fail ? std::min<int>(k, m.rx.size()) : 0; p.Note("receive %d at %d", k, o);
        if (!fit) p.Check(ret < 0, "too-long", "a reception beyond the buffer gives %d", ret);
        p.Eq(d->parsed - before, w > 0 ? 1 : 0, "parsed", "commands parsed"); if (w > 0) p.Eq(ret, 100 + w, "parsed", "result of the parser"); else p.Check(ret <= 0, "parsed", "result %d without a command", ret);
        p.Eq((int)d->got.size(), w, "parsed", "bytes"); for (int i = 0; i < w; i++) { p.Eq((int)d->got[i], (int)m.rx.front(), "parsed", "byte"); m.rx.pop_front(); }
      } else {
        int o = p.PickI({0, 2, (int)size + 1}), k = p.PickI({0, 1, 4, -1}); d->off = o; d->size = k; d->tlm.clear(); for (int i = 0; i < k; i++) d->tlm.push_back(v += 5);
        d->tx_buffer_.resize(size); int ret = d->SendTelemetry(o); bool ok = k >= 0 && o + k <= (int)size && o <= (int)size; p.Note("telemetry %d at %d", k, o);
        if (!ok) p.Check(ret < 0, "telemetry", "a telemetry that does not fit gives %d", ret); else if (!g_wire[5].fail) p.Eq(ret, 0, "telemetry", "result");
        if (ok && !g_wire[5].fail) m.tx.insert(m.tx.end(), d->tlm.begin(), d->tlm.end());
      }
      Compare(p, 5, m); p.Obs({(double)how, (double)op, (double)m.rx.size(), (double)m.tx.size(), (double)g_wire[5].fail});
    }
    d.reset(); m.closed = 1; Compare(p, 5, m); p.Eq(h.UartCloseComPort(5), -1, "closed", "closing again");
    if (how == 2) { Dev e(2, &obc); int before = e.parsed; e.ReceiveCommand(0, 1); p.Eq(e.parsed, before, "wrong-mode", "parsed commands of a simulated-only adapter"); p.Check(e.SendTelemetry(0) < 0, "wrong-mode", "telemetry of a simulated-only adapter accepted"); }
  }, {3});
  Scenario("i2c-target", "two targets, hardware-only and dual construction, moved or not: register writes / reads, incoming 1, 2, 4 byte commands to registers {0,fd,ff} (thorough {0,3,fd,fe,ff}), replies {1,3}, stored frames {1,3}; depth 3", [](Path& p) {
    g_wire.clear(); HilsPortManager h; s2e::environment::ClockGenerator c; OnBoardComputer obc(&c); int how = p.Choose(2); unsigned id[2] = {4, 9}; std::unique_ptr<Tgt> t[2];
    for (int k = 0; k < 2; k++) t[k].reset(how ? new Tgt(3u, id[k], (u8)(0x10 + k), &obc, &h) : new Tgt(id[k], (u8)(0x10 + k), &h));
    if (p.Flag("moved")) { std::unique_ptr<Tgt> q(new Tgt(std::move(*t[0]))); t[0] = std::move(q); }
    struct D { std::map<int, int> r; int ptr = 0, frames = 0; std::vector<u8> cmd = std::vector<u8>(255, 0); } d[2]; Model m[2]; m[0].opened = m[1].opened = 1; u8 v = 1; const int regs[5] = {0xfd, 0, 0xfe, 3, 0xff}; const bool full = Thorough();
    for (int k = 0; k < 2; k++) Compare(p, id[k], m[k]);
    for (int s = 0, n = 3; s < n; s++) {
      int op = p.Choose(5), k = s == 0 ? p.Choose(2) : p.Choose(op == 4 ? 1 : 2); D& R = d[k]; Model& M = m[k]; Tgt& T = *t[k]; Wire& W = g_wire[id[k]];
      auto send = [&](int n) { if (R.ptr + n > 0xff) return false; for (int i = 0; i < n; i++) M.tx.push_back(R.r[R.ptr + i]); R.frames++; return true; };
      if (op == 0) { int a = regs[full ? p.Choose(4) : 2 * p.Choose(2)], c = full ? p.PickI({1, 2}) : 2; u8 b[2] = {v += 3, v += 5}; T.WriteRegister(a, b, c); for (int i = 0; i < c; i++) if (a + i < 0xff) { R.r[a + i] = b[i]; R.ptr = a + i; } p.Note("t%d write %02x %d", k, a, c); }
      else if (op == 1) { int a = regs[full ? p.Choose(4) : 2]; u8 b[2] = {9, 9}; T.ReadRegister(a, b, 2); for (int i = 0; i < 2; i++) { p.Eq((int)b[i], a + i < 0xff ? R.r[a + i] : 0, "register", "value"); if (a + i < 0xff) R.ptr = a + i; } p.Note("t%d read %02x", k, a); }
      else if (op == 2) {
        int c = p.PickI({0, 1, 2, 4}), a = regs[c == 1 || c == 2 ? (full ? p.Choose(5) : p.PickI({0, 1, 4})) : 0]; for (int i = 0; i < c; i++) W.rx.push_back(i ? (v += 7) : a); std::vector<u8> b(W.rx.begin(), W.rx.end());
        int ret = T.ReceiveCommand(); if (c == 0) p.Check(ret <= 0, "receive", "result %d without a command", ret); else p.Eq(ret, c, "receive", "result"); for (int i = 0; i < c; i++) R.cmd[i] = b[i];
        if (c == 1) { if (a < 0xff) R.ptr = a; if (R.frames > 0) R.frames--; } if (c == 2 && a < 0xff) { R.ptr = a; R.r[a] = b[1]; }
        std::vector<u8> q(6, 0); T.ReadCommand(q.data(), 6); for (int i = 0; i < 6; i++) p.Eq((int)q[i], (int)R.cmd[i], "command", "byte"); p.Note("t%d incoming %d to %02x", k, c, a);
      } else if (op == 3) { int c = p.PickI({1, 3}); bool ok = send(c); int ret = T.SendTelemetry(c); if (ok) p.Eq(ret, 0, "reply", "result"); else p.Check(ret < 0, "reply", "a reply beyond the registers gives %d", ret); p.Note("t%d reply %d", k, c); }
      else { int want = p.PickI({1, 3}); int need = want - R.frames; for (int i = 0; i < need; i++) send(2); int ret = T.StoreTelemetry(want, 2); if (need <= 0) p.Check(ret < 0, "store", "result %d with enough frames stored", ret); else p.Eq(ret, 0, "store", "result"); p.Note("t%d store %d", k, want); }
      for (int j = 0; j < 2; j++) { Compare(p, id[j], m[j]); p.Eq(t[j]->GetStoredFrameCounter(), d[j].frames, "frames", "stored frames"); }
      p.Obs({(double)op, (double)R.ptr, (double)R.frames, (double)M.tx.size(), (double)k});
    }
    for (int k = 0; k < 2; k++) { t[k].reset(); m[k].closed = 1; for (int j = 0; j < 2; j++) Compare(p, id[j], m[j]); p.Eq(h.I2cTargetCloseComPort(id[k]), -1, "closed", "closing again"); }
    p.Eq(h.I2cTargetGetStoredFrameCounter(4), -1, "closed", "stored frames"); p.Eq(h.I2cTargetSend(4, 1), -1, "closed", "reply"); p.Eq(h.I2cTargetReceive(4), -1, "closed", "receive"); u8 b[2]; p.Eq(h.I2cTargetReadRegister(4, 0, b, 1), -1, "closed", "read"); p.Eq(h.I2cTargetWriteRegister(4, 0, b, 1), -1, "closed", "write"); p.Eq(h.I2cTargetReadCommand(4, b, 1), -1, "closed", "command");
    p.Eq(h.I2cTargetConnectComPort(4), 0, "reopen", "result"); p.Eq(h.I2cTargetConnectComPort(4), -1, "reopen", "second result"); p.Eq(h.I2cTargetReadRegister(4, 3, b, 1), 0, "reopen", "read"); p.Eq((int)b[0], 0, "reopen", "register"); p.Eq(h.I2cTargetCloseComPort(4), 0, "reopen", "close");
  }, {3});
  Scenario("i2c-controller", "commands {1,3} and telemetry {1,4} with {0,2,6} bytes waiting, failing line; depth 4/5; destruction closes the port", [](Path& p) {
    g_wire.clear(); HilsPortManager h; Model m; u8 v = 1; { Ctl d(6, 115200, 16, 8, &h); m.opened = 1; p.Eq(g_wire[6].baud, 115200u, "open", "baud rate"); p.Eq(g_wire[6].txs, 16u, "open", "tx size"); p.Eq(g_wire[6].rxs, 8u, "open", "rx size");
      for (int s = 0, n = Q(4, 5); s < n; s++) {
        int op = p.Choose(3);
        if (op == 0) { int k = p.PickI({1, 3}); d.tx_buffer_.clear(); for (int i = 0; i < 4; i++) d.tx_buffer_.push_back(v += 3); int ret = d.SendCommand(k); if (g_wire[6].fail) p.Check(ret < 0, "send", "result %d on a failing line", ret); else { p.Eq(ret, 0, "send", "result"); m.tx.insert(m.tx.end(), d.tx_buffer_.begin(), d.tx_buffer_.begin() + k); } p.Note("command %d", k); }
        else if (op == 1) { int in = p.PickI({0, 2, 6}), k = p.PickI({1, 4}); for (int i = 0; i < in; i++) { v += 9; g_wire[6].rx.push_back(v); m.rx.push_back(v); } d.rx_buffer_.assign(8, 0xEE); int ret = d.ReceiveTelemetry(k), w = g_wire[6].fail ? 0 : std::min<int>(k, m.rx.size()); if (w) p.Eq(ret, w, "telemetry", "count"); else p.Check(ret <= 0, "telemetry", "result %d", ret); for (int i = 0; i < w; i++) { p.Eq((int)d.rx_buffer_[i], (int)m.rx.front(), "telemetry", "byte"); m.rx.pop_front(); } p.Note("telemetry %d", k); }
        else { g_wire[6].fail = !g_wire[6].fail; p.Note("line"); }
        Compare(p, 6, m); p.Obs({(double)op, (double)m.rx.size(), (double)m.tx.size()});
      } }
    m.closed = 1; Compare(p, 6, m);
  });
  Scenario("examples", "example sender and responder on a cross-linked line with delayed or lost deliveries, 5/7 cycles; example I2C controller and target over 5/7 cycles with incoming requests {none, one, two-byte}", [](Path& p) {
    g_wire.clear(); HilsPortManager h; s2e::environment::ClockGenerator c; OnBoardComputer obc(&c);
    if (p.Choose(2) == 0) {
      struct Ser : ExampleSerialCommunicationForHils { using ExampleSerialCommunicationForHils::ExampleSerialCommunicationForHils; void Run() { MainRoutine(0); } };
      Ser a(&c, 1, &obc, 1, 9600, &h, 0), b(&c, 2, &obc, 2, 9600, &h, 1); std::string mem(4, '\0'), wa, wb; size_t sent = 0, back = 0;
      for (int s = 0, n = Q(5, 7); s < n; s++) {
        int op = p.Choose(3); std::string msg; for (int i = 0; i < 3; i++) msg += (char)('A' + (s % 24) + i); msg += '\0';
        a.Run(); wa += msg; if (op == 0) for (; sent < wa.size(); sent++) g_wire[2].rx.push_back(wa[sent]); else if (op == 1) sent = wa.size();  // delivered / lost / delayed
        std::string in(g_wire[2].rx.begin(), g_wire[2].rx.end()); b.Run(); if (in.size() >= 4) { mem = in.substr(0, 4); mem[3] = '\0'; } wb += mem;
        for (; back < wb.size(); back++) g_wire[1].rx.push_back(wb[back]);
        Same(p, g_wire[1].tx, std::vector<u8>(wa.begin(), wa.end()), "sender"); Same(p, g_wire[2].tx, std::vector<u8>(wb.begin(), wb.end()), "responder"); p.Note("cycle %d", op); p.Obs({(double)op, (double)s, (double)in.size()});
      }
    } else {
      struct Ti : ExampleI2cTargetForHils { using ExampleI2cTargetForHils::ExampleI2cTargetForHils; void Run() { MainRoutine(0); } }; struct Ci : ExampleI2cControllerForHils { using ExampleI2cControllerForHils::ExampleI2cControllerForHils; void Run() { MainRoutine(0); } };
      Ti t(1, &c, 0, 0x44, &obc, 3, &h); Ci q(1, &c, 8, 115200, 64, 64, &h); std::vector<u8> wt, wq; int frames = 0, ptr = 0; std::map<int, int> r;
      for (int s = 0, n = Q(5, 7); s < n; s++) {
        int op = p.Choose(3); for (int i = 0; i < op; i++) g_wire[3].rx.push_back(i ? 'z' : 0); t.Run(); q.Run();
        for (int i = 0; i < 5; i++) r[i] = 'A' + s % 22 + i; ptr = 4; if (op == 1) { ptr = 0; if (frames) frames--; } if (op == 2) { ptr = 0; r[0] = 'z'; }
        for (; frames < 3; frames++) for (int i = 0; i < 5; i++) wt.push_back(r[ptr + i]);
        for (u8 x : {0x53, 0x44, 1, 0, 0x50, 0x53, 0x45, 5, 0x50}) wq.push_back(x);
        Same(p, g_wire[3].tx, wt, "target"); Same(p, g_wire[8].tx, wq, "controller"); p.Note("cycle %d", op); p.Obs({(double)op, (double)s, (double)frames});
      }
    }
  });
}
