// Component serial adapter: command reception and telemetry against byte queues.
#include <components/base/uart_communication_with_obc.hpp>
#include <components/examples/example_serial_communication_with_obc.hpp>
#include <components/real/cdh/on_board_computer.hpp>
#include <components/real/cdh/on_board_computer_with_c2a.hpp>
#include <deque>
#include <memory>

#include "mc.hpp"
using namespace mc;
using namespace s2e::components;
typedef unsigned char u8;
const char* kProperty = "L04";
const char* kAssumptions = "Unread bytes stay below the link capacity. Hardware-in-the-loop mode is the subject of L05.";
struct Dev : UartCommunicationWithObc {
  Dev(int port, int tx, int rx, OnBoardComputer* o) : UartCommunicationWithObc(port, tx, rx, o) {}
  Dev(int port, OnBoardComputer* o) : UartCommunicationWithObc((unsigned)port, o) {}
  Dev(int port, OnBoardComputer* o, unsigned h, unsigned baud, s2e::simulation::HilsPortManager* m) : UartCommunicationWithObc(port, o, h, baud, m) {}
  Dev(unsigned h, unsigned baud, s2e::simulation::HilsPortManager* m) : UartCommunicationWithObc(h, baud, m) {}
  Dev(unsigned h, unsigned baud, unsigned tx, unsigned rx, s2e::simulation::HilsPortManager* m) : UartCommunicationWithObc(h, baud, tx, rx, m) {}
  using UartCommunicationWithObc::ReceiveCommand; using UartCommunicationWithObc::SendTelemetry;
  using UartCommunicationWithObc::tx_buffer_; using UartCommunicationWithObc::rx_buffer_;
  std::vector<u8> got, tlm; int parsed = 0, off_expect = 0, tlm_off = 0; int ret = 0;
  int ParseCommand(const int n) override { parsed++; got.assign(rx_buffer_.begin() + off_expect, rx_buffer_.begin() + off_expect + n); ret = 100 + n; return ret; }
  int GenerateTelemetry() override { for (size_t i = 0; i < tlm.size(); i++) if (tlm_off + i < tx_buffer_.size()) tx_buffer_[tlm_off + i] = tlm[i]; return (int)tlm.size(); }
};
void Register() {
  Scenario("adapter-histories", "two computers x two adapters (tx 6/rx 8, tx 9/rx 5) x sends {1,3}, receptions offset {0,2} x size {1,4,8,9}, telemetry sizes {0,1,4,6,7} x offset {0,2}, computer reads; depth 5/6", [](Path& p) {
    s2e::environment::ClockGenerator c; OnBoardComputer base(&c); ObcWithC2a with(&c); OnBoardComputer& obc = p.Flag() ? (OnBoardComputer&)with : base;
    int ports[2] = {1, 2}, txs[2] = {6, 9}, rxs[2] = {8, 5};
    for (int q : ports) obc.CloseComPort(q);
    std::unique_ptr<Dev> d[2]; std::deque<u8> cq[2], tq[2]; u8 next = 1;
    for (int i = 0; i < 2; i++) { d[i].reset(new Dev(ports[i], txs[i], rxs[i], &obc)); p.Check(d[i]->IsConnected(), "connect", "adapter not connected"); }
    { Dev dup(ports[0], 6, 8, &obc); p.Check(!dup.IsConnected(), "double-connect", "a second adapter connected to the same port"); }
    for (int s = 0, n = Q(5, 6); s < n; s++) {
      int op = p.Choose(17);
      int i = op >= 12 ? 1 : 0;  // second adapter has a smaller alphabet: it must not be disturbed
      Dev& a = *d[i]; int port = ports[i], kind = -1, len = 0, off = 0;
      static const int K[17][3] = {{0, 1, 0}, {0, 3, 1}, {1, 1, 0}, {1, 4, 2}, {1, 8, 0}, {1, 8, 2}, {1, 9, 0}, {2, 1, 0}, {2, 4, 2}, {2, 6, 0}, {2, 7, 0}, {3, 5, 0}, {0, 3, 0}, {1, 5, 0}, {2, 5, 0}, {3, 9, 1}, {2, 9, 2}};
      kind = K[op][0]; len = K[op][1]; off = K[op][2];
      if (kind == 0) {
        if ((int)cq[i].size() + len > rxs[i] - 1) throw Skip();
        u8 b[12]; for (int k = 0; k < len; k++) { b[off + k] = next; cq[i].push_back(next); next += 3; }
        p.Note("obc->%d %d bytes", i, len); p.Eq(obc.SendFromObc(port, b, off, len), len, "obc-send", "count");
      } else if (kind == 1) {
        int before = a.parsed; a.off_expect = off; a.got.clear();
        int r = a.ReceiveCommand(off, len); p.Note("recv%d %d@%d", i, len, off);
        if (off + len > rxs[i]) { p.Check(r < 0 && a.parsed == before, "oversize-receive", "oversize reception returned %d, parsed %d times", r, a.parsed - before); p.Outcome("receive refused"); }
        else {
          int want = std::min<int>(len, cq[i].size());
          if (want == 0) { p.Check(r <= 0 && a.parsed == before, "empty-receive", "empty reception returned %d, parsed %d", r, a.parsed - before); p.Outcome("receive empty"); }
          else { p.Eq(a.parsed, before + 1, "parse-once", "parse calls"); p.Eq(r, 100 + want, "receive-result", "result of the parser"); p.Eq(a.got.size(), want, "parse-size", "size"); for (int k = 0; k < want; k++) { p.Eq(a.got[k], cq[i].front(), "command-byte", "byte"); cq[i].pop_front(); } p.Outcome("receive"); }
        }
      } else if (kind == 2) {
        a.tlm.clear(); for (int k = 0; k < len; k++) a.tlm.push_back(next += 5); a.tlm_off = off;
        bool fits = off + len <= txs[i]; if (fits && (int)tq[i].size() + len > txs[i] - 1) throw Skip();
        int r = a.SendTelemetry(off); p.Note("tlm%d %d@%d", i, len, off);
        if (fits) { p.Check(r >= 0, "telemetry-result", "telemetry refused (%d)", r); for (u8 x : a.tlm) tq[i].push_back(x); p.Outcome("telemetry"); }
        else { p.Check(r < 0, "telemetry-oversize", "oversize telemetry accepted"); p.Outcome("telemetry refused"); }
      } else {
        u8 b[16]; memset(b, 0xEE, 16); int want = std::min<int>(len, tq[i].size());
        p.Note("obc reads%d", i); p.Eq(obc.ReceivedByObc(port, b, off, len), want, "telemetry-count", "count");
        for (int k = 0; k < want; k++) { p.Eq(b[off + k], tq[i].front(), "telemetry-byte", "byte"); tq[i].pop_front(); }
      }
      p.Obs({(double)cq[0].size(), (double)cq[1].size(), (double)tq[0].size(), (double)tq[1].size(), (double)op});
    }
    for (int i = 0; i < 2; i++) {
      u8 b[16]; p.Eq(obc.ReceivedByObc(ports[i], b, 0, 16), tq[i].size(), "final-telemetry", "count"); for (size_t k = 0; k < tq[i].size(); k++) p.Eq(b[k], tq[i][k], "final-telemetry", "byte");
      d[i]->off_expect = 0; d[i]->got.clear(); d[i]->ReceiveCommand(0, rxs[i]); p.Eq(d[i]->got.size(), cq[i].size(), "final-command", "count"); for (size_t k = 0; k < cq[i].size(); k++) p.Eq(d[i]->got[k], cq[i][k], "final-command", "byte");
    }
    d[0].reset(); u8 b[2] = {0};
    p.Check(obc.SendFromObc(ports[0], b, 0, 1) < 0, "closed-after-destroy", "port still open after its component was destroyed");
    p.Eq(obc.SendFromObc(ports[1], b, 0, 1), 1, "other-port-open", "other port");
  });
  Scenario("lifetime", "adapters (default buffers, given buffers, dual construction) on links 1 and 2: all histories of creating a first or second adapter, destroying and sending, depth 5/6: a link stays open exactly as long as the adapter that opened it; hardware-only adapters refuse everything", [](Path& p) {
    s2e::environment::ClockGenerator c; OnBoardComputer obc(&c); s2e::simulation::HilsPortManager h; int how = p.Choose(3); struct Slot { std::unique_ptr<Dev> d; bool owner; }; std::vector<Slot> s[2]; std::deque<u8> q[2]; bool open[2] = {false, false}; u8 v = 1;
    for (int i = 0, n = Q(5, 6); i < n; i++) {
      int op = p.Choose(4), k = p.Choose(2);
      if (op == 0) { if (s[k].size() == 2) throw Skip(); s[k].push_back({std::unique_ptr<Dev>(how == 0 ? new Dev(1 + k, &obc) : how == 1 ? new Dev(1 + k, 2000, 2000, &obc) : new Dev(1 + k, &obc, 5u, 9600u, &h)), !open[k]}); if (!open[k]) q[k].clear(); open[k] = true; p.Note("create %d", k);
        p.Eq(s[k].back().d->tx_buffer_.size(), (size_t)1024, "buffer", "transmission buffer"); p.Eq(s[k].back().d->rx_buffer_.size(), (size_t)1024, "buffer", "reception buffer"); }
      else if (op == 1) { if (s[k].empty()) throw Skip(); int w = p.Choose((int)s[k].size()); if (s[k][w].owner) { open[k] = false; q[k].clear(); } s[k].erase(s[k].begin() + w); p.Note("destroy %d.%d", k, w); }
      else if (op == 2) { v += 3; int ret = obc.SendFromObc(1 + k, &v, 0, 1); if (open[k]) { p.Eq(ret, 1, "link", "bytes sent"); q[k].push_back(v); } else p.Check(ret < 0, "link", "sending over a closed link gives %d", ret); p.Note("send %d", k); }
      else if (k == 0) { Dev x(5u, 9600u, &h), y(5u, 9600u, 6u, 3000u, &h); x.tlm = y.tlm = {1, 2}; p.Check(x.ReceiveCommand(0, 1) < 0 && y.ReceiveCommand(0, 1) < 0 && x.SendTelemetry(0) < 0 && y.SendTelemetry(0) < 0, "hardware-only", "a hardware-only adapter exchanges data"); p.Eq(x.parsed + y.parsed, 0, "hardware-only", "commands parsed"); p.Note("hardware-only"); }
      else for (int j = 0; j < 2; j++) { if (s[j].empty()) continue; Dev& d = *s[j][0].d; d.off_expect = 0; d.got.clear(); int ret = d.ReceiveCommand(0, 8); if (!open[j] || q[j].empty()) p.Check(ret <= 0 && d.got.empty(), "receive", "%d bytes without any sent", (int)d.got.size()); else { p.Eq(d.got.size(), q[j].size(), "receive", "bytes"); for (size_t b = 0; b < q[j].size(); b++) p.Eq(d.got[b], q[j][b], "receive", "byte"); } q[j].clear(); p.Note("receive %d", j); }
      for (int j = 0; j < 2; j++) { u8 b; int ret = obc.ReceivedByObc(1 + j, &b, 0, 1); if (open[j]) p.Eq(ret, 0, "link-open", "bytes waiting"); else p.Check(ret < 0, "link-open", "a closed link reads %d", ret); }
      p.Obs({(double)open[0], (double)open[1], (double)q[0].size(), (double)q[1].size(), (double)s[0].size(), (double)s[1].size(), (double)op});
    }
  });
  Scenario("buffer-fill", "adapter buffer sizes (tx,rx) in {2,5,9}^2 and defaults: both directions filled to capacity-1 and drained, repeated 3 times with every split", [](Path& p) {
    s2e::environment::ClockGenerator c; OnBoardComputer obc(&c); int k = p.Choose(10); int sz[3] = {2, 5, 9};
    int tx = k == 9 ? 1024 : sz[k / 3], rx = k == 9 ? 1024 : sz[k % 3];
    std::unique_ptr<Dev> d(k == 9 ? new Dev(4, &obc) : new Dev(4, tx, rx, &obc));
    u8 v = 1; int cs = p.PickI({1, 2, 3}), ts = p.PickI({1, 2, 3});
    for (int rep = 0; rep < 3; rep++) {
      std::deque<u8> q;
      while ((int)q.size() < rx - 1) { u8 b = v; v = v * 5 + 3; q.push_back(b); p.Eq(obc.SendFromObc(4, &b, 0, 1), 1, "send", "count"); }
      if (cs > rx) break;
      while (!q.empty()) { d->got.clear(); d->off_expect = 0; d->ReceiveCommand(0, cs); int w = std::min<int>(cs, q.size()); p.Eq(d->got.size(), w, "fill-command", "count"); for (int i = 0; i < w; i++) { p.Eq(d->got[i], q.front(), "fill-command", "byte"); q.pop_front(); } }
      if (ts > tx) break;
      while ((int)q.size() + ts <= tx - 1) { d->tlm.clear(); d->tlm_off = 0; for (int i = 0; i < ts; i++) { d->tlm.push_back(v); q.push_back(v); v = v * 5 + 3; } p.Check(d->SendTelemetry(0) >= 0, "fill-telemetry", "refused"); }
      std::vector<u8> b(1100); p.Eq(obc.ReceivedByObc(4, b.data(), 0, 1100), q.size(), "fill-telemetry", "count"); for (size_t i = 0; i < q.size(); i++) p.Eq(b[i], q[i], "fill-telemetry", "byte");
      p.Obs({(double)tx, (double)rx, (double)rep, (double)cs, (double)ts});
    }
  });
  Scenario("example-component", "ExampleSerialCommunicationWithObc: all sequences of 3/4 exchanges over {SETx command, wrong command, short command, nothing}", [](Path& p) {
    s2e::environment::ClockGenerator c; OnBoardComputer obc(&c); ExampleSerialCommunicationWithObc e(&c, 3, 1, &obc);
    std::vector<char> mem(100, 0);
    for (int s = 0, n = Q(4, 5); s < n; s++) {
      int op = p.Choose(4); char x = 'a' + s; u8 cmd[4][5] = {{'S', 'E', 'T', (u8)x, 0}, {'S', 'E', 'X', (u8)x, 0}, {'S', 'E', 'T', 0, 0}, {0}}; int len[4] = {5, 5, 3, 0};
      if (len[op]) obc.SendFromObc(3, cmd[op], 0, len[op]);
      if (op == 0) { mem.pop_back(); mem.insert(mem.begin(), x); mem[99] = '\n'; }
      p.Note("exchange %d", op); c.TickToComponents();
      u8 b[200]; int got = obc.ReceivedByObc(3, b, 0, 200); if (got == (int)sizeof(std::vector<u8>)) p.CheckKnown(false, "example-telemetry-size-of-vector", "the component sends %d bytes instead of its 100 byte memory", got); else p.Eq(got, 100, "example-telemetry", "telemetry length");
      for (int i = 0; i < std::min(got, 100); i++) p.Eq((char)b[i], mem[i], "example-telemetry", "byte");
      p.Obs({(double)op, (double)s});
    }
  });
}
