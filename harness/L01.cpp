// Serial links: ring buffer, UART port and both on-board computers against FIFO queues.
#include <components/ports/uart_port.hpp>
#include <components/real/cdh/on_board_computer.hpp>
#include <components/real/cdh/on_board_computer_with_c2a.hpp>
#include <deque>
#include <memory>
#include <utilities/ring_buffer.hpp>

#include "mc.hpp"
using namespace mc;
using namespace s2e;
typedef unsigned char u8;
const char* kProperty = "L01";
const char* kAssumptions = "A buffer of N bytes holds at most N-1 unread bytes; histories that exceed it are outside the property; ports opened with two sizes are filled only to the smaller one.";

struct Fifo {
  std::deque<u8> q; unsigned next; unsigned cap;
  Fifo(unsigned cap, unsigned seed) : next(seed), cap(cap) {}
  unsigned Room() const { return cap - 1 - q.size(); }
};
// one write of `len` fresh bytes placed at `off` in the caller's buffer
template <class W> void DoWrite(Path& p, Fifo& f, W w, int off, int len, const char* what) {
  u8 buf[2200]; memset(buf, 0xEE, sizeof buf);
  for (int i = 0; i < len; i++) { buf[off + i] = (u8)(f.next * 7 + 3); f.next++; f.q.push_back(buf[off + i]); }
  p.Note("%s write %d@%d", what, len, off);
  p.Eq(w(buf, off, len), len, "write-count", what);
  for (int i = 0; i < 2200; i++) if ((i < off || i >= off + len) && buf[i] != 0xEE) p.Fail("write-touched-source", "source byte %d changed", i);
}
template <class R> void DoRead(Path& p, Fifo& f, R r, int off, int len, const char* what) {
  u8 buf[2200]; memset(buf, 0xEE, sizeof buf);
  int want = std::min<int>(len, f.q.size());
  p.Note("%s read %d@%d", what, len, off);
  int got = r(buf, off, len);
  p.Eq(got, want, "read-count", what);
  for (int i = 0; i < want; i++) { p.Eq(buf[off + i], f.q.front(), "read-data", what); f.q.pop_front(); }
  for (int i = 0; i < 2200; i++) if ((i < off || i >= off + want) && buf[i] != 0xEE) p.Fail("read-touched-outside", "destination byte %d changed", i);
  p.Outcome(want == 0 ? "empty read" : want < len ? "short read" : "full read");
}
static void Drain(Path& p, Fifo& f, std::function<int(u8*, int, int)> r, const char* what) { DoRead(p, f, r, 1, f.cap + 3, what); }

static void RingSteps(Path& p, utilities::RingBuffer& rb, Fifo& f, int op) {
  int cap = f.cap; int wl[3] = {1, 2, cap - 1}, rl[4] = {1, 2, cap - 1, cap + 2};
  auto w = [&](u8* b, int o, int l) { return rb.Write(b, o, l); };
  auto r = [&](u8* b, int o, int l) { return rb.Read(b, o, l); };
  if (op < 3) { if ((int)f.Room() < wl[op]) throw Skip(); DoWrite(p, f, w, op, wl[op], "ring"); }
  else DoRead(p, f, r, op - 3, rl[op - 3], "ring");
  p.ObsHash(Mix(cap, f.q.size() * 1000 + f.next % cap));
}
static void OneObc(Path& p, components::OnBoardComputer& obc, int steps) {
  int caps[2][2] = {{4, 6}, {7, 3}};  // [port][tx (computer to component), rx]
  int id[3] = {2, 5, 9};
  for (int i = 0; i < 2; i++) p.Eq(obc.ConnectComPort(id[i], caps[i][0], caps[i][1]), 0, "connect", "first connection");
  std::vector<std::vector<Fifo>> f;
  for (int i = 0; i < 2; i++) { int m = std::min(caps[i][0], caps[i][1]); f.push_back({Fifo(m, 40 * i), Fifo(m, 40 * i + 20)}); }
  bool open[2] = {true, true};
  auto tx = [&](int i) { return [&obc, &id, i](u8* b, int o, int l) { return obc.SendFromObc(id[i], b, o, l); }; };
  auto rx = [&](int i) { return [&obc, &id, i](u8* b, int o, int l) { return obc.ReceivedByObc(id[i], b, o, l); }; };
  auto ctx = [&](int i) { return [&obc, &id, i](u8* b, int o, int l) { return obc.SendFromCompo(id[i], b, o, l); }; };
  auto crx = [&](int i) { return [&obc, &id, i](u8* b, int o, int l) { return obc.ReceivedByCompo(id[i], b, o, l); }; };
  for (int s = 0; s < steps; s++) {
    int op = p.Choose(22, "op");
    if (op < 16) {
      int port = op / 8, dir = (op / 4) % 2, kind = (op / 2) % 2, len = op % 2 ? 3 : 1, off = op % 2;
      Fifo& q = f[port][dir];
      char what[40]; snprintf(what, 40, "port%d %s", id[port], dir ? "compo->obc" : "obc->compo");
      if (!open[port]) {
        u8 b[8] = {9, 9, 9, 9, 9, 9, 9, 9};
        int r = kind == 0 ? (dir == 0 ? obc.SendFromObc(id[port], b, 0, len) : obc.SendFromCompo(id[port], b, 0, len))
                          : (dir == 0 ? obc.ReceivedByCompo(id[port], b, 0, len) : obc.ReceivedByObc(id[port], b, 0, len));
        p.Note("%s on closed port", what);
        p.Check(r < 0, "closed-port-error", "operation on a closed port returned %d", r);
        for (u8 x : b) p.Check(x == 9, "closed-port-wrote", "closed port changed the buffer");
        p.Outcome("closed port rejected");
      } else if (kind == 0) {
        if ((int)q.Room() < len) throw Skip();
        if (dir == 0) DoWrite(p, q, tx(port), off, len, what); else DoWrite(p, q, ctx(port), off, len, what);
      } else {
        if (dir == 0) DoRead(p, q, crx(port), off, len, what); else DoRead(p, q, rx(port), off, len, what);
      }
    } else if (op < 18) {  // close
      int i = op - 16; int r = obc.CloseComPort(id[i]); p.Note("close %d", id[i]);
      p.Check((r == 0) == open[i], "close-result", "close returned %d while open=%d", r, open[i]);
      open[i] = false; f[i][0].q.clear(); f[i][1].q.clear();
    } else if (op < 20) {  // connect
      int i = op - 18; int r = obc.ConnectComPort(id[i], caps[i][0], caps[i][1]); p.Note("connect %d", id[i]);
      p.Check((r == 0) == !open[i], "connect-result", "connect returned %d while open=%d", r, open[i]);
      open[i] = true;
    } else {  // never connected port
      u8 b[4] = {5, 5, 5, 5};
      int r1 = op == 20 ? obc.SendFromObc(id[2], b, 0, 2) : obc.ReceivedByObc(id[2], b, 0, 2);
      int r2 = op == 20 ? obc.SendFromCompo(id[2], b, 0, 2) : obc.ReceivedByCompo(id[2], b, 0, 2);
      p.Note("unconnected %d", op - 20);
      p.Check(r1 < 0 && r2 < 0 && b[0] == 5 && b[1] == 5, "unconnected-port", "unconnected port returned %d/%d", r1, r2);
    }
    p.Obs({(double)f[0][0].q.size(), (double)f[0][1].q.size(), (double)f[1][0].q.size(), (double)f[1][1].q.size(), (double)open[0], (double)open[1],
           (double)(f[0][0].next % 4), (double)(f[0][1].next % 6), (double)(f[1][0].next % 7), (double)(f[1][1].next % 3)});
  }
  for (int i = 0; i < 2; i++) if (open[i]) { Drain(p, f[i][0], crx(i), "drain"); Drain(p, f[i][1], rx(i), "drain"); obc.CloseComPort(id[i]); }
}

void Register() {
  Scenario("ring-histories", "capacity {2,3,5,8} x all histories of 3 write lengths / 4 read lengths, depth 6/8", [](Path& p) {
    int cap = p.PickI({2, 3, 5, 8});
    utilities::RingBuffer rb(cap); Fifo f(cap, 0);
    for (int s = 0, n = Q(6, 8); s < n; s++) RingSteps(p, rb, f, p.Choose(7));
    Drain(p, f, [&](u8* b, int o, int l) { return rb.Read(b, o, l); }, "ring");
  });
  Scenario("ring-cycles", "capacity 2..9 x all op patterns of length 4/5 repeated 24 times (buffer wraps many times)", [](Path& p) {
    int cap = 2 + p.Choose(8);
    utilities::RingBuffer rb(cap); Fifo f(cap, 0);
    int n = Q(4, 5), pat[5]; for (int i = 0; i < n; i++) pat[i] = p.Choose(7);
    for (int rep = 0; rep < 24; rep++) for (int i = 0; i < n; i++) {
      int len[3] = {1, 2, cap - 1};
      if (pat[i] < 3 && (int)f.Room() < len[pat[i]]) { Drain(p, f, [&](u8* b, int o, int l) { return rb.Read(b, o, l); }, "ring"); continue; }
      RingSteps(p, rb, f, pat[i]);
    }
    Drain(p, f, [&](u8* b, int o, int l) { return rb.Read(b, o, l); }, "ring");
  });
  Scenario("uart-directions", "UartPort with sizes {(3,5),(5,3),(default)} x all histories of both directions, depth 6/7", [](Path& p) {
    int c = p.Choose(3); int sz[3][2] = {{3, 5}, {5, 3}, {0, 0}};
    components::UartPort u(sz[c][0], sz[c][1]);
    Fifo rx(c == 2 ? 1024 : sz[c][0], 0), tx(c == 2 ? 1024 : sz[c][1], 100);
    int big = c == 2 ? 700 : 2;
    auto wt = [&](u8* b, int o, int l) { return u.WriteTx(b, o, l); }; auto rt = [&](u8* b, int o, int l) { return u.ReadTx(b, o, l); };
    auto wr = [&](u8* b, int o, int l) { return u.WriteRx(b, o, l); }; auto rr = [&](u8* b, int o, int l) { return u.ReadRx(b, o, l); };
    for (int s = 0, n = c == 2 ? 5 : Q(6, 7); s < n; s++) {
      int op = p.Choose(8), len = op % 2 ? big : 1;
      Fifo& f = op < 4 ? tx : rx;
      if ((op / 2) % 2 == 0) { if ((int)f.Room() < len) throw Skip(); if (op < 4) DoWrite(p, f, wt, 0, len, "tx"); else DoWrite(p, f, wr, 0, len, "rx"); }
      else { if (op < 4) DoRead(p, f, rt, 0, len, "tx"); else DoRead(p, f, rr, 0, len, "rx"); }
      p.Obs({(double)c, (double)tx.q.size(), (double)rx.q.size(), (double)(tx.next % tx.cap), (double)(rx.next % rx.cap)});
    }
    Drain(p, tx, rt, "tx"); Drain(p, rx, rr, "rx");
  });
  Scenario("obc-ports", "OnBoardComputer: 2 ports x 2 directions x read/write x lengths, close/connect, unconnected id; depth 4/5", [](Path& p) {
    environment::ClockGenerator clk; components::OnBoardComputer obc(&clk);
    OneObc(p, obc, Q(4, 5));
  });
  Scenario("obc-c2a-ports", "ObcWithC2a: same operation alphabet; depth 4/5", [](Path& p) {
    environment::ClockGenerator clk;
    static const int ids[2] = {2, 5};
    components::ObcWithC2a obc(&clk);
    for (int i : ids) obc.CloseComPort(i);  // ports are process-wide there: start from a closed state
    OneObc(p, obc, Q(4, 5));
  });
  RequireOutcome("ring-histories", "full read");
  RequireOutcome("obc-ports", "closed port rejected");
}
