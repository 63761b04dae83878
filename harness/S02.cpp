// Pacing of the simulation by the wall clock, explored under a controlled clock: every read of the time and every sleep of
// the library goes to a virtual clock, and the computing time between two updates is an enumerated choice.
#include <SpiceUsr.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <cerrno>
#include <chrono>
#include <environment/global/simulation_time.hpp>
#include <iostream>
#include <memory>
#include <sstream>

#include "env.hpp"
using namespace mc; using namespace env;
using s2e::environment::SimulationTime;
const char* kProperty = "S02";
const char* kAssumptions = "The wall clock does not jump and sleeping is not cut short by signals; sleeping takes exactly the time asked for; a stop is shorter than 24 days (the library counts lateness in milliseconds in an int); the clock is reset before the first update, as SimulationCase::Main does; the library resolves the wall clock to one millisecond.";

// Virtual clock [ns]
static bool g_virtual = false; static long long g_now = 0, g_slept = 0; static long g_reads = 0, g_sleeps = 0;
static const long long kBase = 1600000000LL * 1000000000LL;
static void Advance(long long ns) { if (ns > 0) { g_now += ns; g_slept += ns; } g_sleeps++; }
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) noexcept {
  if (!g_virtual) return (int)syscall(SYS_clock_gettime, id, ts);
  g_reads++; long long t = kBase + g_now; ts->tv_sec = t / 1000000000LL; ts->tv_nsec = t % 1000000000LL; return 0;
}
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept {
  struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0;
}
static long long Ns(const struct timespec* r) { return r->tv_sec * 1000000000LL + r->tv_nsec; }
static bool Bad(const struct timespec* r) { return r->tv_sec < 0 || r->tv_nsec < 0 || r->tv_nsec > 999999999; }
extern "C" int nanosleep(const struct timespec* r, struct timespec* m) {
  if (!g_virtual) return (int)syscall(SYS_nanosleep, r, m);
  if (Bad(r)) { errno = EINVAL; return -1; }
  Advance(Ns(r)); return 0;
}
extern "C" int clock_nanosleep(clockid_t id, int flags, const struct timespec* r, struct timespec* m) {
  if (!g_virtual) return syscall(SYS_clock_nanosleep, id, flags, r, m) == 0 ? 0 : errno;
  if (Bad(r)) return EINVAL;
  Advance(flags & TIMER_ABSTIME ? Ns(r) - kBase - g_now : Ns(r)); return 0;
}
extern "C" int usleep(useconds_t us) { struct timespec r = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000}; return nanosleep(&r, nullptr); }
struct VirtualTime {
  std::streambuf* old; std::ostringstream out;
  VirtualTime() { old = std::cout.rdbuf(out.rdbuf()); g_virtual = true; g_slept = 0; g_now = -3000000000LL; /* set-up time before the reset */ g_reads = g_sleeps = 0; }
  ~VirtualTime() { g_virtual = false; std::cout.rdbuf(old); }
};
static void Reset(SimulationTime& t) { g_now = 0; t.ResetClock(); }
static SimulationTime* Make(double end, double step, int na, double speed) { return new SimulationTime(end, step, na * step, step, 2 * step, step, 3 * step, step, step, 2 * step, "2020/1/1 0:0:0.0", speed); }
static bool SameFlags(const SimulationTime& a, const SimulationTime& b) {
  return a.GetAttitudePropagateFlag() == b.GetAttitudePropagateFlag() && a.GetOrbitPropagateFlag() == b.GetOrbitPropagateFlag() && a.GetThermalPropagateFlag() == b.GetThermalPropagateFlag() && a.GetCompoUpdateFlag() == b.GetCompoUpdateFlag() && a.GetState().log_output == b.GetState().log_output && a.GetState().running == b.GetState().running;
}
// One paced update against the reference
struct Ref { double sim = 0, step, speed, end; long long in_time_ns = 0; bool ambiguous = false; };
static void Update(Path& p, SimulationTime& t, SimulationTime& twin, Ref& r, bool& jumped) {
  long long before = g_now; double ms = 1e6;
  t.UpdateTime(); bool was = g_virtual; g_virtual = false; twin.UpdateTime(); g_virtual = was;
  double elapsed = r.sim + r.step, due_ns = elapsed / r.speed * 1e9, res_ns = 2 * ms + 1e-11 * due_ns;  // wall instant at which the update is due
  bool late = before >= due_ns - ms - 1e-11 * due_ns, surely = before >= due_ns + ms;
  long long behind_ms = (before - r.in_time_ns) / 1000000;
  bool may = late && behind_ms >= 999, must = surely && behind_ms > 1002;
  double got = t.GetElapsedTime_s(); bool moved = jumped ? std::fabs(got - elapsed) > 1e-9 * elapsed : got != twin.GetElapsedTime_s();
  if (moved) {
    p.Check(may, "jump-without-need", "elapsed time jumped from %.9g to %.9g although the computer kept up (wall %.3f ms, due %.3f ms, last in time at %.3f ms)", elapsed, got, before / ms, due_ns / ms, r.in_time_ns / ms);
    p.Near(got, before / 1e9 * r.speed, 2e-3 * r.speed + 1e-9, "jump-to", "elapsed time after catching up with real time");
    p.Check(got >= r.sim - 2e-3 * r.speed, "jump-back", "elapsed time went back"); p.Check(g_now == before, "jump-sleeps", "slept while late"); r.in_time_ns = g_now; jumped = true; p.Outcome("caught up");
  } else if (surely) {
    bool at_target = std::fabs(before / 1e9 * r.speed - elapsed) <= 2e-3 * r.speed;
    p.Check(!must || at_target, "no-jump", "late for %lld ms without catching up with real time", behind_ms);
    p.Check(g_now == before, "late-waits", "late, and still waited %.3f ms", (g_now - before) / ms);
    if (may && at_target) r.ambiguous = true;
    p.Outcome("late");
  } else {
    p.Check(g_now >= due_ns - res_ns, "ahead-of-real-time", "update at %.9g s of simulation ended %.3f ms after the start, due at %.3f ms (speed %g)", elapsed, g_now / ms, due_ns / ms, r.speed);
    p.Check(g_now <= std::max((double)before, due_ns + res_ns), "waits-too-long", "update at %.9g s of simulation ended %.3f ms after the start, due at %.3f ms (speed %g)", elapsed, g_now / ms, due_ns / ms, r.speed);
    if (late) r.ambiguous = true; else r.in_time_ns = g_now; p.Outcome("in time");
  }
  r.sim = got;
  p.Check(SameFlags(t, twin), "flags", "pacing changed the update flags");
  if (!jumped) {
    p.Check(t.GetElapsedTime_s() == twin.GetElapsedTime_s() && t.GetCurrentTime_jd() == twin.GetCurrentTime_jd() && t.GetCurrentDecimalYear() == twin.GetCurrentDecimalYear() && t.GetCurrentSiderealTime() == twin.GetCurrentSiderealTime() && t.GetLogValue() == twin.GetLogValue(), "values", "pacing changed a simulated value");
    p.Check(t.GetState().finish == twin.GetState().finish, "finish", "pacing changed the end of the simulation");
  } else {
    p.Check(t.GetState().finish == (got > r.end), "finish", "finish=%d at %.9g of %.9g", t.GetState().finish, got, r.end);
    p.Near((t.GetCurrentTime_jd() - 2458849.5) * 86400, got, 1e-4, "jump-date", "Julian date after catching up");
  }
}
void Register() {
  for (const char* o : {"in time", "late", "caught up"}) RequireOutcome("histories", o);
  Scenario("histories", "8 speeds from 1/2 to 100 x 4 steps x all histories of 4/6 updates with the computing time before each of 8 values (nothing, 0.4 ms, half, all, 1.5 and 3 times the wall time of a step, 0.6 s, 1.3 s): every instant at which an update returns", [](Path& p) {
    double speed = p.Pick({1, 2, 0.5, 10, 0.25, 3, 20, 100}), step = p.Pick({0.1, 1, 0.05, 2.5}); VirtualTime v;
    std::unique_ptr<SimulationTime> t(Make(1e6, step, 3, speed)), w(Make(1e6, step, 3, 0)); Reset(*t); Ref r; r.step = step; r.speed = speed; r.end = 1e6; bool jumped = false;
    for (int k = 0, n = Q(4, 6); k < n && !r.ambiguous; k++) {
      double wall = step / speed; int c = p.Choose(8); const double cost[8] = {0, 0.0004, wall / 2, wall, 1.5 * wall, 3 * wall, 0.6, 1.3}; g_now += (long long)(cost[c] * 1e9);
      p.Note("compute %.4g s", cost[c]); Update(p, *t, *w, r, jumped); p.Obs({speed, step, (double)k, t->GetElapsedTime_s(), (double)g_now});
    }
  }, {4});
  Scenario("steady", "8 speeds x 4 steps x constant computing time of {0, 10, 90, 99} percent of the wall time of a step or 1 ms, 400 updates: the pace is kept to a millisecond, without drift and without a jump, until the end of the simulation", [](Path& p) {
    double speed = p.Pick({1, 2, 0.5, 10, 0.25, 3, 20, 100}), step = p.Pick({0.1, 1, 0.05, 2.5}), share = p.Pick({0, 0.1, 0.9, 0.99, -1}), wall = step / speed, cost = share < 0 ? 0.001 : share * wall; if (cost > 0.9999 * wall || (wall < 0.003 && share > 0.1)) throw Skip();
    VirtualTime v; double end = 399.5 * step; std::unique_ptr<SimulationTime> t(Make(end, step, 2, speed)), w(Make(end, step, 2, 0)); Reset(*t); Ref r; r.step = step; r.speed = speed; r.end = end; bool jumped = false;
    for (int k = 1; k <= 400; k++) { g_now += (long long)(cost * 1e9); r.ambiguous = false; Update(p, *t, *w, r, jumped); p.Check(!jumped, "jump-in-steady-state", "elapsed time jumped"); }
    p.Check(t->GetState().finish, "finish", "not finished"); p.Near(g_now / 1e9, 400 * wall, 3e-3 + 1e-6 * 400 * wall, "total-time", "wall time of the run"); p.Obs({speed, step, share});
  }, {3});
  Scenario("breakpoint", "speeds {1,2,10,1/2} x steps {0.1,1} x a stop of {0.5, 0.9, 1.1, 3, 60, 3600, 2e6} s before update {1,2,5} with or without computing time: afterwards the simulation is on real time again, at once or by running freely, and keeps the pace", [](Path& p) {
    double speed = p.Pick({1, 2, 10, 0.5}), step = p.Pick({0.1, 1}), stop = p.Pick({0.5, 0.9, 1.1, 3, 60, 3600, 2e6}); int at = p.PickI({1, 2, 5}); double cost = p.Flag("computing") ? 0.2 * step / speed : 0; VirtualTime v;
    std::unique_ptr<SimulationTime> t(Make(1e6, step, 2, speed)), w(Make(1e6, step, 2, 0)); Reset(*t); Ref r; r.step = step; r.speed = speed; r.end = 1e6; bool jumped = false;
    for (int k = 1; k <= 120; k++) { g_now += (long long)((cost + (k == at ? stop : 0)) * 1e9); r.ambiguous = false; Update(p, *t, *w, r, jumped); }
    p.Near(t->GetElapsedTime_s(), g_now / 1e9 * speed, step + 5e-3 * speed, "real-time-again", "elapsed time against real time times the speed"); p.Obs({speed, step, stop, (double)at, cost});
  });
  Scenario("unpaced", "speed {0, -1, -0.5} x steps {0.1, 1, 2.5} x clock reset or never x computing time {0, 0.1, 3 s}, 50 updates: never a wait, and the wall clock has no influence", [](Path& p) {
    double speed = p.Pick({0, -1, -0.5}), step = p.Pick({0.1, 1, 2.5}), cost = p.Pick({0, 0.1, 3}); bool reset = p.Flag("reset"); VirtualTime v;
    std::unique_ptr<SimulationTime> t(Make(20 * step, step, 3, speed)), w(Make(20 * step, step, 3, 0)); if (reset) Reset(*t);
    for (int k = 1; k <= 50; k++) {
      g_now += (long long)(cost * 1e9); long n = g_sleeps; t->UpdateTime(); p.Check(g_sleeps == n, "unpaced-waits", "waited"); g_virtual = false; w->UpdateTime(); g_virtual = true;
      p.Check(SameFlags(*t, *w) && t->GetLogValue() == w->GetLogValue() && t->GetState().finish == w->GetState().finish, "unpaced-values", "a value depends on the wall clock"); p.Near(t->GetElapsedTime_s(), k * step, 1e-9 * k * step, "unpaced-elapsed", "elapsed time");
    }
    p.Obs({speed, step, cost});
  });
  Scenario("settings", "speed {1, 2, 0.5, 0, -1} written in the settings file x steps {0.1, 1}: the clock made from the file keeps that pace", [](Path& p) {
    double speed = p.Pick({1, 2, 0.5, 0, -1}), step = p.Pick({0.1, 1}); char b[1200];
    snprintf(b, sizeof b, "[TIME]\nsimulation_start_time_utc = 2020/01/01 00:00:00.0\nsimulation_duration_s = 1000\nsimulation_step_s = %g\nattitude_update_period_s = %g\nattitude_integral_step_s = %g\norbit_update_period_s = %g\norbit_integral_step_s = %g\nthermal_update_period_s = %g\nthermal_integral_step_s = %g\ncomponent_update_period_s = %g\nlog_output_period_s = %g\nsimulation_speed_setting = %g\n", step, step, step, step, step, step, step, step, step, speed);
    std::unique_ptr<SimulationTime> t(s2e::environment::InitSimulationTime(WriteFile("time.ini", b))); VirtualTime v; Reset(*t);
    for (int k = 1; k <= 20; k++) { t->UpdateTime(); p.Near(t->GetElapsedTime_s(), k * step, 1e-9 * k * step, "settings-elapsed", "elapsed time"); p.Near(g_now / 1e9, speed > 0 ? k * step / speed : 0, 2.1e-3, "settings-pace", "wall time"); }
    p.Obs({speed, step});
  });
}
