// Simulation clock: per-subsystem periods, finish, calendar.
#include <SpiceUsr.h>
#include <environment/global/simulation_time.hpp>
#include <memory>

#include "env.hpp"
using namespace mc; using namespace env;
using s2e::environment::SimulationTime;
const char* kProperty = "S01";
const char* kAssumptions = "Periods are integer multiples of the step (the documented use); dates 1950-2099; ephemeris time zero from the SPICE stand-in. A Julian date in a double resolves 0.04 ms.";
static long DaysFromCivil(int y, int m, int d) { y -= m <= 2; long era = (y >= 0 ? y : y - 399) / 400; unsigned yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + (long)doe - 719468; }
static void CivilFromDays(long z, int& y, int& m, int& d) { z += 719468; long era = (z >= 0 ? z : z - 146096) / 146097; unsigned doe = z - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; y = yoe + era * 400; unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153; d = doy - (153 * mp + 2) / 5 + 1; m = mp < 10 ? mp + 3 : mp - 9; y += m <= 2; }
struct Date { int y, mo, d, h, mi; double s; };
static std::string Str(const Date& t) { char b[64]; snprintf(b, 64, "%d/%d/%d %d:%d:%.3f", t.y, t.mo, t.d, t.h, t.mi, t.s); return b; }
static void CheckDate(Path& p, SimulationTime& t, const Date& st, double elapsed) {
  long d0 = DaysFromCivil(st.y, st.mo, st.d);
  long double sec = st.h * 3600.0L + st.mi * 60.0L + st.s + elapsed;
  double jd = 2440587.5 + d0 + (double)(sec / 86400.0L);
  p.Near(t.GetCurrentTime_jd(), jd, 2e-9, "julian-date", "JD");
  auto u = t.GetCurrentUtc();
  p.Check(u.month >= 1 && u.month <= 12 && u.day >= 1 && u.day <= 31 && u.hour < 24 && u.minute < 60 && u.second >= 0.0 && u.second < 60.0, "utc-range", "UTC %u/%u/%u %u:%u:%.9f is not a date", u.year, u.month, u.day, u.hour, u.minute, u.second);
  { int y, m, dd; CivilFromDays(DaysFromCivil(u.year, u.month, u.day), y, m, dd); p.Check(y == (int)u.year && m == (int)u.month && dd == (int)u.day, "utc-range", "UTC day %u/%u/%u does not exist", u.year, u.month, u.day); }
  long double got = DaysFromCivil(u.year, u.month, u.day) * 86400.0L + u.hour * 3600.0L + u.minute * 60.0L + u.second, want = d0 * 86400.0L + sec;
  p.Near((double)(got - want), 0, 2e-4, "utc-date", "UTC minus start plus elapsed [s]");
  int y, m, d; long day = d0 + (long)floorl(sec / 86400.0L); CivilFromDays(day, y, m, d);
  double frac = (day - DaysFromCivil(y, 1, 1) + (double)(sec - floorl(sec / 86400.0L) * 86400.0L) / 86400.0) / (DaysFromCivil(y + 1, 1, 1) - DaysFromCivil(y, 1, 1));
  p.Near(t.GetCurrentDecimalYear(), y + frac, 1e-9, "decimal-year", "decimal year");
  // the log shows the same instant
  std::string v = t.GetLogValue(); double e; int Y, M, D, H, N; double S;
  p.Check(sscanf(v.c_str(), "%lf,%d/%d/%d %d:%d:%lf,", &e, &Y, &M, &D, &H, &N, &S) == 7, "log-format", "log value '%s'", v.c_str());
  p.Check(Y == (int)u.year && M == (int)u.month && D == (int)u.day && H == (int)u.hour && N == (int)u.minute && S >= 0 && std::fabs(S - u.second) < 1.001e-3, "log-date", "logged '%s' for second %.9f", v.c_str(), u.second);
  p.Near(e, elapsed, 1e-5 * elapsed + 1e-9, "log-elapsed", "logged elapsed time");
}
static SimulationTime* Make(double end, double step, double a, double o, double t, double c, double l, const std::string& start) {
  return new SimulationTime(end, step, a, step, o, step, t, step, c, l, start.c_str(), 0);
}
struct Flags { bool a, o, t, c, l, f; };
static void CheckFlags(Path& p, SimulationTime& t, int k, const int* n, double step, double end) {
  bool got[5] = {t.GetAttitudePropagateFlag(), t.GetOrbitPropagateFlag(), t.GetThermalPropagateFlag(), t.GetCompoUpdateFlag(), t.GetState().log_output};
  static const char* nm[5] = {"attitude", "orbit", "thermal", "component", "log"};
  for (int i = 0; i < 5; i++) {
    bool want = i == 4 ? k % n[i] == 0 : (k + 1) % n[i] == 0;
    if (n[i] == 1) want = true;
    p.Check(got[i] == want, nm[i], "%s flag at update %d (step %g, period %d steps) is %d", nm[i], k, step, n[i], got[i]);
  }
  p.Near(t.GetElapsedTime_s(), k * step, 1e-9 * k * step, "elapsed", "elapsed time");
  p.Check(t.GetState().finish == (t.GetElapsedTime_s() > end), "finish", "finish=%d at elapsed %.12g of %.12g", t.GetState().finish, t.GetElapsedTime_s(), end);
  p.Check(t.GetState().running, "running", "not running");
}
void Register() {
  Scenario("independent-periods", "step {0.1,0.5,1} x all 5-tuples of multipliers {1,2,3,5} (thorough adds 4,7) x 40 updates", [](Path& p) {
    double step = p.Pick({0.1, 0.5, 1}); int n[5];
    for (int& x : n) x = Thorough() ? p.PickI({1, 2, 3, 5, 4, 7}) : p.PickI({1, 2, 3, 5});
    double end = 30.5 * step;
    std::unique_ptr<SimulationTime> t(Make(end, step, n[0] * step, n[1] * step, n[2] * step, n[3] * step, n[4] * step, "2020/1/1 0:0:0.0"));
    p.Note("step %g periods %d %d %d %d %d", step, n[0], n[1], n[2], n[3], n[4]);
    p.Check(t->GetState().log_output && !t->GetAttitudePropagateFlag() && !t->GetState().finish, "initial", "flags at time zero");
    for (int k = 1; k <= 40; k++) { t->UpdateTime(); CheckFlags(p, *t, k, n, step, end); p.Near(t->GetCurrentEphemerisTime() - t->GetElapsedTime_s(), (2458849.5 - 2451545.0) * 86400 + 69.184, 1e-3, "ephemeris-time", "ET origin"); p.Obs({step, (double)n[0], (double)n[1], (double)n[2], (double)n[3], (double)n[4], (double)k}); }
  }, {4});
  Scenario("long-periods", "one of the five subsystems with a period of 17 values from 50 to 70000 steps (around the powers of two), the others of 1, 2, 3, 7 steps: three periods and more", [](Path& p) {
    int which = p.Choose(5); static const int L[17] = {50, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 1000, 4096, 10000, 32769, 65537, 70000}; int big = L[p.Choose(17)]; double step = p.Pick({0.1, 1.0});
    static const int small[5] = {1, 2, 3, 7, 5}; int n[5]; for (int i = 0; i < 5; i++) n[i] = i == which ? big : small[i];
    double end = (3.0 * big + 3.5) * step; std::unique_ptr<SimulationTime> t(Make(end, step, n[0] * step, n[1] * step, n[2] * step, n[3] * step, n[4] * step, "2020/1/1 0:0:0.0"));
    for (int k = 1; k <= 3 * big + 4; k++) { t->UpdateTime(); CheckFlags(p, *t, k, n, step, end); }
    p.Obs({(double)which, (double)big, step});
  }, {2});
  Scenario("long-run", "steps of 1, 37, 1000, 3600 and 86400 s over 25000 updates (up to 68 years): flags of periods 1, 2, 3, 7 and 10 steps and every 97th date", [](Path& p) {
    double step = p.Pick({1.0, 37.0, 1000.0, 3600.0, 86400.0}); static const int n[5] = {1, 2, 3, 7, 10}; double end = 24999.5 * step; static const Date D[2] = {{1999, 12, 31, 23, 59, 59.0}, {2024, 2, 28, 12, 0, 0.5}}; const Date& d = D[p.Choose(2)];
    std::unique_ptr<SimulationTime> t(Make(end, step, n[0] * step, n[1] * step, n[2] * step, n[3] * step, n[4] * step, Str(d)));
    for (int k = 1; k <= 25000; k++) { t->UpdateTime(); CheckFlags(p, *t, k, n, step, end); if (k % 97 == 0 || k == 25000) CheckDate(p, *t, d, k * step); }
    p.Obs({step, d.s});
  }, {2});
  Scenario("decimal-periods", "step in 13 decimal values x period = 1..60 steps written in decimal x 4 periods", [](Path& p) {
    static const char* steps[] = {"0.001", "0.002", "0.005", "0.01", "0.02", "0.03", "0.05", "0.1", "0.2", "0.25", "0.3", "0.7", "10"};
    const char* ss = steps[p.Choose(13)]; int m = 1 + p.Choose(60); double step = atof(ss);
    char b[32]; snprintf(b, 32, "%.3f", m * step); double per = atof(b);  // as written in a settings file
    int n[5] = {m, m, m, m, m}; double end = 3 * m * step;
    std::unique_ptr<SimulationTime> t(Make(end, step, per, per, per, per, per, "2020/1/1 0:0:0.0"));
    p.Note("step %s period %s", ss, b);
    for (int k = 1; k <= 4 * m + 2; k++) { t->UpdateTime(); CheckFlags(p, *t, k, n, step, end); }
    p.Obs({step, (double)m});
  });
  Scenario("calendar", "start dates around every month/year/leap boundary x 6 times of day x 6 steps x 6 updates", [](Path& p) {
    static const std::vector<int> years = {1999, 2000, 2004, 2019, 2020, 2023, 2024, 2050, 2096, 2099};
    int y = p.Pick(years), mo = 1 + p.Choose(12), last = (int)(DaysFromCivil(mo == 12 ? y + 1 : y, mo % 12 + 1, 1) - DaysFromCivil(y, mo, 1));
    int di = p.Choose(3); int d = di == 0 ? 1 : di == 1 ? last : last - 1;
    static const Date tod[6] = {{0, 0, 0, 0, 0, 0}, {0, 0, 0, 23, 59, 58.5}, {0, 0, 0, 11, 59, 59}, {0, 0, 0, 12, 0, 0}, {0, 0, 0, 23, 59, 59.9}, {0, 0, 0, 7, 8, 9.25}};
    Date s = tod[p.Choose(6)]; s.y = y; s.mo = mo; s.d = d;
    double step = p.Pick({0.1, 0.5, 1, 60, 3600, 86400});
    std::unique_ptr<SimulationTime> t(Make(1e7, step, step, step, step, step, step, Str(s)));
    p.Note("start %s step %g", Str(s).c_str(), step);
    p.Check(t->GetStartYear() == s.y && t->GetStartMonth() == s.mo && t->GetStartDay() == s.d && t->GetStartHour() == s.h && t->GetStartMinute() == s.mi, "start-fields", "start date not parsed");
    p.Near(t->GetStartSecond(), s.s, 1e-9, "start-fields", "start second");
    CheckDate(p, *t, s, 0);
    double gst0 = t->GetCurrentSiderealTime();
    for (int k = 1; k <= 6; k++) {
      t->UpdateTime(); CheckDate(p, *t, s, k * step);
      double want = gst0 + 7.2921158553e-5 * k * step, diff = std::remainder(t->GetCurrentSiderealTime() - want, 2 * M_PI);
      p.Near(diff, 0, 1e-7, "sidereal-rate", "sidereal angle advance");
      p.Check(t->GetCurrentSiderealTime() >= 0 && t->GetCurrentSiderealTime() < 2 * M_PI + 1e-12, "sidereal-range", "sidereal angle %g", t->GetCurrentSiderealTime());
      p.Obs({(double)y, (double)mo, (double)d, (double)s.h, (double)s.s, step, (double)k});
    }
  }, {3});
  Scenario("restart", "SetParameters after every number of updates 0..12 behaves as a fresh clock, periods {1,2,3}^3", [](Path& p) {
    int n[5] = {p.PickI({1, 2, 3}), p.PickI({1, 2, 3}), p.PickI({1, 2, 3}), 2, p.PickI({1, 2, 3})}; int pre = p.Choose(13);
    std::unique_ptr<SimulationTime> t(Make(10, 1, n[0], n[1], n[2], n[3], n[4], "2020/1/1 0:0:0.0"));
    for (int k = 0; k < pre; k++) t->UpdateTime();
    t->SetParameters(); p.Check(t->GetState().log_output, "restart-log", "no log at restart"); p.Near(t->GetElapsedTime_s(), 0, 0, "restart", "elapsed");
    for (int k = 1; k <= 15; k++) { t->UpdateTime(); CheckFlags(p, *t, k, n, 1, 10); p.Obs({(double)n[0], (double)n[1], (double)n[2], (double)n[4], (double)k}); }
  });
  Scenario("subsystems", "a spacecraft with attitude (direct or through the flexible model), orbit (RK4, Kepler, Encke) and thermal periods of {1,2,3}x{1,2,3}x{1,2,3} steps x step {0.5,1} s, 14 updates: each subsystem's state moves at its own updates only, to the elapsed time; quantities derived from two of them follow both", [](Path& p) {
    int n[3]; for (int i = 0; i < 3; i++) n[i] = 1 + p.Choose(3); int om = p.Choose(3); bool flex = p.Flag(); double st = p.Pick({1, .5}); auto num = [](double x) { char b[40]; snprintf(b, 40, "%g", x); return std::string(b); }; Settings s; s.base.Set("TIME", "simulation_step_s", st).Set("TIME", "attitude_update_period_s", n[0] * st).Set("TIME", "orbit_update_period_s", n[1] * st).Set("TIME", "thermal_update_period_s", n[2] * st).Set("TIME", "attitude_integral_step_s", st).Set("TIME", "orbit_integral_step_s", st).Set("TIME", "thermal_integral_step_s", st).Set("TIME", "component_update_period_s", st).Set("TIME", "log_output_period_s", st);
    std::string dir = Scratch() + "/"; WriteFile("node.csv", "id,label,type,heater,capacity,alpha,epsilon,area,x,y,z,t0\n0,A,0,0,100,0,0,0.1,1,0,0,300\n1,B,1,0,0,0,0,0,0,0,0,250\n"); WriteFile("cij.csv", "c,A,B\nA,0,0.5\nB,0.5,0\n"); WriteFile("rij.csv", "r,A,B\nA,0,0\nB,0,0\n"); WriteFile("heatload.csv", "id,0,1000\n0,0,0\n1,0,0\n"); WriteFile("heaters.csv", "id,p,l,u\n");
    const double rate = .02; static const char* M[3] = {"RK4", "KEPLER", "ENCKE"}; s.sat.Set("THERMAL", "calculation", "ENABLE").Set("THERMAL", "thermal_file_directory", dir).Set("ORBIT", "calculation", "ENABLE").Set("ORBIT", "initialize_mode", "POSITION_VELOCITY_I").Set("ORBIT", "propagate_mode", M[om]).SetV("ORBIT", "initial_position_i_m", {7e6, 0, 0}).SetV("ORBIT", "initial_velocity_i_m_s", {0, 7546.0533, 0}).Set("ORBIT", "error_tolerance", .0001).SetV("ORBIT", "init_position", {7e6, 0, 0, 0, 7546.0533, 0}).Set("ATTITUDE", "propagate_mode", flex ? "CANTILEVER_VIBRATION" : "RK4").Set("ATTITUDE", "initialize_mode", "MANUAL").SetV("ATTITUDE", "initial_quaternion_i2b", {0, 0, 0, 1}).SetV("ATTITUDE", "initial_angular_velocity_b_rad_s", {0, 0, rate}); (void)num; for (int i = 0; i < 9; i++) { s.structure.Set("CANTILEVER_PARAMETERS", "inertia_tensor_cantilever_kgm2(" + std::to_string(i) + ")", 0.0); s.structure.Set("KINEMATIC_PARAMETERS", "inertia_tensor_kgm2(" + std::to_string(i) + ")", i % 4 == 0 ? .1 + .01 * i : 0.0); } s.structure.Set("CANTILEVER_PARAMETERS", "damping_ratio_cantilever", 0.02).Set("CANTILEVER_PARAMETERS", "intrinsic_angular_velocity_cantilever_rad_s", 0.6);
    World w(s); w.dynamics->SetAttitude().SetAngularVelocity_b_rad_s(MakeV(0, 0, rate)); w.dynamics->SetAttitude().SetQuaternion_i2b(Quat(0, 0, 0, 1)); V3 r0 = w.dynamics->GetOrbit().GetPosition_i_m(), v0 = w.dynamics->GetOrbit().GetVelocity_i_m_s(); const double wn = Norm(v0) / Norm(r0); double ta = 0, to = 0, tt = 0; auto temp = [&]() { return const_cast<s2e::dynamics::thermal::Temperature&>(w.dynamics->GetTemperature()).GetNodes()[0].GetTemperature_K(); }; double T0 = temp();
    for (int k = 1; k <= 14; k++) {
      w.Tick(); const auto& t = w.time(); double el = k * st; p.Note("update %d", k); if (n[0] == 1 || (k + 1) % n[0] == 0) ta = el; if (n[1] == 1 || (k + 1) % n[1] == 0) to = el; if (n[2] == 1 || (k + 1) % n[2] == 0) tt = el; (void)t;
      Rot R = RotOf(w.dynamics->GetAttitude().GetQuaternion_i2b()); p.Near(std::atan2(R.m[0][1], R.m[0][0]), rate * ta, 1e-6, "attitude-period", "angle turned"); V3 r = w.dynamics->GetOrbit().GetPosition_i_m(), v = w.dynamics->GetOrbit().GetVelocity_i_m_s(); V3 x = Add(Scale(cos(wn * to), r0), Scale(sin(wn * to) / wn, v0)); p.NearV(r, x, 3, om == 2 ? 5 : 2, "orbit-period"); double T = temp(); p.Near(T, 250 + (T0 - 250) * exp(-.5 / 100 * tt), 1e-6, "thermal-period", "temperature");
      p.NearV(w.dynamics->GetOrbit().GetVelocity_b_m_s(), Mul(R, v), 3, 1e-6, "velocity-in-body-frame"); p.Obs({ta, to, tt, (double)k, (double)om}); if (ta != el && to != el) continue; const auto& c = w.local->GetCelestialInformation(); V3 si = Sub(c.GetGlobalInformation().GetPositionFromCenter_i_m("SUN"), r); p.NearV(c.GetPositionFromSpacecraft_i_m("SUN"), si, 3, 100, "bodies-follow"); p.NearV(c.GetPositionFromSpacecraft_b_m("SUN"), Mul(R, si), 3, 1e4, "bodies-follow"); V3 sc = c.GetPositionFromSpacecraft_i_m("EARTH"); p.NearV(sc, Scale(-1, r), 3, 1e-3, "bodies-follow"); p.NearV(c.GetPositionFromSpacecraft_b_m("EARTH"), Mul(R, Scale(-1, r)), 3, 1, "bodies-follow");
    }
  }, {2});
  Scenario("settings", "settings file: every permutation of distinct values over the 10 time keys (rotations and swaps)", [](Path& p) {
    static const char* keys[] = {"simulation_duration_s", "attitude_update_period_s", "attitude_integral_step_s", "orbit_update_period_s", "orbit_integral_step_s", "thermal_update_period_s", "thermal_integral_step_s", "component_update_period_s", "log_output_period_s"};
    int rot = p.Choose(3), shift = p.Choose(4); double v[9], base[9] = {200, 2, 0.5, 3, 0.25, 5, 0.2, 0.5, 7};
    for (int i = 0; i < 9; i++) v[i] = base[i] * (1 + rot) * (1 << shift);
    std::string f = "[TIME]\nsimulation_start_time_utc = 2021/03/04 05:06:07.5\nsimulation_step_s = 0.125\nsimulation_speed_setting = 0\n";
    for (int i = 0; i < 9; i++) { char b[80]; snprintf(b, 80, "%s = %.6g\n", keys[(i * 2 + rot) % 9], v[(i * 2 + rot) % 9]); f += b; }
    std::unique_ptr<SimulationTime> t(s2e::environment::InitSimulationTime(WriteFile("time.ini", f)));
    double got[9] = {t->GetEndTime_s(), t->GetAttitudeUpdateInterval_s(), t->GetAttitudeRkStepTime_s(), t->GetOrbitUpdateInterval_s(), t->GetOrbitRkStepTime_s(), t->GetThermalUpdateInterval_s(), t->GetThermalRkStepTime_s(), t->GetComponentStepTime_s(), 0};
    for (int i = 0; i < 8; i++) p.Near(got[i], v[i], 1e-9, "settings", keys[i]);
    p.Near(t->GetSimulationStep_s(), 0.125, 0, "settings", "step"); p.Eq(t->GetComponentPropagateFrequency_Hz(), (int)(1.0 / v[7]), "settings", "component frequency");
    int logs = 0, n = (int)std::lround(v[8] / 0.125); for (int k = 1; k <= 2 * n; k++) { t->UpdateTime(); logs += t->GetState().log_output; } p.Eq(logs, 2, "settings", "log period");
    Date s{2021, 3, 4, 5, 6, 7.5}; CheckDate(p, *t, s, 2 * n * 0.125); p.Obs({(double)rot, (double)shift});
  });
}
