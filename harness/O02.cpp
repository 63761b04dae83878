// Orbit propagation modes against analytic two-body motion, an independent integration and tabulated trajectories.
#include <dynamics/orbit/initialize_orbit.hpp>
#include <dynamics/orbit/orbit.hpp>
#include <environment/global/physical_constants.hpp>
#include "env.hpp"
#include "ref/sgp4_reference.hpp"
using namespace mc; using namespace env; using s2e::dynamics::orbit::Orbit; using s2e::dynamics::orbit::InitOrbit;
const char* kProperty = "O02";
const char* kAssumptions = "Instants given to the propagators are Julian dates in double precision (40 microseconds, 0.4 m in low orbit). The perturbation-based mode is allowed the error of its first-order treatment of the gravity gradient over one update. The satellite theory (SGP4) is examined for history independence and for position and velocity describing one motion close to the declared elements, not against reference ephemerides.";
static const double kMu = 3.986004418e14, kPi = M_PI, kJd = 2458940.75;
struct El { double a, e, i, O, w, M; };
struct PV { V3 r, v; };
static PV State(const El& o) {
  long double M = std::remainder((long double)o.M, 2 * (long double)M_PIl), lo = M - o.e - 1e-3L, hi = M + o.e + 1e-3L; for (int k = 0; k < 90; k++) { long double m = (lo + hi) / 2; (m - o.e * sinl(m) < M ? lo : hi) = m; } double E = (lo + hi) / 2;
  double n = std::sqrt(kMu / (o.a * o.a * o.a)), b = std::sqrt(1 - o.e * o.e), d = 1 - o.e * cos(E); V3 P = MakeV(cos(o.w) * cos(o.O) - sin(o.w) * cos(o.i) * sin(o.O), cos(o.w) * sin(o.O) + sin(o.w) * cos(o.i) * cos(o.O), sin(o.w) * sin(o.i)), Qv = MakeV(-sin(o.w) * cos(o.O) - cos(o.w) * cos(o.i) * sin(o.O), -sin(o.w) * sin(o.O) + cos(o.w) * cos(o.i) * cos(o.O), cos(o.w) * sin(o.i));
  return {Add(Scale(o.a * (cos(E) - o.e), P), Scale(o.a * b * sin(E), Qv)), Add(Scale(-o.a * n * sin(E) / d, P), Scale(o.a * n * b * cos(E) / d, Qv))};
}
static double Rate(const El& o) { return std::sqrt(kMu / (o.a * o.a * o.a)); }
static void Run(PV& s, double t, const V3& acc, double h = 1) { // independent integration of two-body motion with a constant acceleration
  int n = std::max(1, (int)std::ceil(t / h - 1e-9)); double d = t / n; auto f = [&](const V3& r) { double k = Norm(r); return Add(Scale(-kMu / (k * k * k), r), acc); };
  for (int i = 0; i < n; i++) { V3 r = s.r, v = s.v, a1 = f(r), v2 = Add(v, Scale(d / 2, a1)), a2 = f(Add(r, Scale(d / 2, v))), v3 = Add(v, Scale(d / 2, a2)), a3 = f(Add(r, Scale(d / 2, v2))), v4 = Add(v, Scale(d, a3)), a4 = f(Add(r, Scale(d, v3))); s.r = Add(r, Scale(d / 6, Add(Add(v, v4), Scale(2, Add(v2, v3))))); s.v = Add(v, Scale(d / 6, Add(Add(a1, a4), Scale(2, Add(a2, a3))))); }
}
static World& W() { static World* w = nullptr; if (!w) { Settings s; s.base.Set("CELESTIAL_INFORMATION", "rotation_mode(0)", "SIMPLE"); w = new World(s); w->dynamics.reset(); const_cast<s2e::environment::CelestialInformation&>(w->cel()).UpdateAllObjectsInformation(w->time()); } return *w; }
// position, velocity, earth-fixed and geodetic outputs describe one point
static void OnePoint(Path& p, const Orbit& o) {
  V3 r = o.GetPosition_i_m(), v = o.GetVelocity_i_m_s(), e = o.GetPosition_ecef_m(), ve = o.GetVelocity_ecef_m_s(); auto d = W().cel().GetEarthRotation().GetDcmJ2000ToEcef(); V3 u = Sub(v, Cross(MakeV(0, 0, s2e::environment::earth_mean_angular_velocity_rad_s), r)), x, y; for (int i = 0; i < 3; i++) { x[i] = d[i][0] * r[0] + d[i][1] * r[1] + d[i][2] * r[2]; y[i] = d[i][0] * u[0] + d[i][1] * u[1] + d[i][2] * u[2]; }
  p.NearV(e, x, 3, 1e-9 * Norm(r), "earth-fixed-position"); p.NearV(ve, y, 3, 1e-9 * Norm(v) + 1e-9 * Norm(r) * 1e-4, "earth-fixed-velocity"); double lat = o.GetLatitude_rad(), lon = o.GetLongitude_rad(), h = o.GetAltitude_m(), a = s2e::environment::earth_equatorial_radius_m, f = s2e::environment::earth_flattening, e2 = f * (2 - f), n = a / std::sqrt(1 - e2 * sin(lat) * sin(lat)); p.NearV(MakeV((n + h) * cos(lat) * cos(lon), (n + h) * cos(lat) * sin(lon), (n * (1 - e2) + h) * sin(lat)), e, 3, .01 + 1e-9 * Norm(r), "geodetic");
  V3 l = o.GetLatLonAlt(); p.Check(l[0] == lat && l[1] == lon && l[2] == h, "geodetic", "vector differs");
}
static const char* kM[3] = {"RK4", "KEPLER", "ENCKE"};
static std::unique_ptr<Orbit> Make(int mode, int init, const El& o, double step, double tol, double jd = kJd) {
  Ini f; PV s = State({o.a, o.e, o.i, o.O, o.w, o.M}); f.Set("ORBIT", "calculation", "ENABLE").Set("ORBIT", "logging", "ENABLE").Set("ORBIT", "propagate_mode", kM[mode]).Set("ORBIT", "error_tolerance", tol); bool el = init == 1 || (init == 2 && mode == 1);
  f.Set("ORBIT", "initialize_mode", init == 0 ? "POSITION_VELOCITY_I" : init == 1 ? "ORBITAL_ELEMENTS" : "DEFAULT"); if (!el) f.Set("ORBIT", "initial_position_i_m", s.r).Set("ORBIT", "initial_velocity_i_m_s", s.v); else f.SetV("ORBIT", "initial_position_i_m", {1, 2, 3});
  if (el) { char t[40]; snprintf(t, 40, "%.17g", jd - o.M / Rate(o) / 86400); f.Set("ORBIT", "semi_major_axis_m", o.a).Set("ORBIT", "eccentricity", o.e).Set("ORBIT", "inclination_rad", o.i).Set("ORBIT", "raan_rad", o.O).Set("ORBIT", "argument_of_perigee_rad", o.w).Set("ORBIT", "epoch_jday", std::string(t)); }
  return std::unique_ptr<Orbit>(InitOrbit(&W().cel(), f.Write("o02.ini"), step, jd, kMu, "ORBIT", nullptr));
}
static const El kE[6] = {{7e6, 0.001, .9, .1, 1.8, .4}, {6.9e6, 0, 1.7, 3, 0, 2}, {2.66e7, .72, 1.1, 5, 4.7, .05}, {4.2164e7, 1e-4, 1e-3, 1, 2, 3}, {8e6, .1, 2.9, 2, 3, 5.5}, {7.2e6, .02, kPi / 2, 0, 1, 4}};
static void Same(Path& p, const Orbit& o, const PV& s, double tr, double tv, const char* key) { p.NearV(o.GetPosition_i_m(), s.r, 3, tr, (std::string(key) + "-position").c_str()); p.NearV(o.GetVelocity_i_m_s(), s.v, 3, tv, (std::string(key) + "-velocity").c_str()); }
struct Row { double t; PV s; };
static std::string TimeText(double d) { char b[40]; snprintf(b, 40, "%.9f", d); return b; }
void Register() {
  Scenario("two-body", "modes RK4, KEPLER and ENCKE x 3 initialisation modes x 6 orbits x 4 integration steps x 2 rectification tolerances, without accelerations: every one of the 64 (thorough 1024) divisions of 7 (11) times 20 s into updates, each update on the analytic orbit; earth-fixed and geodetic outputs of the same point", [](Path& p) {
    int mode = p.Choose(3), init = p.Choose(3), oi = p.Choose(6); double step = p.Pick({10, 7, 40, 1}), tol = mode == 2 ? p.Pick({1e-4, 1e-9}) : 1e-4; int b = Q(6, 10); El o = kE[oi]; double n = Rate(o); if (step == 1 && mode != 0) throw Skip();
    for (int mask = 0; mask < (1 << b); mask += (mode == 0 && step == 1 ? 5 : 1)) { auto k = Make(mode, init, o, step, tol); PV s0 = State(o); double sp = std::sqrt(kMu / o.a) * (1 + o.e) / std::sqrt(1 - o.e * o.e), g = kMu / std::pow(o.a * (1 - o.e), 2); Same(p, *k, s0, sp * 1e-4 + 1e-7 * o.a, g * 1e-4 + 1e-7 * sp, "initial"); if (mask == 0) { OnePoint(p, *k); p.Check(k->GetIsCalcEnabled() && k->is_log_enabled_, "enable", "flags"); }
      for (int j = 0; j <= b; j++) if (j == b || (mask >> j & 1)) { double t = 20 * (j + 1), jd = kJd + t / 86400; k->Propagate(t, jd); if (mask % 16 == 0 && j == b) p.Note("%s init %d orbit %d step %g division %x t %g", kM[mode], init, oi, step, mask, t); PV s = State({o.a, o.e, o.i, o.O, o.w, o.M + n * t}); Same(p, *k, s, sp * 1.5e-4 + 1e-7 * o.a + std::pow(g / sp * 20, 5) * o.a, g * 1.5e-4 + 1e-7 * sp + std::pow(g / sp * 20, 5) * sp, "two-body"); if (mask < 4) OnePoint(p, *k); p.Obs({(double)mode, (double)oi, step, (double)mask, t}); } }
    p.Outcome(kM[mode]);
  }, {4});
  for (const char* m : kM) RequireOutcome("two-body", m);
  Scenario("revolutions", "modes RK4, KEPLER and ENCKE x 6 orbits over one and a half revolutions (thorough 6) with updates of 10, 30 and 60 s, calculation switched off for a while", [](Path& p) {
    int mode = p.Choose(3), oi = p.Choose(6); double dt = p.Pick({10, 30, 60}); El o = kE[oi]; double n = Rate(o), T = 2 * kPi / n * Q(3, 12) / 2; if (T / dt > 20000) dt *= 5; auto k = Make(mode, 0, o, 10, 1e-4); double sp = std::sqrt(kMu / o.a) * (1 + o.e) / std::sqrt(1 - o.e * o.e), g = kMu / std::pow(o.a * (1 - o.e), 2), h = g / sp * 10; double t = 0; int c = 0;
    while (t < T) { t += dt; k->Propagate(t, kJd + t / 86400); if (++c % 10 == 0) { p.Note("t %g", t); PV s = State({o.a, o.e, o.i, o.O, o.w, o.M + n * t}); Same(p, *k, s, sp * 2e-4 + (mode == 0 ? std::pow(h, 4) * o.a * n * t / 20 : 1e-7 * o.a * (1 + n * t)), g * 2e-4 + (mode == 0 ? std::pow(h, 4) * sp * n * t / 20 : 1e-7 * sp * (1 + n * t)), "orbit"); p.Obs({(double)mode, (double)oi, dt, t}); } }
    OnePoint(p, *k); V3 r = k->GetPosition_i_m(); k->SetIsCalcEnabled(false); k->Propagate(t + dt, kJd + (t + dt) / 86400); p.NearV(k->GetPosition_i_m(), r, 3, 0, "disabled"); k->UpdateByAttitude(Rotations()[8]); p.NearV(k->GetVelocity_b_m_s(), Mul(RotOf(Rotations()[8]), k->GetVelocity_i_m_s()), 3, 1e-9 * sp, "body-velocity");
  });
  Scenario("accelerations", "modes RK4 and ENCKE (rectifying never, sometimes and at every update) x 4 orbits x 3 magnitudes x update lengths 1, 10, 25 s x integration steps; every history of 3 (thorough 5) accelerations from 4 directions, then coasting: displacement from the undisturbed orbit equals the independent integration", [](Path& p) {
    int mode = p.PickI({0, 2}), oi = p.PickI({0, 1, 4, 5}); double mag = p.Pick({1e-6, 1e-3, 1e-1}), dt = p.Pick({1, 10, 25}), tol = mode == 2 ? p.Pick({1, 1e-9, 1e-6}) : 0, step = p.Pick({10, .7}); El o = kE[oi]; double n = Rate(o), sp = n * o.a * 1.2; auto k = Make(mode, 0, o, step, tol); auto k0 = Make(mode, 0, o, step, tol); PV s = State(o), u = s; double t = 0; int nn = Q(3, 5); double disp = 0; V3 last = MakeV(0, 0, 0); PV prev = u; double exc = 0;
    for (int j = 0; j < nn + 4; j++) { int c = j < nn ? p.Choose(4) : 0; V3 a = c == 0 ? MakeV(0, 0, 0) : c == 1 ? MakeV(mag, 0, 0) : c == 2 ? MakeV(0, -mag, mag) : Scale(mag, Unit(s.v)); t += dt; k->SetAcceleration_i_m_s2(MakeV(0, 0, 0)); k->AddAcceleration_i_m_s2(Scale(.5, a)); if (c == 3) k->AddForce_b_N(Scale(.5 * 7, Mul(RotOf(Rotations()[5]), a)), Rotations()[5], 7); else k->AddForce_i_N(Scale(.5 * 7, a), 7); k->Propagate(t, kJd + t / 86400); Run(s, dt, a, 1); Run(u, dt, MakeV(0, 0, 0), 1); p.Note("acceleration %d", c); disp = Norm(Sub(s.r, u.r)); exc += mag * dt; last = a;
      double e = mode == 0 ? 1e-6 + o.a * std::pow(1.3 * n * std::min(step, dt), 5) / 8 * (j + 1) * std::max(1.0, dt / step) : sp * 1.2e-4 * (1 + j) + disp * n * dt * 4 + mag * n * n * t * t * dt * dt; double ev = mode == 0 ? 1e-8 + sp * std::pow(1.3 * n * std::min(step, dt), 5) / 8 * (j + 1) * std::max(1.0, dt / step) : n * sp * 1.2e-4 * (1 + j) + n * disp * n * dt * 4 + mag * n * n * t * dt * dt + 1e-7 * sp; Same(p, *k, s, e, ev, "accelerated"); p.Obs({(double)mode, (double)oi, mag, dt, t, s.r[0], s.r[1]}); p.Outcome(mode == 0 ? "RK4" : tol > .5 ? "never rectified" : "rectified"); }
    OnePoint(p, *k);
  }, {4});
  for (const char* m : {"RK4", "never rectified", "rectified"}) RequireOutcome("accelerations", m);
  Scenario("time-series", "tables of 9, 12, 30 (and, starting in the middle or near the end with 5 or 8 points, 70, 300 and 1000) records, evenly and unevenly spaced, x 2..10 interpolation points, polynomial and trigonometric x start before, at, between and near the end of the table x update lengths of 1/3, 1, 2.5 and 7 table steps: the trajectory passes through every record, follows the tabulated motion in between, and stays on the first and last record outside", [](Path& p) {
    int n = p.PickI({9, 12, 30, 70, 300, 1000}), m = 2 + p.Choose(9); if (n > 30 && m != 5 && m != 8) throw Skip(); int uneven = p.Choose(2), trig = p.Choose(2), st = p.Choose(6), mul = p.Choose(4); if (n < m || (n > 30 && (trig || (st != 3 && st != 4)))) throw Skip(); const double base = 86400.0 * 8000, h = 240; El o = {2e7, .02, .8, 1, 2, .5}; double w = Rate(o), T = 2 * kPi / w; if (trig && (m % 2 == 0 || uneven)) { if (m % 2 == 0) throw Skip(); }
    std::vector<Row> rows; std::string csv = "t,x,y,z,vx,vy,vz\n"; double t = 0; char b[300]; for (int i = 0; i < n; i++) { PV s = State({o.a, o.e, o.i, o.O, o.w, o.M + w * t}); rows.push_back({t, s}); snprintf(b, 300, "%.6f,%.9f,%.9f,%.9f,%.12f,%.12f,%.12f\n", base + t, s.r[0], s.r[1], s.r[2], s.v[0], s.v[1], s.v[2]); csv += b; t += uneven ? h * (1 + .5 * (i % 3)) : h; }
    double end = rows.back().t, start = st == 0 ? -500 : st == 1 ? 0 : st == 2 ? 100 : st == 3 ? rows[n / 2].t : st == 4 ? rows[n - 2].t + 30 : end + 400; double step = h * (mul == 0 ? 1.0 / 3 : mul == 1 ? 1 : mul == 2 ? 2.5 : 7);
    Ini f; f.Set("ORBIT", "calculation", "ENABLE").Set("ORBIT", "logging", "ENABLE").Set("ORBIT", "initialize_mode", "DEFAULT").Set("ORBIT", "propagate_mode", "TIME_SERIES_FILE").Set("ORBIT", "time_series_file_path", WriteFile("o02.csv", csv)).Set("ORBIT", "number_of_interpolation", m).Set("ORBIT", "interpolation_method", trig).Set("ORBIT", "orbital_period_correction_s", T); p.Note("records %d points %d start %g step %g", n, m, start, step); auto jd = [&](double x) { return 2451545.0 + (base + x) / 86400; }; std::unique_ptr<Orbit> k(InitOrbit(&W().cel(), f.Write("o02.ini"), 10, jd(start), kMu, "ORBIT", nullptr));
    double err = 0; { double H = h * (uneven ? 2 : 1), x = w * H; double q = 1; for (int i = 1; i <= m; i++) q *= x * std::max(i - m / 2.0, .5) / i * 2; err = std::min(2.0, 3 * q); } // interpolation remainder, worst at the ends of the table
    auto look = [&](double x) { // the state that is expected at table time x
      double tt = (jd(x) - 2451545.0) * 86400 - base; PV s = State({o.a, o.e, o.i, o.O, o.w, o.M + w * tt}); double sp = Norm(s.v); p.Note("t %g", x); if (x < -1e-3) { Same(p, *k, rows[0].s, 1e-3, 1e-6, "before"); p.Outcome("before"); return; } if (x > end + 1e-3) { Same(p, *k, rows.back().s, 1e-3, 1e-6, "after"); p.Outcome("after"); return; }
      for (auto& r : rows) if (std::fabs(r.t - x) < 1e-6) { Same(p, *k, r.s, sp * 2e-4 + (trig ? 1 : 0), 2e-4 + (trig ? 1e-4 : 0), "record"); p.Outcome("record"); return; } Same(p, *k, s, sp * 2e-4 + o.a * err, 2e-4 + sp * err, "between"); p.Outcome("between"); };
    look(start); double x = start; for (int j = 1; x < end + 3 * step && j < 400; j++) { x = start + j * step; if (mul == 1 && x < end + step) for (auto& r : rows) if (r.t > x - step && r.t <= x + 1e-6) { k->Propagate(r.t - start, jd(r.t)); look(r.t); } k->Propagate(x - start, jd(x)); look(x); OnePoint(p, *k); p.Obs({(double)n, (double)m, (double)uneven, (double)trig, start, x}); }
  }, {4});
  for (const char* s : {"before", "after", "record", "between"}) RequireOutcome("time-series", s);
  Scenario("time-series-window", "a table of 30 records 20 minutes apart x 6..9 interpolation points x update lengths of 1/3, 1.1 and 7 table steps: inside the table the error stays below that of an interpolation over records on both sides", [](Path& p) {
    int n = 30, m = 6 + p.Choose(4); double h = 1200, step = h * p.Pick({1.0 / 3, 1.1, 7}); const double base = 86400.0 * 8000; El o = {2e7, .01, .8, 1, 2, .5}; double w = Rate(o); std::string csv = "t,x,y,z,vx,vy,vz\n"; char b[300]; for (int i = 0; i < n; i++) { PV s = State({o.a, o.e, o.i, o.O, o.w, o.M + w * h * i}); snprintf(b, 300, "%.6f,%.9f,%.9f,%.9f,%.12f,%.12f,%.12f\n", base + h * i, s.r[0], s.r[1], s.r[2], s.v[0], s.v[1], s.v[2]); csv += b; }
    Ini f; f.Set("ORBIT", "calculation", "ENABLE").Set("ORBIT", "logging", "ENABLE").Set("ORBIT", "initialize_mode", "DEFAULT").Set("ORBIT", "propagate_mode", "TIME_SERIES_FILE").Set("ORBIT", "time_series_file_path", WriteFile("o02w.csv", csv)).Set("ORBIT", "number_of_interpolation", m).Set("ORBIT", "interpolation_method", 0).Set("ORBIT", "orbital_period_correction_s", 2 * kPi / w); double start = 0.4 * h; auto jd = [&](double x) { return 2451545.0 + (base + x) / 86400; }; std::unique_ptr<Orbit> k(InitOrbit(&W().cel(), f.Write("o02w.ini"), 10, jd(start), kMu, "ORBIT", nullptr));
    double err = o.a; for (int i = 1; i <= m; i++) err *= w * h / i; for (int i = 1; i <= (m + 1) / 2; i++) err *= i; for (int i = 1; i <= m / 2; i++) err *= i; bool seen = false;  // remainder with x in the middle interval
    for (double x = start + step; x < (n - m) * h; x += step) { k->Propagate(x - start, jd(x)); if (x < m * h) continue; double tt = (jd(x) - 2451545.0) * 86400 - base; PV s = State({o.a, o.e, o.i, o.O, o.w, o.M + w * tt}); double sp = Norm(s.v); p.Note("points %d t %g", m, x); Same(p, *k, s, sp * 2e-4 + 1.5 * err, 2e-4 + 1.5 * err * w, "inside"); seen = true; p.Obs({(double)m, x}); } p.Check(seen, "setup", "nothing inside");
  }, {1});
  Scenario("sgp4", "4 element sets (low, sun-synchronous, half-day eccentric, geosynchronous) x 3 gravity models x start up to 40 days around epoch: state independent of the updates before it, velocity is the derivative of position, motion stays in the declared plane and size", [](Path& p) {
    static const char* L[4][2] = {{"1 25544U 98067A   20076.51604214  .00016717  00000-0  10270-3 0  9005", "2 25544  51.6412  86.9962 0006063  30.9353 329.2153 15.49228202 17647"}, {"1 38337U 12025A   20076.50000000  .00000010  00000-0  10000-4 0  9990", "2 38337  98.2000  20.0000 0001200  90.0000 270.0000 14.57000000 12345"}, {"1 26867U 01030A   20076.50000000  .00000100  00000-0  10000-3 0  9990", "2 26867  63.4000 120.0000 7200000 270.0000  10.0000  2.00600000 12345"}, {"1 40267U 14060A   20076.50000000 -.00000270  00000-0  00000+0 0  9990", "2 40267   0.0500  90.0000 0001000  10.0000  30.0000  1.00270000 12345"}};
    static const double N[4] = {15.49228202, 14.57, 2.006, 1.0027}, E[4] = {.0006063, .00012, .72, .0001}, I[4] = {51.6412, 98.2, 63.4, .05}; int li = p.Choose(4), wgs = p.Choose(3), d0 = p.Choose(5); double jd0 = 2458925.0 + std::vector<double>{0, .3, 3.7, 20, 40}[d0]; // epoch is day 76.5 of 2020: 2458925.0 or so
    auto mk = [&](double jd) { Ini f; f.Set("ORBIT", "calculation", "ENABLE").Set("ORBIT", "logging", "ENABLE").Set("ORBIT", "initialize_mode", "DEFAULT").Set("ORBIT", "propagate_mode", "SGP4").Set("ORBIT", "tle1", L[li][0]).Set("ORBIT", "tle2", L[li][1]).Set("ORBIT", "wgs_setting", wgs); return std::unique_ptr<Orbit>(InitOrbit(&W().cel(), f.Write("o02.ini"), 10, jd, kMu, "ORBIT", nullptr)); };
    auto a = mk(jd0); double a0 = std::cbrt(kMu / std::pow(N[li] * 2 * kPi / 86400, 2)); double t = 0; static const double S[6] = {60, 600, 5000, 1, 86400, 43200};
    for (int k = 0; k < 6; k++) { t += S[k]; double jd = jd0 + t / 86400; a->Propagate(t, jd); p.Note("set %d wgs %d t %g", li, wgs, t); auto b = mk(jd); double sp = Norm(b->GetVelocity_i_m_s()), tol = li < 2 ? 1e-3 : 5; p.NearV(a->GetPosition_i_m(), b->GetPosition_i_m(), 3, tol, "history"); p.NearV(a->GetVelocity_i_m_s(), b->GetVelocity_i_m_s(), 3, tol * 1e-2, "history"); OnePoint(p, *a);
      V3 r = b->GetPosition_i_m(), v = b->GetVelocity_i_m_s(); double hh = 20.0 / 86400; auto c = mk(jd - hh), d = mk(jd + hh); double span = ((jd + hh) - (jd - hh)) * 86400; V3 fd = Scale(1 / span, Sub(d->GetPosition_i_m(), c->GetPosition_i_m())); p.NearV(v, fd, 3, sp * 2e-3, "velocity-of-position"); double en = Dot(v, v) / 2 - kMu / Norm(r); p.Near(-kMu / 2 / en, a0, a0 * (li == 2 ? 2e-2 : 1e-2), "size"); p.Check(Norm(r) > a0 * (1 - E[li]) * .97 && Norm(r) < a0 * (1 + E[li]) * 1.03, "radius", "%g", Norm(r)); V3 hv = Unit(Cross(r, v)); p.Near(std::acos(std::min(1.0, hv[2])) * 180 / kPi, I[li], .6, "inclination"); p.Obs({r[0], r[1], r[2]}); }
  });
  static const double KN[9] = {16.05824518, 15.49228202, 12.4, 10.82419157, 6.42, 2.28537848, 2.00561, 1.00271, .72}; static const double KI[7] = {.05, 2.9, 34.2682, 63.4, 98.2, 144.0, 179.2}, KE[5] = {.0001, .0087, .3, .68, .72}, KB[4] = {0, 2.8098e-5, -1.4e-3, 1.4311e-2};
  Scenario("sgp4-reference", "element sets of 9 mean motions (low to geosynchronous and beyond, both resonances) x 7 inclinations x eccentricities allowed by the perigee x 4 drag terms of both signs x epochs in 1958, 1980, 1999, 2000, 2024, 2056 x 3 gravity models, run forwards to 30 days or from before the epoch: the published propagator from the values written in the element set", [](Path& p) {
    int ni = p.Choose(9), ii = p.Choose(7), ei = p.Choose(5), bi = Thorough() ? p.Choose(4) : p.Choose(2) * 2 + (ni + ii) % 2, yi = Thorough() ? p.Choose(6) : (ni + ei + ii) % 6, wi = Thorough() ? p.Choose(3) : (ii + ei) % 3, dir = p.Choose(2); double n = KN[ni], ecc = KE[ei], a = std::cbrt(kMu / std::pow(n * 2 * kPi / 86400, 2)), b = n < 6 ? KB[bi] : bi == 3 ? KB[3] / 100 : KB[bi] / 10; if (a * (1 - ecc) < 6378137 + 190e3) throw Skip();
    static const int Y[6] = {1958, 1980, 1999, 2000, 2024, 2056}; static const double D[6] = {46.25, 230.29629788, 365.99999999, 366.125, 60.5, 1.00000001}; int y = Y[yi]; double day = D[yi], raan = 230.4354, w = 47.4722, M = 110.5714; char l1[100], l2[100], bs[20]; { double m = std::fabs(b); int e = m > 0 ? (int)std::floor(std::log10(m)) + 1 : 0; long d = m > 0 ? std::lround(m / std::pow(10, e) * 1e5) : 0; if (d == 100000) { d = 10000; e++; } snprintf(bs, 20, "%c%05ld%c%d", b < 0 ? '-' : ' ', d, e > 0 ? '+' : '-', std::abs(e)); b = (b < 0 ? -1 : 1) * d * 1e-5 * std::pow(10, e); }
    snprintf(l1, 100, "1 %05dU 58002B   %02d%012.8f %c.00000023  00000-0 %s 0  475%d", 5 + ni, y % 100, day, bi == 2 ? '-' : ' ', bs, ni); snprintf(l2, 100, "2 %05d %8.4f %8.4f %07ld %8.4f %8.4f %11.8f%5d%d", 5 + ni, KI[ii], raan, std::lround(ecc * 1e7), w, M, n, 41366 % 10000, 7); p.Note("%s | %s | gravity %d", l1, l2, wi);
    long days = 0; for (int k = 1950; k < y; k++) days += k % 4 == 0 ? 366 : 365; double since1950 = days + day - 1, jde = 2433282.5 + since1950; // epoch as days from 1950 January 0.0 is since1950 + 1
    static const double F[6] = {0, .01, .3, 1.7, 7, 30}, B[4] = {-.02, -.7, -3.3, -9}; const double* T = dir ? B : F; int nt = dir ? 4 : 6; ref_sgp4::elsetrec e; double g = kPi / 180; ref_sgp4::gravconsttype gc = wi == 0 ? ref_sgp4::wgs72old : wi == 1 ? ref_sgp4::wgs72 : ref_sgp4::wgs84; double no = n / (1440 / (2 * kPi)); ref_sgp4::sgp4init(gc, 5 + ni, since1950 + 1, b, ecc, w * g, KI[ii] * g, M * g, no, raan * g, e);
    { double r0[3], v0[3]; ref_sgp4::elsetrec c = e; for (int k = 0; k < nt; k++) { ref_sgp4::sgp4(gc, c, T[k] * 1440, r0, v0); double q = std::sqrt(r0[0] * r0[0] + r0[1] * r0[1] + r0[2] * r0[2]); if (c.error || !(q > 6478)) throw Skip(); } } // decays: outside the theory
    Ini f; f.Set("ORBIT", "calculation", "ENABLE").Set("ORBIT", "logging", "ENABLE").Set("ORBIT", "initialize_mode", "DEFAULT").Set("ORBIT", "propagate_mode", "SGP4").Set("ORBIT", "tle1", l1).Set("ORBIT", "tle2", l2).Set("ORBIT", "wgs_setting", wi); auto at = [&](int k) { return jde + T[k]; }; std::unique_ptr<Orbit> o(InitOrbit(&W().cel(), f.Write("o02.ini"), 10, at(0), kMu, "ORBIT", nullptr));
    for (int k = 0; k < nt; k++) { if (k) o->Propagate((T[k] - T[0]) * 86400, at(k)); double r[3], v[3]; ref_sgp4::elsetrec c = e; ref_sgp4::sgp4(gc, c, (at(k) - jde) * 1440, r, v); p.Note("day %g", T[k]); p.NearV(o->GetPosition_i_m(), MakeV(r[0] * 1e3, r[1] * 1e3, r[2] * 1e3), 3, n < 6.4 * 1.01 ? 8 : 2, "sgp4-position"); p.NearV(o->GetVelocity_i_m_s(), MakeV(v[0] * 1e3, v[1] * 1e3, v[2] * 1e3), 3, .01, "sgp4-velocity"); p.Outcome(n >= 6.45 ? "near" : "deep"); p.Obs({(double)ni, (double)ii, (double)ei, (double)dir, T[k], b}); }
  }, {3});
  for (const char* s : {"near", "deep"}) RequireOutcome("sgp4-reference", s);
  Scenario("through-dynamics", "World with RK4 orbit, every history of 5 ticks in which a force or acceleration is added or not, inputs act in the update they are given for and never again", [](Path& p) {
    Settings s; s.sat.Set("ORBIT", "calculation", "ENABLE"); El o = kE[0]; PV st = State(o); s.sat.Set("ORBIT", "initial_position_i_m", st.r).Set("ORBIT", "initial_velocity_i_m_s", st.v); World w(s); double t = 0; const V3 a = MakeV(.2, -.1, .3);
    for (int k = 0; k < 5; k++) { int c = p.Choose(3); const_cast<s2e::environment::GlobalEnvironment&>(*w.global).Update(); w.dynamics->ClearForceTorque(); if (c == 1) w.dynamics->AddAcceleration_i_m_s2(a); if (c == 2) w.dynamics->AddForce_b_N(Scale(w.structure->GetKinematicsParameters().GetMass_kg(), a)); w.dynamics->Update(&w.time(), &w.local->GetCelestialInformation()); t += 1; Run(st, 1, c ? a : MakeV(0, 0, 0), .1); p.Note("input %d", c); p.NearV(w.dynamics->GetOrbit().GetPosition_i_m(), st.r, 3, 1e-5, "input-once"); p.NearV(w.dynamics->GetOrbit().GetVelocity_i_m_s(), st.v, 3, 1e-5, "input-once"); p.NearV(w.dynamics->GetOrbit().GetVelocity_b_m_s(), st.v, 3, 1e-5, "body-velocity"); p.Obs({t, st.r[0], st.v[0]}); }
  });
}
