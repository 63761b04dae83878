// Earth and moon fixed frames, sidereal time, geodetic coordinates, local frames.
#include <environment/global/earth_rotation.hpp>
#include <environment/global/moon_rotation.hpp>
#include <environment/global/physical_constants.hpp>
#include <math_physics/geodesy/geodetic_position.hpp>
#include <math_physics/orbit/sgp4/sgp4ext.h>
#include <math_physics/planet_rotation/moon_rotation_utilities.hpp>
#include "env.hpp"
double gstime(double jd);
using namespace mc; using namespace env; using s2e::environment::EarthRotation; using s2e::environment::EarthRotationMode; using s2e::geodesy::GeodeticPosition; using s2e::math::Matrix;
const char* kProperty = "O03";
const char* kAssumptions = "The earth ellipsoid of the simulator (6378136.6 m, 1/298.26); altitudes from 10 km below the ellipsoid to lunar distance; instants from 1950 to 2100. Full rotation is precession (IAU 1976), the nine largest IAU 1980 nutation terms and apparent sidereal time, with no polar motion and TT taken 32.184 s after the given instant.";
static const double kPi = 3.14159265358979323846, kAs = kPi / 648000;
static Rot Rx(double t) { return Rot{{{1, 0, 0}, {0, cos(t), sin(t)}, {0, -sin(t), cos(t)}}}; }
static Rot Ry(double t) { return Rot{{{cos(t), 0, -sin(t)}, {0, 1, 0}, {sin(t), 0, cos(t)}}}; }
static Rot Rz(double t) { return Rot{{{cos(t), sin(t), 0}, {-sin(t), cos(t), 0}, {0, 0, 1}}}; }
static Rot operator*(const Rot& a, const Rot& b) { Rot r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { r.m[i][j] = 0; for (int k = 0; k < 3; k++) r.m[i][j] += a.m[i][k] * b.m[k][j]; } return r; }
static void Same(Path& p, const Matrix<3, 3>& a, const Rot& b, double tol, const char* key) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) p.Near(a[i][j], b.m[i][j], tol, key, "matrix element"); }
static void Proper(Path& p, const Matrix<3, 3>& a) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double s = 0; for (int k = 0; k < 3; k++) s += a[i][k] * a[j][k]; p.Near(s, i == j, 1e-13, "orthogonal"); } double d = 0; for (int i = 0; i < 3; i++) d += a[0][i] * (a[1][(i + 1) % 3] * a[2][(i + 2) % 3] - a[1][(i + 2) % 3] * a[2][(i + 1) % 3]); p.Near(d, 1, 1e-13, "right-handed"); }
static double Gmst(double jd) { // Greenwich mean sidereal time of 1982, split into day and fraction
  long double T = ((long double)jd - 2451545.0L) / 36525, s = 67310.54841L + 8640184.812866L * T + 0.093104L * T * T - 6.2e-6L * T * T * T + std::fmod(876600.0L * 3600 * T, 86400.0L); long double a = std::fmod(s, 86400.0L) / 86400 * 2 * M_PIl; return a < 0 ? a + 2 * M_PIl : a; }
struct Full { double deps, dpsi, eps; Rot m; };
static Full Apparent(double jd) {
  double T = (jd + 32.184 / 86400 - 2451545.0) / 36525, d = kPi / 180; auto poly = [&](double c0, std::initializer_list<double> c) { double v = c0 * d, t = T; for (double x : c) { v += x * kAs * t; t *= T; } return v; };
  double l = poly(134.96340251, {1717915923.2178, 31.8792, 0.051635, -0.0002447}), ls = poly(357.52910918, {129596581.0481, -0.5532, 0.000136, -0.00001149}), F = poly(93.27209062, {1739527262.8478, -12.7512, -0.001037, 0.00000417}), D = poly(297.85019547, {1602961601.209, -6.3706, 0.006593, -0.00003169}), om = poly(125.04455501, {-6962890.5431, 7.4722, 0.007702, -0.00005939}), eps = poly(23.4392911, {-46.815, -0.00059, 0.001813});
  struct N { int l, ls, F, D, om; double psi, e; } n[9] = {{0, 0, 0, 0, 1, -17.2060, 9.2050}, {0, 0, 2, -2, 2, -1.3170, 0.5730}, {0, 0, 0, 0, 2, 0.2070, -0.0900}, {0, 0, 2, 0, 2, -0.2280, 0.0980}, {0, 1, 0, 0, 0, 0.1480, 0.0070}, {1, 0, 0, 0, 0, 0.0710, -0.0010}, {0, 1, 2, -2, 2, -0.0520, 0.0220}, {1, 0, 2, 0, 2, -0.0300, 0.0130}, {0, -1, 2, -2, 2, 0.0220, -0.0100}};
  double psi = 0, de = 0; for (auto& x : n) { double a = x.l * l + x.ls * ls + x.F * F + x.D * D + x.om * om; psi += x.psi * kAs * sin(a); de += x.e * kAs * cos(a); }
  auto q = [&](double a, double b, double c) { return (a * T + b * T * T + c * T * T * T) * kAs; }; double ze = q(2306.2181, 0.30188, 0.017998), th = q(2004.3109, -0.42665, -0.041833), z = q(2306.2181, 1.09468, 0.018203);
  return {de, psi, eps, Rz(Gmst(jd) + psi * cos(eps + de)) * (Rx(-eps - de) * Rz(-psi) * Rx(eps)) * (Rz(-z) * Ry(th) * Rz(-ze))};
}
static V3 Ecef(double lat, double lon, double h) { double a = 6378136.6, f = 3.352797e-3, e2 = f * (2 - f), N = a / std::sqrt(1 - e2 * sin(lat) * sin(lat)); return MakeV((N + h) * cos(lat) * cos(lon), (N + h) * cos(lat) * sin(lon), (N * (1 - e2) + h) * sin(lat)); }
static void Enu(Path& p, const GeodeticPosition& g, double lat, double lon, const char* key) { Rot r = RotOf(g.GetQuaternionXcxfToLtc()); double w[3][3] = {{-sin(lon), cos(lon), 0}, {-sin(lat) * cos(lon), -sin(lat) * sin(lon), cos(lat)}, {cos(lat) * cos(lon), cos(lat) * sin(lon), sin(lat)}}; for (int i = 0; i < 3; i++) p.NearV(r.m[i], w[i], 3, 2e-9, key, i == 0 ? "east" : i == 1 ? "north" : "up"); }
void Register() {
  Scenario("sidereal", "every quarter day (thorough: every hour) of 1950..2100: sidereal time against the 1982 formula, its rate over a second, minute and day, and the rotation matrix of every mode with its update history", [](Path& p) {
    int y = p.Choose(150); int N = Q(1461, 8766); EarthRotation simple(EarthRotationMode::kSimple), full(EarthRotationMode::kFull), idle(EarthRotationMode::kIdle), def; double jd0 = 2433282.5 + y * 365.25;
    for (int i = 0; i < N; i++) {
      double jd = jd0 + i * 365.25 / N; p.Note("jd %.9f", jd); double g = gstime(jd); p.Check(g >= 0 && g < 2 * kPi + 1e-12, "range", "%g", g); p.Check(std::fabs(std::remainder(g - Gmst(jd), 2 * kPi)) < 1e-9, "sidereal-time", "%.15g want %.15g", g, Gmst(jd));
      for (double dt : {1 / 86400.0, 1 / 1440.0, 1.0}) { double dd = (jd + dt) - jd; p.Check(std::fabs(std::remainder(gstime(jd + dt) - g - dd * 86400 * 7.2921158553e-5, 2 * kPi)) < 1e-8 + 1e-6 * dt, "sidereal-rate", "after %g d", dt); }
      if (i % 16 == 0) { simple.Update(jd); full.Update(jd); idle.Update(jd); def.Update(jd); Same(p, simple.GetDcmJ2000ToEcef(), Rz(Gmst(jd)), 1e-9, "simple"); Same(p, def.GetDcmJ2000ToEcef(), Rz(Gmst(jd)), 1e-9, "default"); Same(p, idle.GetDcmJ2000ToEcef(), Rz(0), 0, "idle"); Same(p, full.GetDcmJ2000ToEcef(), Apparent(jd).m, 1e-9, "full"); Proper(p, full.GetDcmJ2000ToEcef()); Proper(p, simple.GetDcmJ2000ToEcef());
        EarthRotation fresh(EarthRotationMode::kFull); fresh.Update(jd); for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) p.Check(fresh.GetDcmJ2000ToEcef()[a][b] == full.GetDcmJ2000ToEcef()[a][b], "history", "element %d %d", a, b); }
      p.Obs({jd});
    }
  });
  Scenario("mode-names", "every mode name and misspelling for earth and moon: the documented mode, anything else is idle", [](Path& p) {
    using namespace s2e::environment; static const char* N[] = {"IDLE", "SIMPLE", "FULL", "IAU_MOON", "full", "", "SIMPLE "}; int i = p.Choose(7); p.Eq((int)ConvertEarthRotationMode(N[i]), (int)(i == 1 ? EarthRotationMode::kSimple : i == 2 ? EarthRotationMode::kFull : EarthRotationMode::kIdle), "earth-mode", N[i]); p.Eq((int)ConvertMoonRotationMode(N[i]), (int)(i == 1 ? MoonRotationMode::kSimple : i == 3 ? MoonRotationMode::kIauMoon : MoonRotationMode::kIdle), "moon-mode", N[i]); p.Obs({(double)i});
  });
  Scenario("geodetic", "latitudes every 5 deg (thorough 1) and 8 near-singular ones x longitudes every 10 deg (thorough 2) and 4 near the date line x 12 altitudes -10 km..384400 km: to earth-fixed and back, local frame, object reused", [](Path& p) {
    int st = Q(5, 1), n = 180 / st + 1; int li = p.Choose(n + 8); static const double E[8] = {1e-12, -1e-12, 1e-6, -1e-6, kPi / 2 - 1e-6, -kPi / 2 + 1e-6, kPi / 2 - 1e-10, -kPi / 2 + 1e-10}; double lat = li < n ? (li * st - 90) * kPi / 180 : E[li - n]; if (lat == -lat) lat = 0; int ls = Q(10, 2), m = 360 / ls; GeodeticPosition reused;
    for (int oi = 0; oi < m + 4; oi++) for (double h : {-10000., -1., 0., 1e-3, 100., 4e5, 8e5, 2e6, 2e7, 3.6e7, 1e8, 3.844e8}) {
      static const double F[4] = {1e-12, 2 * kPi - 1e-9, kPi - 1e-12, kPi + 1e-12}; double lon = oi < m ? oi * ls * kPi / 180 : F[oi - m]; p.Note("lat %.12g lon %.12g h %g", lat, lon, h); V3 e = Ecef(lat, lon, h);
      GeodeticPosition g(lat, lon, h); p.NearV(g.CalcEcefPosition(), e, 3, 1e-6 + 1e-14 * h, "to-ecef"); Enu(p, g, lat, lon, "local-frame"); GeodeticPosition f; f.UpdateFromEcef(e); reused.UpdateFromEcef(e);
      for (GeodeticPosition* x : {&f, &reused}) { p.Check(x->GetLatitude_rad() >= -kPi / 2 - 1e-12 && x->GetLatitude_rad() <= kPi / 2 + 1e-12, "latitude-range", "%g", x->GetLatitude_rad()); p.Check(x->GetLongitude_rad() >= 0 && x->GetLongitude_rad() < 2 * kPi + 1e-12, "longitude-range", "%g", x->GetLongitude_rad()); p.Near(x->GetLatitude_rad(), lat, 1e-9, "latitude"); p.Near(x->GetAltitude_m(), h, 1e-3 + 1e-9 * h, "altitude"); if (std::fabs(lat) < kPi / 2 - 1e-9) p.Check(std::fabs(std::remainder(x->GetLongitude_rad() - lon, 2 * kPi)) * cos(lat) < 1e-11, "longitude", "%.15g", x->GetLongitude_rad()); p.NearV(x->CalcEcefPosition(), e, 3, 1e-2 + 1e-9 * h, "round-trip"); Enu(p, *x, x->GetLatitude_rad(), x->GetLongitude_rad(), "updated-local-frame"); }
      p.Obs({lat, lon, h});
    }
    p.Outcome(std::fabs(lat) == kPi / 2 ? "pole" : lat == 0 ? "equator" : "other");
  });
  for (const char* o : {"pole", "equator", "other"}) RequireOutcome("geodetic", o);
  Scenario("moon-frame", "26 moon positions x 26 velocities (all not parallel) x 2 distances: mean-earth and principal-axis frames right-handed, x to the earth, z along the orbit normal", [](Path& p) {
    auto& D = Directions26(); V3 a = D[p.Choose(26)], b = D[p.Choose(26)]; if (Norm(Cross(a, b)) < 1e-9) throw Skip(); for (double k : {3.6e8, 4.06e8}) { V3 r = Scale(k, a), v = Scale(1022, b), x = Scale(-1, Unit(r)), z = Unit(Cross(r, v)), y = Cross(z, x); Rot me; for (int i = 0; i < 3; i++) { me.m[0][i] = x[i]; me.m[1][i] = y[i]; me.m[2][i] = z[i]; } Rot pa = Rz(67.573 * kAs) * Ry(78.58 * kAs) * Rx(0.285 * kAs) * me;
      Same(p, s2e::planet_rotation::CalcDcmEciToMeanEarth(r, v), me, 1e-14, "mean-earth"); Same(p, s2e::planet_rotation::CalcDcmEciToPrincipalAxis(r, v), pa, 1e-9, "principal-axis"); Proper(p, s2e::planet_rotation::CalcDcmEciToPrincipalAxis(r, v)); p.Obs({a[0], a[1], b[0], b[1], k}); }
  });
  Scenario("in-simulation", "3 earth and 3 moon modes from the settings x 4 start dates x 5 steps of 1 day and 1 s: the frames of the environment are those of the simulated instant; the spacecraft's earth-fixed, geodetic and local orbital frames follow", [](Path& p) {
    static const char* E[3] = {"IDLE", "SIMPLE", "FULL"}; static const char* M[3] = {"IDLE", "SIMPLE", "IAU_MOON"}; static const char* T[4] = {"2020/01/01 11:00:00.0", "2000/02/28 23:59:59.0", "2021/12/31 00:00:00.0", "2024/06/15 06:30:15.5"}; int em = p.Choose(3), mm = p.Choose(3), t = p.Choose(4); double step = p.Pick({86400, 1}); int ri = p.Choose(3);
    Settings s; s.base.Set("TIME", "simulation_start_time_utc", T[t]).Set("TIME", "simulation_step_s", step).Set("TIME", "simulation_duration_s", 1e7).Set("CELESTIAL_INFORMATION", "rotation_mode(0)", E[em]).Set("CELESTIAL_INFORMATION", "rotation_mode(2)", M[mm]); for (const char* k : {"attitude_update_period_s", "orbit_update_period_s", "thermal_update_period_s", "component_update_period_s", "attitude_integral_step_s", "orbit_integral_step_s", "thermal_integral_step_s", "log_output_period_s"}) s.base.Set("TIME", k, step);
    if (step == 1) s.sat.Set("ORBIT", "calculation", "ENABLE"); World w(s); static const V3 R[3] = {MakeV(7e6, 1e5, -2e5), MakeV(1e3, -2e3, -7.2e6), MakeV(-4e7, 1e7, 3e6)}, Vv[3] = {MakeV(0, 5000, 5500), MakeV(7500, 10, 0), MakeV(100, -200, 3000)}; V3 r = R[ri], v = Vv[ri]; SetBody("MOON", MakeV(3.0e8, -2e8, 1e8), MakeV(500, 800, 100)); double jd0 = w.time().GetCurrentTime_jd(); w.Place(r, v, Rotations()[3], MakeV(0, 0, 0));
    for (int k = 0; k < 5; k++) {
      w.Tick(); double jd = w.time().GetCurrentTime_jd(); p.Near(jd, jd0 + (k + 2) * step / 86400, 1e-8, "instant"); Rot want = em == 0 ? Rz(0) : em == 1 ? Rz(Gmst(jd)) : Apparent(jd).m; Same(p, w.cel().GetEarthRotation().GetDcmJ2000ToEcef(), want, 1e-9, "earth-frame"); p.Check(std::fabs(std::remainder(w.time().GetCurrentSiderealTime() - Gmst(jd), 2 * kPi)) < 1e-8, "current-sidereal-time", "%.12g", w.time().GetCurrentSiderealTime());
      V3 mr = w.cel().GetPositionFromSelectedBody_i_m("MOON", "EARTH"), mv = w.cel().GetVelocityFromSelectedBody_i_m_s("MOON", "EARTH"); V3 x = Scale(-1, Unit(mr)), z = Unit(Cross(mr, mv)), y = Cross(z, x); Rot me; for (int i = 0; i < 3; i++) { me.m[0][i] = x[i]; me.m[1][i] = y[i]; me.m[2][i] = z[i]; }
      auto md = w.cel().GetMoonRotation().GetDcmJ2000ToMcmf(); if (mm == 0) Same(p, md, Rz(0), 0, "moon-frame"); else if (mm == 1) Same(p, md, Rz(67.573 * kAs) * Ry(78.58 * kAs) * Rx(0.285 * kAs) * me, 1e-9, "moon-frame"); else Proper(p, md);
      if (step != 1) { p.Obs({(double)em, (double)mm, (double)t, step, (double)k, (double)ri}); continue; } auto& o = w.dynamics->GetOrbit(); v = o.GetVelocity_i_m_s(); V3 ri_ = o.GetPosition_i_m(), e = Mul(want, ri_); p.NearV(o.GetPosition_ecef_m(), e, 3, 1e-8 * Norm(e), "earth-fixed-position"); auto g = o.GetGeodeticPosition(); p.NearV(Ecef(g.GetLatitude_rad(), g.GetLongitude_rad(), g.GetAltitude_m()), e, 3, 1e-8 * Norm(e), "geodetic-position"); if (em == 1) p.NearV(o.GetVelocity_ecef_m_s(), Mul(want, Sub(v, Cross(MakeV(0, 0, 7.2921158553e-5), ri_))), 3, 1e-4 + 1e-10 * Norm(ri_), "earth-fixed-velocity");
      Rot l = RotOf(o.CalcQuaternion_i2lvlh()); V3 lx = Unit(ri_), lz = Unit(Cross(ri_, v)), ly = Cross(lz, lx); V3 L[3] = {lx, ly, lz}; for (int i = 0; i < 3; i++) p.NearV(l.m[i], L[i], 3, 1e-12, "orbital-frame"); p.Obs({(double)em, (double)mm, (double)t, step, (double)k, (double)ri});
    }
    ClearBodies();
  });
}
