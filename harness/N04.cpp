// GNSS receivers (visibility, fix, position) and GNSS satellite tables (SP3 products, interpolation window).
#include <components/ports/power_port.hpp>
#include <components/real/aocs/gnss_receiver.hpp>
#include <environment/global/clock_generator.hpp>
#include <environment/global/gnss_satellites.hpp>
#include <environment/global/physical_constants.hpp>
#include <cstdarg>
#include <functional>
#include <map>
#include <memory>
#include <sstream>
#include "env.hpp"
using namespace mc; using namespace env;
using namespace s2e; using namespace s2e::components;
const char* kProperty = "N04";
const char* kAssumptions = "The products use the time scale of the simulation (the code applies no leap seconds); all files of a span list the same satellites at one spacing, each beginning a day after the former. Extrapolation beyond the last tabulated epoch is not judged.";
static double Rad(double d) { return d * M_PI / 180; }
static std::string F(const char* f, ...) { char b[300]; va_list a; va_start(a, f); vsnprintf(b, 300, f, a); va_end(a); return b; }
typedef std::function<V3(int, double)> Where;  // satellite, seconds of the span -> km
static double Clock(int s, double t) { return 100 * s - 250.5 + 1e-3 * t * (s % 3) + 1e-9 * t * t; }
struct Day { int y, m, d; };
struct Form { int mode = 0, ep = 0, tail = 0, comments = 2, vtail = 0; };
static std::string Sid(int s) { return F("%c%02d", "GREC"[s / 99], s % 99 + 1); }
// one product file of n epochs starting at midnight of the day
static std::string Product(const Day& day, double t0, int n, double step, int sats, const Where& at, const Form& fm) {
  std::string o = F("#d%c%4d %2d %2d  0  0  0.00000000 %7d ORBIT WGS84 FIT MGEX\n", fm.mode ? 'V' : 'P', day.y, day.m, day.d, n); o += F("## %4d %15.8f %14.8f %5d %15.13f\n", 1734, 259200.0, step, 56385, 0.0);
  for (int l = 0; l < 5 || l * 17 < sats; l++) { o += l ? "+        " : F("+  %3d   ", sats); for (int i = 17 * l; i < 17 * l + 17; i++) o += i < sats ? Sid(i) : "  0"; o += "\n"; } for (int l = 0; l < 5 || l * 17 < sats; l++) { o += "++       "; for (int i = 17 * l; i < 17 * l + 17; i++) o += F("%3d", i < sats ? i + 1 : 0); o += "\n"; }
  for (const char* c : {"%c M  cc GPS ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc", "%c cc cc ccc ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc", "%f  1.2500000  1.025000000  0.00000000000  0.000000000000000", "%f  0.0000000  0.000000000  0.00000000000  0.000000000000000", "%i    0    0    0    0      0      0      0      0         0", "%i    0    0    0    0      0      0      0      0         0"}) o += std::string(c) + "\n"; for (int i = 0; i < fm.comments; i++) o += "/* comment\n";
  for (int e = 0; e < n; e++) { double t = e * step; int h = (int)(t / 3600), mi = (int)(t / 60) % 60; o += F("*  %4d %2d %2d %2d %2d %11.8f\n", day.y, day.m, day.d, h, mi, t - 3600 * h - 60 * mi);
    for (int s = 0; s < sats; s++) { V3 p = at(s, t0 + t); o += F("P%s%14.6f%14.6f%14.6f%14.6f", Sid(s).c_str(), p[0], p[1], p[2], Clock(s, t0 + t)); if (fm.tail) o += fm.tail == 3 ? "             " : F(" %2d %2d %2d %3d", 1 + s, 2, 3 + e, 44); if (fm.tail == 2) o += F(" %c%c  %c%c", e % 2 ? 'E' : ' ', s % 2 ? 'P' : ' ', e % 3 ? 'M' : ' ', 'P'); if (fm.tail == 4) o += " E"; o += "\n"; if (fm.ep) o += "EP  55   55   55     222  1234567 -1234567  5999999      -30       21 -1230000\n"; if (fm.mode) { o += F("V%s%14.6f%14.6f%14.6f%14.6f", Sid(s).c_str(), 20298.880364, -18462.044804, 1381.387685, -4.534317); if (fm.vtail == 1) o += " 14 14 14 191"; if (fm.vtail == 2) o += "             "; o += "\n"; if (fm.mode && fm.ep) o += "EV  22   22   22     111  1234567  1234567  1234567  1234567  1234567  1234567\n"; } } }
  return o + "EOF\n";
}
// circular orbits of about half a day, seen from the rotating earth
static V3 Orbiting(int s, double t) { double n = 2 * M_PI / 43082, a = n * t + 1.3 * s, i = 0.9 + 0.05 * s, r = 26560, x = r * std::cos(a), y = r * std::sin(a) * std::cos(i), z = r * std::sin(a) * std::sin(i), w = 2 * s - 7.292115e-5 * t; return MakeV(x * std::cos(w) - y * std::sin(w), x * std::sin(w) + y * std::cos(w), z); }
static std::vector<double> Cells(const std::string& s) { std::vector<double> v; std::istringstream i(s); std::string c; while (std::getline(i, c, ',')) if (c.size()) v.push_back(atof(c.c_str())); return v; }
static time_system::EpochTime At(const Day& d, double t) { int h = (int)(t / 3600), m = (int)(t / 60) % 60; time_system::EpochTime e(time_system::DateTime(d.y, d.m, d.d, h, m, t - 3600 * h - 60 * m)); return e; }
static bool Blocked(const V3& a, const V3& g) {  // the sphere of the earth cuts the segment
  V3 d = Sub(g, a); double k = std::max(0.0, std::min(1.0, -Dot(a, d) / Dot(d, d))); return Norm(Add(a, Scale(k, d))) < environment::earth_equatorial_radius_m;
}
static double Clear(const V3& a, const V3& g) { V3 d = Sub(g, a); double k = std::max(0.0, std::min(1.0, -Dot(a, d) / Dot(d, d))); return std::fabs(Norm(Add(a, Scale(k, d))) - environment::earth_equatorial_radius_m); }
static std::vector<V3>& Fleet() { static std::vector<V3> v = [] { std::vector<V3> o; int k = 0; for (auto& d : Directions26()) { k++; V3 e = Unit(Add(d, MakeV(0.013 * (k % 5), -0.021 * (k % 3), 0.017))); o.push_back(Scale(26560, e)); if (k % 2) o.push_back(Scale(42164, Unit(Add(e, MakeV(0.1, 0.07, -0.03 * k))))); } return o; }(); return v; }

void Register() {
  for (const char* o : {"fix", "no fix"}) RequireOutcome("receiver", o);
  Scenario("receiver", "receiver at 26 directions x radius {6.45e6, 6.9e6, 2e7, 3.6e7} m x antenna mountings 12 (position offset up to 30 m) x half width {8,30,60,85,120,180} deg x constellation of {3,4,5,39} satellites at two radii x earth rotation {idle, simple}: visible set, channels, fix, position, log", [](Path& p) {
    static World* w = new World(); static environment::EarthRotation idle(environment::EarthRotationMode::kIdle), turn(environment::EarthRotationMode::kSimple); static bool once = (turn.Update(2459000.7), true); (void)once;
    int n = p.PickI({3, 4, 5, 39}), dk = p.Choose(26); double r = p.Pick({6.45e6, 6.9e6, 2e7, 3.6e7}); bool rot = p.Flag("rotating"); auto& er = rot ? turn : idle; V3 dir = Unit(Add(Directions26()[dk], MakeV(0.02, -0.03, 0.04)));
    std::map<int, std::shared_ptr<environment::GnssSatellites>>& cache = *[] { static auto* m = new std::map<int, std::shared_ptr<environment::GnssSatellites>>(); return m; }(); auto& gs = cache[n * 2 + rot]; int first = n == 39 ? 0 : 3 * n;
    if (!gs) { std::string f = WriteFile(F("fleet%d_%d.sp3", n, rot), Product({2020, 6, 1}, 0, 9, 900, n, [first](int s, double) { return Fleet()[first + s]; }, {})); gs = std::make_shared<environment::GnssSatellites>(er, true, false); gs->Initialize({gnss::Sp3FileReader(f)}, At({2020, 6, 1}, 3600)); }
    p.Eq(gs->GetNumberOfCalculatedSatellite(), n, "satellite-count"); V3 pos = Scale(r, dir), vel = MakeV(1200, -6500, 2300); if (n != 39 && r > 2.5e7) throw Skip(); Rot D; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) D.m[i][j] = er.GetDcmJ2000ToEcef()[i][j]; w->Place(pos, vel, Rotations()[0], MakeV(0, 0, 0)); environment::ClockGenerator clk; PowerPort pp(0, 10, 3, 1);
    for (int mk = 0; mk < 12; mk++) for (double hw : {8., 30., 60., 85., 120., 180.}) {
      Quat mq = Rotations()[mk], at = Rotations()[(5 * mk + 3 + dk) % 12]; w->dynamics->SetAttitude().SetQuaternion_i2b(at); V3 off = mk % 3 ? MakeV(10.0 * (mk % 5), -3, 30) : MakeV(0, 0, 0), ap = Add(pos, MulT(RotOf(at), off)), bore = MulT(RotOf(at), MulT(RotOf(mq), MakeV(0, 0, 1))); clk.ClearTimerCount();
      GnssReceiver g(1, &clk, &pp, 3, AntennaModel::kCone, off, mq, hw, MakeV(0, 0, 0), MakeV(0, 0, 0), w->dynamics.get(), gs.get(), &w->time()); pp.SetVoltage_V(0); clk.TickToComponents(); p.Near(Norm(g.GetMeasuredPosition_ecef_m()), 0, 0, "gnss-unpowered"); pp.SetVoltage_V(5); clk.TickToComponents();
      auto c = Cells(g.GetLogValue()); p.Eq(c.size(), 17, "gnss-log"); int want = 0, k = 0; bool near = false; p.Note("r %g dir %d mounting %d half width %g of %d rotating %d", r, dk, mk, hw, n, rot);
      for (int s = 0; s < n; s++) { V3 sp = Scale(1e3, MulT(D, Fleet()[first + s])), d = Sub(sp, ap); double an = std::acos(std::max(-1.0, std::min(1.0, Dot(Unit(d), bore)))); if (std::fabs(an - Rad(hw)) < 1e-6 || Clear(ap, sp) < 1) { near = true; break; } if (an < Rad(hw) && !Blocked(ap, sp)) want++; } if (near) continue;
      p.Eq(c[16], want, "visible-satellites"); p.Eq(c[15], want >= 4, "gnss-fix"); p.Outcome(want >= 4 ? "fix" : "no fix"); if (c[16] != want) continue;
      for (int s = 0; s < n; s++) { V3 sp = Scale(1e3, MulT(D, Fleet()[first + s])), d = Sub(sp, ap); if (!(std::acos(std::max(-1.0, std::min(1.0, Dot(Unit(d), bore)))) < Rad(hw) && !Blocked(ap, sp))) continue; GnssInfo i = g.GetGnssInfo(k++); V3 dc = Mul(RotOf(mq), Mul(RotOf(at), d)); p.Eq(i.gnss_id, s, "visible-set"); p.Near(i.distance_m, Norm(d), 1e-2, "channel"); p.Near(std::sin(i.latitude_rad), dc[2] / Norm(d), 1e-8, "channel"); if (std::hypot(dc[0], dc[1]) > 1e-3 * Norm(d)) p.Near(std::remainder(i.longitude_rad - std::atan2(dc[1], dc[0]), 2 * M_PI), 0, 1e-6, "channel"); }
      V3 E = w->dynamics->GetOrbit().GetPosition_ecef_m(), U = w->dynamics->GetOrbit().GetVelocity_ecef_m_s(), P = g.GetMeasuredPosition_ecef_m(), V = g.GetMeasuredVelocity_ecef_m_s(); if (want < 4) { E = U = MakeV(0, 0, 0); } p.NearV(P, E, 3, 0, "gnss-position"); p.NearV(V, U, 3, 0, "gnss-velocity"); for (int i = 0; i < 3; i++) { p.Near(c[6 + i], P[i], 1e-2, "gnss-log"); p.Near(c[9 + i], V[i], 1e-5, "gnss-log"); }
      if (want >= 4) { auto G = w->dynamics->GetOrbit().GetGeodeticPosition(), H = g.GetMeasuredGeodeticPosition(); p.Near(H.GetLatitude_rad(), G.GetLatitude_rad(), 1e-12, "gnss-geodetic"); p.Near(std::remainder(H.GetLongitude_rad() - G.GetLongitude_rad(), 2 * M_PI), 0, 1e-12, "gnss-geodetic"); p.Near(H.GetAltitude_m(), G.GetAltitude_m(), 1e-5, "gnss-geodetic"); p.Near(c[12], H.GetLatitude_rad(), 1e-8, "gnss-log"); p.Near(c[13], H.GetLongitude_rad(), 1e-8, "gnss-log"); p.Near(c[14], H.GetAltitude_m(), 1e-2, "gnss-log"); }
      p.Obs({r, (double)dk, (double)mk, hw, (double)n, (double)rot, (double)want});
    }
  }, {2});
  for (const char* o : {"fix", "no fix", "few"}) RequireOutcome("histories", o);
  Scenario("histories", "all histories of depth 4/5 over {up, 40 deg, 89.9, 90.1, down, power off} x model {simple, cone of 39 with half width 70, 26 deg} x noise {none, 5 m}: fix and position follow the present update, kept without fix or power", [](Path& p) {
    static World* w = new World(); static environment::EarthRotation idle(environment::EarthRotationMode::kIdle); static std::shared_ptr<environment::GnssSatellites> gs; if (!gs) { std::string f = WriteFile("fleet.sp3", Product({2020, 6, 1}, 0, 9, 900, 39, [](int s, double) { return Fleet()[s]; }, {})); gs = std::make_shared<environment::GnssSatellites>(idle, true, false); gs->Initialize({gnss::Sp3FileReader(f)}, At({2020, 6, 1}, 3600)); }
    bool cone = p.Flag("cone"); double hw = p.Pick({70, 26}); if (!cone && hw < 70) throw Skip(); double sd = p.Pick({0, 5}); Quat mq = Rotations()[4]; environment::ClockGenerator clk; clk.ClearTimerCount(); PowerPort pp(0, 10, 3, 1); randomization::global_randomization.SetSeed(5); static std::vector<V3> pos; if (pos.empty()) for (int i = 0; i < 5; i++) pos.push_back(Scale(7e6, Unit(Add(Directions26()[5 * i], MakeV(0.1, 0.2, 0.05)))));
    GnssReceiver g(1, &clk, &pp, 0, cone ? AntennaModel::kCone : AntennaModel::kSimple, MakeV(0, 0, 0), mq, hw, MakeV(sd, sd, sd), MakeV(sd / 100, sd / 100, sd / 100), w->dynamics.get(), gs.get(), &w->time()); static V3 placed = MakeV(0, 0, 0); V3 last = MakeV(0, 0, 0), lv = MakeV(0, 0, 0); std::string log = g.GetLogValue();
    V3 X = w->dynamics->GetOrbit().GetPosition_i_m();
    for (int k = 0, N = Q(4, 5); k < N; k++) { int a = p.Choose(6); if (a == 5) { pp.SetVoltage_V(0); w->dynamics->SetAttitude().SetQuaternion_i2b(Rotations()[(k + 3) % 12]); clk.TickToComponents(); p.Check(g.GetLogValue() == log, "gnss-unpowered", "fresh output without power"); continue; } pp.SetVoltage_V(5); double an = Rad(std::vector<double>{0, 40, 89.9, 90.1, 180}[a]); V3 u = Unit(X), s = Unit(Cross(u, MakeV(0.3, 0.5 + k, -0.2))), z = Add(Scale(std::cos(an), u), Scale(std::sin(an), s)), e1 = Unit(Cross(z, MakeV(0.1, 0.2, 0.3 + k))), e2 = Cross(z, e1);
      // attitude whose antenna axis (mounting frame z) is z: rows of the frame of the antenna seen from the inertial frame
      math::Matrix<3, 3> C; Rot M = RotOf(mq); for (int j = 0; j < 3; j++) { double row[3] = {e1[j], e2[j], z[j]}; for (int i = 0; i < 3; i++) C[i][j] = M.m[0][i] * row[0] + M.m[1][i] * row[1] + M.m[2][i] * row[2]; } w->dynamics->SetAttitude().SetQuaternion_i2b(Quat::ConvertFromDcm(C)); clk.TickToComponents(); auto c = Cells(g.GetLogValue()); bool fix = cone ? 0 : an < M_PI / 2; if (cone) { int v = 0; std::vector<int> ids; for (auto& f : Fleet()) { V3 sp = Scale(1e3, f), d = Sub(sp, X); if (Dot(Unit(d), z) > std::cos(Rad(hw)) && !Blocked(X, sp)) { v++; ids.push_back((int)(&f - &Fleet()[0])); } } fix = v >= 4; p.Eq(c[16], v, "visible-satellites"); for (int i = 0; i < v; i++) { auto gi = g.GetGnssInfo(i); p.Eq(gi.gnss_id, ids[i], "visible-set", "channel of the present update"); p.Near(gi.distance_m, Norm(Sub(Scale(1e3, Fleet()[ids[i]]), X)), 1e-2, "channel"); } p.Outcome(v > 0 && v < 4 ? "few" : "many or none"); }
      p.Eq(c[15], fix, "gnss-fix"); p.Outcome(fix ? "fix" : "no fix"); V3 P = g.GetMeasuredPosition_ecef_m(), V = g.GetMeasuredVelocity_ecef_m_s(), E = w->dynamics->GetOrbit().GetPosition_ecef_m(), U = w->dynamics->GetOrbit().GetVelocity_ecef_m_s(); if (!fix) { p.NearV(P, last, 3, 0, "no-fix-keeps"); p.NearV(V, lv, 3, 0, "no-fix-keeps"); } else { p.NearV(P, E, 3, 6 * sd, "gnss-position"); p.NearV(V, U, 3, 0.06 * sd, "gnss-velocity"); if (sd > 0) { p.Check(Norm(Sub(P, last)) > 0 && Norm(Sub(P, E)) > 0 && Norm(Sub(V, U)) > 0, "gnss-noise", "no noise"); } geodesy::GeodeticPosition H; H.UpdateFromEcef(P); p.Near(g.GetMeasuredGeodeticPosition().GetAltitude_m(), H.GetAltitude_m(), 1e-9, "gnss-geodetic"); p.Near(g.GetMeasuredGeodeticPosition().GetLatitude_rad(), H.GetLatitude_rad(), 1e-12, "gnss-geodetic"); }
      last = P; lv = V; log = g.GetLogValue(); p.NearV(w->dynamics->GetOrbit().GetPosition_i_m(), X, 3, 0, "truth-altered"); p.Obs({(double)cone, sd, (double)a, (double)k, (double)fix, P[0]}); }
  }, {3});
  Scenario("settings", "InitGnssReceiver: 2 sections x model {SIMPLE, CONE, other} x table calculated or not x 12 mountings x prescaler {0,2} x port or none: prescaler, half width, mounting, noise of each axis, lever arm (short or of orbit size) as written", [](Path& p) {
    static World* w = new World(); static environment::EarthRotation idle(environment::EarthRotationMode::kIdle); static std::shared_ptr<environment::GnssSatellites> gs, off(new environment::GnssSatellites(idle)); if (!gs) { std::string f = WriteFile("fleet.sp3", Product({2020, 6, 1}, 0, 9, 900, 39, [](int s, double) { return Fleet()[s]; }, {})); gs = std::make_shared<environment::GnssSatellites>(idle, true, false); gs->Initialize({gnss::Sp3FileReader(f)}, At({2020, 6, 1}, 3600)); }
    int id = p.Choose(2), model = p.Choose(3), mk = p.Choose(12), ps = p.PickI({0, 2}), axis = p.Choose(8); V3 arm = axis == 7 ? MakeV(1.5e6, -0.7e6, 0.9e6) : MakeV(0.1, 0.2, 0.3); bool calc = p.Flag("table"), port = p.Flag("port"); const char* nm[3] = {"SIMPLE", "CONE", "OTHER"}; Ini f; V3 X = w->dynamics->GetOrbit().GetPosition_i_m();
    for (int s = 0; s < 2; s++) { std::string S = "GNSS_RECEIVER_" + std::to_string(s); bool me = s == id; const Quat& q = Rotations()[(mk + (me ? 0 : 5)) % 12]; f.Set(S, "prescaler", me ? ps : 1).Set(S, "antenna_model", std::string(nm[me ? model : (model + 1) % 3])).SetV(S, "antenna_position_b_m", {me ? arm[0] : 1.0, me ? arm[1] : 2.0, me ? arm[2] : 3.0}).SetV(S, "quaternion_b2c", {q[0], q[1], q[2], q[3]}).Set(S, "antenna_half_width_deg", me ? 55. : 100.).SetV(S, "white_noise_standard_deviation_position_ecef_m", {me && axis == 0 ? 9. : 0, me && axis == 1 ? 9. : 0, me && axis == 2 ? 9. : 0}).SetV(S, "white_noise_standard_deviation_velocity_ecef_m_s", {me && axis == 3 ? 9. : 0, me && axis == 4 ? 9. : 0, me && axis == 5 ? 9. : 0}); }
    f.Set("POWER_PORT", "minimum_voltage_V", 3.3).Set("POWER_PORT", "assumed_power_consumption_W", 2.0); std::string path = f.Write("gnss.ini"); environment::ClockGenerator clk; clk.ClearTimerCount(); PowerPort pp(0, 10); auto* tb = calc ? gs.get() : off.get(); Quat at = Rotations()[(mk + 7) % 12]; w->dynamics->SetAttitude().SetQuaternion_i2b(at); GnssReceiver g = port ? InitGnssReceiver(&clk, &pp, id, path, w->dynamics.get(), tb, &w->time()) : InitGnssReceiver(&clk, id, path, w->dynamics.get(), tb, &w->time()); pp.SetVoltage_V(3.2); clk.TickToComponents(); if (port) p.Near(Norm(g.GetMeasuredPosition_ecef_m()), 0, 0, "gnss-unpowered"); pp.SetVoltage_V(3.4); for (int i = 0; i < 2; i++) clk.TickToComponents();
    V3 bore = MulT(RotOf(at), MulT(RotOf(Rotations()[mk]), MakeV(0, 0, 1))); bool cone = model == 1 && calc, fix; if (cone) { int v = 0; V3 ap = Add(X, MulT(RotOf(at), arm)); if (Norm(ap) < 6.5e6) throw Skip(); for (auto& fl : Fleet()) { V3 sp = Scale(1e3, fl), d = Sub(sp, ap); v += Dot(Unit(d), bore) > std::cos(Rad(55)) && !Blocked(ap, sp); } fix = v >= 4; p.Eq(Cells(g.GetLogValue())[16], v, "visible-satellites"); } else { if (std::fabs(Dot(X, bore)) < 1) throw Skip(); fix = Dot(X, bore) > 0; }
    p.Eq(Cells(g.GetLogValue())[15], fix, "gnss-fix"); if (fix) { V3 P = g.GetMeasuredPosition_ecef_m(), V = g.GetMeasuredVelocity_ecef_m_s(), E = w->dynamics->GetOrbit().GetPosition_ecef_m(), U = w->dynamics->GetOrbit().GetVelocity_ecef_m_s(); for (int i = 0; i < 3; i++) { p.Eq(P[i] != E[i], axis == i, "gnss-noise", "position axis"); p.Eq(V[i] != U[i], axis == 3 + i, "gnss-noise", "velocity axis"); } } p.Obs({(double)id, (double)model, (double)mk, (double)ps, (double)axis, (double)fix});
  }, {2});
  Scenario("product", "product files of {1,2,17,18,40} satellites x {1,2,9} epochs x position or velocity records x correlation records x record tail {none, deviations, flags, blank, cut flags} x velocity tail 3 x comments {0,5}: every field of every epoch and satellite; absent ones are rejected", [](Path& p) {
    Form fm; int n = p.PickI({1, 2, 17, 18, 40}), e = p.PickI({1, 2, 9}); fm.mode = p.Choose(2); fm.ep = p.Choose(2); fm.tail = p.Choose(5); fm.comments = p.PickI({0, 5}); if (fm.mode) fm.vtail = p.Choose(3); std::string f = WriteFile("p.sp3", Product({2021, 2, 28}, 0, e, 300, n, Orbiting, fm)); gnss::Sp3FileReader r(f); p.Eq(r.GetNumberOfEpoch(), e, "product-header"); p.Eq(r.GetNumberOfSatellites(), n, "product-header"); auto h = r.GetHeader(); p.Eq((int)h.mode_, fm.mode, "product-header"); p.Near(h.epoch_interval_s_, 300, 0, "product-header"); p.Eq(h.satellite_ids_.size(), n, "product-header"); for (int s = 0; s < n; s++) { p.Check(h.satellite_ids_[s] == F("G%02d", s + 1), "product-header", "satellite id"); p.Eq(h.satellite_accuracy_[s], s + 1, "product-header"); } p.Eq(h.start_epoch_.GetMonth(), 2, "product-header"); p.Eq(h.start_gps_time_.GetWeek(), 1734, "product-header"); p.Near(h.base_number_clock_, 1.025, 1e-12, "product-header");
    for (int k = 0; k < e; k++) { p.Eq(r.GetEpochData(k).GetMinute(), 5 * k, "product-epoch"); p.Eq(r.GetEpochData(k).GetDay(), 28, "product-epoch"); for (int s = 0; s < n; s++) { V3 w = Orbiting(s, 300 * k); p.NearV(r.GetSatellitePosition_km(k, s), w, 3, 6e-7, "product-position"); p.Near(r.GetSatelliteClockOffset(k, s), Clock(s, 300 * k), 6e-7, "product-clock"); auto c = r.GetPositionClock(k, s); p.Check(c.satellite_id_ == F("G%02d", s + 1), "product-id", "%s", c.satellite_id_.c_str()); bool dev = fm.tail == 1 || fm.tail == 2 || fm.tail == 4, fl = fm.tail == 2; if (fm.tail == 4) p.Check(c.clock_event_flag_ && !c.maneuver_flag_, "product-flags", "cut record"); p.Near(c.position_standard_deviation_[0], dev ? 1 + s : 0, 0, "product-deviation"); p.Near(c.position_standard_deviation_[2], dev ? 3 + k : 0, 0, "product-deviation"); p.Near(c.clock_standard_deviation_, dev ? 44 : 0, 0, "product-deviation"); if (fm.tail != 4) { p.Eq(c.clock_event_flag_, fl && k % 2, "product-flags"); p.Eq(c.clock_prediction_flag_, fl && s % 2, "product-flags"); p.Eq(c.maneuver_flag_, fl && k % 3, "product-flags"); p.Eq(c.orbit_prediction_flag_, fl, "product-flags"); } } }
    p.NearV(r.GetSatellitePosition_km(e, 0), MakeV(0, 0, 0), 3, 0, "absent-epoch"); p.NearV(r.GetSatellitePosition_km(0, n), MakeV(0, 0, 0), 3, 0, "absent-satellite"); p.NearV(r.GetSatellitePosition_km(e + 7, n + 3), MakeV(0, 0, 0), 3, 0, "absent-epoch"); time_system::DateTime zero, ab = r.GetEpochData(e); p.Eq(ab.GetYear(), zero.GetYear(), "absent-epoch"); for (double t : {-500., 0., 149., 151., 301., 1e5}) { double k = std::floor(std::max(0.0, t) / 300 + 0.5); p.Eq(r.SearchNearestEpochId(t < 0 ? At({2021, 2, 27}, 86400 + t) : At({2021, 2, 28}, std::min(t, 80000.0))), std::min((double)e - 1, k), "nearest-epoch"); } p.Obs({(double)n, (double)e, (double)fm.mode, (double)fm.ep, (double)fm.tail});
  }, {2});
  Scenario("large-products", "product files of {33,34,35,64,85,86,99,100,119,120,255} satellites x {1,3} epochs, and of 2 satellites x {96,97,255,256,257,288,999,1000,1440,2880} epochs: every record and header field", [](Path& p) {
    bool many = p.Flag("satellites"); int n = many ? p.PickI({33, 34, 35, 64, 85, 86, 99, 100, 119, 120, 255}) : 2, e = many ? p.PickI({1, 3}) : p.PickI({96, 97, 255, 256, 257, 288, 999, 1000, 1440, 2880}); double st = many ? 900 : 30; Form fm; fm.mode = p.Choose(2); std::string f = WriteFile("big.sp3", Product({2021, 2, 28}, 0, e, st, n, Orbiting, fm)); gnss::Sp3FileReader r(f); p.Eq(r.GetNumberOfEpoch(), e, "product-header"); p.Eq(r.GetNumberOfSatellites(), n, "product-header"); auto h = r.GetHeader(); p.Eq(h.satellite_ids_.size(), n, "product-header"); p.Eq(h.satellite_accuracy_.size(), n, "product-header"); p.Near(h.epoch_interval_s_, st, 0, "product-header");
    for (int i = 0; i < n; i++) { p.Check(h.satellite_ids_[i] == Sid(i), "product-header", "satellite id"); p.Eq(h.satellite_accuracy_[i], i + 1, "product-header"); }
    for (int k = 0; k < e; k++) { auto d = r.GetEpochData(k); p.Near(d.GetHour() * 3600 + d.GetMinute() * 60 + d.GetSecond(), st * k, 1e-6, "product-epoch"); for (int i = 0; i < n; i++) { p.NearV(r.GetSatellitePosition_km(k, i), Orbiting(i, st * k), 3, 6e-7, "product-position"); p.Near(r.GetSatelliteClockOffset(k, i), Clock(i, st * k), 6e-7, "product-clock"); p.Check(r.GetPositionClock(k, i).satellite_id_ == Sid(i), "product-id", "%d", i); } if (k % 7 == 0) p.Eq(r.SearchNearestEpochId(At({2021, 2, 28}, st * k + 1)), k, "nearest-epoch"); } p.NearV(r.GetSatellitePosition_km(e, 0), MakeV(0, 0, 0), 3, 0, "absent-epoch"); p.NearV(r.GetSatellitePosition_km(0, n), MakeV(0, 0, 0), 3, 0, "absent-satellite"); p.Obs({(double)n, (double)e, (double)fm.mode});
  }, {2});
  Scenario("table", "spans of {1,2,3} days of 900 s x start {0, 100 s, noon, one epoch / five epochs before the end of a day, last epoch} of each day x step {60, 900, 1000, 7200} s x 14 updates, 3 satellites: present positions and clocks, every epoch of the loaded window exactly, absent and earlier ones rejected, no failure at the end of the span", [](Path& p) {
    int days = p.PickI({1, 2, 3}), d0 = p.Choose(3); if (d0 >= days) throw Skip(); static const Day D[4] = {{2020, 2, 28}, {2020, 2, 29}, {2020, 3, 1}, {2020, 3, 2}}; double st = p.Pick({0, 100, 43200, 81900, 85500, 86399}), step = p.Pick({60, 900, 1000, 7200}); static std::vector<gnss::Sp3FileReader>* all = nullptr; if (!all) { all = new std::vector<gnss::Sp3FileReader>; for (int i = 0; i < 3; i++) { std::string f = WriteFile(F("d%d.sp3", i), Product(D[i], 86400. * i, 96, 900, 3, Orbiting, {})); all->push_back(gnss::Sp3FileReader(f)); } }
    static environment::EarthRotation idle(environment::EarthRotationMode::kIdle); environment::GnssSatellites g(idle, true, true); double t = 86400. * d0 + st, end = 86400. * days - 900; g.Initialize(std::vector<gnss::Sp3FileReader>(all->begin(), all->begin() + days), At(D[d0], st)); int h = (int)(st / 3600), m = (int)(st / 60) % 60; environment::SimulationTime clk(1e7, step, step, step, step, step, step, step, step, step, F("%d/%d/%d %d:%d:%.1f", D[d0].y, D[d0].m, D[d0].d, h, m, st - 3600 * h - 60 * m).c_str(), 0); p.Eq(g.GetNumberOfCalculatedSatellite(), 3, "satellite-count");
    double first = std::min(end - 7200, 86400. * d0 + 900 * std::max(0.0, std::min(95.0, std::floor(st / 900 + 0.5)) - 4)); p.Note("start %g of %d days, step %g", t, days, step);
    for (int k = 0; k < Q(14, 40); k++) { if (k) { clk.UpdateTime(); t += step; } g.Update(clk); double lead = t - first; (void)lead; double lo = t <= end - 3600 ? std::max(first, std::ceil((t + 1) / 900) * 900 - 3600) : end - 7200, hi = std::max(first + 7200, std::ceil((t - 1) / 900) * 900 + 3600); lo = std::max(lo, first); bool inside = t <= end;
      if (inside && t <= hi) for (int s = 0; s < 3; s++) { V3 w = Scale(1e3, Orbiting(s, t)); bool node = std::fabs(std::remainder(t, 900)) < 1e-6; V3 got = g.GetPosition_ecef_m(s); p.Check(Norm(Sub(got, w)) < (node ? 0.5 : 1500), "present-position", "t %g satellite %d: %g m off", t, s, Norm(Sub(got, w))); p.Near(g.GetClock_s(s), 1e-6 * Clock(s, t), 1e-11, "present-clock"); }
      // epochs of the window
      if (inside) for (double e = std::max(lo, first + 0.0); e <= std::min(end, hi); e += 900) { int d = (int)(e / 86400); auto T = At(D[d], e - 86400. * d); for (int s = 0; s < 3; s++) { V3 w = Scale(1e3, Orbiting(s, e)), got = g.GetPosition_ecef_m(s, T); p.Check(Norm(Sub(got, w)) < 0.01, "window-position", "t %g epoch %g satellite %d: %g m off", t, e, s, Norm(Sub(got, w))); p.Near(g.GetClock_s(s, T), 1e-6 * Clock(s, e), 1e-12, "window-clock"); } }
      if (first > 900) { double e = first - 900; int d = (int)(e / 86400); p.NearV(g.GetPosition_ecef_m(0, At(D[d], e - 86400. * d)), MakeV(0, 0, 0), 3, 0, "earlier"); p.Near(g.GetClock_s(0, At(D[d], e - 86400. * d)), 0, 0, "earlier"); } p.NearV(g.GetPosition_ecef_m(3), MakeV(0, 0, 0), 3, 0, "absent-satellite"); p.NearV(g.GetPosition_ecef_m(32), MakeV(0, 0, 0), 3, 0, "absent-satellite"); p.Near(g.GetClock_s(3), 0, 0, "absent-satellite"); if (inside && k % 5 == 0) { auto c = Cells(g.GetLogValue()); p.Eq(c.size(), 128, "table-log"); for (int s = 0; s < 4; s++) for (int a = 0; a < 3; a++) p.Near(c[4 * s + a], g.GetPosition_ecef_m(s)[a], 1e-6, "table-log"); }
      p.Obs({t, step, (double)days}); }
  }, {2});
  Scenario("span", "InitGnssSatellites over {1,2,3} days around {new year, leap year end, leap day, 2021 end} x start on a day before, in, after the span or with missing files: the table of the start day or none", [](Path& p) {
    static const Day B[4][3] = {{{2019, 12, 31}, {2020, 1, 1}, {2020, 1, 2}}, {{2020, 12, 31}, {2021, 1, 1}, {2021, 1, 2}}, {{2020, 2, 28}, {2020, 2, 29}, {2020, 3, 1}}, {{2021, 12, 30}, {2021, 12, 31}, {2022, 1, 1}}}; static const int Y[4][3] = {{2019365, 2020001, 2020002}, {2020366, 2021001, 2021002}, {2020059, 2020060, 2020061}, {2021364, 2021365, 2022001}}; int b = p.Choose(4), n = 1 + p.Choose(3), on = p.Choose(5); bool missing = on == 4; if (on == 4) on = 0; bool in = on < n; double st = p.Pick({0, 40000, 86000}); std::string dir = Scratch() + F("/span%d%d/", b, n); (void)!system(("rm -rf '" + dir + "' && mkdir -p '" + dir + "'").c_str()); for (int i = 0; i < n && !missing; i++) WriteFile(F("span%d%d/", b, n) + F("ABC0MGXFIN_%d0000_01D_15M_ORB.SP3", Y[b][i]), Product(B[b][i], 86400. * i, 96, 900, 4, Orbiting, {}));
    Ini f; f.Set("GNSS_SATELLITES", "calculation", std::string("ENABLE")).Set("GNSS_SATELLITES", "logging", std::string("ENABLE")).Set("GNSS_SATELLITES", "directory_path", dir).Set("GNSS_SATELLITES", "file_name_header", std::string("ABC0MGXFIN")).Set("GNSS_SATELLITES", "orbit_data_period", std::string("15M")).Set("GNSS_SATELLITES", "clock_file_name_footer", std::string("15M_ORB.SP3")).Set("GNSS_SATELLITES", "start_date", Y[b][0]).Set("GNSS_SATELLITES", "end_date", Y[b][n - 1]); std::string path = f.Write("gs.ini"); Day d = on < 3 ? B[b][on] : Day{2018, 5, 5}; if (on < 3 && on >= n) in = false; int h = (int)(st / 3600), m = (int)(st / 60) % 60; environment::SimulationTime clk(1e7, 1, 1, 1, 1, 1, 1, 1, 1, 1, F("%d/%d/%d %d:%d:%.1f", d.y, d.m, d.d, h, m, st - 3600 * h - 60 * m).c_str(), 0); static environment::EarthRotation idle(environment::EarthRotationMode::kIdle); std::unique_ptr<environment::GnssSatellites> g(environment::InitGnssSatellites(path, idle, clk)); bool ok = in && !missing && on < 3; p.Eq(g->GetNumberOfCalculatedSatellite(), ok ? 4 : 0, "span-count"); p.Check(g->IsCalcEnabled(), "span-enabled", "off"); g->Update(clk);
    for (int s = 0; s < 5; s++) { V3 w = ok && s < 4 ? Scale(1e3, Orbiting(s, 86400. * on + st)) : MakeV(0, 0, 0); bool tail = on == n - 1 && st > 85500; if (!tail) p.Check(Norm(Sub(g->GetPosition_ecef_m(s), w)) < (ok ? 1500 : 1e-9), "span-position", "satellite %d: %g m off", s, Norm(Sub(g->GetPosition_ecef_m(s), w))); } p.Outcome(ok ? "inside" : missing ? "missing" : "outside"); p.Obs({(double)b, (double)n, (double)on, st});
  });
  for (const char* o : {"inside", "missing", "outside"}) RequireOutcome("span", o);
  Scenario("environment", "the global environment with two days of products, started at {0, 40000, 85000} s of the first day in steps of {100, 700, 900} s, earth rotation idle or simple, 12 updates: satellites, clocks, earth rotation and inertial positions all belong to the time of the present update", [](Path& p) {
    double st = p.Pick({0, 40000, 85000}), step = p.Pick({100, 700, 900}); bool rot = p.Flag(); static std::string dir; if (dir.empty()) { dir = Scratch() + "/envp/"; (void)!system(("mkdir -p '" + dir + "'").c_str()); for (int i = 0; i < 2; i++) WriteFile(F("envp/ABC0MGXFIN_%d0000_01D_15M_ORB.SP3", 2020092 + i), Product(Day{2020, 4, 1 + i}, 86400. * i, 96, 900, 4, Orbiting, {})); }
    Settings s; s.gnss.Set("GNSS_SATELLITES", "calculation", "ENABLE").Set("GNSS_SATELLITES", "logging", "ENABLE").Set("GNSS_SATELLITES", "directory_path", dir).Set("GNSS_SATELLITES", "file_name_header", "ABC0MGXFIN").Set("GNSS_SATELLITES", "orbit_data_period", "15M").Set("GNSS_SATELLITES", "clock_file_name_footer", "15M_ORB.SP3").Set("GNSS_SATELLITES", "start_date", "2020092").Set("GNSS_SATELLITES", "end_date", "2020093");
    int h = (int)(st / 3600), m = (int)(st / 60) % 60; s.base.Set("TIME", "simulation_start_time_utc", F("2020/4/1 %d:%d:%.1f", h, m, st - 3600 * h - 60 * m)).Set("TIME", "simulation_step_s", step).Set("TIME", "simulation_duration_s", 1e6).Set("CELESTIAL_INFORMATION", "rotation_mode(0)", rot ? "SIMPLE" : "IDLE"); for (const char* k : {"attitude_update_period_s", "attitude_integral_step_s", "orbit_update_period_s", "orbit_integral_step_s", "thermal_update_period_s", "thermal_integral_step_s", "component_update_period_s", "log_output_period_s"}) s.base.Set("TIME", k, step);
    World w(s); auto& g = w.global->GetGnssSatellites(); p.Eq(g.GetNumberOfCalculatedSatellite(), 4, "satellite-count"); double last = -1;
    for (int k = 1; k <= 12; k++) {
      w.global->Update(); double t = st + k * step; p.Near(w.time().GetElapsedTime_s(), k * step, 1e-6, "setup"); p.Note("update %d", k);
      environment::EarthRotation own(rot ? environment::EarthRotationMode::kSimple : environment::EarthRotationMode::kIdle); own.Update(w.time().GetCurrentTime_jd()); auto a = own.GetDcmJ2000ToEcef(), b = w.cel().GetEarthRotation().GetDcmJ2000ToEcef(); for (int i = 0; i < 3; i++) p.NearV(MakeV(b[i][0], b[i][1], b[i][2]), MakeV(a[i][0], a[i][1], a[i][2]), 3, 1e-12, "present-rotation"); p.Check(!rot || b[0][0] != last, "present-rotation", "the earth stands still"); last = b[0][0];
      for (int x = 0; x < 4; x++) { V3 e = g.GetPosition_ecef_m(x); p.Check(Norm(Sub(e, Scale(1e3, Orbiting(x, t)))) < 1500, "present-satellites", "satellite %d at %g: %g m off", x, t, Norm(Sub(e, Scale(1e3, Orbiting(x, t))))); p.Near(g.GetClock_s(x), 1e-6 * Clock(x, t), 1e-11, "present-clocks"); V3 c; for (int i = 0; i < 3; i++) c[i] = a[0][i] * e[0] + a[1][i] * e[1] + a[2][i] * e[2]; p.NearV(g.GetPosition_eci_m(x), c, 3, 1, "present-inertial"); } p.Obs({st, step, (double)rot, (double)k});
    }
  }, {1});
}
