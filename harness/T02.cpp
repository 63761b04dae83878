// Controlled attitude: pointing of the main axis, best sub axis, rate of the flown attitude.
#include <dynamics/attitude/controlled_attitude.hpp>
#include <dynamics/attitude/initialize_attitude.hpp>
#include <dynamics/orbit/orbit.hpp>
#include <environment/global/physical_constants.hpp>
#include <sstream>
#include "env.hpp"
using namespace mc; using namespace env; using namespace s2e::dynamics::attitude; using Mat3 = s2e::math::Matrix<3, 3>; using s2e::geodesy::GeodeticPosition;
const char* kProperty = "T02";
const char* kAssumptions = "Body axes of the two targets at least 30 degrees apart, as the settings file requires. The rate is compared with the rotation between successive attitudes up to 0.5 rad per update, to the cube of that angle (both the chord and the arc are accepted). The reported torque is compared with the change of the angular momentum, to the size of the change of the gyroscopic term in one update.";
static const char* kModes[7] = {"INERTIAL_STABILIZE", "SUN_POINTING", "EARTH_CENTER_POINTING", "VELOCITY_DIRECTION_POINTING", "GROUND_SPEED_DIRECTION_POINTING", "ORBIT_NORMAL_POINTING", "EARTH_SURFACE_POINTING"};
class FixedOrbit : public s2e::dynamics::orbit::Orbit { public: using Orbit::Orbit; void Set(const V3& r, const V3& v) { spacecraft_position_i_m_ = r; spacecraft_velocity_i_m_s_ = v; TransformEciToEcef(); TransformEcefToGeodetic(); } void Propagate(const double, const double) override {} };
struct Stage {
  World w; FixedOrbit orbit; s2e::environment::LocalCelestialInformation local; V3 sun, r, v; double lat = 0, lon = 0, alt = 0;
  static Settings Set() { Settings s; s.base.Set("CELESTIAL_INFORMATION", "rotation_mode", "SIMPLE"); return s; }
  Stage() : w(Set()), orbit(&w.cel()), local(&w.cel()) {}
  void Refresh(const V3& s, const V3& r_, const V3& v_, bool own = true) { sun = s; r = r_; v = v_; SetBody("SUN", s); const_cast<s2e::environment::CelestialInformation&>(w.cel()).UpdateAllObjectsInformation(w.time()); orbit.Set(r, v); if (own) local.UpdateAllObjectsInformation(r, v, Quat(0, 0, 0, 1), MakeV(0, 0, 0)); }
  // independent target directions
  V3 Target(int m) const {
    switch (m) { case 1: return Sub(sun, r); case 2: return Scale(-1, r); case 3: return v; case 4: return Sub(v, Cross(MakeV(0, 0, s2e::environment::earth_mean_angular_velocity_rad_s), r)); case 5: return Cross(r, v); }
    double a = s2e::environment::earth_equatorial_radius_m, f = s2e::environment::earth_flattening, e2 = f * (2 - f), n = a / std::sqrt(1 - e2 * sin(lat) * sin(lat)); V3 t = MakeV((n + alt) * cos(lat) * cos(lon), (n + alt) * cos(lat) * sin(lon), (n * (1 - e2) + alt) * sin(lat)); auto d = w.cel().GetEarthRotation().GetDcmJ2000ToEcef(); V3 o; for (int i = 0; i < 3; i++) o[i] = d[0][i] * t[0] + d[1][i] * t[1] + d[2][i] * t[2]; return Sub(o, r);
  }
};
static Rot Proper(Path& p, const Quat& q) { double n = 0; for (int i = 0; i < 4; i++) n += q[i] * q[i]; p.Near(n, 1, 1e-9, "proper-rotation"); return RotOf(q); }
static void Pointing(Path& p, const Rot& R, const V3& mt, const V3& st, const V3& mb, const V3& sb) {
  V3 a = Mul(R, Unit(mt)), m = Unit(mb), s = Unit(sb), t = Unit(st); p.NearV(a, m, 3, 1e-9, "main-axis"); double c = Dot(Unit(mt), t); if (std::fabs(c) > 1 - 1e-9) { p.Outcome("collinear targets"); return; }
  double cb = Dot(m, s); V3 u = Unit(Sub(t, Scale(c, Unit(mt)))), wv = Unit(Sub(s, Scale(cb, m))); p.NearV(Mul(R, u), wv, 3, 1e-8 / std::sqrt(1 - c * c), "sub-axis"); p.Outcome("general");
}
static int g_id = 1000;
static std::string Name() { return "t02_" + std::to_string(g_id++); }
static Stage* g_stage = nullptr;
static Stage& Get() { if (!g_stage) g_stage = new Stage(); return *g_stage; }
static V3 Dir(int i) { return Directions26()[i]; }
static const double kSun[6][3] = {{1, 0, 0}, {0, 0, 1}, {-.3, .9, .2}, {.7, -.6, -.4}, {-1, 0, 0}, {0, -1, 0}};
static const double kOrb[6][6] = {{7e6, 0, 0, 0, 7500, 0}, {0, -7.2e6, 0, 0, 0, 7400}, {4e6, 4e6, -4e6, -5000, 3000, -2000}, {-2e7, 1e7, 3e7, 1000, 2500, -900}, {0, 0, 7e6, 7500, 0, 0}, {42164000, 0, 0, 0, 3074.66, 0}};
static std::map<std::string, double> Columns(const s2e::logger::ILoggable& o) { std::map<std::string, double> m; std::stringstream h(o.GetLogHeader()), v(o.GetLogValue()); std::string a, b; while (std::getline(h, a, ',') && std::getline(v, b, ',')) m[a] = atof(b.c_str()); return m; }

void Register() {
  Scenario("pointing", "all 36 pairs of pointing modes (sub mode may also be the target-less inertial one) x 6 sun directions x 6 orbit states (also with collinear targets) x body axis pairs: 26 main x 26 sub directions at least 30 degrees apart, scaled and unscaled: main axis on target, sub axis closest, proper rotation", [](Path& p) {
    int mm = 1 + p.Choose(6), sm = p.Choose(7), si = p.Choose(6), oi = p.Choose(6); if (mm == sm) throw Skip(); Stage& s = Get(); s.lat = .6; s.lon = 2.4; s.alt = 100; const double* o = kOrb[oi]; s.Refresh(Scale(1.5e11, Unit(MakeV(kSun[si][0], kSun[si][1], kSun[si][2]))), MakeV(o[0], o[1], o[2]), MakeV(o[3], o[4], o[5])); static Mat3 I(0.0); V3 mt = s.Target(mm), st = sm ? s.Target(sm) : mt; int step = Q(3, 1);
    for (int a = 0; a < 26; a += step) for (int b = 0; b < 26; b++) { V3 m = Dir(a), d = Scale(1 + b % 3, Dir(b)); if (std::fabs(Dot(Unit(m), Unit(d))) > .86) continue; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) I[i][j] = i == j ? 2 + i : .1; p.Note("%s/%s body %d/%d", kModes[mm], kModes[sm], a, b);
      ControlledAttitude c((AttitudeControlMode)mm, (AttitudeControlMode)sm, Quat(0, 0, 0, 1), m, d, I, GeodeticPosition(s.lat, s.lon, s.alt), &s.local, &s.orbit, Name()); c.Propagate(1); Rot R = Proper(p, c.GetQuaternion_i2b()); Pointing(p, R, mt, st, m, d); V3 w = c.GetAngularVelocity_b_rad_s(); p.NearV(w, MakeV(0, 0, 0), 3, 0, "first-rate"); p.Obs({(double)mm, (double)sm, (double)si, (double)oi, (double)a, (double)b}); }
  });
  RequireOutcome("pointing", "general"); RequireOutcome("pointing", "collinear targets");
  Scenario("surface-target", "13 latitudes x 12 longitudes x 3 altitudes of the ground target x 2 spacecraft states, as main and as sub target: the axis passes through the target point", [](Path& p) {
    Stage& s = Get(); s.lat = (p.Choose(13) - 6) * M_PI / 12; s.lon = (p.Choose(12) - 5) * M_PI / 6; s.alt = p.Pick({0, 5000, -400}); int oi = p.PickI({2, 3}); bool sub = p.Flag(); const double* o = kOrb[oi]; s.Refresh(MakeV(1.5e11, 1e10, 0), MakeV(o[0], o[1], o[2]), MakeV(o[3], o[4], o[5])); static Mat3 I(0.0); for (int i = 0; i < 3; i++) I[i][i] = 1; V3 m = MakeV(0, 0, 1), d = MakeV(1, 0, 0);
    ControlledAttitude c(sub ? AttitudeControlMode::kSunPointing : AttitudeControlMode::kEarthSurfacePointing, sub ? AttitudeControlMode::kEarthSurfacePointing : AttitudeControlMode::kSunPointing, Quat(0, 0, 0, 1), m, d, I, GeodeticPosition(s.lat, s.lon, s.alt), &s.local, &s.orbit, Name()); c.Propagate(1); Pointing(p, Proper(p, c.GetQuaternion_i2b()), s.Target(sub ? 1 : 6), s.Target(sub ? 6 : 1), m, d); p.Obs({s.lat, s.lon, s.alt, (double)oi, (double)sub}); }, {3});
  Scenario("rate", "all 30 pairs of distinct pointing modes x 4 orbit planes x 3 body axis pairs x 4 step lengths x 2 patterns of update instants (the uneven one with wheels running) x steps of seconds and of milliseconds, over one revolution and a quarter: every attitude on target, and the rate is the rotation between the two last attitudes over the elapsed time, in the body frame; momentum, energy and torque belong to that motion", [](Path& p) {
    int mm = 1 + p.Choose(6), sm = 1 + p.Choose(6), pl = p.Choose(4), ax = p.Choose(3); double th = p.Pick({.01, .05, .2, .49}) / (Thorough() ? 5 : 1); bool alt = p.Flag(); double fast = p.Pick({1, 1e-3}); V3 hw = alt ? MakeV(2e-3, -1e-3, 3e-3) : MakeV(0, 0, 0); if (mm == sm) throw Skip(); Stage& s = Get(); s.lat = -.3; s.lon = 1; s.alt = 0; static Mat3 I(0.0); for (int i = 0; i < 3; i++) I[i][i] = 1 + i; I[0][1] = I[1][0] = .2; I[1][2] = I[2][1] = -.3; V3 w0 = MakeV(0, 0, 0);
    static const double P[4][6] = {{1, 0, 0, 0, cos(.9), sin(.9)}, {0, 1, 0, -.1736481776669303, 0, .984807753012208}, {.6, .8, 0, -.8 * cos(.4), .6 * cos(.4), sin(.4)}, {0, 0, 1, .28, .96, 0}}; V3 e1 = MakeV(P[pl][0], P[pl][1], P[pl][2]), e2 = MakeV(P[pl][3], P[pl][4], P[pl][5]); static const double B[3][6] = {{1, 0, 0, 0, 0, 1}, {.3, -.5, .8, 1, 0, 0}, {0, -2, 0, .5, 0, -.5}}; V3 mb = MakeV(B[ax][0], B[ax][1], B[ax][2]), sb = MakeV(B[ax][3], B[ax][4], B[ax][5]); double rr = 9e6, n = std::sqrt(3.986e14 / rr / rr / rr); std::unique_ptr<ControlledAttitude> c; Rot R0; double t = 0, ph = 0; int k = 0;
    while (ph < 2.5 * M_PI) { double dt = th / n * fast * (alt && k % 2 ? .5 : 1); t += dt; ph += dt * n / fast; s.Refresh(MakeV(1.2e11, -7e10, 5e10), Scale(rr, Add(Scale(cos(ph), e1), Scale(sin(ph), e2))), Scale(rr * n, Add(Scale(-sin(ph), e1), Scale(cos(ph), e2))));
      if (!c) c.reset(new ControlledAttitude((AttitudeControlMode)mm, (AttitudeControlMode)sm, Quat(0, 0, 0, 1), mb, sb, I, GeodeticPosition(s.lat, s.lon, s.alt), &s.local, &s.orbit, Name())); c->SetTorque_b_Nm(MakeV(0, 0, 0)); c->SetRwAngularMomentum_b_Nms(hw); c->Propagate(t); Rot R = Proper(p, c->GetQuaternion_i2b()); if (k < 12 || k % 8 == 0) p.Note("%s/%s t %g phase %g", kModes[mm], kModes[sm], t, ph); Pointing(p, R, s.Target(mm), s.Target(sm), mb, sb);
      if (k) { // D = R R0^T maps old body components to new ones: rotation by -theta about the axis
        double D[3][3]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { D[i][j] = 0; for (int l = 0; l < 3; l++) D[i][j] += R.m[i][l] * R0.m[j][l]; } V3 x = MakeV((D[1][2] - D[2][1]) / 2, (D[2][0] - D[0][2]) / 2, (D[0][1] - D[1][0]) / 2); double sn = Norm(x), cs = (D[0][0] + D[1][1] + D[2][2] - 1) / 2, ang = std::atan2(sn, cs); V3 want = sn > 1e-14 ? Scale(ang / dt / sn, x) : MakeV(0, 0, 0); if (ang < .5) { p.NearV(c->GetAngularVelocity_b_rad_s(), want, 3, ang * ang * ang / 20 / dt + 1e-8 / dt, "rate"); p.Outcome("rate compared"); } }
      { auto h = [&](const V3& v) { return V3(I * v); }; V3 w = c->GetAngularVelocity_b_rad_s(); auto L = Columns(*c); double H = Norm(Add(h(w), hw)), E = Dot(w, h(w)) / 2; p.Near(L["spacecraft_total_angular_momentum[Nms]"], H, 1e-5 * H + 1e-12, "momentum"); p.Near(L["spacecraft_kinematic_energy[J]"], E, 1e-5 * E + 1e-15, "energy");
        if (k > 1) { V3 want = Add(Scale(1 / dt, h(Sub(w, w0))), Cross(w, h(w))), got = MakeV(L["spacecraft_torque_b_x[Nm]"], L["spacecraft_torque_b_y[Nm]"], L["spacecraft_torque_b_z[Nm]"]); p.NearV(got, want, 3, 1e-5 * Norm(want) + 4 * Norm(Sub(w, w0)) * (Norm(w) + Norm(w0)) + 1e-12, "torque"); } w0 = w; }
      R0 = R; k++; p.Obs({(double)mm, (double)sm, (double)pl, (double)ax, ph}); }
  }, {3});
  RequireOutcome("rate", "rate compared");
  Scenario("settings", "every pair of the 8 mode strings for propagation mode and for initialisation mode CONTROLLED x 3 attitudes: the object built from the settings file points with the axes and the target position written there; inertial stabilisation, unknown modes and coinciding modes keep the given attitude", [](Path& p) {
    int mm = p.Choose(8), sm = p.Choose(8), use = p.Choose(2), qi = p.PickI({0, 4, 10}), fresh = p.Choose(2); Stage& s = Get(); s.lat = 35.5 * M_PI / 180; s.lon = 139.25 * M_PI / 180; s.alt = 250000; Quat q = Rotations()[qi]; std::unique_ptr<s2e::environment::LocalCelestialInformation> nl(new s2e::environment::LocalCelestialInformation(&s.w.cel())); s.Refresh(MakeV(1.2e11, -7e10, 5e10), MakeV(4e6, 4e6, -4e6), MakeV(-5000, 3000, -2000)); auto str = [](int i) { return i < 7 ? kModes[i] : "NO_SUCH_MODE"; };
    V3 mb = MakeV(0, .6, -.8), sb = MakeV(1, .1, 0); Ini f; f.Set("ATTITUDE", "propagate_mode", use ? "RK4" : "CONTROLLED").Set("ATTITUDE", "initialize_mode", use ? "CONTROLLED" : "MANUAL").SetV("ATTITUDE", "initial_angular_velocity_b_rad_s", {.1, .2, .3}).SetV("ATTITUDE", "initial_quaternion_i2b", {q[0], q[1], q[2], q[3]}).SetV("ATTITUDE", "initial_torque_b_Nm", {0, 0, 0});
    f.Set("CONTROLLED_ATTITUDE", "main_mode", str(mm)).Set("CONTROLLED_ATTITUDE", "sub_mode", str(sm)).Set("CONTROLLED_ATTITUDE", "main_pointing_direction_b", mb).Set("CONTROLLED_ATTITUDE", "sub_pointing_direction_b", sb).Set("CONTROLLED_ATTITUDE", "target_position_latitude_deg", 35.5).Set("CONTROLLED_ATTITUDE", "target_position_longitude_deg", 139.25).Set("CONTROLLED_ATTITUDE", "target_position_altitude_m", s.alt);
    static Mat3 I(0.0); for (int i = 0; i < 3; i++) I[i][i] = 1 + i; std::unique_ptr<Attitude> a(InitAttitude(f.Write("t02.ini"), &s.orbit, fresh ? nl.get() : &s.local, .1, I, g_id++)); bool ctl = mm > 0 && mm < 7 && sm < 7 && mm != sm; p.Note("%s %s/%s %s", use ? "initialise" : "propagate", str(mm), str(sm), fresh ? "before the first update" : "");
    V3 hw = MakeV(3, -4, 12); a->SetRwAngularMomentum_b_Nms(hw); if (!use) { a->Propagate(.1); if (sm < 7 && mm < 7 && (mm == 0 || mm != sm)) p.Near(Columns(*a)["spacecraft_total_angular_momentum[Nms]"], 13, 1e-4, "momentum-with-wheels"); } else { V3 w = a->GetAngularVelocity_b_rad_s(); p.NearV(w, MakeV(0, 0, 0), 3, 0, "initial-rate"); }
    Rot R = Proper(p, a->GetQuaternion_i2b()); if (ctl && !(fresh && !use)) { if (sm) Pointing(p, R, s.Target(mm), s.Target(sm), mb, sb); else p.NearV(Mul(R, Unit(s.Target(mm))), Unit(mb), 3, 1e-9, "main-axis"); } else if (!ctl) { Rot r0 = RotOf(q); for (int i = 0; i < 3; i++) p.NearV(R.m[i], r0.m[i], 3, 1e-12, "kept"); p.Outcome("kept"); } p.Obs({(double)mm, (double)sm, (double)use, (double)qi, (double)fresh});
  });
  RequireOutcome("settings", "kept"); RequireOutcome("settings", "general");
}
