// Relative information of formations against the absolute states, and the relative orbit against Hill's equations and two-body motion.
#include <simulation/multiple_spacecraft/relative_information.hpp>
#include <dynamics/orbit/initialize_orbit.hpp>
#include <sstream>
#include "env.hpp"
using namespace mc; using namespace env; using s2e::simulation::RelativeInformation; using s2e::dynamics::Dynamics;
const char* kProperty = "O04";
const char* kAssumptions = "The reference spacecraft of a relative orbit has the lower number, is registered and is updated first, as the simulation case does. Closed-form relative propagation is examined about circular reference orbits, for which it is defined; about eccentric ones only the transformation to the absolute state is.";
static double Mu(); // the gravity constant the simulation gives to its orbits
struct PV { V3 r, v; };
struct Frame { V3 x, y, z, w; };
static Frame Lvlh(const PV& s) { Frame f; f.x = Unit(s.r); f.z = Unit(Cross(s.r, s.v)); f.y = Cross(f.z, f.x); f.w = Scale(1 / Dot(s.r, s.r), Cross(s.r, s.v)); return f; }
static V3 To(const Frame& f, const V3& a) { return MakeV(Dot(f.x, a), Dot(f.y, a), Dot(f.z, a)); }
static V3 From(const Frame& f, const V3& a) { return Add(Scale(a[0], f.x), Add(Scale(a[1], f.y), Scale(a[2], f.z))); }
static void Two(PV& s, double t) { int n = std::max(1, (int)std::ceil(t)); double d = t / n; auto f = [](const V3& r) { double k = Norm(r); return Scale(-Mu() / (k * k * k), r); }; for (int i = 0; i < n; i++) { V3 r = s.r, v = s.v, a1 = f(r), v2 = Add(v, Scale(d / 2, a1)), a2 = f(Add(r, Scale(d / 2, v))), v3 = Add(v, Scale(d / 2, a2)), a3 = f(Add(r, Scale(d / 2, v2))), v4 = Add(v, Scale(d, a3)), a4 = f(Add(r, Scale(d, v3))); s.r = Add(r, Scale(d / 6, Add(Add(v, v4), Scale(2, Add(v2, v3))))); s.v = Add(v, Scale(d / 6, Add(Add(a1, a4), Scale(2, Add(a2, a3))))); } }
static s2e::dynamics::orbit::Orbit& Orb(Dynamics& d) { return const_cast<s2e::dynamics::orbit::Orbit&>(d.GetOrbit()); }
static PV Of(const Dynamics& d) { return {d.GetOrbit().GetPosition_i_m(), d.GetOrbit().GetVelocity_i_m_s()}; }
static World& W() { static World* w = nullptr; if (!w) { Settings s; w = new World(s); w->dynamics.reset(); const_cast<s2e::environment::CelestialInformation&>(w->cel()).UpdateAllObjectsInformation(w->time()); } return *w; }
static PV Start(int k) { // four different orbits: near each other, far away, retrograde, eccentric
  double r = k == 1 ? 7.0001e6 : k == 2 ? 2.6e7 : 7e6, c = std::sqrt(Mu() / r);
  switch (k) { case 0: return {MakeV(r, 0, 0), MakeV(0, c * .6, c * .8)}; case 1: return {MakeV(r, 100, -30), MakeV(.1, c * .6, c * .8 + .2)}; case 2: return {MakeV(0, -r, 0), MakeV(c * .3, 0, -c * .9)}; default: return {Scale(r, Unit(MakeV(1, 2, -1))), Scale(1.2 * c, Unit(MakeV(-2, 1, .1)))}; } }
static double Mu() { static double m = W().cel().GetCenterBodyGravityConstant_m3_s2(); return m; }
static std::vector<std::unique_ptr<Dynamics>> Fleet(const std::vector<int>& ids, RelativeInformation* ri) {
  World& w = W(); w.cfg.spacecraft_file_list_.clear(); int top = 0; for (int id : ids) top = std::max(top, id + 1); for (int i = 0; i < top; i++) { if (i >= 4) { w.cfg.spacecraft_file_list_.push_back(w.cfg.spacecraft_file_list_[i % 4]); continue; } Ini s = w.set.sat; PV p = Start(i % 4); s.Set("ORBIT", "calculation", "ENABLE").Set("ORBIT", "initial_position_i_m", p.r).Set("ORBIT", "initial_velocity_i_m_s", p.v); w.cfg.spacecraft_file_list_.push_back(s.Write("o04_" + std::to_string(i) + ".ini")); }
  std::vector<std::unique_ptr<Dynamics>> f; for (int id : ids) f.emplace_back(new Dynamics(&w.cfg, &w.time(), w.local.get(), id, w.structure.get(), ri)); return f;
}
// position, velocity, earth-fixed and geodetic outputs describe one point
static void OnePoint(Path& p, const s2e::dynamics::orbit::Orbit& o) {
  V3 r = o.GetPosition_i_m(), v = o.GetVelocity_i_m_s(), e = o.GetPosition_ecef_m(), ve = o.GetVelocity_ecef_m_s(); auto d = W().cel().GetEarthRotation().GetDcmJ2000ToEcef(); V3 u = Sub(v, Cross(MakeV(0, 0, s2e::environment::earth_mean_angular_velocity_rad_s), r)), x, y; for (int i = 0; i < 3; i++) { x[i] = d[i][0] * r[0] + d[i][1] * r[1] + d[i][2] * r[2]; y[i] = d[i][0] * u[0] + d[i][1] * u[1] + d[i][2] * u[2]; }
  p.NearV(e, x, 3, 1e-9 * Norm(r), "earth-fixed-position"); p.NearV(ve, y, 3, 1e-9 * Norm(v) + 1e-9 * Norm(r) * 1e-4, "earth-fixed-velocity"); double lat = o.GetLatitude_rad(), lon = o.GetLongitude_rad(), h = o.GetAltitude_m(), a = s2e::environment::earth_equatorial_radius_m, f = s2e::environment::earth_flattening, e2 = f * (2 - f), n = a / std::sqrt(1 - e2 * sin(lat) * sin(lat)); p.NearV(MakeV((n + h) * cos(lat) * cos(lon), (n + h) * cos(lat) * sin(lon), (n * (1 - e2) + h) * sin(lat)), e, 3, .01 + 1e-9 * Norm(r), "geodetic");
  V3 l = o.GetLatLonAlt(); p.Check(l[0] == lat && l[1] == lon && l[2] == h, "geodetic", "vector differs");
}
static std::vector<std::string> Split(const std::string& s) { std::vector<std::string> o; std::stringstream t(s); std::string x; while (std::getline(t, x, ',')) o.push_back(x); return o; }
static void Pair(Path& p, RelativeInformation& ri, int t, int r, const Dynamics& dt, const Dynamics& dr) {
  PV a = Of(dt), b = Of(dr); V3 d = Sub(a.r, b.r), v = Sub(a.v, b.v); double n = Norm(d), e = 1e-9 * (Norm(a.r) + Norm(b.r)) + 1e-9, ev = 1e-9 * (Norm(a.v) + Norm(b.v)); Frame f = Lvlh(b); p.Note("pair %d from %d", t, r);
  p.NearV(ri.GetRelativePosition_i_m(t, r), d, 3, e, "position"); p.NearV(ri.GetRelativeVelocity_i_m_s(t, r), v, 3, ev, "velocity"); p.Near(ri.GetRelativeDistance_m(t, r), n, e, "distance"); p.NearV(ri.GetRelativePosition_rtn_m(t, r), To(f, d), 3, e, "position-rtn"); p.NearV(ri.GetRelativeVelocity_rtn_m_s(t, r), To(f, Sub(v, Cross(f.w, d))), 3, ev * 2, "velocity-rtn");
  Rot qt = RotOf(dt.GetAttitude().GetQuaternion_i2b()), qr = RotOf(dr.GetAttitude().GetQuaternion_i2b()), q = RotOf(ri.GetRelativeAttitudeQuaternion(t, r)); for (int i = 0; i < 3; i++) { V3 x = MakeV(i == 0, i == 1, i == 2); p.NearV(Mul(q, Mul(qr, x)), Mul(qt, x), 3, 1e-9, "attitude"); }
  p.NearV(ri.GetRelativePosition_i_m(r, t), Scale(-1, d), 3, e, "antisymmetry"); p.NearV(ri.GetRelativeVelocity_i_m_s(r, t), Scale(-1, v), 3, ev, "antisymmetry"); p.Check(ri.GetReferenceSatDynamics(r) == &dr, "registered-dynamics", "reference %d", r);
  p.Obs({(double)t, (double)r, d[0], v[0], q.m[0][1]});
}
void Register() {
  Scenario("pairs", "every history of 5 (thorough 7) registrations and removals over the spacecraft numbers 0, 1, 2 and 12, the orbits and attitudes moving in between, relative information of every registered pair in both directions and of the log after every update", [](Path& p) {
    static const std::vector<int> kId = {0, 1, 2, 12}; RelativeInformation ri; auto f = Fleet(kId, &ri); bool in[4] = {}; double t = 0; int n = Q(5, 7); std::string order;
    for (int k = 0; k < n; k++) {
      int c = p.Choose(k == 0 ? 4 : 5); if (c < 4) { if (in[c]) ri.RemoveDynamicsInfo(kId[c]); else ri.RegisterDynamicsInfo(kId[c], f[c].get()); in[c] = !in[c]; p.Note("%s %d", in[c] ? "register" : "remove", kId[c]); } else { t += 50; for (auto& d : f) Orb(*d).Propagate(t, W().time().GetCurrentTime_jd() + t / 86400); p.Note("move"); }
      for (int i = 0; i < 4; i++) f[i]->SetAttitude().SetQuaternion_i2b(Rotations()[(3 * i + k + 2) % 12]);
      ri.Update(); int m = 0; for (int a = 0; a < 4; a++) if (in[a]) { m++; for (int b = 0; b < 4; b++) if (in[b]) Pair(p, ri, kId[a], kId[b], *f[a], *f[b]); }
      p.Outcome("registered " + std::to_string(m)); if (c < 4 && !in[c] && m) p.Outcome("removed");
      auto h = Split(ri.GetLogHeader()), v = Split(ri.GetLogValue()); p.Eq((long)h.size(), (long)v.size(), "log-columns"); p.Eq((long)h.size(), (long)(m * (m - 1) / 2 * 12), "log-columns"); static const char* what[4] = {"_position_from_satellite", "_velocity_from_satellite", "_position_from_satellite", "_velocity_from_satellite"}; static const char* suf[4] = {"_i_", "_i_", "_rtn_", "_rtn_"}; size_t pos = 0;
      for (int q = 0; q < 4; q++) for (int a = 0; a < 4; a++) for (int b = 0; b < a; b++) if (in[a] && in[b]) { V3 x = q == 0 ? ri.GetRelativePosition_i_m(kId[a], kId[b]) : q == 1 ? ri.GetRelativeVelocity_i_m_s(kId[a], kId[b]) : q == 2 ? ri.GetRelativePosition_rtn_m(kId[a], kId[b]) : ri.GetRelativeVelocity_rtn_m_s(kId[a], kId[b]); for (int i = 0; i < 3; i++, pos++) { std::string want = "satellite" + std::to_string(kId[a]) + what[q] + std::to_string(kId[b]) + suf[q]; if (pos >= h.size()) break; p.Check(h[pos].compare(0, want.size(), want) == 0, "log-name", "%s", h[pos].c_str()); p.Near(atof(v[pos].c_str()), x[i], 1e-4 * std::fabs(x[i]) + 1e-9, "log-value"); } }
    }
  }, {3});
  for (const char* s : {"registered 0", "registered 1", "registered 2", "registered 3", "registered 4", "removed"}) RequireOutcome("pairs", s);
  Scenario("many", "fleets of {9, 17, 33, 65} spacecraft (numbers {0.., every second, from 90 down}), all registered, every 3rd removed again, orbits moving: relative information of every registered pair, and a log with every pair once", [](Path& p) {
    int n = p.PickI({9, 17, 33, 65}), how = p.Choose(3); std::vector<int> id; for (int i = 0; i < n; i++) id.push_back(how == 0 ? i : how == 1 ? 2 * i : 90 - i); RelativeInformation ri; auto f = Fleet(id, &ri); for (int i = 0; i < n; i++) ri.RegisterDynamicsInfo(id[i], f[i].get());
    for (int k = 0; k < 2; k++) { if (k) for (int i = 0; i < n; i += 3) ri.RemoveDynamicsInfo(id[i]); double t = 50 * (k + 1); for (int i = 0; i < n; i++) { Orb(*f[i]).Propagate(t + i, W().time().GetCurrentTime_jd() + t / 86400); f[i]->SetAttitude().SetQuaternion_i2b(Rotations()[(5 * i + k + 2) % 12]); } ri.Update(); int m = 0; for (int a = 0; a < n; a++) if (!k || a % 3) { m++; for (int b = 0; b < n; b += 1 + n / 20) if (!k || b % 3) Pair(p, ri, id[a], id[b], *f[a], *f[b]); } auto h = Split(ri.GetLogHeader()), v = Split(ri.GetLogValue()); p.Eq((long)h.size(), (long)(m * (m - 1) / 2 * 12), "log-columns"); p.Eq((long)v.size(), (long)h.size(), "log-columns"); }
  });
  Scenario("relative-orbit", "state-transition and integrated propagation x 3 circular reference orbits (high and inclined, retrograde) x 7 initial relative states x 3 integration steps: every one of the 32 (thorough 256) divisions of 5 (8) times 60 s into updates, then up to an orbit; relative motion by Hill's equations, absolute state = reference + rotated relative, near the two-body motion of a neighbour", [](Path& p) {
    int method = p.Choose(2), oi = p.Choose(3), ri0 = p.Choose(7); static const int kRef[7] = {1, 0, 2, 12, 1, 3, 40}; int refid = kRef[ri0]; double step = method == 0 ? p.Pick({10, 7, 60}) : 10; double a = oi == 1 ? 4.2164e7 : 7e6, c = std::sqrt(Mu() / a), w = std::sqrt(Mu() / (a * a * a)); PV ref = oi == 0 ? PV{MakeV(a, 0, 0), MakeV(0, c * .6, c * .8)} : oi == 1 ? PV{Scale(a, Unit(MakeV(1, 1, .1))), Scale(c, Unit(Cross(MakeV(0, .1, 1), MakeV(1, 1, .1))))} : PV{MakeV(0, a, 0), Scale(c, Unit(MakeV(1, 0, .2)))};
    static const double S[7][6] = {{0, 0, 0, 0, 0, 0}, {100, 0, 0, 0, -2, 0}, {0, 500, 0, 0, 0, 0}, {0, 0, 80, 0, 0, 0}, {10, -300, 20, .05, -.03, .04}, {0, 0, 0, .1, 0, 0}, {-40, 10, 5, 0, .02, -.1}}; V3 r0 = MakeV(S[ri0][0], S[ri0][1], S[ri0][2]), v0 = MakeV(S[ri0][3], S[ri0][4], S[ri0][5]); if (ri0 == 1) v0[1] = -2 * w * 100; int b = Q(5, 8);
    World& wd = W(); double jd0 = wd.time().GetCurrentTime_jd();
    for (int mask = 0; mask < (1 << b); mask++) {
      Ini s = wd.set.sat; s.Set("ORBIT", "calculation", "ENABLE").Set("ORBIT", "initial_position_i_m", ref.r).Set("ORBIT", "initial_velocity_i_m_s", ref.v).Set("ORBIT", "propagate_mode", "KEPLER").Set("ORBIT", "initialize_mode", "POSITION_VELOCITY_I"); Ini q = wd.set.sat; q.Set("ORBIT", "calculation", "ENABLE").Set("ORBIT", "propagate_mode", "RELATIVE").Set("ORBIT", "relative_orbit_update_method", method).Set("ORBIT", "relative_dynamics_model_type", 0).Set("ORBIT", "stm_model_type", 0).Set("ORBIT", "reference_satellite_id", refid).Set("ORBIT", "initial_relative_position_lvlh_m", r0).Set("ORBIT", "initial_relative_velocity_lvlh_m_s", v0);
      std::string f0 = s.Write("o04_ref.ini"), f1 = q.Write("o04_rel.ini"); wd.cfg.spacecraft_file_list_ = {f0, f0, f1}; RelativeInformation info; Dynamics d0(&wd.cfg, &wd.time(), wd.local.get(), 1, wd.structure.get(), &info); info.RegisterDynamicsInfo(refid, &d0); std::unique_ptr<s2e::dynamics::orbit::Orbit> k(s2e::dynamics::orbit::InitOrbit(&wd.cel(), f1, step, jd0, Mu(), "ORBIT", &info));
      PV two{Add(ref.r, From(Lvlh(ref), r0)), Add(ref.v, From(Lvlh(ref), Add(v0, Cross(MakeV(0, 0, w), r0))))}; double tt = 0; V3 er = r0, evl = v0;
      auto look = [&](double t) {
        if (mask == 0) { Two(two, t - tt); tt = t; } long double n = w, C = cosl(n * t), Sn = sinl(n * t); double x = r0[0], y = r0[1], z = r0[2], vx = v0[0], vy = v0[1], vz = v0[2];
        er = MakeV((4 - 3 * C) * x + Sn / n * vx + 2 / n * (1 - C) * vy, 6 * (Sn - n * t) * x + y - 2 / n * (1 - C) * vx + (4 * Sn / n - 3 * t) * vy, C * z + Sn / n * vz); evl = MakeV(3 * n * Sn * x + C * vx + 2 * Sn * vy, -6 * n * (1 - C) * x - 2 * Sn * vx + (4 * C - 3) * vy, -n * Sn * z + C * vz);
        PV rf = Of(d0); Frame f = Lvlh(rf); V3 dr = Sub(k->GetPosition_i_m(), rf.r), dv = Sub(k->GetVelocity_i_m_s(), rf.v); double big = Norm(r0) + Norm(v0) / w; double h = std::max(step, 0.0), tol = 1e-6 + 1e-9 * a * 1e-1 + (method == 0 ? std::pow(w * h, 4) * w * t * big : 0); p.Note("method %d orbit %d state %d step %g division %x t %g", method, oi, ri0, step, mask, t);
        p.NearV(To(f, dr), er, 3, tol, "relative-position"); OnePoint(p, *k); p.NearV(To(f, Sub(dv, Cross(f.w, dr))), evl, 3, tol * w * 2 + 1e-7, "relative-velocity");
        if (mask == 0) { double q = (Norm(er) + big) * (Norm(er) + big) / a * (1 + 3 * w * t) * 3 + c * 1.5e-4 * (1 + w * t) + tol; p.NearV(k->GetPosition_i_m(), two.r, 3, q, "neighbour"); p.NearV(k->GetVelocity_i_m_s(), two.v, 3, q * w * 3, "neighbour-velocity"); }
        p.Obs({(double)method, (double)oi, (double)ri0, step, (double)mask, t}); };
      look(0); double t = 0; for (int j = 0; j <= b; j++) if (j == b || (mask >> j & 1)) { t = 60 * (j + 1); Orb(d0).Propagate(t, jd0 + t / 86400); k->Propagate(t, jd0 + t / 86400); look(t); }
      if (mask % 8 == 0) while (t < Q(1, 3) * 6.3 / w) { t += mask ? 900 : 300; Orb(d0).Propagate(t, jd0 + t / 86400); k->Propagate(t, jd0 + t / 86400); look(t); }
      k->SetIsCalcEnabled(false); V3 keep = k->GetPosition_i_m(); k->Propagate(t + 60, jd0); p.NearV(k->GetPosition_i_m(), keep, 3, 0, "disabled");
    }
    p.Outcome(method ? "transition" : "integrated");
  }, {3});
  for (const char* s : {"transition", "integrated"}) RequireOutcome("relative-orbit", s);
  Scenario("lvlh-frame", "positions and velocities of a 26 x 26 direction lattice: the orbital frame is radial, along the angular momentum and right-handed", [](Path& p) {
    struct Fix : s2e::dynamics::orbit::Orbit { using Orbit::Orbit; void Set(const V3& r, const V3& v) { spacecraft_position_i_m_ = r; spacecraft_velocity_i_m_s_ = v; } void Propagate(const double, const double) override {} }; static Fix o(&W().cel());
    int i = p.Choose(26), j = p.Choose(26); V3 r = Scale(7e6, Directions26()[i]), v = Scale(7e3, Directions26()[j]); if (Norm(Cross(r, v)) < 1) throw Skip(); o.Set(r, v); Frame f = Lvlh({r, v}); Rot q = RotOf(o.CalcQuaternion_i2lvlh()); for (int a = 0; a < 3; a++) { V3 x = MakeV(a == 0, a == 1, a == 2); p.NearV(Mul(q, x), To(f, x), 3, 1e-9, "frame"); } p.Obs({(double)i, (double)j});
  });
}
