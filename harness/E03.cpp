// The thermal network against an independent integration of its heat balance, for every small network.
#include <dynamics/thermal/temperature.hpp>
#include <environment/global/physical_constants.hpp>
#include "env.hpp"
using namespace mc; using namespace env; using namespace s2e::dynamics::thermal;
const char* kProperty = "E03";
const char* kAssumptions = "Networks have symmetric conductance and radiation matrices, positive capacities and rows in the order of their numbers. The view factor of the earth is checked below 1732 km, where the code declares the exact flat-plate formula; above, only finiteness, bounds and the side of the face. The albedo reflection uses a declared approximation and is checked for finiteness, proportionality and its bounds.";
static const double kSb = s2e::environment::stefan_boltzmann_constant_W_m2K4;
static World& W() { static World* w = nullptr; if (!w) { Settings s; s.local.Set("EARTH_ALBEDO", "calculation", "ENABLE").Set("EARTH_INFRARED", "calculation", "ENABLE"); w = new World(s); } return *w; }
static const int kMax = 40;
struct Net { int n; int type[kMax]; double cap[kMax], T[kMax], C[kMax][kMax] = {}, R[kMax][kMax] = {}, load[kMax] = {}; };
// heat balance of the declared network, integrated in steps far below its time constants
static void Step(Net& m, double t) {
  auto f = [&](const double* T, double* d) { for (int i = 0; i < m.n; i++) { if (m.type[i] != 0) { d[i] = 0; continue; } double q = m.load[i]; for (int j = 0; j < m.n; j++) q += m.C[i][j] * (T[j] - T[i]) + kSb * m.R[i][j] * (T[j] * T[j] * T[j] * T[j] - T[i] * T[i] * T[i] * T[i]); d[i] = q / m.cap[i]; } };
  int k = (int)std::ceil(t / .5); double h = t / k, a[kMax], b[kMax], c[kMax], d[kMax], x[kMax]; for (int s = 0; s < k; s++) { f(m.T, a); for (int i = 0; i < m.n; i++) x[i] = m.T[i] + h / 2 * a[i]; f(x, b); for (int i = 0; i < m.n; i++) x[i] = m.T[i] + h / 2 * b[i]; f(x, c); for (int i = 0; i < m.n; i++) x[i] = m.T[i] + h * c[i]; f(x, d); for (int i = 0; i < m.n; i++) m.T[i] += h / 6 * (a[i] + 2 * b[i] + 2 * c[i] + d[i]); }
}
static std::unique_ptr<Temperature> Make(const Net& m, double step, bool solar, double alpha = 0, double eps = 0, double area = 0, V3 nrm = MakeV(1, 0, 0)) {
  std::vector<std::vector<double>> C, R; std::vector<Node> nd; std::vector<Heatload> hl; for (int i = 0; i < m.n; i++) { C.push_back(std::vector<double>(m.C[i], m.C[i] + m.n)); R.push_back(std::vector<double>(m.R[i], m.R[i] + m.n)); nd.push_back(Node(i, "n" + std::to_string(i), (NodeType)m.type[i], 0, m.T[i], m.cap[i], alpha, eps, area, nrm)); hl.push_back(Heatload(i, {0, 1e7}, {m.load[i], m.load[i]})); }
  World& w = W(); return std::unique_ptr<Temperature>(new Temperature(C, R, nd, hl, {}, {}, m.n, step, &w.local->GetSolarRadiationPressure(), &w.local->GetEarthAlbedo(), &w.local->GetEarthInfrared(), true, solar ? SolarCalcSetting::kEnable : SolarCalcSetting::kDisable, false));
}
static const s2e::environment::LocalCelestialInformation* Lc() { return &W().local->GetCelestialInformation(); }
// fraction of the hemisphere above a face that the earth fills, cosine weighted, by rings around the earth direction
static double ViewFactor(double H, double lam) {
  double rho = std::asin(1 / H), s = 0; int N = 400, M = 400; for (int i = 0; i < N; i++) { double th = rho * (i + .5) / N, ring = 0; for (int j = 0; j < M; j++) { double ph = M_PI * (j + .5) / M, c = cos(th) * cos(lam) + sin(th) * sin(lam) * cos(ph); if (c > 0) ring += c; } s += ring * sin(th) * (rho / N) * (M_PI / M) * 2; } return s / M_PI;
}
void Register() {
  Scenario("networks", "3-node networks: every assignment of diffusive and boundary types x 3 conductances for each of the 3 pairs x 2 radiation couplings for each pair x 3 capacity sets x 4 initial temperature sets x integration steps 1, 3, 10 s (and steps not dividing the update) x internal loads, over updates of 10, 10, 5, 30 s", [](Path& p) {
    Net m; m.n = 3; int diff = 0; for (int i = 0; i < 3; i++) { m.type[i] = p.Choose(2); diff += m.type[i] == 0; } static const double cp[3][3] = {{880, 100, 300}, {2000, 2000, 2000}, {90, 5000, 150}}, tp[4][3] = {{300, 250, 280}, {300, 300, 300}, {250, 360, 2.73}, {273.15, 200, 330}}; int ci = p.Choose(3), ti = p.Choose(4); for (int i = 0; i < 3; i++) { m.cap[i] = cp[ci][i]; m.T[i] = tp[ti][i]; }
    int q = 0; double cmax = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < i; j++) { double c = p.Pick({0, .5, 4}), r = q == 2 && !Thorough() ? .01 : p.Pick({0, .03}); m.C[i][j] = m.C[j][i] = c; m.R[i][j] = m.R[j][i] = r; q++; cmax = std::max(cmax, c); } double ld = p.Pick({0, 5}); m.load[0] = ld; m.load[2] = -ld / 2;
    for (double step : {1.0, 3.0, 10.0}) { auto t = Make(m, step, false); Net r = m; double tm = 0, lo = 1e9, hi = 0, E0 = 0; for (int i = 0; i < 3; i++) { lo = std::min(lo, m.T[i]); hi = std::max(hi, m.T[i]); E0 += m.cap[i] * m.T[i]; }
      double k = 0; for (int i = 0; i < 3; i++) { double g = 0; for (int j = 0; j < 3; j++) g += m.C[i][j] + 4 * kSb * m.R[i][j] * hi * hi * hi; if (m.type[i] == 0) k = std::max(k, 2 * g / m.cap[i]); } // largest rate of the network
      for (double dt : {10.0, 10.0, 5.0, 30.0}) { tm += dt; t->Propagate(Lc(), tm); Step(r, dt); auto nd = t->GetNodes(); double E = 0, h = std::min(step, dt); p.Note("step %g t %g", step, tm);
        for (int i = 0; i < 3; i++) { double T = nd[i].GetTemperature_K(); E += m.cap[i] * T; if (m.type[i] == 1) { p.Check(T == m.T[i], "boundary", "node %d got %g want %g", i, T, m.T[i]); p.Outcome("boundary"); continue; } p.Near(T, r.T[i], 1e-9 * hi + std::pow(k * h, 4) * std::min(1.0, k * tm) * (hi - lo + 1) * 5, "balance"); p.Near(nd[i].GetTemperature_degC(), T - 273.15, 1e-9, "celsius"); p.Outcome("diffusive"); if (ld == 0) p.Check(T >= lo - 1e-6 && T <= hi + 1e-6, "range", "node %d %g outside %g..%g", i, T, lo, hi); }
        if (diff == 3) { p.Near(E, E0 + ld / 2 * tm, 1e-10 * E0, "heat-conserved"); p.Outcome("closed"); } p.Obs({step, tm, nd[0].GetTemperature_K(), nd[1].GetTemperature_K(), nd[2].GetTemperature_K()}); } }
  }, {4});
  for (const char* s : {"boundary", "diffusive", "closed"}) RequireOutcome("networks", s);
  Scenario("many-nodes", "networks of 4, 5, 8, 9, 10, 11, 16, 17, 33 and 40 nodes (chain, star, chain with radiation to every third node; none, the first, or every 5th a boundary), internal loads of the last nodes: temperatures and stored heat over two updates", [](Path& p) {
    Net m; m.n = p.PickI({4, 5, 8, 9, 10, 11, 16, 17, 33, 40}); int shape = p.Choose(3), fixed = p.Choose(3); for (int i = 0; i < m.n; i++) { m.type[i] = fixed == 1 ? i == 0 : fixed == 2 ? i % 5 == 4 : 0; m.cap[i] = 200 + 37 * (i % 7); m.T[i] = 260 + 11 * (i % 9) + i; if (i >= m.n - 2) m.load[i] = 4 + i; }
    for (int i = 1; i < m.n; i++) { int j = shape == 1 ? 0 : i - 1; m.C[i][j] = m.C[j][i] = .2 + .05 * (i % 4); if (shape == 2 && i >= 3) m.R[i][i % 3] = m.R[i % 3][i] = .01; }
    auto t = Make(m, 1, false); Net r = m; double tm = 0, E0 = 0; for (int i = 0; i < m.n; i++) E0 += m.cap[i] * m.T[i];
    for (double dt : {10.0, 25.0}) { tm += dt; t->Propagate(Lc(), tm); Step(r, dt); auto nd = t->GetNodes(); p.Eq((int)nd.size(), m.n, "node-count", "nodes"); double E = 0; for (int i = 0; i < m.n; i++) { double T = nd[i].GetTemperature_K(); E += m.cap[i] * T; p.Note("node %d of %d", i, m.n); p.Near(T, r.T[i], m.type[i] ? 0 : 2e-6, "balance"); } if (fixed == 0) p.Near(E, E0 + (8 + 2 * m.n - 3) * tm, 1e-9 * E0, "heat-conserved"); }
    p.Obs({(double)m.n, (double)shape, (double)fixed});
  }, {2});
  Scenario("exchange", "two-node networks: every pair of 5 temperatures x 4 conductances x 4 radiation couplings x 9 capacity pairs, one update of 1/4 s to 8 s: what one node loses the other receives; and every division of 6 intervals into updates gives the same state", [](Path& p) {
    Net m; m.n = 2; m.type[0] = m.type[1] = 0; for (int i = 0; i < 2; i++) { m.T[i] = p.Pick({3, 200, 273.15, 300, 400}); m.cap[i] = p.Pick({100, 500, 2000}); } m.C[0][1] = m.C[1][0] = p.Pick({0, .01, 1, 5}); m.R[0][1] = m.R[1][0] = p.Pick({0, .001, .02, .1}); double step = p.Pick({.25, 1, 8});
    for (int mask = 0; mask < 32; mask += (step == 1 ? Q(5, 1) : 31)) { auto t = Make(m, step, false); double tm = 0; for (int j = 0; j < 6; j++) if (j == 5 || (mask >> j & 1)) { tm = 2 * (j + 1); t->Propagate(Lc(), tm); } Net r = m; Step(r, tm); auto nd = t->GetNodes(); double a = (nd[0].GetTemperature_K() - m.T[0]) * m.cap[0], b = (nd[1].GetTemperature_K() - m.T[1]) * m.cap[1]; p.Near(a, -b, 1e-9 * (m.cap[0] + m.cap[1]) * 400, "equal-and-opposite"); double g = (m.C[0][1] + 4 * kSb * m.R[0][1] * 6.4e7) * (1 / m.cap[0] + 1 / m.cap[1]); p.Near(nd[0].GetTemperature_K(), r.T[0], 1e-6 + std::pow(g * std::min(step, tm), 4) * 400, "balance"); if (m.T[0] > m.T[1]) p.Check(a <= 1e-6, "direction", "hot node gains %g", a); p.Note("step %g division %x", step, mask); p.Obs({m.T[0], m.T[1], a, step, (double)mask}); }
  }, {4});
  Scenario("solar", "26 face normals x 26 sun directions x attitudes x absorptances and areas x shadow on and off x solar calculation on and off: absorbed power and temperature rise of a single node", [](Path& p) {
    int ni = p.Choose(26), si = p.Choose(26); double al = p.Pick({.3, 1}), area = al == 1 ? 2 : .06; if (ni + si == 50) al = 0; const V3& n = Directions26()[ni]; const V3& s = Directions26()[si];
    for (int ai : {(ni + si) % 12, 8}) for (int sh = 0; sh < 2; sh++) for (int on = 0; on < 2; on++) { World& w = W(); V3 sun = Scale(1.496e11, s); ClearBodies(); SetBody("SUN", sun); SetBody("MOON", MakeV(0, 3.8e8, 1e8)); V3 pos = Scale(sh ? -7e6 : 7e6, s), v = Scale(7500, Unit(Cross(s, MakeV(.3, .2, .9)))); w.Place(pos, v, Rotations()[ai], MakeV(0, 0, 0)); Net m; m.n = 1; m.type[0] = 0; m.cap[0] = 500; m.T[0] = 280; auto t = Make(m, 1, on, al, 0, area, n); t->Propagate(Lc(), 2); t->Propagate(Lc(), 10); V3 sb = Mul(RotOf(Rotations()[ai]), Unit(Sub(sun, pos))); double d = Norm(Sub(sun, pos)), flux = sh ? 0 : 1366 * std::pow(149597870700.0 / d, 2), c = Dot(sb, n), want = on && c > 0 ? flux * area * al * c : 0; auto nd = t->GetNodes(); p.Note("face %d sun %d attitude %d shadow %d solar %d", ni, si, ai, sh, on);
      p.Near(nd[0].GetSolarRadiation_W(), want, 1e-5 * flux * area + 1e-9, "solar"); double alb = nd[0].GetAlbedoRadiation_W(); if (!on) p.Check(alb == 0, "albedo-off", "%g", alb); p.Check(alb >= 0 && alb <= .3001 * flux * area * al + 1e-9, "albedo", "%g", alb); p.Near(nd[0].GetTemperature_K(), 280 + (want + alb) * 10 / 500, 1e-6 + 1e-5 * want, "temperature"); p.Outcome(!on ? "off" : sh ? "shaded" : c > 0 ? "lit" : "turned away"); p.Obs({(double)ni, (double)si, al, area, (double)ai, (double)sh, want}); }
  }, {2});
  for (const char* s : {"off", "shaded", "lit", "turned away"}) RequireOutcome("solar", s);
  Scenario("turning", "one node whose spacecraft goes through every sequence of 2 (thorough 3) situations from 6 attitudes x lit or shadowed x near or far, 3 face normals: the heat it absorbs in each is that of a node that was never anywhere else", [](Path& p) {
    int ni = p.PickI({0, 13, 22}); const V3& n = Directions26()[ni]; World& w = W(); Net m; m.n = 1; m.type[0] = 0; m.cap[0] = 500; m.T[0] = 280; auto t = Make(m, 1, true, .6, .5, .4, n); double tm = 0, T = 280; const V3 sun = MakeV(1.2e11, .7e11, .5e11), sd = Unit(sun), s2 = Unit(Cross(sd, MakeV(0, 0, 1)));
    for (int k = 0; k < Q(2, 3); k++) { int ai = p.PickI({0, 2, 5, 7, 9, 11}); int ph = p.Choose(3); ClearBodies(); SetBody("SUN", sun); SetBody("MOON", MakeV(0, 3.8e8, 1e8)); V3 pos = ph == 0 ? Scale(7e6, Unit(Add(sd, Scale(.8, s2)))) : ph == 1 ? Scale(-7e6, sd) : Scale(2.2e7, Unit(Sub(sd, Scale(1.7, s2)))); w.Place(pos, Scale(7500, Unit(Cross(pos, MakeV(.3, .2, .9)))), Rotations()[ai], MakeV(0, 0, 0)); Net r = m; r.T[0] = T; auto fresh = Make(r, 1, true, .6, .5, .4, n); fresh->Propagate(Lc(), 4); tm += 4; t->Propagate(Lc(), tm); auto a = t->GetNodes()[0]; auto b = fresh->GetNodes()[0]; p.Note("attitude %d place %d", ai, ph); p.Near(a.GetTemperature_K(), b.GetTemperature_K(), 1e-9 * 300, "memoryless", "temperature"); p.Near(a.GetSolarRadiation_W(), b.GetSolarRadiation_W(), 1e-9, "memoryless", "sun"); p.Near(a.GetAlbedoRadiation_W(), b.GetAlbedoRadiation_W(), 1e-9, "memoryless", "albedo"); p.Near(a.GetEarthInfraredRadiation_W(), b.GetEarthInfraredRadiation_W(), 1e-9, "memoryless", "infrared"); auto& sr = w.local->GetSolarRadiationPressure(); auto earth = Lc()->GetPositionFromSpacecraft_b_m("EARTH"); V3 sb = Unit(Lc()->GetPositionFromSpacecraft_b_m("SUN")); Node x(0, "x", NodeType::kDiffusive, 0, 280, 500, .6, .5, .4, n); double q = x.CalcSolarRadiation_W(sb, sr.GetPowerDensity_W_m2()) + x.CalcAlbedoRadiation_W(earth, sb, w.local->GetEarthAlbedo().GetEarthAlbedoRadiationPower_W_m2()) + x.CalcEarthInfraredRadiation_W(earth, w.local->GetEarthInfrared().GetEarthInfraredRadiationPower_W_m2()); p.Near(a.GetTemperature_K(), T + q * 4 / 500, 1e-7, "absorbed"); T = a.GetTemperature_K(); p.Outcome(a.GetSolarRadiation_W() > 0 ? "sun" : "no sun"); p.Outcome(a.GetAlbedoRadiation_W() > 0 ? "albedo" : "no albedo"); p.Obs({(double)ni, (double)ai, (double)ph, T}); }
  }, {2});
  for (const char* s : {"sun", "no sun", "albedo", "no albedo"}) RequireOutcome("turning", s);
  Scenario("sources", "three uncoupled nodes with their own faces, absorptance, emissivity, area and load (rotations of 6 faces) x 5 places from full sun through the penumbra {about 0.8, 0.5, 0.2} to the umbra x near or far x solar calculation on and off x 3 attitudes: each node gains its own sunlight, albedo, infrared and load, two updates", [](Path& p) {
    int r0 = p.Choose(6), place = p.Choose(5); bool far = p.Flag("far"), on = p.Flag("solar"); int ai = p.PickI({0, 5, 8}); const V3 sun = MakeV(1.2e11, .7e11, .5e11), sd = Unit(sun), s2 = Unit(Cross(sd, MakeV(0, 0, 1))); const double Re = 6378136.6, back = far ? 4e7 : 7e6, off[5] = {2.2e7, 0.0025, 0, -0.0025, -3e6};
    double o = place == 0 || place == 4 ? Re + off[place] : Re + off[place] * back * 1.0; V3 pos = Add(Scale(-back, sd), Scale(place == 4 ? 0.3e6 : o, s2)); World& w = W(); ClearBodies(); SetBody("SUN", sun); SetBody("MOON", MakeV(0, 3.8e8, 1e8)); w.Place(pos, Scale(3000, Unit(Cross(pos, MakeV(.3, .2, .9)))), Rotations()[ai], MakeV(0, 0, 0));
    auto& sr = w.local->GetSolarRadiationPressure(); double sh = sr.GetShadowCoefficient(); p.Outcome(sh == 1 ? "sun" : sh == 0 ? "umbra" : sh > 0.6 ? "mostly lit" : sh < 0.4 ? "mostly dark" : "half");
    static const int face[6] = {0, 5, 9, 13, 18, 23}; const double al[3] = {.3, .9, 1}, ep[3] = {.8, .1, .5}, ar[3] = {.4, 1.5, .06}, cap[3] = {500, 900, 200}, ld[3] = {0, 3, 1}; std::vector<Node> nd; std::vector<Heatload> hl; std::vector<std::vector<double>> Z(3, std::vector<double>(3, 0.0)); double T[3] = {280, 300, 250};
    for (int i = 0; i < 3; i++) { nd.push_back(Node(i, "n", NodeType::kDiffusive, 0, T[i], cap[i], al[i], ep[i], ar[i], Directions26()[face[(r0 + 2 * i) % 6]])); hl.push_back(Heatload(i, {0, 1e7}, {ld[i], ld[i]})); }
    Temperature t(Z, Z, nd, hl, {}, {}, 3, 1, &sr, &w.local->GetEarthAlbedo(), &w.local->GetEarthInfrared(), true, on ? SolarCalcSetting::kEnable : SolarCalcSetting::kDisable, false); auto earth = Lc()->GetPositionFromSpacecraft_b_m("EARTH"); V3 sb = Unit(Lc()->GetPositionFromSpacecraft_b_m("SUN")); double flux = 1366 * std::pow(149597870700.0 / Norm(Sub(sun, pos)), 2) * sh;
    for (int u = 1; u < 3; u++) { t.Propagate(Lc(), 4.0 * u); auto g = t.GetNodes(); for (int i = 0; i < 3; i++) { Node x(0, "x", NodeType::kDiffusive, 0, 280, 500, al[i], ep[i], ar[i], Directions26()[face[(r0 + 2 * i) % 6]]); double c = Dot(sb, Directions26()[face[(r0 + 2 * i) % 6]]), sol = on && c > 0 ? flux * ar[i] * al[i] * c : 0, alb = on ? x.CalcAlbedoRadiation_W(earth, sb, w.local->GetEarthAlbedo().GetEarthAlbedoRadiationPower_W_m2()) : 0, ir = x.CalcEarthInfraredRadiation_W(earth, w.local->GetEarthInfrared().GetEarthInfraredRadiationPower_W_m2());
      p.Near(g[i].GetSolarRadiation_W(), sol, 2e-5 * flux * ar[i] + 1e-9, "solar"); p.Near(g[i].GetAlbedoRadiation_W(), alb, 1e-9, "albedo"); p.Near(g[i].GetEarthInfraredRadiation_W(), ir, 1e-9, "infrared"); T[i] += (sol + alb + ir + ld[i]) * 4 / cap[i]; p.Near(g[i].GetTemperature_K(), T[i], 1e-6 + 4e-5 * sol * 4 * u / cap[i] * 25, "temperature"); } p.Obs({(double)r0, (double)place, (double)far, (double)on, (double)ai, T[0], T[1], T[2]}); }
  }, {2});
  for (const char* s : {"sun", "mostly lit", "half", "mostly dark", "umbra"}) RequireOutcome("sources", s);
  Scenario("infrared", "earth at 7 distances x 26 directions x 26 face normals, and tilts of a 720-step (thorough 7200) circle including both edges of the partly visible range: view factor of the earth, finite everywhere, zero when turned away; albedo finite and bounded, that of the view factor with the sun behind the spacecraft, and never growing as the sun moves away", [](Path& p) {
    double H = p.Pick({1.0001, 1.03, 1.09, 1.25, 1.27, 1.5, 6.6}), eps = p.Pick({0, .7, 1}); int di = p.Choose(26), kind = p.Choose(2), lim = kind ? Q(720, 7200) : 26; const V3 d = Directions26()[di]; double re = s2e::environment::earth_equatorial_radius_m; V3 e = Scale(H * re, d), o = Unit(Cross(d, std::fabs(d[0]) > .9 ? MakeV(0, 1, 0) : MakeV(1, 0, 0))); bool low = (H - 1) * re < 1732e3;
    for (int k = 0; k < lim; k++) { double lam0 = k * 2 * M_PI / lim; if (kind && k == 1) lam0 = M_PI / 2 - std::asin(1 / H); if (kind && k == 2) lam0 = M_PI / 2 + std::asin(1 / H); V3 n = kind ? Add(Scale(cos(lam0), d), Scale(sin(lam0), o)) : Directions26()[k]; double lam = std::acos(std::max(-1.0, std::min(1.0, Dot(d, n)))); Node nd(0, "n", NodeType::kDiffusive, 0, 300, 100, .5, eps, .2, n); double f = nd.CalcEarthInfraredRadiation_W(e, 240) ; p.Note("H %g direction %d face %d", H, di, k); p.Check(std::isfinite(f) && f >= -1e-6, "finite", "%g", f); p.Check(f <= 240 * .2 * eps / H / H + 1e-9, "bounded", "%g", f); if (lam > M_PI / 2 + std::asin(1 / H) + 1e-6) { p.Check(f == 0, "turned-away", "%g", f); p.Outcome("turned away"); } p.Near(nd.GetEarthInfraredRadiation_W(), f, 0, "reported");
      if (low && eps > 0 && (!kind || k < 60 || Thorough() || k % 20 == 0) && (di == 0 || !kind) && (kind || di % 5 == 0)) { p.Near(f, 240 * .2 * eps * ViewFactor(H, lam), 240 * .2 * eps * 3e-3, "view-factor"); p.Outcome(lam <= M_PI / 2 - std::asin(1 / H) ? "whole" : "part"); }
      for (int s = 0; s < 26; s += 5) { double a = nd.CalcAlbedoRadiation_W(e, Directions26()[s], 400); p.Check(std::isfinite(a) && a >= -1e-6 && a <= 400 * .2 * .5 / H / H + 1e-9, "albedo-finite", "%g", a); } if (eps > 0) { p.Near(nd.CalcAlbedoRadiation_W(e, Scale(-1, d), 400), 400 * .2 * .5 * f / (240 * .2 * eps), 1e-6, "albedo-aligned"); double prev = 1e9; for (int g = 0; g <= 11; g++) { double a = nd.CalcAlbedoRadiation_W(e, Add(Scale(-std::cos(g * M_PI / 12), d), Scale(std::sin(g * M_PI / 12), o)), 400); p.Check(a <= prev + 1e-6, "albedo-phase", "grows to %g", a); prev = a; } } p.Obs({H, (double)di, (double)k, f}); }
  }, {3});
  for (const char* s : {"turned away", "whole", "part"}) RequireOutcome("infrared", s);
  Scenario("arithmetic", "networks of two boundary or diffusive nodes and one node without capacity x conductances x internal loads: the node settles at its balance after every update", [](Path& p) {
    Net m; m.n = 3; m.type[0] = p.Choose(2); m.type[1] = 1; m.type[2] = 2; for (int i = 0; i < 3; i++) m.cap[i] = i == 2 ? 0 : 800; m.T[0] = p.Pick({250, 300}); m.T[1] = p.Pick({280, 330}); m.T[2] = p.Pick({200, 290}); for (int i = 0; i < 2; i++) { m.C[i][2] = m.C[2][i] = p.Pick({.5, 2}); } m.load[2] = p.Pick({0, 10}); auto t = Make(m, 1, false); double tm = 0;
    for (int k = 0; k < 3; k++) { tm += 10; t->Propagate(Lc(), tm); auto nd = t->GetNodes(); double a = nd[0].GetTemperature_K(), b = nd[1].GetTemperature_K(), c = nd[2].GetTemperature_K(), q = m.C[2][0] * (a - c) + m.C[2][1] * (b - c) + m.load[2]; p.Check(std::isfinite(a) && std::isfinite(c), "finite", "temperatures"); p.CheckKnown(std::fabs(q) < 1e-3, "arithmetic-balance", "node without capacity is left with a heat imbalance of %g W", q); p.Check(b == m.T[1], "boundary", "%g", b); p.Obs({a, b, c}); }
  });
}
