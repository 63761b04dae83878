// Ground station visibility, antennas, radiation patterns and link budget.
#include <components/real/communication/antenna.hpp>
#include <components/real/communication/ground_station_calculator.hpp>
#include <simulation/ground_station/ground_station.hpp>
#include <simulation/spacecraft/spacecraft.hpp>
#include <fstream>
#include <sstream>
#include "env.hpp"
using namespace mc; using namespace env;
using namespace s2e; using namespace s2e::components;
const char* kProperty = "G01";
const char* kAssumptions = "The grid of a radiation pattern may include the last angle or not: a gain is accepted when it is that of a grid point within one cell of the direction. The bit rate of the antenna and that of the calculator are configured equal. The speed of light may be rounded to 3e8 m/s. Elevations equal to the limit are not judged.";
static std::vector<double> Cells(const std::string& s) { std::vector<double> v; std::istringstream i(s); std::string c; while (std::getline(i, c, ',')) if (c.size()) v.push_back(atof(c.c_str())); return v; }
struct Acc : dynamics::orbit::Orbit { static void Set(dynamics::orbit::Orbit& o, const V3& ri, const V3& re) { o.*(&Acc::spacecraft_position_i_m_) = ri; o.*(&Acc::spacecraft_position_ecef_m_) = re; } };
class Sat : public spacecraft::Spacecraft { public: Sat(const simulation::SimulationConfiguration* c, const environment::GlobalEnvironment* g, int id) : Spacecraft(c, g, id) { components_ = new spacecraft::InstalledComponents; } dynamics::Dynamics& D() { return *dynamics_; } };
static Rot Dcm(const World& w) { auto d = w.global->GetCelestialInformation().GetEarthRotation().GetDcmJ2000ToEcef(); Rot r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r.m[i][j] = d[i][j]; return r; }
struct Stage {
  std::unique_ptr<World> w; std::unique_ptr<Sat> s[3];
  explicit Stage(bool full) { ClearBodies(); Settings st; st.base.Set("CELESTIAL_INFORMATION", "rotation_mode(0)", full ? "FULL" : "SIMPLE"); w.reset(new World(st)); w->dynamics.reset(); for (int i = 0; i < 2; i++) w->cfg.spacecraft_file_list_.push_back(w->cfg.spacecraft_file_list_[0]); w->cfg.number_of_simulated_spacecraft_ = 3; for (int i = 0; i < 3; i++) s[i].reset(new Sat(&w->cfg, w->global.get(), i)); }
  void Move(int i, const V3& ecef) { Acc::Set(const_cast<dynamics::orbit::Orbit&>(s[i]->D().GetOrbit()), MulT(Dcm(*w), ecef), ecef); }
  const environment::EarthRotation& Rotation() const { return w->global->GetCelestialInformation().GetEarthRotation(); }
};
static Stage& St(bool full) { static Stage* s[2] = {nullptr, nullptr}; static int cur = -1; if (cur != full) { if (cur >= 0) { delete s[cur]; s[cur] = nullptr; } s[full] = new Stage(full); cur = full; } return *s[full]; }
struct Site { double lat, lon, h, limit; };
static V3 Ecef(double la, double lo, double h) { const double a = 6378136.6, f = 3.352797e-3, e2 = f * (2 - f); double n = a / sqrt(1 - e2 * sin(la) * sin(la)); return MakeV((n + h) * cos(la) * cos(lo), (n + h) * cos(la) * sin(lo), (n * (1 - e2) + h) * sin(la)); }
static void Ltc(double la, double lo, V3& e, V3& n, V3& u) { e = MakeV(-sin(lo), cos(lo), 0); n = MakeV(-sin(la) * cos(lo), -sin(la) * sin(lo), cos(la)); u = MakeV(cos(la) * cos(lo), cos(la) * sin(lo), sin(la)); }
static const double kD = M_PI / 180;
static std::string WriteSites(const std::vector<Site>& v) { Ini f; for (size_t i = 0; i < v.size(); i++) { std::string s = "GROUND_STATION_" + std::to_string(i); f.Set(s, "latitude_deg", v[i].lat).Set(s, "longitude_deg", v[i].lon).Set(s, "height_m", v[i].h).Set(s, "elevation_limit_angle_deg", v[i].limit); } return f.Write("gs.ini"); }
// a pattern whose value encodes its cell
static std::string PatternFile(int nt, int np, bool holes = false) { std::string t; for (int i = 0; i < nt; i++) { for (int j = 0; j < np; j++) { char b[32]; snprintf(b, sizeof b, "%s%.4f", j ? "," : "", (holes ? -30 : 0) + 0.01 * ((i * 37 + j * 11) % 997)); t += b; } t += "\n"; } return WriteFile("pat_" + std::to_string(nt) + "_" + std::to_string(np) + ".csv", t); }
static double Value(int i, int j) { return 0.01 * ((i * 37 + j * 11) % 997); }
// is the gain that of a cell within one grid step of the direction (theta, phi)?
static bool NearCell(double gain, double th, double ph, int nt, int np, double tm, double pm) {
  auto cands = [](double x, int n, double m) { std::vector<int> c; double a = x / m * n, b = x / m * (n - 1); for (int k = 0; k < n; k++) if (std::fabs(k - a) <= 1.0 + 1e-9 || std::fabs(k - b) <= 1.0 + 1e-9) c.push_back(k); if (c.empty()) c.push_back(n - 1); return c; };
  auto one = [&](double t, double f) { for (int i : cands(t, nt, tm)) for (int j : cands(f, np, pm)) if (std::fabs(gain - Value(i, j)) < 1e-9) return true; return false; };
  // every pair of angles inside the table that names this direction
  if (sin(th) < 1e-3 || th < tm / nt) { for (int i : cands(th, nt, tm)) if (sin(th) < 1e-3 || i == 0) for (int j = 0; j < np; j++) if (std::fabs(gain - Value(i, j)) < 1e-9) return true; }  // on the axis every azimuth is the same direction
  double c[4][2] = {{th, ph}, {th, ph + 2 * M_PI}, {2 * M_PI - th, ph + M_PI}, {2 * M_PI - th, ph - M_PI}}; bool any = false; double e = 1e-6;
  for (auto& q : c) if (q[0] >= -e && q[0] <= tm + 0.02 && q[1] >= -e && q[1] <= pm + 0.02) { any = true; if (one(q[0], q[1])) return true; } return !any;
}
struct Budget { double pol, atm, rain, oth, ebn0, hw, cod, mar; };

void Register() {
  Scenario("visibility", "6 stations with both poles and the date line x 6 limits x 8 azimuths x elevation at limit {-20,-1,-1e-5,+1e-5,+1,+20} deg, zenith, nadir and horizon x 4 distances x earth rotation simple/full", [](Path& p) {
    static const double S[6][3] = {{0, 0, 0}, {35.7, 139.8, 50}, {-62, -58, 300}, {90, 0, 0}, {-90, 45, 2800}, {12, 180, 10}}; bool full = p.Flag("full rotation"); const double* s = S[p.Choose(6)]; double lim = p.Pick({0, 5, 30, 85, -3, 10}), az = p.Choose(8) * 45 * kD, dist = p.Pick({1e3, 6e5, 2e6, 4e7}); int k = p.Choose(9); static const double de[6] = {-20, -1, -1e-5, 1e-5, 1, 20}; double el = k < 6 ? lim + de[k] : k == 6 ? 90 : k == 7 ? -90 : 0; if (el > 90 || el < -90 || el == lim) throw Skip();
    Stage& t = St(full); t.w->cfg.ground_station_file_list_ = {WriteSites({{s[0], s[1], s[2], lim}})}; ground_station::GroundStation g(&t.w->cfg, 0); V3 e, n, u; Ltc(s[0] * kD, s[1] * kD, e, n, u); V3 d = Add(Scale(cos(el * kD), Add(Scale(sin(az), e), Scale(cos(az), n))), Scale(sin(el * kD), u)), P = Ecef(s[0] * kD, s[1] * kD, s[2]); p.NearV(g.GetPosition_ecef_m(), P, 3, 1e-6, "station-position"); t.Move(0, Add(P, Scale(dist, d))); g.Update(t.Rotation(), *t.s[0]);
    p.Check(g.IsVisible(0) == (el > lim), "visibility", "elevation %.8g deg, limit %.8g deg, seen %d", el, lim, (int)g.IsVisible(0)); p.NearV(g.GetPosition_i_m(), MulT(Dcm(*t.w), P), 3, 1e-6, "station-inertial"); p.Outcome(el > lim ? "seen" : "hidden"); p.Obs({s[0], s[1], lim, az, el, dist, (double)full});
  }, {3});
  for (const char* o : {"seen", "hidden"}) RequireOutcome("visibility", o);
  Scenario("stations", "three stations from one file, three spacecraft of which two move (two pairs): all histories of depth 4/5 over {move a spacecraft to one of 3 places, update a station for a spacecraft, let the earth turn}: each flag and position belongs to the station, the spacecraft and its last update", [](Path& p) {
    Stage& t = St(false); static const std::vector<Site> v = {{10, 20, 100, 5}, {-30, 20, 0, 20}, {80, -100, 500, 0}}; t.w->cfg.ground_station_file_list_ = {WriteSites(v)}; std::vector<std::unique_ptr<ground_station::GroundStation>> g; for (int i = 0; i < 3; i++) g.emplace_back(new ground_station::GroundStation(&t.w->cfg, i)); bool flag[3][3] = {}; static const int PAIR[2][2] = {{0, 1}, {2, 0}}; const int* id = PAIR[p.Choose(2)]; V3 pi[3] = {MakeV(0, 0, 0), MakeV(0, 0, 0), MakeV(0, 0, 0)}, sp[2]; static const V3 R[3] = {Ecef(10 * kD, 20 * kD, 6e5), Ecef(-12 * kD, 22 * kD, 3e6), Ecef(85 * kD, -80 * kD, 8e5)}; for (int i = 0; i < 2; i++) t.Move(id[i], sp[i] = R[i]);
    for (int s = 0, n = Q(4, 5); s < n; s++) { int c = p.Choose(13); if (c < 6) t.Move(id[c / 3], sp[c / 3] = R[c % 3]); else if (c < 12) { int k = (c - 6) / 2, i = (c - 6) % 2; g[k]->Update(t.Rotation(), *t.s[id[i]]); V3 e, no, u, P = Ecef(v[k].lat * kD, v[k].lon * kD, v[k].h); Ltc(v[k].lat * kD, v[k].lon * kD, e, no, u); flag[k][id[i]] = Dot(Unit(Sub(sp[i], P)), u) > sin(v[k].limit * kD); pi[k] = MulT(Dcm(*t.w), P); } else t.w->global->Update();
      for (int k = 0; k < 3; k++) { for (int i = 0; i < 3; i++) { p.Check(g[k]->IsVisible(i) == flag[k][i], "station-flag", "station %d spacecraft %d: %d, expected %d", k, i, (int)g[k]->IsVisible(i), (int)flag[k][i]); p.Outcome(flag[k][i] ? "seen" : "hidden"); } p.NearV(g[k]->GetPosition_i_m(), pi[k], 3, 1e-6, "station-inertial"); p.Eq(g[k]->GetGroundStationId(), k, "station-id"); p.Near(g[k]->GetElevationLimitAngle_deg(), v[k].limit, 1e-9, "station-limit"); auto l = Cells(g[k]->GetLogValue()); p.Eq(l.size(), 6, "station-log"); for (int i = 0; i < 3; i++) p.Eq(l[i], flag[k][i], "station-log"); for (int i = 0; i < 3; i++) p.Near(l[3 + i], pi[k][i], 2e-5 * std::fabs(pi[k][i]), "station-log"); p.Obs({(double)k, (double)flag[k][0], (double)flag[k][1], (double)flag[k][2], pi[k][0]}); } }
  });
  for (const char* o : {"seen", "hidden"}) RequireOutcome("stations", o);
  Scenario("many-stations", "40 stations in one file, each in turn: position, limit, number and visibility of a spacecraft 2 degrees above and below its limit", [](Path& p) {
    Stage& t = St(false); static const std::vector<Site> v = [] { std::vector<Site> o; for (int i = 0; i < 40; i++) o.push_back({-85.0 + 4.3 * i, -170.0 + 8.7 * i, 25.0 * i, 1.0 + i % 17}); return o; }(); int k = p.Choose(40); t.w->cfg.ground_station_file_list_.assign(40, WriteSites(v)); ground_station::GroundStation g(&t.w->cfg, k); V3 e, no, u, P = Ecef(v[k].lat * kD, v[k].lon * kD, v[k].h); Ltc(v[k].lat * kD, v[k].lon * kD, e, no, u);
    for (int s = 0; s < 2; s++) { double el = (v[k].limit + (s ? 2 : -2)) * kD; t.Move(1, Add(P, Scale(2e6, Add(Scale(std::cos(el), e), Scale(std::sin(el), u))))); g.Update(t.Rotation(), *t.s[1]); p.Eq(g.IsVisible(1), s, "station-flag", "flag"); p.NearV(g.GetPosition_i_m(), MulT(Dcm(*t.w), P), 3, 1e-6, "station-inertial"); } p.Eq(g.GetGroundStationId(), k, "station-id"); p.Near(g.GetElevationLimitAngle_deg(), v[k].limit, 1e-9, "station-limit"); p.Obs({(double)k});
  });
  Scenario("pattern", "tables {360x181 over 2pi x pi, 13x7, 5x9 over pi x 2pi, 360x181 with 6.28 x 3.14, 721x361, 300x720 over pi x 2pi} x polar angle in 25 steps x azimuth in 49 steps over the whole sphere: the gain is that of a grid point within one cell of the direction", [](Path& p) {
    static const struct { int nt, np; double tm, pm; } T[6] = {{360, 181, 2 * M_PI, M_PI}, {13, 7, 2 * M_PI, M_PI}, {5, 9, M_PI, 2 * M_PI}, {360, 181, 6.28, 3.14}, {721, 361, 2 * M_PI, M_PI}, {300, 720, M_PI, 2 * M_PI}}; int k = p.Choose(6); auto& t = T[k]; static std::map<int, std::unique_ptr<AntennaRadiationPattern>> pats; auto& a = pats[k]; if (!a) a.reset(new AntennaRadiationPattern(PatternFile(t.nt, t.np), t.nt, t.np, t.tm, t.pm)); int i = p.Choose(25), j = p.Choose(49); double th = i * M_PI / 24, ph = -M_PI + j * M_PI / 24; if (p.Flag("shift")) { th += 0.003; ph += 0.004; if (th > M_PI || ph > M_PI) throw Skip(); }
    double g = a->GetGain_dBi(th, ph); p.Check(NearCell(g, th, ph, t.nt, t.np, t.tm, t.pm), "pattern", "gain %.6g at theta %.6g phi %.6g is not that of a grid point near this direction", g, th, ph); p.Outcome(ph < 0 ? "minus-y" : "plus-y"); p.Obs({(double)k, th, ph});
  });
  for (const char* o : {"minus-y", "plus-y"}) RequireOutcome("pattern", o);
  Scenario("pattern-range", "angles outside the sphere {-1, 4, 7, -7, 100} for both angles: some gain of the table", [](Path& p) { AntennaRadiationPattern a(PatternFile(13, 7), 13, 7, 2 * M_PI, M_PI); double th = p.Pick({-1, 4, 7, -7, 100, 0}), ph = p.Pick({-1, 4, 7, -7, 100, 0}); double g = a.GetGain_dBi(th, ph); bool ok = false; for (int i = 0; i < 13; i++) for (int j = 0; j < 7; j++) ok |= std::fabs(g - Value(i, j)) < 1e-9; p.Check(ok, "pattern-range", "gain %.6g is not in the table", g); p.Obs({th, ph}); });
  Scenario("antenna", "antenna from settings of 2 sections: transmitter/receiver x gain model {isotropic, pattern, unknown} for each x power, losses, temperature of 2 kinds x 3 directions; and the vector constructor", [](Path& p) {
    bool tx = p.Flag("transmitter"), rx = p.Flag("receiver"); int tm = p.Choose(3), rm = p.Choose(3), k = p.Choose(2), id = 1 + p.Choose(2); Ini f; std::string tp = PatternFile(13, 7), rp = PatternFile(5, 9); static const char* M[3] = {"ISOTROPIC", "RADIATION_PATTERN_CSV", "OTHER"};
    for (int n = 1; n <= 2; n++) { std::string s = "ANTENNA_" + std::to_string(n); bool me = n == id; f.SetV(s, "quaternion_b2c", {0, 0, me ? 0.6 : 0, me ? 0.8 : 1}).Set(s, "is_transmitter", me ? (tx ? "1" : "0") : "1").Set(s, "is_receiver", me ? (rx ? "1" : "0") : "1").Set(s, "frequency_MHz", me ? 8000.0 + k : 1).Set(s, "tx_bitrate_bps", me ? 1e4 * (k + 1) : 7).Set(s, "tx_output_W", me ? 2.0 + k : 9).Set(s, "rx_system_noise_temperature_K", me ? 200.0 + k : 5); for (int d = 0; d < 2; d++) { std::string q = d ? "rx_" : "tx_"; f.Set(s, q + "loss_feeder_dB", me ? -1.5 - d : 3).Set(s, q + "loss_pointing_dB", me ? -0.25 - k : 3).Set(s, q + "gain_dBi", me ? 10.0 + 7 * d : 3).Set(s, q + "antenna_gain_model", M[me ? (d ? rm : tm) : 0]).Set(s, q + "antenna_radiation_pattern_file", d ? rp : tp).Set(s, q + "length_theta", d ? 5 : 13).Set(s, q + "length_phi", d ? 9 : 7).Set(s, q + "theta_max_rad", d ? M_PI : 2 * M_PI).Set(s, q + "phi_max_rad", d ? 2 * M_PI : M_PI); } }
    Antenna a = InitAntenna(id, f.Write("ant.ini")); p.Check(a.IsTransmitter() == tx && a.IsReceiver() == rx, "antenna-flags", "transmitter %d receiver %d", (int)a.IsTransmitter(), (int)a.IsReceiver()); p.Near(a.GetFrequency_MHz(), 8000.0 + k, 1e-9, "antenna-frequency"); p.Near(a.GetBitrate_bps(), 1e4 * (k + 1), 1e-9, "antenna-bitrate"); p.Near(a.GetQuaternion_b2c()[2], 0.6, 1e-12, "antenna-mounting");
    static const double D[3][2] = {{0, 0}, {1.1, 2.1}, {2.6, 0.6}}; for (auto& d : D) { if (tx) { double base = 10 * log10(2.0 + k) - 1.5 - 0.25 - k, g = a.CalcTxEirp_dBW(d[0], d[1]) - base; if (tm == 1) p.Check(NearCell(std::round(g * 1e6) / 1e6, d[0], d[1], 13, 7, 2 * M_PI, M_PI), "eirp", "gain %.6g", g); else p.Near(g, 10, 1e-9, "eirp"); } if (rx) { double base = -2.5 - 0.25 - k - 10 * log10(200.0 + k), g = a.CalcRxGt_dB_K(d[0], d[1]) - base; if (rm == 1) p.Check(NearCell(std::round(g * 1e6) / 1e6, d[0], d[1], 5, 9, M_PI, 2 * M_PI), "gt", "gain %.6g", g); else p.Near(g, 17, 1e-9, "gt"); } }
    math::Vector<5> tv; double tvv[5] = {2.0 + k, 10, -1.5, -0.25, 5e3}; math::Vector<4> rv; double rvv[4] = {17, -2.5, -0.5, 300.0}; for (int i = 0; i < 5; i++) tv[i] = tvv[i]; for (int i = 0; i < 4; i++) rv[i] = rvv[i]; Antenna b(3, Quat(0, 0, 0, 1), tx, rx, 2200, tv, rv); if (tx) p.Near(b.CalcTxEirp_dBW(0.4, 0.1), 10 * log10(2.0 + k) + 8.25, 1e-9, "eirp-vector"); if (rx) p.Near(b.CalcRxGt_dB_K(0.4, 0.1), 14 - 10 * log10(300.0), 1e-9, "gt-vector"); p.Near(b.GetBitrate_bps(), 5e3, 0, "antenna-bitrate"); p.Obs({(double)tx, (double)rx, (double)tm, (double)rm, (double)k, (double)id});
  });
  Scenario("link", "3 stations x 6 directions incl. zenith and below the horizon x 3 distances x 12 attitudes x 4 antenna mountings x transmitter/receiver present x gain model of each end x 3 budgets: C/N0, margin and bit rate from geometry and settings", [](Path& p) {
    static const double S[3][3] = {{35.7, 139.8, 50}, {-62, -58, 300}, {0, 0, 0}}; const double* s = S[p.Choose(3)]; int di = p.Choose(6); double dist = p.Pick({4e5, 2e6, 3.6e7}); int at = p.Choose(12), mo = p.PickI({0, 3, 7, 11}); int who = p.Choose(4), gm = p.Choose(3); static const Budget B[3] = {{0, -0.5, -0.12, 0, 10.8, 1.5, -8.17, 3}, {-3, -1, -2, -4, 20, 2, 0, 10}, {0, 0, 0, 0, 1, 0, 0, 0}}; int bi = p.Choose(3); const Budget& b = B[bi]; if (di >= 4 && (at % 6 || mo)) throw Skip();
    Stage& t = St(false); static std::string sites[3]; std::string& sf = sites[s == S[0] ? 0 : s == S[1] ? 1 : 2]; if (sf.empty()) { Ini f; f.Set("GROUND_STATION_0", "latitude_deg", s[0]).Set("GROUND_STATION_0", "longitude_deg", s[1]).Set("GROUND_STATION_0", "height_m", s[2]).Set("GROUND_STATION_0", "elevation_limit_angle_deg", 5.0); sf = f.Write("gs" + std::to_string((int)s[0] + 100) + ".ini"); } t.w->cfg.ground_station_file_list_ = {sf}; static std::map<std::string, std::unique_ptr<ground_station::GroundStation>> gsm; auto& gp = gsm[sf]; if (!gp) gp.reset(new ground_station::GroundStation(&t.w->cfg, 0)); ground_station::GroundStation& g = *gp;
    static const double DI[6][2] = {{0, 90}, {30, 20}, {135, 60}, {280, 6}, {90, 4}, {200, -30}}; double az = DI[di][0] * kD, el = DI[di][1] * kD; V3 e, n, u; Ltc(s[0] * kD, s[1] * kD, e, n, u); V3 d = Add(Scale(cos(el), Add(Scale(sin(az), e), Scale(cos(az), n))), Scale(sin(el), u)), P = Ecef(s[0] * kD, s[1] * kD, s[2]), R = Add(P, Scale(dist, d)); t.Move(0, R); t.s[0]->D().SetAttitude().SetQuaternion_i2b(Rotations()[at]); g.Update(t.Rotation(), *t.s[0]);
    static std::unique_ptr<AntennaRadiationPattern> pat; if (!pat) pat.reset(new AntennaRadiationPattern(PatternFile(73, 37), 73, 37, 2 * M_PI, M_PI)); AntennaParameters tx{12, -1.5, -0.5, gm == 1 ? AntennaGainModel::kRadiationPatternCsv : AntennaGainModel::kIsotropic, *pat}, rx{43, -0.5, -0.25, gm == 2 ? AntennaGainModel::kRadiationPatternCsv : AntennaGainModel::kIsotropic, *pat}; bool isT = who != 1 && who != 3, isR = who < 2 || who == 1; if (who == 2) isR = false; if (who == 3) isT = isR = false; double f = 8200, rate = 1e5; Quat q = Rotations()[mo], qg = Rotations()[(mo + 4) % 12];
    Antenna a(1, q, isT, false, f, rate, 2.0, tx, 100, rx), r(2, qg, false, isR, f, 1e5, 1.0, tx, 230, rx); GroundStationCalculator c(b.pol, b.atm, b.rain, b.oth, b.ebn0, b.hw, b.cod, b.mar, rate); c.Update(*t.s[0], a, g, r); double br = c.GetMaxBitrate_Mbps(), m = c.GetReceiveMargin_dB(); auto l = Cells(c.GetLogValue()); p.Near(l[0], br, 2e-5 * br, "link-log"); p.Near(l[1], m, 2e-5 * std::fabs(m), "link-log"); bool see = el > 5 * kD; p.Outcome(!see ? "hidden" : !isT || !isR ? "no-link" : br > 0 ? "link" : "too-weak"); p.Obs({s[0], (double)di, dist, (double)at, (double)mo, (double)who, (double)gm, (double)bi});
    if (!see) { p.Near(br, 0, 0, "hidden-bitrate"); p.Check(m <= -1000, "hidden-margin", "margin %.6g of a hidden spacecraft", m); return; }
    if (!isT || !isR) { p.Near(br, 0, 0, "no-link-bitrate"); p.Check(m < 0, "no-link-margin", "margin %.6g without transmitter or receiver", m); return; }
    double base = 10 * log10(2.0) - 2.0 - 20 * log10(4 * M_PI * dist / (299792458.0 / (f * 1e6))) + b.pol + b.atm + b.rain + b.oth - 0.75 - 10 * log10(230.0) - 10 * log10(1.380649e-23), cn = m + b.ebn0 + b.hw + b.cod + 10 * log10(rate); double got = cn - base; V3 ds = Mul(RotOf(q), Mul(RotOf(Rotations()[at]), MulT(Dcm(*t.w), Scale(-1, d)))), dl = MakeV(Dot(d, e), Dot(d, n), Dot(d, u)), dg = Mul(RotOf(qg), dl);
    if (gm == 0) p.Near(got, 55, 0.02, "link-cn0", "gains"); else { V3 x = gm == 1 ? ds : dg; double th = acos(std::max(-1.0, std::min(1.0, x[2]))), ph = atan2(x[1], x[0]), gain = got - (gm == 1 ? 43 : 12); bool ok = false; for (int k = -2; k <= 2 && !ok; k++) { double v = std::round(gain * 100 + k) / 100; if (std::fabs(v - gain) < 0.012) ok = NearCell(v, th, ph, 73, 37, 2 * M_PI, M_PI) || std::hypot(x[0], x[1]) < 1e-6 ; } p.Check(ok, "link-gain", "gain %.6g at theta %.6g phi %.6g of the %s antenna", gain, th, ph, gm == 1 ? "spacecraft" : "station"); p.Check(gain > -0.1 && gain < 10, "link-gain", "gain %.6g is not in the pattern", gain); }
    double mb = cn - b.ebn0 - b.hw - b.cod - b.mar, want = mb > 0 ? pow(10, mb / 10) / 1e6 : 0; p.Near(br, want, 1e-9 * want + 1e-12, "bitrate"); if (br > 0) { GroundStationCalculator c2 = c; Antenna a2(1, q, true, false, f, br * 1e6, 2.0, tx, 100, rx); c2.SetDownlinkBitrate_bps(br * 1e6); c2.Update(*t.s[0], a2, g, r); p.Near(c2.GetReceiveMargin_dB(), b.mar, 1e-6, "bitrate-margin", "margin at the highest bit rate"); }
  });
  for (const char* o : {"hidden", "no-link", "link", "too-weak"}) RequireOutcome("link", o);
  Scenario("link-history", "one calculator used over every history of 3 updates of 12 kinds {near, far, behind the earth, below the elevation limit} x {both antennas, no transmitter, no receiver}: bit rate, margin and log are those of a calculator that sees only the last update", [](Path& p) {
    Stage& t = St(false); t.w->cfg.ground_station_file_list_ = {WriteSites({{10, 20, 100, 5}})}; static ground_station::GroundStation* gp = nullptr; if (!gp) gp = new ground_station::GroundStation(&t.w->cfg, 0); auto& g = *gp; V3 e, n, u, P = Ecef(10 * kD, 20 * kD, 100); Ltc(10 * kD, 20 * kD, e, n, u); AntennaParameters x{20, 0, 0, AntennaGainModel::kIsotropic, AntennaRadiationPattern()}; GroundStationCalculator c(0, 0, 0, 0, 5, 1, -2, 3, 1e5);
    for (int k = 0; k < 3; k++) {
      int where = p.Choose(4), who = p.Choose(3); double el = (where == 3 ? 3 : 40) * kD; V3 R = where == 2 ? Scale(-1.2, P) : Add(P, Scale(where == 1 ? 3e6 : 6e5, Add(Scale(cos(el), e), Scale(sin(el), u)))); t.Move(0, R); Antenna a(1, Quat(0, 0, 0, 1), who != 1, false, 2200, 1e5, 1, x, 100, x), r(2, Quat(0, 0, 0, 1), false, who != 2, 2200, 1e5, 1, x, 230, x); GroundStationCalculator f(0, 0, 0, 0, 5, 1, -2, 3, 1e5);
      g.Update(t.Rotation(), *t.s[0]); c.Update(*t.s[0], a, g, r); f.Update(*t.s[0], a, g, r); p.Eq(c.GetMaxBitrate_Mbps(), f.GetMaxBitrate_Mbps(), "history-bitrate"); p.Eq(c.GetReceiveMargin_dB(), f.GetReceiveMargin_dB(), "history-margin"); p.Check(c.GetLogValue() == f.GetLogValue(), "history-log", "differs from a new calculator"); if (where >= 2 || who) { p.Near(c.GetMaxBitrate_Mbps(), 0, 0, "history-no-link"); p.Check(c.GetReceiveMargin_dB() < 0, "history-no-link", "margin %.6g", c.GetReceiveMargin_dB()); } p.Outcome(where >= 2 ? "hidden" : who ? "no-link" : "link"); p.Obs({(double)where, (double)who, c.GetReceiveMargin_dB()});
    }
  });
  for (const char* o : {"hidden", "no-link", "link"}) RequireOutcome("link-history", o);
  Scenario("calculator-settings", "calculator from a file: each of the 8 budget entries changed in turn by 1 dB moves the margin and the bit rate by its own effect", [](Path& p) {
    Stage& t = St(false); int k = p.Choose(9); static const char* K[8] = {"loss_polarization_dB", "loss_atmosphere_dB", "loss_rainfall_dB", "loss_others_dB", "ebn0_dB", "hardware_deterioration_dB", "coding_gain_dB", "margin_requirement_dB"}; static const double V[8] = {-0.1, -0.2, -0.3, -0.4, 5, 1.5, -2, 3}; t.w->cfg.ground_station_file_list_ = {WriteSites({{0, 0, 0, 5}})}; ground_station::GroundStation g(&t.w->cfg, 0); t.Move(0, Ecef(0, 0.01, 9e5)); t.s[0]->D().SetAttitude().SetQuaternion_i2b(Rotations()[0]); g.Update(t.Rotation(), *t.s[0]); double m[2], b[2];
    for (int v = 0; v < 2; v++) { Ini f; for (int i = 0; i < 8; i++) f.Set("GROUND_STATION_CALCULATOR", K[i], V[i] + (v && i == k ? 1.0 : 0)); f.Set("GROUND_STATION_CALCULATOR", "downlink_bitrate_bps", 1e5); GroundStationCalculator c = InitGsCalculator(f.Write("calc.ini")); AntennaParameters x{20, 0, 0, AntennaGainModel::kIsotropic, AntennaRadiationPattern()}; Antenna a(1, Quat(0, 0, 0, 1), true, false, 2200, 1e5, 1, x, 0, x), r(2, Quat(0, 0, 0, 1), false, true, 2200, 1e5, 1, x, 200, x); c.Update(*t.s[0], a, g, r); m[v] = c.GetReceiveMargin_dB(); b[v] = 10 * log10(c.GetMaxBitrate_Mbps()); }
    double s = k < 4 ? 1 : -1; p.Near(m[1] - m[0], k == 8 || k == 7 ? 0 : s, 1e-9, "margin-entry", k < 8 ? K[k] : "none"); p.Near(b[1] - b[0], k == 8 ? 0 : s, 1e-9, "bitrate-entry", k < 8 ? K[k] : "none"); p.Obs({(double)k});
  });
}
