// Air density (standard, Harris-Priester, inputs of NRLMSISE-00) and geomagnetic field of the environment.
#include <dirent.h>
#include <environment/local/atmosphere.hpp>
#include <environment/local/geomagnetic_field.hpp>
#include <math_physics/atmosphere/harris_priester_model.hpp>
#include <math_physics/atmosphere/simple_air_density_model.hpp>
#include <math_physics/atmosphere/wrapper_nrlmsise00.hpp>
#include <math_physics/geomagnetic/igrf.h>
#include <math_physics/randomization/global_randomization.hpp>
#include <fstream>
#include <sstream>
#include "env.hpp"
using namespace mc; using namespace env;
using namespace s2e; using s2e::environment::Atmosphere; using s2e::environment::GeomagneticField;
const char* kProperty = "V03";
const char* kAssumptions = "The NRLMSISE-00 library is absent: the inputs handed to it are judged, not its density. The reference for the field is the coefficient file of the repository evaluated by an independent spherical-harmonic expansion; dates lie between 1900 and 2030.";
static std::vector<double> Cells(const std::string& s) { std::vector<double> v; std::istringstream i(s); std::string c; while (std::getline(i, c, ',')) if (c.size()) v.push_back(atof(c.c_str())); return v; }

// exponential atmosphere, Vallado table 8-4: base height [km], density [kg/m3], scale height [km]
static const double kExp[28][3] = {{0, 1.225, 7.249}, {25, 3.899e-2, 6.349}, {30, 1.774e-2, 6.682}, {40, 3.972e-3, 7.554}, {50, 1.057e-3, 8.382}, {60, 3.206e-4, 7.714}, {70, 8.770e-5, 6.549}, {80, 1.905e-5, 5.799}, {90, 3.396e-6, 5.382}, {100, 5.297e-7, 5.877}, {110, 9.661e-8, 7.263}, {120, 2.438e-8, 9.473}, {130, 8.484e-9, 12.636}, {140, 3.845e-9, 16.149}, {150, 2.070e-9, 22.523}, {180, 5.464e-10, 29.740}, {200, 2.789e-10, 37.105}, {250, 7.248e-11, 45.546}, {300, 2.418e-11, 53.628}, {350, 9.518e-12, 53.298}, {400, 3.725e-12, 58.515}, {450, 1.585e-12, 60.828}, {500, 6.967e-13, 63.822}, {600, 1.454e-13, 71.835}, {700, 3.614e-14, 88.667}, {800, 1.170e-14, 124.64}, {900, 5.245e-15, 181.05}, {1000, 3.019e-15, 268.0}};
static double Standard(double h) { int i = 27; while (i > 0 && h < kExp[i][0]) i--; return kExp[i][1] * exp(-(h - kExp[i][0]) / kExp[i][2]); }
// Harris-Priester, Montenbruck table 3.8: height [km], minimum and maximum density [g/km3]
static const double kHp[50][3] = {{100, 497400, 497400}, {120, 24900, 24900}, {130, 8377, 8710}, {140, 3899, 4059}, {150, 2122, 2215}, {160, 1263, 1344}, {170, 800.8, 875.8}, {180, 528.3, 601.0}, {190, 361.7, 429.7}, {200, 255.7, 316.2}, {210, 183.9, 239.6}, {220, 134.1, 185.3}, {230, 99.49, 145.5}, {240, 74.88, 115.7}, {250, 57.09, 93.08}, {260, 44.03, 75.55}, {270, 34.30, 61.82}, {280, 26.97, 50.95}, {290, 21.39, 42.26}, {300, 17.08, 35.26}, {320, 10.99, 25.11}, {340, 7.214, 18.19}, {360, 4.824, 13.37}, {380, 3.274, 9.955}, {400, 2.249, 7.492}, {420, 1.558, 5.684}, {440, 1.091, 4.355}, {460, 0.7701, 3.362}, {480, 0.5474, 2.612}, {500, 0.3916, 2.042}, {520, 0.2819, 1.605}, {540, 0.2042, 1.267}, {560, 0.1488, 1.005}, {580, 0.1092, 0.7997}, {600, 0.08070, 0.6390}, {620, 0.06012, 0.5123}, {640, 0.04519, 0.4121}, {660, 0.03430, 0.3325}, {680, 0.02632, 0.2691}, {700, 0.02043, 0.2185}, {720, 0.01607, 0.1779}, {740, 0.01281, 0.1452}, {760, 0.01036, 0.1190}, {780, 0.008496, 0.09776}, {800, 0.007069, 0.08059}, {840, 0.004680, 0.05741}, {880, 0.003200, 0.04210}, {920, 0.002210, 0.03130}, {960, 0.001560, 0.02360}, {1000, 0.001150, 0.01810}};
static double Harris(double h, double bulge) {  // bulge: cosine of the angle between position and apex
  int i = 48; while (i > 0 && h < kHp[i][0]) i--; double k = (h - kHp[i][0]) / (kHp[i + 1][0] - kHp[i][0]), lo = kHp[i][1] * pow(kHp[i + 1][1] / kHp[i][1], k), hi = kHp[i][2] * pow(kHp[i + 1][2] / kHp[i][2], k); return 1e-12 * (lo + (hi - lo) * bulge);
}
static double Bulge(const V3& pos, const V3& sun, double n) { double c = sqrt(3.0) / 2, s = 0.5; V3 u = Unit(sun), a = MakeV(c * u[0] - s * u[1], s * u[0] + c * u[1], u[2]); double b = 0.5 + 0.5 * Dot(Unit(pos), a); return pow(b < 0 ? 0 : b, n / 2); }
static V3 Ecef(double la, double lo, double h) { const double a = 6378136.6, f = 3.352797e-3, e2 = f * (2 - f); double n = a / sqrt(1 - e2 * sin(la) * sin(la)); return MakeV((n + h) * cos(la) * cos(lo), (n + h) * cos(la) * sin(lo), (n * (1 - e2) + h) * sin(la)); }

// independent evaluation of the reference field
struct Igrf {
  std::vector<double> epoch; std::map<std::pair<int, int>, std::vector<double>> g, h; int nmax = 0;
  explicit Igrf(const std::string& f) {
    std::ifstream in(f); std::string l; int cols, y1, y2; std::getline(in, l); sscanf(l.c_str(), "%d%d%d%d", &nmax, &cols, &y1, &y2); std::getline(in, l); std::istringstream hs(l); std::string c; int z; hs >> c >> z >> z; for (int i = 0; i + 1 < cols; i++) { double e; hs >> e; epoch.push_back(e); }
    while (std::getline(in, l)) { std::istringstream s(l); int n, m; if (!(s >> c >> n >> m)) continue; std::vector<double> v; double x; while (s >> x) v.push_back(x); v.resize(cols); (c == "g" ? g : h)[{n, m}] = v; }
  }
  double At(const std::vector<double>& v, double y) const { size_t k = 0; while (k + 1 < epoch.size() && y >= epoch[k + 1]) k++; return k + 1 == epoch.size() ? v[k] + v[k + 1] * (y - epoch[k]) : v[k] + (v[k + 1] - v[k]) * (y - epoch[k]) / (epoch[k + 1] - epoch[k]); }
  V3 Field(double year, double la, double lo, double alt_m) const {  // earth-fixed [nT]
    const double A = 6378.137, B = A * (1 - 1 / 298.25722), e2 = 1 - B * B / A / A; double N = A / sqrt(1 - e2 * sin(la) * sin(la)), H = alt_m / 1e3, X = (N + H) * cos(la), Z = (N * (1 - e2) + H) * sin(la), R = hypot(X, Z), ct = Z / R, st = fabs(X) / R; if (X < 0) lo += 0;
    std::vector<std::vector<double>> P(nmax + 1, std::vector<double>(nmax + 1, 0)), Q = P; P[0][0] = 1; Q[1][1] = 1; P[1][1] = st;
    for (int m = 2; m <= nmax; m++) { double k = sqrt((2 * m - 1.0) / (2 * m)); Q[m][m] = k * st * Q[m - 1][m - 1]; P[m][m] = k * st * P[m - 1][m - 1]; }
    for (int m = 0; m <= nmax; m++) for (int n = m + 1; n <= nmax; n++) { double d = sqrt((double)(n * n - m * m)), b = n - 1 > m ? sqrt((double)((n - 1) * (n - 1) - m * m)) : 0; P[n][m] = ((2 * n - 1) * ct * P[n - 1][m] - (b ? b * P[n - 2][m] : 0)) / d; Q[n][m] = ((2 * n - 1) * ct * Q[n - 1][m] - (b ? b * Q[n - 2][m] : 0)) / d; }
    double br = 0, bt = 0, bp = 0, q = 6371.2 / R, f = q * q;
    for (int n = 1; n <= nmax; n++) { f *= q; for (int m = 0; m <= n; m++) { auto gi = g.find({n, m}); if (gi == g.end()) continue; auto hi = h.find({n, m}); double G = At(gi->second, year), Hh = hi == h.end() ? 0 : At(hi->second, year), c = G * cos(m * lo) + Hh * sin(m * lo), s = G * sin(m * lo) - Hh * cos(m * lo); double dP = m ? n * ct * Q[n][m] - sqrt((double)(n * n - m * m)) * Q[n - 1][m] : -sqrt(n * (n + 1) / 2.0) * P[n][1]; br += (n + 1) * f * c * P[n][m]; bt -= f * c * dP; if (m) bp += f * m * s * Q[n][m]; } }
    double cl = cos(lo), sl = sin(lo); return MakeV((br * st + bt * ct) * cl - bp * sl, (br * st + bt * ct) * sl + bp * cl, br * ct - bt * st);
  }
};
static const std::string& Coef() { static std::string f = CORE_DIR_FROM_EXE "/example/settings/environment/magnetic_field/igrf13.coef"; return f; }
static const Igrf& Ref() { static Igrf r(Coef()); return r; }
static V3 RotZ(double a, const V3& v) { return MakeV(cos(a) * v[0] - sin(a) * v[1], sin(a) * v[0] + cos(a) * v[1], v[2]); }
// a second, smaller coefficient file: two epochs and a secular variation
static const std::string& Coef2() { static std::string f; if (f.empty()) { std::string t = "    8  3 2000 2015\ny  0  0 2000.0 2010.0 2010-15\n"; for (int n = 1; n <= 8; n++) for (int m = 0; m <= n; m++) for (int k = 0; k < (m ? 2 : 1); k++) { char b[120]; double v = (n == 1 && m == 0 ? -20000 : 3000.0 / n / (m + 1) * (k ? -1 : 1)) ; snprintf(b, sizeof b, "%c %2d %2d %9.1f %9.1f %8.2f\n", k ? 'h' : 'g', n, m, v, v * 1.5 + n, 3.0 * m - n); t += b; } f = WriteFile("other13.coef", t); } return f; }
static const double kYears[9] = {1900, 1947.3, 1994.9999, 1997.5, 2004.5, 2010, 2019.99, 2020, 2028.25};
static void CheckField(Path& p, GeomagneticField& f, const V3& want_i, const Quat& q, double tol, const char* key) { p.NearV(f.GetGeomagneticField_i_nT(), want_i, 3, tol, key); p.NearV(f.GetGeomagneticField_b_nT(), Mul(RotOf(q), want_i), 3, tol, key, "body frame"); }

static const char* kModels[5] = {"STANDARD", "HARRIS_PRIESTER", "NRLMSISE00", "NONE", ""};
static V3 SunOf(int k) { static const V3 s[4] = {MakeV(1.4e11, 3e10, 2e10), MakeV(-2e10, -1.3e11, -5e10), MakeV(1e10, -2e9, 1.45e11), MakeV(-1.5e11, 0, 0)}; return s[k]; }

static int OpenFiles() { int n = 0; if (DIR* d = opendir("/proc/self/fd")) { while (readdir(d)) n++; closedir(d); } return n; }
void Register() {
  Scenario("standard", "standard model: 28 table heights x {-1e-6, 0, +1e-6, 1/3, 2/3 of the interval} km, and above and below the table; value, order and continuity", [](Path& p) {
    int i = p.Choose(28), k = p.Choose(5); double a = kExp[i][0], b = i < 27 ? kExp[i + 1][0] : 40000, h = k == 0 ? a - 1e-6 : k == 1 ? a : k == 2 ? a + 1e-6 : a + (k - 2) / 3.0 * (b - a); if (h < 0) throw Skip(); double d = atmosphere::CalcAirDensityWithSimpleModel(h * 1e3), w = Standard(h);
    p.Check(std::isfinite(d) && (d > 0 || w < 1e-40), "standard", "density %.6g at %.9g km", d, h); if (std::fabs(h - a) < 1e-12) w = std::fabs(d - w) < std::fabs(d - Standard(a - 1e-9)) ? w : Standard(a - 1e-9); p.Near(d, w, 1e-9 * w, "standard", "density"); double up = atmosphere::CalcAirDensityWithSimpleModel((h + 1) * 1e3), lo = atmosphere::CalcAirDensityWithSimpleModel((h + 1e-5) * 1e3); p.Check(up <= d * 1.002, "standard-order", "density rises from %.6g to %.6g within 1 km above %.6g km", d, up, h); p.Check(std::fabs(lo - d) <= 0.005 * d, "standard-step", "density steps from %.6g to %.6g at %.6g km", d, lo, h); p.Obs({(double)i, (double)k});
  });
  Scenario("below-ground", "every model below the ground, and at the centre: finite and not negative", [](Path& p) { double h = p.Pick({-1, -1e-6, -100, -6378}); double d = atmosphere::CalcAirDensityWithSimpleModel(h * 1e3), e = atmosphere::CalcAirDensityWithHarrisPriester_kg_m3(geodesy::GeodeticPosition(0.4, 0.2, h * 1e3), MakeV(1, 0, 0)); p.Check(std::isfinite(d) && d >= 0 && d < 1e4, "below-ground", "standard %.6g at %g km", d, h); p.Check(std::isfinite(e) && e >= 0 && e < 1e4, "below-ground", "Harris-Priester %.6g at %g km", e, h); p.Obs({h}); });
  Scenario("harris-priester", "50 table heights x {-1e-6, 0, +1e-6, middle} x 9 places x 26 sun directions + apex + antapex x exponent {2,3,4,6}", [](Path& p) {
    static const double P[9][2] = {{0, 0}, {0.3, 1}, {-0.9, -2.5}, {1.5707963267948966, 0}, {-1.5707963267948966, 1}, {0, 3.1415926535897931}, {0.7, -0.5235987755982988}, {-0.01, 2}, {1.2, 0.1}}; int i = p.Choose(50), k = p.Choose(4); double a = kHp[i][0], b = i < 49 ? kHp[i + 1][0] : 1400, h = k == 0 ? a - 1e-6 : k == 1 ? a : k == 2 ? a + 1e-6 : (a + b) / 2; const double* q = P[p.Choose(9)]; V3 pos = Ecef(q[0], q[1], h * 1e3); int s = p.Choose(28); V3 sun; if (s < 26) sun = Unit(Directions26()[s]); else { V3 u = RotZ(-M_PI / 6, Unit(pos)); sun = s == 26 ? u : Scale(-1, u); } double n = p.Pick({2, 3, 4, 6});
    double d = atmosphere::CalcAirDensityWithHarrisPriester_kg_m3(geodesy::GeodeticPosition(q[0], q[1], h * 1e3), sun, 150, n); p.Check(std::isfinite(d) && d > 0, "harris-priester", "density %.6g at %.9g km", d, h); double bu = Bulge(pos, sun, n);
    if (h >= 100 && h <= 1000) p.Near(d, Harris(h, bu), 2e-8 * d, "harris-priester", "density"); else if (h < 100) p.Near(d, Harris(100, bu), 1e-3 * d, "harris-priester-low", "density just below the table"); else p.Check(d <= Harris(1000, bu) * (1 + 1e-9) && d > 0.1 * Harris(1000, bu) * (h > 1100 ? 0 : 1), "harris-priester-high", "density %.6g above the table, %.6g at its end", d, Harris(1000, bu));
    p.Outcome(bu < 1e-6 ? "antapex" : bu > 1 - 1e-6 ? "apex" : "between"); p.Obs({(double)i, (double)k, d});
  });
  for (const char* o : {"antapex", "apex", "between"}) RequireOutcome("harris-priester", o);
  Scenario("field", "9 dates x 12 latitudes with both poles x 7 longitudes x 4 altitudes x 2 rotations of the earth x 2 attitudes; magnitude falls with altitude", [](Path& p) {
    int yi = p.Choose(9); double la = p.Pick({-M_PI / 2, -M_PI / 2 + 1e-9, -1.4, -0.6, 0, 1e-12, 0.4, 1.1, 1.4, M_PI / 2 - 1e-4, M_PI / 2, 0.8}), lo = p.Pick({0, 0.7, 2.1, M_PI, -M_PI, -2.9, 5.5}); static const double kH[4] = {0, 4.2e5, 2e6, 3.6e7}; int hi = p.Choose(4); double g = p.Pick({0, 4.4}); int qi = p.PickI({0, 7}); static GeomagneticField f(Coef(), 0, 0, 0); set_file_path(Coef().c_str());
    f.CalcMagneticField(kYears[yi], g, geodesy::GeodeticPosition(la, lo, kH[hi]), Rotations()[qi]); V3 w = RotZ(g, Ref().Field(kYears[yi], la, lo, kH[hi])); double tol = std::fabs(std::fabs(la) - M_PI / 2) < 1e-5 ? 0.05 : 0.01; CheckField(p, f, w, Rotations()[qi], tol, "field"); double m = Norm(f.GetGeomagneticField_i_nT()); if (hi) { GeomagneticField z(Coef(), 0, 0, 0); z.CalcMagneticField(kYears[yi], g, geodesy::GeodeticPosition(la, lo, kH[hi - 1]), Rotations()[qi]); p.Check(m < Norm(z.GetGeomagneticField_i_nT()), "field-altitude", "field does not fall with altitude"); } p.Obs({(double)yi, la, lo, (double)hi});
  });
  Scenario("field-histories", "all histories of 3/4 evaluations over 9 dates in 7 intervals of the file and 3 in another file, at places that repeat or change", [](Path& p) {
    static Igrf other(Coef2()); int files = OpenFiles(); static const double P[2][3] = {{0.4, 2, 5e5}, {-1.2, -1, 7e5}};
    for (int s = 0, n = Q(3, 4); s < n; s++) { int c = p.Choose(12); const double* a = P[p.Choose(2)]; double y = c < 9 ? kYears[c] : c == 9 ? 2001.5 : c == 10 ? 2009.9 : 2013; GeomagneticField f(c < 9 ? Coef() : Coef2(), 0, 0, 0); f.CalcMagneticField(y, 0.3, geodesy::GeodeticPosition(a[0], a[1], a[2]), Quat(0, 0, 0, 1)); V3 w = RotZ(0.3, (c < 9 ? Ref() : other).Field(y, a[0], a[1], a[2])); CheckField(p, f, w, Quat(0, 0, 0, 1), 0.02, "field-history"); p.Outcome(c < 9 ? "main" : "other"); p.Obs({(double)c, (double)s}); }
    p.Check(OpenFiles() == files, "field-file-left-open", "evaluating the field left %d files open", OpenFiles() - files);
  });
  Scenario("wiring", "environment from settings: 5 density models x atmosphere and field enabled or not x 4 sun directions x 4 orbits x 2 attitudes x earth rotation simple/full: density at the spacecraft, field in both frames, log", [](Path& p) {
    int m = p.Choose(5); bool at = p.Flag("atmosphere"), mf = p.Flag("field"), full = p.Flag("full rotation"); int su = p.Choose(4), ob = p.Choose(4), qi = p.PickI({3, 8}); static const V3 R[4] = {MakeV(6.6e6, 1e5, 2e5), MakeV(-1e6, 6.4e6, 2.1e6), MakeV(10, -20, 6.9e6), MakeV(-4e6, -4e6, -4e6)}; static const V3 V[4] = {MakeV(0, 7.7e3, 0), MakeV(-7.5e3, 0, 100), MakeV(7.6e3, 0, 0), MakeV(5e3, -5e3, 0)};
    ClearBodies(); SetBody("SUN", SunOf(su)); Settings s; s.local.Set("ATMOSPHERE", "calculation", at ? "ENABLE" : "DISABLE").Set("ATMOSPHERE", "model", kModels[m]).Set("ATMOSPHERE", "manual_daily_f107", 140).Set("ATMOSPHERE", "manual_average_f107", 120).Set("ATMOSPHERE", "manual_ap", 7); s.local.Set("MAGNETIC_FIELD_ENVIRONMENT", "calculation", mf ? "ENABLE" : "DISABLE").Set("MAGNETIC_FIELD_ENVIRONMENT", "coefficient_file", Coef()); s.base.Set("CELESTIAL_INFORMATION", "rotation_mode(0)", full ? "FULL" : "SIMPLE");
    World w(s); w.Place(R[ob], V[ob], Rotations()[qi], MakeV(0, 0, 0)); auto& t = w.time(); auto& o = w.dynamics->GetOrbit(); auto gp = o.GetGeodeticPosition(); double la = gp.GetLatitude_rad(), lo = gp.GetLongitude_rad(), h = gp.GetAltitude_m(); const Atmosphere& a = w.local->GetAtmosphere(); double d = a.GetAirDensity_kg_m3(), want = 0;
    math::Matrix<3, 3> D = w.global->GetCelestialInformation().GetEarthRotation().GetDcmJ2000ToEcef(); V3 r = o.GetPosition_i_m(), e; for (int i = 0; i < 3; i++) e[i] = D[i][0] * r[0] + D[i][1] * r[1] + D[i][2] * r[2]; V3 ge = Ecef(la, lo, h); p.NearV(ge, e, 3, 1e3, "geodetic-position");
    if (at && m == 0) want = Standard(h / 1e3); if (at && m == 1) { V3 sf, sun = SunOf(su); for (int i = 0; i < 3; i++) sf[i] = D[i][0] * sun[0] + D[i][1] * sun[1] + D[i][2] * sun[2]; want = Harris(h / 1e3, Bulge(ge, sf, 4)); }
    if (at && m == 2) { auto& in = stub::g_last_nrlmsise; p.Near(in.alt, h / 1e3, 1e-6, "nrlmsise-altitude"); p.Near(in.g_lat, la * 180 / M_PI, 1e-9, "nrlmsise-latitude"); p.Near(in.g_long, lo * 180 / M_PI, 1e-9, "nrlmsise-longitude"); p.Near(in.f107, 140, 0, "nrlmsise-f107"); p.Near(in.f107A, 120, 0, "nrlmsise-f107a"); p.Near(in.ap, 7, 0, "nrlmsise-ap"); want = 3e-12 * exp(-(in.alt - 400.0) / 58.0) * (1 + 0.001 * in.f107); }
    p.Near(d, want, 1e-7 * want, at ? "density" : "density-disabled", kModels[m]); p.Near(Cells(a.GetLogValue())[0], d, 2e-5 * d, "density-log"); const GeomagneticField& f = w.local->GetGeomagneticField(); V3 fw = mf ? RotZ(t.GetCurrentSiderealTime(), Ref().Field(t.GetCurrentDecimalYear(), la, lo, h)) : MakeV(0, 0, 0); CheckField(p, const_cast<GeomagneticField&>(f), fw, w.dynamics->GetAttitude().GetQuaternion_i2b(), 0.05, mf ? "field" : "field-disabled"); auto c = Cells(f.GetLogValue()); for (int i = 0; i < 3; i++) { p.Near(c[i], f.GetGeomagneticField_i_nT()[i], 2e-5 * std::fabs(c[i]) + 1e-9, "field-log"); p.Near(c[3 + i], f.GetGeomagneticField_b_nT()[i], 2e-5 * std::fabs(c[3 + i]) + 1e-9, "field-log"); }
    p.Outcome(at ? kModels[m] : "disabled"); p.Outcome(mf ? "field" : "no-field"); p.Obs({(double)m, (double)at, (double)mf, (double)su, (double)ob, (double)qi, d});
  });
  for (const char* o : {"STANDARD", "HARRIS_PRIESTER", "NRLMSISE00", "NONE", "disabled", "field", "no-field"}) RequireOutcome("wiring", o);
  Scenario("configuration", "daily and average manual fluxes from 7 values around the plausibility limit each: the values handed to the NRLMSISE-00 library; and a space weather file that cannot be read x 4 orbits: the standard model takes over", [](Path& p) {
    int kind = p.Choose(2); ClearBodies(); Settings s; s.local.Set("ATMOSPHERE", "calculation", "ENABLE").Set("ATMOSPHERE", "model", "NRLMSISE00").Set("ATMOSPHERE", "manual_ap", 7); auto put = [&](double a, double b) { s.local.Set("ATMOSPHERE", "manual_daily_f107", a).Set("ATMOSPHERE", "manual_average_f107", b); }; static const V3 R[4] = {MakeV(6.6e6, 1e5, 2e5), MakeV(-1e6, 6.4e6, 2.1e6), MakeV(10, -20, 6.9e6), MakeV(-4e6, -4e6, -4e6)}; static const V3 V[4] = {MakeV(0, 7.7e3, 0), MakeV(-7.5e3, 0, 100), MakeV(7.6e3, 0, 0), MakeV(5e3, -5e3, 0)};
    if (kind == 0) { static const double L[7] = {0, 20, 49.5, 50, 50.5, 90, 240}; double a = L[p.Choose(7)], b = L[p.Choose(7)]; put(a, b); World w(s); w.Place(R[0], V[0], Rotations()[3], MakeV(0, 0, 0)); auto& in = stub::g_last_nrlmsise; p.Near(in.f107, a < 50 ? 150 : a, 0, "flux-default"); p.Near(in.f107A, b < 50 ? 150 : b, 0, "flux-default"); p.Near(in.ap, 7, 0, "nrlmsise-ap"); p.Outcome(a < 50 || b < 50 ? "default" : "given"); p.Obs({a, b}); return; }
    int ob = p.Choose(4), empty = p.Choose(2); put(140, 120); s.local.Set("ATMOSPHERE", "is_manual_parameter_used", "DISABLE").Set("ATMOSPHERE", "nrlmsise00_table_file", Scratch() + (empty ? "/" : "/no_such_table.txt")); World w(s); w.Place(R[ob], V[ob], Rotations()[3], MakeV(0, 0, 0)); double h = w.dynamics->GetOrbit().GetGeodeticPosition().GetAltitude_m(), want = Standard(h / 1e3); p.Near(w.local->GetAtmosphere().GetAirDensity_kg_m3(), want, 1e-7 * want, "unreadable-table"); p.Outcome("fallback"); p.Obs({(double)ob, h});
  }, {1});
  for (const char* o : {"default", "given", "fallback"}) RequireOutcome("configuration", o);
  Scenario("other-centres", "3 centre bodies x 3 density models x 8 positions from 100 km to 2e9 m of the centre, 4 updates: no air and no geomagnetic field unless the centre body is the earth, and no altitude limit", [](Path& p) {
    static const char* C[3] = {"MOON", "SUN", "MARS"}; int ci = p.Choose(3), m = p.Choose(3), k = p.Choose(8); ClearBodies(); Settings s; s.base.Set("CELESTIAL_INFORMATION", "center_object", C[ci]).Set("CELESTIAL_INFORMATION", "number_of_selected_body", "4").Set("CELESTIAL_INFORMATION", "selected_body_name(0)", "EARTH").Set("CELESTIAL_INFORMATION", "selected_body_name(1)", "SUN").Set("CELESTIAL_INFORMATION", "selected_body_name(2)", "MOON").Set("CELESTIAL_INFORMATION", "selected_body_name(3)", "MARS"); s.local.Set("ATMOSPHERE", "calculation", "ENABLE").Set("ATMOSPHERE", "model", kModels[m]).Set("ATMOSPHERE", "manual_daily_f107", 140).Set("ATMOSPHERE", "manual_average_f107", 120).Set("ATMOSPHERE", "manual_ap", 7); s.local.Set("MAGNETIC_FIELD_ENVIRONMENT", "calculation", "ENABLE").Set("MAGNETIC_FIELD_ENVIRONMENT", "coefficient_file", Coef()); static const double D[8] = {1e5, 1.8e6, 3.5e6, 6.3e6, 6.8e6, 1e7, 4e8, 2e9}; World w(s); w.Place(MakeV(D[k] * .6, D[k] * .64, D[k] * .48), MakeV(0, 60, -80), Rotations()[3], MakeV(0, 0, 0.01));
    for (int i = 0; i < 4; i++) { p.Note("centre %s at %g m update %d", C[ci], D[k], i); p.Near(w.local->GetAtmosphere().GetAirDensity_kg_m3(), 0, 0, "density-without-earth"); p.NearV(w.local->GetGeomagneticField().GetGeomagneticField_b_nT(), MakeV(0, 0, 0), 3, 0, "field-without-earth"); p.NearV(w.local->GetGeomagneticField().GetGeomagneticField_i_nT(), MakeV(0, 0, 0), 3, 0, "field-without-earth"); if (i < 3) w.Tick(); } p.Obs({(double)ci, (double)m, (double)k});
  }, {2});
  Scenario("update-times", "two clocks: attitude and orbit steps {1,3} s, 12 updates: the field follows the spacecraft at attitude steps, the density at orbit steps, and they hold in between", [](Path& p) {
    int as = p.PickI({1, 3}), os = p.PickI({1, 3}); bool at = p.Flag("atmosphere"), mf = p.Flag("field"); ClearBodies(); Settings s; s.local.Set("ATMOSPHERE", "calculation", at ? "ENABLE" : "DISABLE"); s.local.Set("MAGNETIC_FIELD_ENVIRONMENT", "calculation", mf ? "ENABLE" : "DISABLE").Set("MAGNETIC_FIELD_ENVIRONMENT", "coefficient_file", Coef()); s.base.Set("TIME", "attitude_update_period_s", as).Set("TIME", "orbit_update_period_s", os); World w(s); w.Place(MakeV(6.7e6, 0, 0), MakeV(1e3, 6e3, 4e3), Rotations()[5], MakeV(0.1, 0.02, 0)); double d = w.local->GetAtmosphere().GetAirDensity_kg_m3(); V3 f = w.local->GetGeomagneticField().GetGeomagneticField_b_nT(), r0 = w.dynamics->GetOrbit().GetPosition_i_m();
    for (int i = 0; i < 12; i++) { w.Tick(); auto& t = w.time(); auto gp = w.dynamics->GetOrbit().GetGeodeticPosition(); double dn = w.local->GetAtmosphere().GetAirDensity_kg_m3(); V3 fn = w.local->GetGeomagneticField().GetGeomagneticField_b_nT(); if (!at) p.Near(dn, 0, 0, "density-disabled"); else if (t.GetOrbitPropagateFlag()) p.Near(dn, Standard(gp.GetAltitude_m() / 1e3), 1e-3 * dn, "density-update"); else p.Near(dn, d, 0, "density-hold"); if (!mf) p.NearV(fn, MakeV(0, 0, 0), 3, 0, "field-disabled"); else if (!t.GetAttitudePropagateFlag()) p.NearV(fn, f, 3, 0, "field-hold"); else { V3 z = Mul(RotOf(w.dynamics->GetAttitude().GetQuaternion_i2b()), RotZ(t.GetCurrentSiderealTime(), Ref().Field(t.GetCurrentDecimalYear(), gp.GetLatitude_rad(), gp.GetLongitude_rad(), gp.GetAltitude_m()))); p.NearV(fn, z, 3, 60, "field-update"); } d = dn; f = fn; p.Outcome(t.GetOrbitPropagateFlag() ? "orbit" : "no orbit"); p.Obs({(double)i, (double)as, (double)os, dn}); } (void)r0;
  });
  Scenario("noise", "density noise {0, 0.1, 0.5} x 3 models, field walk {0, 50} with limit {1, 400} x white {0, 30}, 6 seeds, 300 updates: what users and log see is the perturbed value; size of the noise", [](Path& p) {
    randomization::global_randomization.SetSeed(p.Choose(6) * 7919 + 3); double sd = p.Pick({0, 0.1, 0.5}); int m = p.Choose(3); double wk = p.Pick({0, 50}), li = p.Pick({1, 400}), wh = p.Pick({0, 30}); static World* w = nullptr; if (!w) { ClearBodies(); w = new World(); w->Place(MakeV(6.7e6, 1e5, 0), MakeV(0, 7.6e3, 0), Quat(0, 0, 0, 1), MakeV(0, 0, 0)); }
    Atmosphere a(kModels[m], "none", sd, true, 150, 150, 3, &w->local->GetCelestialInformation(), &w->time()), t(kModels[m], "none", 0, true, 150, 150, 3, &w->local->GetCelestialInformation(), &w->time()); GeomagneticField f(Coef(), wk, li, wh); auto& o = w->dynamics->GetOrbit(); double tr = t.CalcAirDensity_kg_m3(2021.3, o), s1 = 0, s2 = 0; V3 ft = RotZ(0.2, Ref().Field(2021.3, 0.3, 0.4, 5e5)), w1 = MakeV(0, 0, 0), w2 = w1; int n = 300; Quat q = Rotations()[9]; bool moved = false;
    for (int i = 0; i < n; i++) { double r = a.CalcAirDensity_kg_m3(2021.3, o), g = a.GetAirDensity_kg_m3(); p.Near(r, g, 0, "noise-seen", "value handed to users against the value calculated"); p.Near(Cells(a.GetLogValue())[0], g, 2e-5 * g, "noise-log"); p.Check(g >= 0 && std::isfinite(g), "density-sign", "density %.6g", g); double e = (g - tr) / tr; s1 += e; s2 += e * e; if (sd == 0) p.Near(g, tr, 0, "no-noise"); f.CalcMagneticField(2021.3, 0.2, geodesy::GeodeticPosition(0.3, 0.4, 5e5), q); V3 fi = f.GetGeomagneticField_i_nT(), x = Sub(fi, ft); p.NearV(f.GetGeomagneticField_b_nT(), Mul(RotOf(q), fi), 3, 1e-6, "field-frames"); for (int k = 0; k < 3; k++) { w1[k] += x[k]; w2[k] += x[k] * x[k]; if (wk == 0 && wh == 0) p.Near(x[k], 0, 0.02, "no-noise", "field"); if (wh == 0) p.Check(std::fabs(x[k]) < li + 4.5 * wk + 0.02, "walk-limit", "walk %.6g beyond %.6g", x[k], li); if (std::fabs(x[k]) > 0.05) moved = true; } }
    if (sd > 0) { double mean = s1 / n, var = sqrt(s2 / n); p.Check(std::fabs(mean) < 6 * sd / sqrt(n) + (sd > 0.3 ? 0.02 : 0), "noise-mean", "mean of the density noise %.4g", mean); p.Check(var > 0.75 * sd && var < 1.25 * sd, "noise-size", "size of the density noise %.4g, configured %.4g", var, sd); } if (wh > 0 && wk == 0) for (int k = 0; k < 3; k++) { double v = sqrt(w2[k] / n); p.Check(v > 0.75 * wh && v < 1.25 * wh, "white-size", "size of the field noise %.4g, configured %.4g", v, wh); p.Check(std::fabs(w1[k] / n) < 6 * wh / sqrt(n), "white-mean", "mean of the field noise %.4g", w1[k] / n); } if (wk > 0) p.Check(moved, "walk", "the configured walk does not move the field"); p.Outcome(sd > 0 ? "noisy" : "exact"); p.Obs({sd, (double)m, wk, li, wh, s1});
  });
  Scenario("space-weather", "table of 75 days read for start day of year {1,31,59,60,61,200,334,365,366} of {2019,2020,2024} x duration {0, 3 days, 40 days} x update date in two months x evaluation {00:10, 12:00, 23:50} on the first and last day: the row of the day is handed to the model, with day of year and seconds", [](Path& p) {
    int year = p.PickI({2019, 2020, 2024}), leap = year % 4 == 0, doy = p.PickI({1, 31, 59, 60, 61, 200, 334, 365, 366}); if (doy > 365 + leap) throw Skip(); int dur = p.PickI({0, 3, 40}), upd = p.PickI({1, 12}); bool last = p.Flag("last day"); int when = p.Choose(3); static const int sec[3] = {600, 43200, 85800};
    auto date = [](int y, int n, int& oy, int& mo, int& d) { for (;;) { int L = y % 4 == 0 ? 366 : 365; if (n < 1) { y--; n += y % 4 == 0 ? 366 : 365; } else if (n > L) { n -= L; y++; } else break; } int ml[12] = {31, y % 4 == 0 ? 29 : 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; mo = 0; while (n > ml[mo]) n -= ml[mo++]; mo++; d = n; oy = y; };
    int k = last ? dur : 0; std::string text = "DATATYPE CssiSpaceWeather\nVERSION 1.2\nUPDATED " + std::to_string(year + 1) + (upd == 1 ? " Jan" : " Dec") + " 14 03:43:31 UTC\nBEGIN OBSERVED\n"; double wf = 0, wa = 0, wc = 0;
    for (int i = -45; i <= 50; i++) { int y, m, d; date(year, doy + i, y, m, d); int ap = 5 + (i + 45) * 3 % 300; double f = 70 + (i + 45) * 1.1, c = 90 + (i + 45) * 0.7; if (i == k) { wf = f; wa = ap; wc = c; } char b[200]; snprintf(b, sizeof b, "%4d %02d %02d %4d %2d 10 10 10 10 10 10 10 10  80   4   4   4   4   4   4   4   4 %3d 0.2 0  30 %5.1f 0 %5.1f  71.0  72.0  73.0  74.0\n", y, m, d, 2500, 1, ap, f, c); text += b; }
    std::string fn = WriteFile("sw.txt", text + "END OBSERVED\n"); double dy0 = year + (doy - 1 + 0.5) / (365 + leap); std::vector<atmosphere::nrlmsise_table> tab; size_t n = atmosphere::GetSpaceWeatherTable_(dy0, dur * 86400.0, fn, tab); p.Check(n >= (size_t)dur + 1, "space-weather-rows", "only %zu rows kept for %d days", n, dur);
    int y, m, d, y1, m1, d1; date(year, doy + k, y, m, d); date(y, 1, y1, m1, d1); int L = 365 + (y % 4 == 0), dd = doy + k - (y > year ? 365 + leap : 0); double dy = y + (dd - 1 + sec[when] / 86400.0) / L; atmosphere::CalcNRLMSISE00(dy, 0.3, -1.2, 4e5, tab, false, 1, 2, 3); auto& in = stub::g_last_nrlmsise; p.Near(in.doy, dd, 0, "day-of-year"); p.Near(in.sec, sec[when], 2, "second-of-day"); p.Near(in.lst, in.sec / 3600 - 1.2 * 180 / M_PI / 15, 1e-6, "local-time"); p.Near(in.f107, wf, 0.06, "space-weather", "F10.7"); p.Near(in.f107A, wc, 0.06, "space-weather", "averaged F10.7"); p.Near(in.ap, wa, 0, "space-weather", "Ap"); for (int i = 0; i < 7; i++) p.Near(in.ap_a ? in.ap : -1, wa, 0, "space-weather", "Ap array"); p.Outcome(y > year ? "next-year" : "same-year"); p.Obs({(double)year, (double)doy, (double)k, (double)when});
  });
  for (const char* o : {"next-year", "same-year"}) RequireOutcome("space-weather", o);
}
