// Telescope: forbidden angles, image positions, stars in sight.
#include <components/real/mission/telescope.hpp>
#include <environment/global/clock_generator.hpp>
#include <sstream>
#include "env.hpp"
using namespace mc; using namespace env;
using namespace s2e; using namespace s2e::components;
const char* kProperty = "N05";
const char* kAssumptions = "The catalogue is ordered by magnitude, as the reader requires. The ground point is judged only while it is inside the image.";
static double Rad(double d) { return d * M_PI / 180; }
static World& W() { static World* w = new World(); return *w; }
static std::vector<double> Cells(const std::string& s) { std::vector<double> v; std::istringstream i(s); std::string c; while (std::getline(i, c, ',')) if (c.size()) v.push_back(atof(c.c_str())); return v; }
static std::vector<double> Row(const Telescope& t) { return Cells(static_cast<const logger::ILoggable&>(t).GetLogValue()); }
static size_t Heads(const Telescope& t) { std::string h = static_cast<const logger::ILoggable&>(t).GetLogHeader(); return std::count(h.begin(), h.end(), ','); }
// image position of a direction of the component frame; false outside the image
static bool Image(const V3& c, int nx, int ny, double fx, double fy, double* o) {
  if (c[0] <= 0 || std::fabs(c[2] / c[0]) > std::tan(nx * fx / 2) || std::fabs(c[1] / c[0]) > std::tan(ny * fy / 2)) { o[0] = o[1] = -1; return false; }
  o[0] = nx / 2.0 * (1 + c[2] / c[0] / std::tan(nx * fx / 2)); o[1] = ny / 2.0 * (1 + c[1] / c[0] / std::tan(ny * fy / 2)); return true;
}
static environment::HipparcosCatalogue& None() { static auto* h = [] { auto* c = new environment::HipparcosCatalogue(3, "none"); c->IsCalcEnabled = false; return c; }(); return *h; }

void Register() {
  for (const char* o : {"forbidden", "allowed"}) RequireOutcome("forbidden", o);
  Scenario("forbidden", "sight line at {0, limit-0.02, limit+0.02, 90, 180} deg from the sun, the centre of the earth and the moon (every combination) x limits {40,21,13} / {120,95,178} deg x 3/12 mountings x 3 attitudes; a second update after a turn", [](Path& p) {
    const bool wide = p.Flag("wide limits"); const double lim[3] = {wide ? 120.0 : 40.0, wide ? 95.0 : 21.0, wide ? 178.0 : 13.0}; double an[3]; bool in[3]; int mi = p.Choose(Q(3, 12)); Quat mq = Rotations()[(mi * 4 + 2) % 12], at = Rotations()[p.PickI({0, 4, 10})]; Rot M = RotOf(mq), A = RotOf(at); auto dir = [&](double a, double ph) { return MulT(A, MulT(M, MakeV(std::cos(Rad(a)), std::sin(Rad(a)) * std::cos(ph), std::sin(Rad(a)) * std::sin(ph)))); };
    for (int b = 0; b < 3; b++) { int k = p.Choose(5); an[b] = k == 0 ? 0 : k == 1 ? lim[b] - 0.02 : k == 2 ? lim[b] + 0.02 : k == 3 ? 90 : 180; in[b] = an[b] < lim[b]; } World& w = W(); V3 pos = Scale(-7e6, dir(an[1], 1)); SetBody("SUN", Add(pos, Scale(1.5e11, dir(an[0], 0.3)))); SetBody("MOON", Add(pos, Scale(3.8e8, dir(an[2], -2)))); w.Place(pos, MakeV(100, 7500, 200), at, MakeV(0, 0, 0));
    environment::ClockGenerator clk; clk.ClearTimerCount(); Telescope t(&clk, mq, Rad(lim[0]), Rad(lim[1]), Rad(lim[2]), 100, 101, Rad(0.3), Rad(0.02), 0, &w.dynamics->GetAttitude(), &None(), w.local.get() ? &w.local->GetCelestialInformation() : nullptr); clk.TickToComponents(); p.Note("sun %g earth %g moon %g", an[0], an[1], an[2]); p.Eq(t.GetIsSunInForbiddenAngle(), in[0], "sun"); p.Eq(t.GetIsEarthInForbiddenAngle(), in[1], "earth"); p.Eq(t.GetIsMoonInForbiddenAngle(), in[2], "moon"); p.Outcome(in[0] || in[1] || in[2] ? "forbidden" : "allowed");
    auto r = Row(t); p.Eq(r.size(), 11, "telescope-log"); p.Eq(Heads(t), 11, "telescope-log"); for (int b = 0; b < 3; b++) { p.Eq(r[b], in[b], "telescope-log"); double ph[3] = {0.3, 1, -2}, o[2]; V3 c = MakeV(std::cos(Rad(an[b])), std::sin(Rad(an[b])) * std::cos(ph[b]), std::sin(Rad(an[b])) * std::sin(ph[b])); Image(c, 100, 101, Rad(0.3), Rad(0.02), o); p.NearV(&r[3 + 2 * b], MakeV(o[0], o[1], 0), 2, 2e-3, "image-position"); } p.Obs({an[0], an[1], an[2], (double)mi, at[0], at[3]});
  }, {3});
  for (const char* o : {"inside", "outside"}) RequireOutcome("image", o);
  Scenario("image", "a body at {0, +-0.3, +-0.98, +-1.02, +-1.9} half fields along each axis of the image, in front and behind x which body x pixels {(64,64),(101,51),(1,7)} x field per pixel x 2/12 mountings: image position exactly in the image, none outside", [](Path& p) {
    static const double K[9] = {0, 0.3, -0.3, 0.98, -0.98, 1.02, -1.02, 1.9, -1.9}; static const int N[3][2] = {{64, 64}, {101, 51}, {1, 7}}; int b = p.Choose(3), n = p.Choose(3), mi = p.Choose(Q(2, 12)); bool behind = p.Flag("behind"); Quat mq = Rotations()[(3 * mi + 1) % 12], at = Rotations()[(mi + 7) % 12]; World& w = W(); double fx = n == 2 ? 0.3 : 0.005, fy = n == 2 ? 0.05 : 0.01; int nx = N[n][0], ny = N[n][1];
    int kx = p.Choose(9), ky = p.Choose(9); double ax = K[kx] * nx * fx / 2, ay = K[ky] * ny * fy / 2; double s = behind ? -1 : 1; V3 c = Unit(MakeV(s, std::tan(ay), std::tan(ax))), di = MulT(RotOf(at), MulT(RotOf(mq), c)), pos = b == 1 ? Scale(-7e6, di) : Scale(-7e6, Unit(Cross(di, MakeV(0.3, 0.1, 0.7)))); SetBody("SUN", Add(pos, Scale(1.5e11, b == 0 ? di : Scale(-1, di)))); SetBody("MOON", Add(pos, Scale(3.8e8, b == 2 ? di : Scale(-1, di)))); w.Place(pos, MakeV(100, 7500, 200), at, MakeV(0, 0, 0));
    environment::ClockGenerator clk; clk.ClearTimerCount(); Telescope t(&clk, mq, 1, 1, 1, nx, ny, fx, fy, 0, &w.dynamics->GetAttitude(), &None(), &w.local->GetCelestialInformation()); clk.TickToComponents(); auto r = Row(t); double o[2]; bool in = Image(c, nx, ny, fx, fy, o); p.Note("body %d at %g %g half fields", b, K[kx], K[ky]); p.Eq(in, !behind && std::fabs(K[kx]) < 1 && std::fabs(K[ky]) < 1, "oracle"); p.NearV(&r[3 + 2 * b], MakeV(o[0], o[1], 0), 2, 2e-3, "image-position"); p.Outcome(in ? "inside" : "outside"); p.Obs({(double)b, (double)n, (double)mi, s, ax, ay});
  }, {3});
  for (const char* o : {"full", "padded", "empty"}) RequireOutcome("stars", o);
  Scenario("stars", "all catalogues of up to 3/4 stars over {centre, off centre, near each edge inside, just outside, behind} ordered by magnitude x magnitude limit {above, middle, below} x requested stars {0,1,2,5} x line ending {newline, none, CRLF, blank lines} x 3 mountings; missing and disabled catalogues", [](Path& p) {
    static const double X[6] = {0, 0.4, 0.97, -0.3, 1.03, 0}, Y[6] = {0, -0.6, 0.2, -0.97, 0.1, 0}; int want = p.PickI({0, 1, 2, 5}), mi = p.Choose(3), end = p.Choose(4), n = p.Choose(Q(4, 5)), file = p.Choose(3); if ((file && (n != 2 || end)) || (end && mi && !Thorough())) throw Skip(); double mx = p.Pick({9, 2.4, 0.5}); Quat mq = Rotations()[mi * 4 + 1], at = Rotations()[(mi * 3 + 2) % 12]; const int nx = 40, ny = 30; const double fx = 0.01, fy = 0.02; std::string nl = end == 2 ? "\r\n" : "\n", text = "hip,mag,ra,de"; struct S { int id; double mag; V3 c; }; std::vector<S> all;
    for (int i = 0; i < n; i++) { int k = p.Choose(6); V3 c = Unit(MakeV(k == 5 ? -1 : 1, std::tan(Y[k] * ny * fy / 2), std::tan(X[k] * nx * fx / 2))), d = MulT(RotOf(at), MulT(RotOf(mq), c)); S s{1000 - 7 * i, 1 + 0.8 * i, c}; all.push_back(s); char b[120]; snprintf(b, 120, "%d,%.2f,%.9f,%.9f", s.id, s.mag, std::fmod(std::atan2(d[1], d[0]) * 180 / M_PI + 360, 360), std::asin(std::max(-1.0, std::min(1.0, d[2]))) * 180 / M_PI); text += nl + b; } if (end != 1) text += nl; if (end == 3) text += "\n\n";
    Ini f; f.Set("HIPPARCOS_CATALOGUE", "catalogue_file_path", file == 1 ? std::string("/nonexistent/hip.csv") : WriteFile("hip.csv", text)).Set("HIPPARCOS_CATALOGUE", "max_magnitude", mx).Set("HIPPARCOS_CATALOGUE", "calculation", std::string(file == 2 ? "DISABLE" : "ENABLE")).Set("HIPPARCOS_CATALOGUE", "logging", std::string("DISABLE")); std::unique_ptr<environment::HipparcosCatalogue> h(environment::InitHipparcosCatalogue(f.Write("hip.ini"))); std::vector<S> kept; if (!file) for (auto& s : all) if (s.mag <= mx) kept.push_back(s); p.Eq(h->GetCatalogueSize(), kept.size(), "catalogue-size"); if (h->GetCatalogueSize() != kept.size()) return;
    for (size_t i = 0; i < kept.size(); i++) { p.Eq(h->GetHipparcosId(i), kept[i].id, "catalogue"); p.Near(h->GetVisibleMagnitude(i), kept[i].mag, 1e-9, "catalogue"); p.NearV(h->GetStarDirection_i(i), MulT(RotOf(at), MulT(RotOf(mq), kept[i].c)), 3, 1e-9, "star-direction"); p.NearV(h->GetStarDirection_b(i, at), MulT(RotOf(mq), kept[i].c), 3, 1e-9, "star-direction"); }
    World& w = W(); w.dynamics->SetAttitude().SetQuaternion_i2b(Rotations()[0]); environment::ClockGenerator clk; clk.ClearTimerCount(); Telescope t(&clk, mq, 1, 1, 1, nx, ny, fx, fy, want, &w.dynamics->GetAttitude(), h.get(), &w.local->GetCelestialInformation()); auto r = Row(t); size_t cols = 11 + (file == 2 ? 0 : 4 * want); p.Eq(Heads(t), cols, "telescope-log"); p.Eq(r.size(), cols, "telescope-log"); if (file != 2) for (int i = 0; i < want; i++) p.Near(r[11 + 4 * i], -1, 0, "no-star", "before the first update");
    clk.TickToComponents(); w.dynamics->SetAttitude().SetQuaternion_i2b(at); clk.TickToComponents(); r = Row(t); p.Eq(r.size(), cols, "telescope-log"); if (file == 2 || r.size() != cols) return; std::vector<std::pair<S, std::pair<double, double>>> see; for (auto& s : kept) { double o[2]; if (Image(s.c, nx, ny, fx, fy, o)) see.push_back({s, {o[0], o[1]}}); }
    for (int i = 0; i < want; i++) { bool is = i < (int)see.size(); p.Near(r[11 + 4 * i], is ? see[i].first.id : -1, 0, "star", "id"); p.Near(r[12 + 4 * i], is ? see[i].first.mag : -1, 1e-4, "star", "magnitude"); p.Near(r[13 + 4 * i], is ? see[i].second.first : -1, 2e-3, "star", "image position"); p.Near(r[14 + 4 * i], is ? see[i].second.second : -1, 2e-3, "star", "image position"); } p.Outcome(want && see.empty() ? "empty" : (int)see.size() < want ? "padded" : "full"); p.Obs({(double)want, (double)mi, (double)end, mx, (double)see.size(), (double)kept.size()}); p.ObsHash(std::hash<std::string>()(text));
  }, {4});
  Scenario("many-stars", "catalogues of {60, 101, 256, 257, 1500, 70000} stars of which every {1st, 2nd, 50th} or only the last 60 lie in the image, with identifiers up to 120000 x requested stars {3, 32, 40, 70, 300} x magnitude limit above all or halfway: the brightest in the image are given, in catalogue order", [](Path& p) {
    int n = p.PickI({60, 101, 256, 257, 1500, 70000}), every = p.PickI({1, 2, 50, 0}), want = p.PickI({3, 32, 40, 70, 300}); bool half = p.Flag("limit halfway"); if (n == 70000 && (every == 1 || every == 2 || half) && !Thorough()) throw Skip(); const int nx = 60, ny = 50; const double fx = 0.01, fy = 0.012; Quat mq = Rotations()[5], at = Rotations()[2]; std::string text = "hip,mag,ra,de\n"; struct S { int id; double mag; V3 c; }; std::vector<S> all; double mx = half ? 1 + 1e-4 * (n / 2) + 5e-5 : 99; text.reserve(n * 48);
    for (int i = 0; i < n; i++) { bool in = every ? i % every == every - 1 : i >= n - 60; double X = in ? 0.9 * std::sin(1.7 * i) : 1.4, Y = in ? 0.9 * std::sin(2.9 * i + 1) : 0.2 * std::sin(0.1 * i); V3 c = Unit(MakeV(in || i % 2 ? 1 : -1, std::tan(Y * ny * fy / 2), std::tan(X * nx * fx / 2))), d = MulT(RotOf(at), MulT(RotOf(mq), c)); S s{n == 70000 ? 120000 - i : 5 + 7 * i, 1 + 1e-4 * i, c}; all.push_back(s); char b[120]; snprintf(b, 120, "%d,%.4f,%.9f,%.9f\n", s.id, s.mag, std::fmod(std::atan2(d[1], d[0]) * 180 / M_PI + 360, 360), std::asin(std::max(-1.0, std::min(1.0, d[2]))) * 180 / M_PI); text += b; }
    Ini f; f.Set("HIPPARCOS_CATALOGUE", "catalogue_file_path", WriteFile("hip_many.csv", text)).Set("HIPPARCOS_CATALOGUE", "max_magnitude", mx).Set("HIPPARCOS_CATALOGUE", "calculation", std::string("ENABLE")).Set("HIPPARCOS_CATALOGUE", "logging", std::string("DISABLE")); std::unique_ptr<environment::HipparcosCatalogue> h(environment::InitHipparcosCatalogue(f.Write("hip_many.ini"))); int kept = half ? n / 2 + 1 : n; p.Eq(h->GetCatalogueSize(), kept, "catalogue-size"); if ((int)h->GetCatalogueSize() != kept) return;
    for (int i = 0; i < kept; i++) { p.Eq(h->GetHipparcosId(i), all[i].id, "catalogue"); p.Near(h->GetVisibleMagnitude(i), all[i].mag, 1e-9, "catalogue"); p.NearV(h->GetStarDirection_b(i, at), MulT(RotOf(mq), all[i].c), 3, 1e-9, "star-direction"); }
    World& w = W(); w.dynamics->SetAttitude().SetQuaternion_i2b(at); environment::ClockGenerator clk; clk.ClearTimerCount(); Telescope t(&clk, mq, 1, 1, 1, nx, ny, fx, fy, want, &w.dynamics->GetAttitude(), h.get(), &w.local->GetCelestialInformation()); clk.TickToComponents(); auto r = Row(t); p.Eq(r.size(), 11 + 4 * want, "telescope-log"); if ((int)r.size() != 11 + 4 * want) return; int j = 0;
    for (int i = 0; i < kept && j < want; i++) { double o[2]; if (!Image(all[i].c, nx, ny, fx, fy, o)) continue; p.Near(r[11 + 4 * j], all[i].id, n == 70000 ? 3 : 0, "star", "id"); p.Near(r[12 + 4 * j], all[i].mag, 1e-4 * 3, "star", "magnitude"); p.Near(r[13 + 4 * j], o[0], 2e-3, "star", "image position"); p.Near(r[14 + 4 * j], o[1], 2e-3, "star", "image position"); j++; } for (; j < want; j++) p.Near(r[11 + 4 * j], -1, 0, "no-star"); p.Obs({(double)n, (double)every, (double)want, (double)half});
  });
  Scenario("settings", "InitTelescope: 2 sections x 12 mountings x stars {0,3}: limits, pixels and mounting as written; ground point with orbit given", [](Path& p) {
    int id = p.Choose(2), d = p.Choose(12), st = p.PickI({0, 3}); Ini f; Quat q; for (int k = 0; k < 2; k++) { std::string s = "TELESCOPE_" + std::to_string(k); const Quat& x = Rotations()[(d + 5 * k) % 12]; bool me = k == id; if (me) q = x; f.SetV(s, "quaternion_b2c", {x[0], x[1], x[2], x[3]}).Set(s, "sun_exclusion_angle_deg", me ? 30 : 70).Set(s, "earth_exclusion_angle_deg", me ? 40 : 80).Set(s, "moon_exclusion_angle_deg", me ? 50 : 20).Set(s, "x_number_of_pixel", me ? 200 : 64).Set(s, "y_number_of_pixel", me ? 100 : 50).Set(s, "x_fov_deg_per_pixel", me ? 0.05 : 0.3).Set(s, "y_fov_deg_per_pixel", me ? 0.2 : 0.4).Set(s, "number_of_stars_for_log", me ? st : 2); }
    std::string path = f.Write("tel.ini"); World& w = W(); Quat at = Rotations()[(d + 3) % 12]; Rot M = RotOf(q), A = RotOf(at); auto dir = [&](double a, double ph) { return MulT(A, MulT(M, MakeV(std::cos(Rad(a)), std::sin(Rad(a)) * std::cos(ph), std::sin(Rad(a)) * std::sin(ph)))); };
    for (int side = 0; side < 2; side++) { double e = side ? 1 : -1; V3 pos = Scale(-7e6, dir(40 + e, 1)); SetBody("SUN", Add(pos, Scale(1.5e11, dir(30 - e, 2)))); SetBody("MOON", Add(pos, Scale(3.8e8, dir(50 + e, -2)))); w.Place(pos, MakeV(100, 7500, 200), at, MakeV(0, 0, 0)); environment::ClockGenerator clk; clk.ClearTimerCount(); Telescope t = InitTelescope(&clk, id, path, &w.dynamics->GetAttitude(), &None(), &w.local->GetCelestialInformation()); clk.TickToComponents(); p.Eq(t.GetIsSunInForbiddenAngle(), side == 1, "sun"); p.Eq(t.GetIsEarthInForbiddenAngle(), side == 0, "earth"); p.Eq(t.GetIsMoonInForbiddenAngle(), side == 0, "moon"); p.Eq(Heads(t), 11, "telescope-log"); }
    double a = Rad(3), b = Rad(-6); V3 c = Unit(MakeV(1, std::tan(b), std::tan(a))), di = MulT(A, MulT(M, c)), pos = Scale(-7e6, di); SetBody("SUN", Add(pos, Scale(1.5e11, di))); w.Place(pos, MakeV(100, 7500, 200), at, MakeV(0, 0, 0)); environment::ClockGenerator clk; clk.ClearTimerCount(); Telescope t = InitTelescope(&clk, id, path, &w.dynamics->GetAttitude(), &None(), &w.local->GetCelestialInformation(), &w.dynamics->GetOrbit()); clk.TickToComponents(); auto r = Row(t); double o[2]; p.Check(Image(c, 200, 100, Rad(0.05), Rad(0.2), o), "oracle", "outside"); p.NearV(&r[3], MakeV(o[0], o[1], 0), 2, 2e-3, "image-position"); if (!w.dynamics->GetOrbit().GetGeodeticPosition().GetAltitude_m()) return; p.Near(r[9], 3 / 0.05, 0.01 / 0.05, "ground-point"); p.Near(r[10], -6 / 0.2, 0.01 / 0.2, "ground-point"); p.Obs({(double)id, (double)d, (double)st});
  });
}
