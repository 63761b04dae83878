#include "env_stub.hpp"
#include <cmath>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <algorithm>
#include "SpiceUsr.h"
namespace stub {
// Circular orbits: enough structure that every body, observer and instant gives a distinct answer.
static const std::vector<Body> kBodies = {
    {10, "SUN", 132712440041.93938, {696000.0, 696000.0, 696000.0}, 0.0, 1e9, 0.0},
    {399, "EARTH", 398600.435436, {6378.1366, 6378.1366, 6356.7519}, 149597870.7, 31558149.5, 0.2},
    {301, "MOON", 4902.800066, {1737.4, 1737.4, 1737.4}, 0, 0, 0},
    {199, "MERCURY", 22031.78, {2439.7, 2439.7, 2439.7}, 57909227.0, 7600521.6, 1.1},
    {299, "VENUS", 324858.59, {6051.8, 6051.8, 6051.8}, 108209475.0, 19414149.0, 2.3},
    {499, "MARS", 42828.37, {3396.19, 3396.19, 3376.2}, 227943824.0, 59354294.0, 3.1},
    {599, "JUPITER", 126686534.9, {71492, 71492, 66854}, 778340821.0, 374335776.0, 4.0},
    {699, "SATURN", 37931207.8, {60268, 60268, 54364}, 1426666422.0, 929596608.0, 5.2},
    {799, "URANUS", 5793951.3, {25559, 25559, 24973}, 2870658186.0, 2651370019.0, 0.7},
    {899, "NEPTUNE", 6835099.97, {24764, 24764, 24341}, 4498396441.0, 5200418560.0, 1.9},
    {999, "PLUTO", 869.61, {1195, 1195, 1195}, 5906376272.0, 7824384000.0, 2.9},
    {4, "MARS BARYCENTER", 42828.37, {3396.19, 3396.19, 3376.2}, 227943824.0, 59354294.0, 3.1},
    {5, "JUPITER BARYCENTER", 126712764.8, {71492, 71492, 66854}, 778340821.0, 374335776.0, 4.0},
    {6, "SATURN BARYCENTER", 37940585.2, {60268, 60268, 54364}, 1426666422.0, 929596608.0, 5.2},
    {7, "URANUS BARYCENTER", 5794548.6, {25559, 25559, 24973}, 2870658186.0, 2651370019.0, 0.7},
    {8, "NEPTUNE BARYCENTER", 6836527.1, {24764, 24764, 24341}, 4498396441.0, 5200418560.0, 1.9},
    {9, "PLUTO BARYCENTER", 977.0, {1195, 1195, 1195}, 5906376272.0, 7824384000.0, 2.9},
    {0, "SOLAR SYSTEM BARYCENTER", 0, {0, 0, 0}, 0.0, 1e9, 0.0},
};
const std::vector<Body>& Bodies() { return kBodies; }
std::function<void(int, int, double, double*)> g_ephemeris;
std::function<double(const nrlmsise_input&)> g_density;
std::vector<std::string> g_furnished;
std::vector<Query> g_queries;
bool g_record = false;
nrlmsise_input g_last_nrlmsise;
static std::string Norm(const char* s) {
  std::string o; for (; *s; s++) o += *s == '_' ? ' ' : (char)toupper(*s);
  while (!o.empty() && o.back() == ' ') o.pop_back();
  size_t b = o.find_first_not_of(' '); return b == std::string::npos ? "" : o.substr(b);
}
int IdOf(const std::string& name) {
  std::string n = Norm(name.c_str());
  for (auto& b : kBodies) if (n == b.name) return b.id;
  return -12345;
}
static void Circular(double a, double period, double phase, double incl, double et, double s[6]) {
  double w = 2 * M_PI / period, th = phase + w * et;
  double x = a * cos(th), y = a * sin(th), vx = -a * w * sin(th), vy = a * w * cos(th);
  s[0] = x; s[1] = y * cos(incl); s[2] = y * sin(incl); s[3] = vx; s[4] = vy * cos(incl); s[5] = vy * sin(incl);
}
void BodyState(int id, double et, double state[6]) {
  for (int i = 0; i < 6; i++) state[i] = 0;
  if (id == 10 || id == 0) return;
  if (id == 301) {
    double e[6]; BodyState(399, et, e); Circular(384400.0, 2360591.5, 0.9, 0.45, et, state);
    for (int i = 0; i < 6; i++) state[i] += e[i];
    return;
  }
  for (auto& b : kBodies) if (b.id == id) { Circular(b.orbit_km, b.period_s, b.phase, 0.40909 + 0.01 * (id % 7), et, state); return; }
}
void Reset() { g_ephemeris = nullptr; g_density = nullptr; g_furnished.clear(); g_queries.clear(); g_record = false; }
}  // namespace stub
using namespace stub;
extern "C" {
void bodvcd_c(SpiceInt id, ConstSpiceChar* item, SpiceInt maxn, SpiceInt* dim, SpiceDouble* v) {
  for (auto& b : kBodies) if (b.id == id) {
    if (!strcmp(item, "GM")) { *dim = 1; v[0] = b.gm_km3_s2; } else { *dim = 3; for (int i = 0; i < 3 && i < maxn; i++) v[i] = b.radii_km[i]; }
    return;
  }
  fprintf(stderr, "SPICE stand-in: unknown body %d\n", id); exit(77);
}
void bodc2n_c(SpiceInt code, SpiceInt len, SpiceChar* name, SpiceBoolean* found) {
  *found = 0;
  for (auto& b : kBodies) if (b.id == code) { snprintf(name, len, "%s", b.name); *found = 1; return; }
}
void bodn2c_c(ConstSpiceChar* name, SpiceInt* code, SpiceBoolean* found) {
  int id = IdOf(name); *found = id != -12345; if (*found) *code = id;
}
void spkezr_c(ConstSpiceChar* target, SpiceDouble et, ConstSpiceChar* ref, ConstSpiceChar* ab, ConstSpiceChar* obs, SpiceDouble s[6], SpiceDouble* lt) {
  if (g_record) g_queries.push_back({target, ref, ab, obs, et});
  int t = IdOf(target), o = IdOf(obs);
  if (t == -12345 || o == -12345) { fprintf(stderr, "SPICE stand-in: unknown body %s or %s\n", target, obs); exit(77); }
  if (g_ephemeris) g_ephemeris(t, o, et, s);
  else { double a[6], b[6]; BodyState(t, et, a); BodyState(o, et, b); for (int i = 0; i < 6; i++) s[i] = a[i] - b[i]; }
  *lt = sqrt(s[0] * s[0] + s[1] * s[1] + s[2] * s[2]) / 299792.458;
}
void furnsh_c(ConstSpiceChar* f) { g_furnished.push_back(f); }
void str2et_c(ConstSpiceChar* str, SpiceDouble* et) { double jd = 0; sscanf(str, "jd %lf", &jd); *et = (jd - 2451545.0) * 86400.0 + 69.184; }
void sxform_c(ConstSpiceChar*, ConstSpiceChar*, SpiceDouble et, SpiceDouble x[6][6]) {
  double w = 2 * M_PI / 2360591.5, th = 0.3 + w * et, c = cos(th), s = sin(th);
  memset(x, 0, sizeof(double) * 36);
  double r[3][3] = {{c, s, 0}, {-s, c, 0}, {0, 0, 1}}, d[3][3] = {{-s * w, c * w, 0}, {-c * w, -s * w, 0}, {0, 0, 0}};
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { x[i][j] = x[i + 3][j + 3] = r[i][j]; x[i + 3][j] = d[i][j]; }
}
void gtd7(struct nrlmsise_input* in, struct nrlmsise_flags*, struct nrlmsise_output* out) {
  memset(out, 0, sizeof *out); g_last_nrlmsise = *in;
  out->d[5] = g_density ? g_density(*in) : 3e-12 * exp(-(in->alt - 400.0) / 58.0) * (1 + 0.001 * in->f107);
}
}
