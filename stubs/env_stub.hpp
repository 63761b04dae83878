// Control of the environment stand-ins: the explorer decides what ephemeris, frame and atmosphere libraries answer.
#pragma once
#include <functional>
#include <map>
#include <string>
#include <vector>
extern "C" {
#include "nrlmsise-00.h"
}
namespace stub {
struct Body { int id; const char* name; double gm_km3_s2; double radii_km[3]; double orbit_km; double period_s; double phase; };
const std::vector<Body>& Bodies();
// absolute state of a body (solar-system barycentre), km, km/s
void BodyState(int id, double et, double state[6]);
// replaces the default ephemeris; args: target id, observer id, et, out state km
extern std::function<void(int, int, double, double*)> g_ephemeris;
extern std::function<double(const nrlmsise_input&)> g_density;  // total mass density
extern std::vector<std::string> g_furnished;
struct Query { std::string target, ref, abcorr, observer; double et; };
extern std::vector<Query> g_queries;
extern bool g_record;
extern nrlmsise_input g_last_nrlmsise;
int IdOf(const std::string& name);
void Reset();
}  // namespace stub
