// Whole simulations executed several times: settings and seed determine the log, logging determines nothing.
#include <fstream>
#include "env.hpp"
#include "sample.hpp"
using namespace mc; using namespace env; using namespace sample;
const char* kProperty = "S04";
const char* kAssumptions = "The simulation is the repository's sample case with the stand-in ephemeris; runs are executed in fresh process images whose heap and stack are filled with different bytes, so a value that depends on uninitialised memory or on an earlier run in the process shows as a difference. External data files the sample does not ship (kernels, star catalogue, GNSS products) are absent or generated.";
static void Same(Path& p, const std::string& a, const std::string& b, const char* key, const char* what) {
  if (a == b) { p.Check(true, key, "same"); return; } Log x = Parse(a), y = Parse(b); if (x.header != y.header) { p.Fail(key, "%s: the headers differ", what); return; }
  for (size_t r = 0; r < std::min(x.rows.size(), y.rows.size()); r++) for (size_t c = 0; c < std::min(x.rows[r].size(), y.rows[r].size()); c++) if (x.rows[r][c] != y.rows[r][c]) { p.Fail(key, "%s: column %s of row %zu is %s in one run and %s in the other", what, c < x.header.size() ? x.header[c].c_str() : "?", r, x.rows[r][c].c_str(), y.rows[r][c].c_str()); return; }
  p.Fail(key, "%s: %zu and %zu rows", what, x.rows.size(), y.rows.size());
}
// every column present in both logs has the same values at the instants both contain; returns the number of compared cells
static size_t SameColumns(Path& p, const std::string& a, const std::string& b, const char* key, const char* what) {
  Log x = Parse(a), y = Parse(b); std::map<std::string, std::vector<size_t>> col; for (size_t c = 0; c < y.header.size(); c++) col[y.header[c]].push_back(c); std::map<std::string, size_t> row; for (size_t r = 0; r < y.rows.size(); r++) if (!y.rows[r].empty()) row[y.rows[r][0]] = r; std::map<std::string, size_t> nth; size_t n = 0;
  for (size_t c = 0; c < x.header.size(); c++) { auto it = col.find(x.header[c]); size_t k = nth[x.header[c]]++; if (it == col.end() || k >= it->second.size()) continue; size_t d = it->second[k];
    for (auto& r : x.rows) { if (r.empty()) continue; auto q = row.find(r[0]); if (q == row.end() || c >= r.size() || d >= y.rows[q->second].size()) continue; n++; if (r[c] != y.rows[q->second][d]) { p.Fail(key, "%s: %s at time %s is %s and %s", what, x.header[c].c_str(), r[0].c_str(), r[c].c_str(), y.rows[q->second][d].c_str()); return n; } } }
  p.Check(n > 0, key, "nothing compared"); return n;
}
static std::vector<std::string> Get(Path& p, const std::vector<Config>& c, int fill) { std::string err; auto v = RunFresh(Scratch() + "/r" + std::to_string(fill), c, fill, &err); p.Check(v.size() == c.size(), "run-fails", "run %zu of %zu does not end: %s", v.size(), c.size(), err.c_str()); return v; }
static Config Seeded(int s) { return {{kBase, "RANDOMIZE", "rand_seed", std::to_string(s)}}; }
static Config Short() { return {{kBase, "TIME", "simulation_duration_s", "1"}}; }
// two process images; in the second one another configuration runs first
static void Twice(Path& p, const Config& c, const Config& before, const Config& other) {
  auto a = Get(p, {c}, 0), b = Get(p, {before, c, c}, 255); if (a.size() != 1 || b.size() != 3) return;
  Same(p, a[0], b[1], "rerun-differs", "fresh process against a process that ran something else first"); Same(p, b[1], b[2], "rerun-differs", "two runs in a row"); (void)other;
  Log l = Parse(a[0]); p.Check(l.rows.size() >= 5 && l.header.size() > 20, "log-empty", "%zu rows", l.rows.size()); p.ObsHash(Hash(a[0]));
}
void Register() {
  ChildMain();
  Scenario("modes", "3 attitude propagations x 6 orbit propagations x 2 seeds: fresh process against a process that ran another mode first, twice", [](Path& p) {
    int a = p.Choose((int)Attitudes().size()), o = p.Choose((int)Orbits().size()), s = p.Choose(2); p.Note("%s / %s / seed %d", Attitudes()[a].name.c_str(), Orbits()[o].name.c_str(), s);
    Config c = Merge(Merge(Merge(Default(), Short()), Attitudes()[a].edits), Merge(Orbits()[o].edits, Seeded(s ? 77 : 0x11223344))), d = Merge(Merge(Merge(Default(), Short()), Attitudes()[(a + 1) % Attitudes().size()].edits), Merge(Orbits()[(o + 2) % Orbits().size()].edits, Seeded(5)));
    Twice(p, c, d, d);
  }, {3, 120});
  Scenario("switches", "every model switch alone (thorough: every pair, and every single switch in each attitude mode), each re-run after another configuration", [](Path& p) {
    auto& M = Models(); int n = M.size(), i = p.Choose(n), j = Thorough() ? p.Choose(n + 1) : 0, a = Thorough() && j == n ? p.Choose(3) : 0; if (Thorough() && j != n && j > i) throw Skip();
    Config c = Merge(Merge(Merge(Default(), Short()), Attitudes()[a].edits), M[i].edits); p.Note("%s", M[i].name.c_str()); if (Thorough() && j < n) { c = Merge(c, M[j].edits); p.Note("%s", M[j].name.c_str()); }
    Twice(p, c, Merge(Merge(Default(), Short()), M[(i + 7) % n].edits), {});
  }, {Thorough() ? 2 : 1, 120});
  Scenario("seed-matters", "different seeds give different noise, the same columns", [](Path& p) {
    int s = p.Choose(4); static const int S[4] = {1, 2, -9, 0x11223344}; Config c = Merge(Default(), Short()); auto a = Get(p, {Merge(c, Seeded(S[s])), Merge(c, Seeded(S[(s + 1) % 4])), Merge(c, Seeded(S[s]))}, 0); if (a.size() != 3) return; p.Check(a[0] != a[1], "seed-ignored", "seeds %d and %d give the same log", S[s], S[(s + 1) % 4]); Same(p, a[0], a[2], "rerun-differs", "same seed again"); Log x = Parse(a[0]), y = Parse(a[1]); p.Check(x.header == y.header && x.rows.size() == y.rows.size(), "seed-changes-layout", "layout"); p.ObsHash(Hash(a[0]));
  }, {1, 120});
  Scenario("logging-only", "every element's logging switched off alone (thorough: every pair; quick: alone and together with its successor) x 2 model sets: no other logged value changes", [](Path& p) {
    auto& L = Logging(); int n = L.size(), i = p.Choose(n), j = Thorough() ? p.Choose(n) : (i + 1) % n, m = p.Choose(2), both = Thorough() ? 1 : p.Choose(2); if (Thorough() && j > i) throw Skip();
    Config base = Merge(Default(), Short()); if (m) base = Merge(base, Merge(Models()[0].edits, Merge(Models()[1].edits, {{"sample_satellite/components/reaction_wheel.ini", "REACTION_WHEEL_JITTER_1", "jitter_calculation", "ENABLE"}, {"sample_satellite/components/reaction_wheel.ini", "REACTION_WHEEL_JITTER_1", "jitter_logging", "ENABLE"}, {kSat, "ATTITUDE", "initial_angular_velocity_b_rad_s(0)", "0.02"}}))); Config c = Merge(base, L[i].edits); p.Note("%s", L[i].name.c_str()); if (both && j != i) { c = Merge(c, L[j].edits); p.Note("%s", L[j].name.c_str()); }
    auto v = Get(p, {base, c}, 255); if (v.size() != 2) return; size_t k = SameColumns(p, v[0], v[1], "logging-changes-values", L[i].name.c_str()); p.Outcome(v[0].size() != v[1].size() ? "fewer columns" : "same columns"); p.ObsHash(Mix(k, i));
  }, {3, 120});
  RequireOutcome("logging-only", "fewer columns");
  Scenario("log-period", "4 log periods x 3 model sets x 3 attitude modes against the finest period: values at common instants", [](Path& p) {
    int m = p.Choose(3), a = p.Choose(3); Config base = Merge(Default(), Attitudes()[a].edits); if (m == 1) base = Merge(base, Merge(Models()[0].edits, Models()[16].edits)); if (m == 2) base = Merge(base, {{kSat, "ORBIT", "propagate_mode", "SGP4"}, {kBase, "TIME", "orbit_update_period_s", "0.5"}}); p.Note("models %d attitude %d", m, a);
    std::vector<Config> cs; for (const char* t : {"0.1", "0.2", "0.5", "1.0"}) cs.push_back(Merge(base, {{kBase, "TIME", "log_output_period_s", t}})); auto v = Get(p, cs, 255); if (v.size() != 4) return; for (int k = 1; k < 4; k++) SameColumns(p, v[0], v[k], "log-period-changes-values", "log period 0.1 against a longer one"); p.ObsHash(Hash(v[3]));
  }, {2, 120});
}
