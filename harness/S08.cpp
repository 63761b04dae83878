// Monte Carlo: run counts, distributions, seeds and routing of the declared parameters.
#include <simulation/monte_carlo_simulation/initialize_monte_carlo_simulation.hpp>
#include <simulation/monte_carlo_simulation/simulation_object.hpp>
#include <sys/wait.h>
#include <unistd.h>
#include "env.hpp"
#include "sample.hpp"
#include <filesystem>
#include <set>
using namespace mc; using namespace env; using namespace s2e::simulation;
using P = InitializedMonteCarloParameters; using E = MonteCarloSimulationExecutor; using s2e::math::Vector;
const char* kProperty = "S08";
const char* kAssumptions = "Distributions are judged by bounds on every draw and by moments of 600 to 3000 draws of fixed seeds within six standard errors, so a mis-scaled, shifted, clipped, correlated or anisotropic distribution is seen and a different random engine is not. Radii of circular and spherical distributions are many standard deviations from zero. The library's own default seeding (not reproducible by design) is not judged.";
static const char* kT[9] = {"NoRandomization", "CartesianUniform", "CartesianNormal", "CircularNormalUniform", "CircularNormalNormal", "SphericalNormalUniformUniform", "SphericalNormalNormal", "QuaternionUniform", "QuaternionNormal"};
static const double kPi = M_PI;
struct Stat { double n = 0, s = 0, s2 = 0, mn = 1e300, mx = -1e300; void Add(double x) { n++; s += x; s2 += x * x; mn = std::min(mn, x); mx = std::max(mx, x); } double mean() const { return s / n; } double var() const { return s2 / n - mean() * mean(); } };
struct Norm1 { Stat x; double in1 = 0; void Add(double z) { x.Add(z); in1 += std::fabs(z) < 1; }
  void Judge(Path& p, const char* key) { double n = x.n; p.Near(x.mean(), 0, 6 / std::sqrt(n), key, "mean (in sigmas)"); p.Near(x.var(), 1, 6 * std::sqrt(2 / n), key, "variance (in sigma^2)"); p.Near(in1 / n, 0.6827, 6 * std::sqrt(0.22 / n), key, "share within one sigma"); p.Check(x.mx > 2 && x.mn < -2, key, "no draw beyond two sigmas"); } };
struct Uni1 { Stat x; void Add(double u) { x.Add(u); }
  void Judge(Path& p, const char* key) { double n = x.n; p.Check(x.mn >= -1e-9 && x.mx <= 1 + 1e-9, key, "outside the bounds: normalised range [%g,%g]", x.mn, x.mx); p.Near(x.mean(), 0.5, 6 * std::sqrt(1 / 12.0 / n), key, "mean of the normalised draw"); p.Near(x.var(), 1 / 12.0, 6 * std::sqrt(1 / 180.0 / n), key, "variance of the normalised draw"); p.Check(x.mn < 0.03 && x.mx > 0.97, key, "range not covered: [%g,%g]", x.mn, x.mx); } };
struct Corr { double n = 0, xy = 0; void Add(double a, double b) { n++; xy += a * b; } void Judge(Path& p, const char* key) { p.Near(xy / n, 0, 6 / std::sqrt(n), key, "correlation of independent components"); } };
static V3 V(const double* a) { return MakeV(a[0], a[1], a[2]); }
static void Seed(unsigned long s) { P warm; P::SetSeed(s, true); }
static const double kSeeds[] = {1, 0, 42, 20201, 4294967295.0};
static unsigned long PickSeed(Path& p) { unsigned long s = (unsigned long)kSeeds[p.Choose(Q(3, 5))]; p.Note("seed %lu", s); return s; }

static void Distribution(Path& p) {
  int t = 1 + p.Choose(8); p.Note("%s", kT[t]); unsigned long seed = PickSeed(p); const int N = Q(1500, 6000);
  double a[3], b[3]; P par;
  auto vec = [&](V3& v) { v = MakeV(1e9, 1e9, 1e9); par.GetRandomizedVector(v); };
  if (t == P::kCartesianUniform || t == P::kCartesianNormal) {
    int dim = 1 + p.Choose(3); double c = p.Pick({0.0, -3.0, 1e6}), w = p.Pick({1.0, 0.0, 1e-3, 500.0});
    for (int i = 0; i < 3; i++) { a[i] = c + 0.5 * w * i; b[i] = t == 1 ? a[i] + w * (1 + i) : w * (1 + i); }
    if (dim == 1) { Vector<1> m, s; m[0] = a[0]; s[0] = b[0]; par.SetRandomConfiguration(m, s, (P::RandomizationType)t); } else if (dim == 2) { Vector<2> m, s; for (int i = 0; i < 2; i++) { m[i] = a[i]; s[i] = b[i]; } par.SetRandomConfiguration(m, s, (P::RandomizationType)t); } else par.SetRandomConfiguration(V(a), V(b), (P::RandomizationType)t);
    Seed(seed); Norm1 nn[3]; Uni1 uu[3]; Corr cc[3]; double last = 1e99;
    for (int k = 0; k < N; k++) { par.Randomize(); double x[3] = {0, 0, 0}; if (dim == 1) par.GetRandomizedScalar(x[0]); else if (dim == 2) { Vector<2> v; par.GetRandomizedVector(v); x[0] = v[0]; x[1] = v[1]; } else { V3 v; vec(v); for (int i = 0; i < 3; i++) x[i] = v[i]; }
      if (dim > 1) { double s = -1; par.GetRandomizedScalar(s); p.Eq(s, x[0], "scalar-is-first", "scalar value of a vector parameter"); }
      double z[3];
      for (int i = 0; i < dim; i++) { double sc = t == 1 ? b[i] - a[i] : b[i]; if (sc == 0) { p.Eq(x[i], a[i], "zero-width", "a parameter of zero width is its nominal value"); continue; }
        if (t == 1) p.Check(x[i] >= a[i] && x[i] <= b[i], "uniform-bounds", "draw %.17g outside [%g,%g]", x[i], a[i], b[i]);
        z[i] = (x[i] - a[i]) / sc; if (t == 1) { uu[i].Add(z[i]); z[i] = (z[i] - 0.5) * std::sqrt(12.0); } else nn[i].Add(z[i]); }
      if (w == 0) continue; p.Check(x[0] != last, "fresh-value", "two consecutive draws are equal"); last = x[0];
      for (int i = 0; i < dim; i++) for (int j = 0; j < i; j++) cc[i + j - 1].Add(z[i], z[j]); }
    if (w != 0) { for (int i = 0; i < dim; i++) if (t == 1) uu[i].Judge(p, "uniform-distribution"); else nn[i].Judge(p, "normal-distribution"); for (int i = 0; i < dim * (dim - 1) / 2; i++) cc[i].Judge(p, "independence"); }
  } else if (t == P::kCircularNormalUniform || t == P::kCircularNormalNormal) {
    double r = p.Pick({100.0, 7e6}), sr = r * p.Pick({0.05, 0.0}), t0 = p.Pick({0.0, -2.5, 1.0}), wt = p.Pick({0.4, 2.0}); if (t == P::kCircularNormalNormal) wt *= 0.2; int three = p.Choose(2);
    a[0] = r; a[1] = t0; a[2] = 777; b[0] = sr; b[1] = t == P::kCircularNormalUniform ? t0 + wt : wt; b[2] = 999;
    if (three) par.SetRandomConfiguration(V(a), V(b), (P::RandomizationType)t); else { Vector<2> m, s; for (int i = 0; i < 2; i++) { m[i] = a[i]; s[i] = b[i]; } par.SetRandomConfiguration(m, s, (P::RandomizationType)t); }
    Seed(seed); Norm1 nr, nt; Uni1 ut; Corr c;
    for (int k = 0; k < N; k++) { par.Randomize(); Vector<2> v; par.GetRandomizedVector(v); double rr = std::hypot(v[0], v[1]), th = std::atan2(v[1], v[0]); double d = std::remainder(th - (t == P::kCircularNormalUniform ? t0 + wt / 2 : t0), 2 * kPi); double zr = 0, zt;
      if (sr == 0) p.Near(rr, r, 1e-9 * r, "circular-radius", "radius without spread"); else nr.Add(zr = (rr - r) / sr);
      if (t == P::kCircularNormalUniform) { ut.Add(d / wt + 0.5); zt = d / wt * std::sqrt(12.0); } else nt.Add(zt = d / wt); if (sr) c.Add(zr, zt); }
    if (sr) { nr.Judge(p, "circular-radius"); c.Judge(p, "independence"); } if (t == P::kCircularNormalUniform) ut.Judge(p, "circular-angle"); else nt.Judge(p, "circular-angle");
  } else if (t == P::kSphericalNormalUniformUniform) {
    double r = p.Pick({100.0, 7e6}), sr = r * p.Pick({0.05, 0.0}), t0 = p.Pick({0.0, 0.7}), wt = p.Pick({kPi, 0.5}), f0 = p.Pick({0.0, -3.0}), wf = p.Pick({2 * kPi, 1.0}); if (t0 + wt > kPi + 1e-9) wt = kPi - t0;
    a[0] = r; a[1] = t0; a[2] = f0; b[0] = sr; b[1] = t0 + wt; b[2] = f0 + wf; par.SetRandomConfiguration(V(a), V(b), (P::RandomizationType)t);
    Seed(seed); Norm1 nr; Uni1 ut, uf; Corr c[3];
    for (int k = 0; k < N; k++) { par.Randomize(); V3 v; vec(v); double rr = Norm(v), ct = v[2] / rr, fi = std::atan2(v[1], v[0]); double zr = 0, zt = (std::cos(t0) - ct) / (std::cos(t0) - std::cos(t0 + wt)), zf = std::remainder(fi - f0 - wf / 2, 2 * kPi) / wf + 0.5;
      if (sr == 0) p.Near(rr, r, 1e-9 * r, "spherical-radius", "radius without spread"); else nr.Add(zr = (rr - r) / sr); ut.Add(zt); uf.Add(zf);
      zt = (zt - 0.5) * std::sqrt(12.0); zf = (zf - 0.5) * std::sqrt(12.0); if (sr) { c[0].Add(zr, zt); c[1].Add(zr, zf); } c[2].Add(zt, zf); }
    if (sr) { nr.Judge(p, "spherical-radius"); c[0].Judge(p, "independence"); c[1].Judge(p, "independence"); } ut.Judge(p, "spherical-polar-angle"); uf.Judge(p, "spherical-azimuth"); c[2].Judge(p, "independence");
  } else if (t == P::kSphericalNormalNormal) {
    static const double D[6][3] = {{1, 0, 0}, {0, -1, 0}, {0, 0, 1}, {1, 1, 0}, {-1, 2, -3}, {0, 1, 1}}; V3 d = Unit(V(D[p.Choose(6)])); double r = p.Pick({100.0, 7e6}), sr = r * p.Pick({0.05, 0.0}), sa = p.Pick({0.2, 0.0, 0.01});
    V3 m = Scale(r, d); b[0] = sr; b[1] = sa; b[2] = 5; int two = p.Choose(2);
    if (two) { Vector<2> s; s[0] = b[0]; s[1] = b[1]; par.SetRandomConfiguration(m, s, (P::RandomizationType)t); } else par.SetRandomConfiguration(m, V(b), (P::RandomizationType)t);
    V3 e1 = Unit(std::fabs(d[0]) < 0.8 ? Cross(d, MakeV(1, 0, 0)) : Cross(d, MakeV(0, 1, 0))), e2 = Cross(d, e1); Seed(seed); Norm1 nr; Stat an, an4; Stat m1, m2, m11, m12;
    for (int k = 0; k < N; k++) { par.Randomize(); V3 v; vec(v); double rr = Norm(v); double c = Dot(v, d) / rr, x = Dot(v, e1) / rr, y = Dot(v, e2) / rr, s = std::hypot(x, y), ang = std::atan2(s, c);
      if (sr == 0) p.Near(rr, r, 1e-9 * r, "spherical-radius", "radius without spread"); else nr.Add((rr - r) / sr);
      if (sa == 0) { p.Near(ang, 0, 1e-7, "spherical-angle", "direction without spread"); continue; } an.Add(ang * ang / sa / sa); if (s > 0) { m1.Add(x / s); m2.Add(y / s); m11.Add(x * x / s / s); m12.Add(x * y / s / s); } }
    if (sr) nr.Judge(p, "spherical-radius"); if (sa) { double n = an.n; p.Near(an.mean(), 1, 6 * std::sqrt(2 / n), "spherical-angle", "mean square angle from the mean direction, in sigma^2"); p.Near(an.var(), 2, 6 * std::sqrt(56 / n), "spherical-angle", "spread of the square angle");
      p.Near(m1.mean(), 0, 6 * std::sqrt(.5 / n), "spherical-isotropy", "azimuth about the mean direction"); p.Near(m2.mean(), 0, 6 * std::sqrt(.5 / n), "spherical-isotropy", "azimuth"); p.Near(m11.mean(), .5, 6 * std::sqrt(.125 / n), "spherical-isotropy", "azimuth"); p.Near(m12.mean(), 0, 6 * std::sqrt(.125 / n), "spherical-isotropy", "azimuth"); }
  } else {
    double sa = t == P::kQuaternionNormal ? p.Pick({0.3, 0.0, 0.02}) : 0; int one = p.Choose(2); a[0] = a[1] = a[2] = 123; b[0] = sa; b[1] = b[2] = 9;
    if (one) { Vector<1> s; s[0] = sa; par.SetRandomConfiguration(V(a), s, (P::RandomizationType)t); } else par.SetRandomConfiguration(V(a), V(b), (P::RandomizationType)t);
    Seed(seed); Stat e[9], e2[9], q2[4], ax[3], ax2[3], an; Stat an2;
    for (int k = 0; k < N; k++) { par.Randomize(); Quat q(0, 0, 0, 1); par.GetRandomizedQuaternion(q); double n = 0; for (int i = 0; i < 4; i++) n += q[i] * q[i]; p.Near(n, 1, 1e-9, "quaternion-norm", "norm of the drawn quaternion");
      if (t == P::kQuaternionUniform) { Rot R = RotOf(q); for (int i = 0; i < 9; i++) { double x = R.m[i / 3][i % 3]; e[i].Add(x); e2[i].Add(x * x); } for (int i = 0; i < 4; i++) q2[i].Add(q[i] * q[i]); }
      else { double s = std::sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2]), ang = 2 * std::atan2(s, std::fabs(q[3])); if (sa == 0) { p.Near(ang, 0, 1e-7, "quaternion-angle", "rotation without spread"); continue; } an.Add(ang * ang / sa / sa); double sg = q[3] < 0 ? -1 : 1; for (int i = 0; i < 3; i++) { ax[i].Add(sg * q[i] / s); ax2[i].Add(q[i] * q[i] / s / s); } } }
    double n = N; if (t == P::kQuaternionUniform) { for (int i = 0; i < 9; i++) { p.Near(e[i].mean(), 0, 6 * std::sqrt(1 / 3.0 / n), "attitude-not-uniform", "mean of a direction cosine of a uniformly random attitude"); p.Near(e2[i].mean(), 1 / 3.0, 6 * std::sqrt(4 / 45.0 / n), "attitude-not-uniform", "mean square of a direction cosine of a uniformly random attitude"); } for (int i = 0; i < 4; i++) p.Near(q2[i].mean(), .25, 6 * std::sqrt(1 / 16.0 / n), "attitude-not-uniform", "mean square of a quaternion element"); }
    else if (sa) { p.Near(an.mean(), 1, 6 * std::sqrt(2 / n), "quaternion-angle", "mean square rotation angle, in sigma^2"); for (int i = 0; i < 3; i++) { p.Near(ax[i].mean(), 0, 6 * std::sqrt(1 / 3.0 / n), "quaternion-axis", "axis"); p.Near(ax2[i].mean(), 1 / 3.0, 6 * std::sqrt(4 / 45.0 / n), "quaternion-axis", "axis"); } }
  }
}
// ---------------------------------------------------------------- seeds
static void Draw(int kind, std::vector<double>* out) {
  static const double M[8][3] = {{0, 0, 0}, {1, 2, 3}, {0, 0, 0}, {10, 0.1, 0}, {10, 0.1, 0}, {10, 0, 0}, {1, 2, 3}, {0, 0, 0}}; (void)M; P q; V3 m = MakeV(10, 0.5, 0.1), s = MakeV(0.3, 0.9, 1.0);
  if (kind == 8) { Vector<1> m1, s1; m1[0] = 2; s1[0] = 3; q.SetRandomConfiguration(m1, s1, P::kCartesianNormal); } else q.SetRandomConfiguration(m, s, (P::RandomizationType)(kind < 8 ? kind + 1 : 0));
  q.Randomize(); if (!out) return; if (kind >= 6 && kind < 8) { Quat v(0, 0, 0, 1); q.GetRandomizedQuaternion(v); for (int i = 0; i < 4; i++) out->push_back(v[i]); } else if (kind == 8) { double d = 0; q.GetRandomizedScalar(d); out->push_back(d); } else if (kind == 2 || kind == 3) { Vector<2> v; q.GetRandomizedVector(v); out->push_back(v[0]); out->push_back(v[1]); } else { V3 v; q.GetRandomizedVector(v); for (int i = 0; i < 3; i++) out->push_back(v[i]); }
}
static std::vector<double> Sequence() { std::vector<double> o; for (int k : {8, 1, 0, 7, 2, 3, 8, 6, 4, 5, 8, 8}) Draw(k, &o); return o; }
static std::map<unsigned long, std::vector<double>> g_first;  // sequence of a fresh process that seeds before anything else
static void FirstInProcess() {
  for (double sd : kSeeds) { int fd[2]; if (pipe(fd)) continue; pid_t c = fork(); if (c == 0) { alarm(20); E::SetSeed((unsigned long)sd, true); std::vector<double> o = Sequence(); ssize_t w = write(fd[1], o.data(), o.size() * 8); _exit(w > 0 ? 0 : 1); }
    close(fd[1]); double x; std::vector<double> o; while (read(fd[0], &x, 8) == 8) o.push_back(x); close(fd[0]); int st; waitpid(c, &st, 0); g_first[(unsigned long)sd] = o; }
}
static bool Same(const std::vector<double>& a, const std::vector<double>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!(a[i] == b[i])) return false; return true; }

// ---------------------------------------------------------------- declarations and runs
static const char* kObj[5] = {"sat", "sat", "sat2", "sa", "attitude0"}; static const char* kPar[5] = {"p", "p2", "p", "tp", "quaternion_i2b"};
static void Runs(Path& p) {
  int nd = p.Choose(4); std::vector<int> id, ty; Ini ini; std::string sec = "MONTE_CARLO_RANDOMIZATION"; const int T[4] = {1, 2, 0, 5};
  for (int k = 0; k < nd; k++) { int i = p.Choose(4); for (int j : id) if (j == i) throw Skip(); id.push_back(i); ty.push_back(T[p.Choose(k == 0 ? 4 : 2)]); }
  int enable = p.Choose(3); int runs = p.Choose(Q(4, 6)); int log = p.Choose(2); p.Note("%d declared, enable %d, runs %d, log %d", nd, enable, runs, log);
  static const char* kEn[3] = {"ENABLE", "DISABLE", "1"};
  std::string f = "[MONTE_CARLO_EXECUTION]\nmonte_carlo_enable = " + std::string(kEn[enable]) + "\nlog_enable = " + (log ? "ENABLE" : "DISABLE") + "\nnumber_of_executions = " + std::to_string(runs) + "\n[MONTE_CARLO_RANDOMIZATION]\n";
  auto lo = [&](int i, int c) { return 100.0 * (i + 1) + 10 * c; };
  for (int k = 0; k < nd; k++) { int i = id[k]; std::string n = std::string(kObj[i]) + "." + kPar[i]; f += "parameter(" + std::to_string(k) + ") = " + n + "\n" + n + ".randomization_type = " + kT[ty[k]] + "\n";
    for (int c = 0; c < 3; c++) { double m = lo(i, c), s = ty[k] == 1 ? m + 1 : 0.1; if (ty[k] == 5) { m = c == 0 ? lo(i, 0) : 0; s = c == 0 ? 0 : c == 1 ? kPi : 2 * kPi; } f += n + ".mean_or_min(" + std::to_string(c) + ") = " + std::to_string(m) + "\n" + n + ".sigma_or_max(" + std::to_string(c) + ") = " + std::to_string(s) + "\n"; } }
  std::string path = WriteFile("mc.ini", f); std::unique_ptr<E> ex(InitMonteCarloSimulation(path)); bool on = enable != 1;
  p.Eq((int)ex->IsEnabled(), (int)on, "enabled", "Monte Carlo enabled"); p.Eq((long long)ex->GetTotalNumberOfExecutions(), (long long)runs, "configured-runs", "configured number of runs"); p.Eq((int)ex->GetSaveLogHistoryFlag(), (int)(!on || log), "log-flag", "log history flag");
  E::SetSeed(7 + runs, true); int done = 0; std::map<int, double> last;
  while (ex->WillExecuteNextCase()) {
    p.Check(done < 20, "run-count", "more than 20 runs"); if (done >= 20) break; ex->AtTheBeginningOfEachCase(); p.Eq((long long)ex->GetNumberOfExecutionsDone(), (long long)done, "run-number", "runs done at the beginning of a run"); ex->RandomizeAllParameters();
    for (int read = 0; read < 2; read++) for (int i = 0; i < 5; i++) {
      V3 v = MakeV(-1, -2, -3); ex->GetInitializedMonteCarloParameterVector(kObj[i], kPar[i], v); double d = -5; ex->GetInitializedMonteCarloParameterDouble(kObj[i], kPar[i], d); Quat q(0.6, 0, 0, 0.8); if (i == 4) ex->GetInitializedMonteCarloParameterQuaternion(kObj[i], kPar[i], q);
      Vector<2> v2; v2[0] = -1; v2[1] = -2; ex->GetInitializedMonteCarloParameterVector(kObj[i], kPar[i], v2);
      int k = -1; for (int j = 0; j < nd; j++) if (id[j] == i) k = j;
      if (!on || k < 0 || ty[k] == 0) { p.Check(v[0] == -1 && v[1] == -2 && v[2] == -3 && v2[0] == -1 && v2[1] == -2 && d == -5, "nominal-kept", "%s.%s is changed although it is not randomized: (%g,%g,%g) %g", kObj[i], kPar[i], v[0], v[1], v[2], d); if (i == 4) p.Check(q[0] == 0.6 && q[3] == 0.8, "nominal-kept", "nominal quaternion changed"); continue; }
      if (ty[k] == 5) p.Near(Norm(v), lo(i, 0), 1e-6, "declared-range", "radius of a spherical parameter"); else for (int c = 0; c < 3; c++) p.Check(std::fabs(v[c] - lo(i, c) - (ty[k] == 1 ? .5 : 0)) <= (ty[k] == 1 ? 0.5 : 0.9), "declared-range", "%s.%s component %d is %g, declared %s around %g", kObj[i], kPar[i], c, v[c], kT[ty[k]], lo(i, c));
      p.Check(d == v[0] && v2[0] == v[0] && v2[1] == v[1], "same-value-in-a-run", "scalar, 2-vector and 3-vector reads of %s.%s differ", kObj[i], kPar[i]);
      if (read) p.Check(last[i] == v[0], "same-value-in-a-run", "%s.%s changes within a run", kObj[i], kPar[i]); else { if (last.count(i)) p.Check(last[i] != v[0], "fresh-each-run", "%s.%s keeps its value in the next run", kObj[i], kPar[i]); for (auto& o : last) if (o.first != i && done == 0) p.Check(o.second != v[0], "one-value-per-parameter", "two parameters share a value"); last[i] = v[0]; }
    }
    ex->AtTheEndOfEachCase(); done++;
  }
  p.Eq(done, on ? runs : 1, "run-count", "number of runs"); p.Check(!ex->WillExecuteNextCase(), "run-count", "a run after the last one"); p.ObsHash(Mix(done, nd)); p.Outcome(done > 1 ? "several runs" : done ? "one run" : "no run");
}
// ---------------------------------------------------------------- objects
struct Obj : SimulationObject { V3 v = MakeV(-1, -2, -3); double d = -5; Quat q = Quat(0, 0, 0, 1); int calls = 0; Obj(std::string n) : SimulationObject(n) {}
  void SetParameters(const E& e) override { calls++; v = MakeV(-1, -2, -3); d = -5; q = Quat(0, 0, 0, 1); GetInitializedMonteCarloParameterVector(e, "v", v); GetInitializedMonteCarloParameterDouble(e, "d", d); GetInitializedMonteCarloParameterQuaternion(e, "q", q); } };
static void Registry(Path& p) {
  E ex(3); const char* N[3] = {"a", "b", "a.v"}; V3 m, s; const int declared = p.Choose(4); Vector<1> m1, s1;
  for (int o = 0; o < 2; o++) if (declared & (1 << o)) { for (int c = 0; c < 3; c++) { m[c] = 10 * (o + 1) + c; s[c] = m[c] + 0.5; } ex.AddInitializedMonteCarloParameter(N[o], "v", m, s, P::kCartesianUniform); m1[0] = 100 * (o + 1); s1[0] = m1[0] + 1; ex.AddInitializedMonteCarloParameter(N[o], "d", m1, s1, P::kCartesianUniform); s1[0] = 0.2; ex.AddInitializedMonteCarloParameter(N[o], "q", m1, s1, P::kQuaternionNormal);
    bool thrown = false; try { ex.AddInitializedMonteCarloParameter(N[o], "v", m1, s1, P::kCartesianUniform); } catch (...) { thrown = true; } p.Check(thrown, "double-declaration", "a second declaration of %s.v is accepted", N[o]); }
  E::SetSeed(3, true); std::unique_ptr<Obj> ob[3]; int calls[3] = {0, 0, 0}; bool on = true, random = false; const int depth = Q(5, 6); ex.RandomizeAllParameters(); random = true; (void)random;
  for (int k = 0; k < depth; k++) { int op = p.Choose(8);
    if (op < 3) { if (ob[op]) { p.Note("second %s", N[op]); bool thrown = false; try { Obj dup(N[op]); } catch (...) { thrown = true; } p.Check(thrown, "duplicate-object", "a second object named %s is accepted", N[op]); p.Outcome("duplicate rejected"); } else { p.Note("create %s", N[op]); ob[op].reset(new Obj(N[op])); calls[op] = 0; } }
    else if (op < 6) { if (!ob[op - 3]) { p.Note("-"); throw Skip(); } p.Note("delete %s", N[op - 3]); ob[op - 3].reset(); }
    else if (op == 6) { on = !on; ex.SetEnable(on); p.Note("enable %d", on); }
    else { p.Note("set all"); double lastd[2] = {0, 0}; for (int o = 0; o < 2; o++) if (ob[o]) lastd[o] = ob[o]->d; ex.RandomizeAllParameters(); SimulationObject::SetAllParameters(ex);
      for (int o = 0; o < 3; o++) if (ob[o]) { calls[o]++; p.Eq(ob[o]->calls, calls[o], "objects-reached", N[o]); bool dec = on && o < 2 && (declared & (1 << o)); Obj& x = *ob[o];
        if (!dec) p.Check(x.v[0] == -1 && x.v[1] == -2 && x.v[2] == -3 && x.d == -5 && x.q[3] == 1, "nominal-kept", "object %s gets a value it was not declared for", N[o]);
        else { for (int c = 0; c < 3; c++) p.Check(x.v[c] >= 10 * (o + 1) + c && x.v[c] <= 10 * (o + 1) + c + 0.5, "declared-range", "%s.v(%d) = %g", N[o], c, x.v[c]); p.Check(x.d >= 100 * (o + 1) && x.d <= 100 * (o + 1) + 1 && x.d != lastd[o], "declared-range", "%s.d = %g (before %g)", N[o], x.d, lastd[o]); p.Check(std::fabs(x.q[3]) > 0.8 && x.q[3] != 1, "declared-range", "%s.q(3) = %g", N[o], x.q[3]); p.Outcome("value delivered"); } } }
    p.ObsHash(Mix(op, k)); }
}
void Register() {
  FirstInProcess();
  Scenario("distributions", "8 distributions x parameter lattices (centres, widths incl. zero, dimensions, angular ranges) x 3 seeds (thorough 5), 1500 draws each (thorough 6000)", Distribution, {2});
  Scenario("seeds", "5 seeds after every history of up to 3 (thorough 4) draws of 9 kinds and up to one re-seeding, against the sequence of a fresh process that seeds first of all", [](Path& p) {
    unsigned long s = PickSeed(p); int n = p.Choose(Q(4, 5)); P warm; for (int i = 0; i < n; i++) { int k = p.Choose(10); p.Note("op %d", k); if (k == 9) E::SetSeed(99, true); else Draw(k, nullptr); }
    E::SetSeed(s, true); std::vector<double> a = Sequence(); E::SetSeed(s, true); std::vector<double> b = Sequence(); p.Check(Same(a, b), "seed-does-not-determine-the-sequence", "seeding twice with %lu gives different sequences", s);
    p.Check(!g_first[s].empty(), "fresh-process", "no sequence from the fresh process"); p.Check(Same(a, g_first[s]), n ? "seed-does-not-determine-the-sequence" : "seed-before-first-declaration", "the sequence of seed %lu after %d draws differs from the one of a process that seeds before its first declaration (first values %.17g and %.17g)", s, n, a[0], g_first[s].empty() ? 0 : g_first[s][0]);
    E::SetSeed(s + 1, true); p.Check(!Same(a, Sequence()), "different-seeds", "seeds %lu and %lu give the same sequence", s, s + 1); p.ObsHash(Hash(std::string((char*)a.data(), a.size() * 8))); }, {2});
  Scenario("executor", "run counts 0..5 x enable left, set or cleared x count changed: number of runs, run numbers", [](Path& p) {
    int n = p.Choose(6), en = p.Choose(3), re = p.Choose(3); E ex(n); bool on = n > 1; if (en) { on = en == 1; ex.SetEnable(on); } int total = n; if (re) { total = re == 1 ? 2 : 4; ex.SetTotalNumberOfExecutions(total); } bool lg = p.Flag(); ex.SetSaveLogHistoryFlag(lg); p.Note("total %d->%d enable %d", n, total, on);
    p.Eq((int)ex.IsEnabled(), (int)on, "enabled", "enabled"); p.Eq((int)ex.GetSaveLogHistoryFlag(), (int)(!on || lg), "log-flag", "log history"); int done = 0; while (ex.WillExecuteNextCase() && done < 20) { ex.AtTheBeginningOfEachCase(); p.Check(ex.WillExecuteNextCase(), "run-count", "the run's beginning ends it"); ex.AtTheEndOfEachCase(); done++; p.Eq((long long)ex.GetNumberOfExecutionsDone(), (long long)done, "run-number", "runs done"); }
    p.Eq(done, on ? total : 1, "run-count", "number of runs"); p.ObsHash(done); }, {1});
  Scenario("declarations", "every list of up to 3 declarations over 4 object/parameter names (one a prefix of another, same parameter of two objects) x 4 types, enable/disable/1, 0..3 runs (thorough 0..5): values of all 5 names in every run", Runs, {2});
  RequireOutcome("declarations", "several runs"); RequireOutcome("declarations", "no run");
  Scenario("many", "run counts of 7..70000, and 4..40 declared parameters of 1, 3 or all different objects read from a file over 3 runs: number of runs; every declared parameter within its own bounds, the others nominal", [](Path& p) {
    if (p.Flag()) { int n = p.PickI({7, 10, 32, 64, 127, 128, 255, 256, 257, 1000, 32769, 65535, 65536, 70000}); E ex(n); long done = 0; while (ex.WillExecuteNextCase() && done < 100000) { ex.AtTheBeginningOfEachCase(); ex.AtTheEndOfEachCase(); done++; if ((long)ex.GetNumberOfExecutionsDone() != done) p.Fail("run-number", "run %ld is numbered %lld", done, (long long)ex.GetNumberOfExecutionsDone()); } p.Eq(done, (long)n, "run-count", "number of runs"); p.Obs({(double)n}); return; }
    int n = p.PickI({4, 5, 8, 9, 10, 11, 16, 17, 32, 33, 40}), objects = p.PickI({1, 3, 100}); auto obj = [&](int i) { return "object" + std::to_string(i % objects); }; auto par = [&](int i) { return "parameter" + std::to_string(i); };
    std::string f = "[MONTE_CARLO_EXECUTION]\nmonte_carlo_enable = ENABLE\nlog_enable = ENABLE\nnumber_of_executions = 3\n[MONTE_CARLO_RANDOMIZATION]\n";
    for (int i = 0; i < n; i++) { std::string name = obj(i) + "." + par(i); f += "parameter(" + std::to_string(i) + ") = " + name + "\n" + name + ".randomization_type = CartesianUniform\n"; for (int c = 0; c < 3; c++) f += name + ".mean_or_min(" + std::to_string(c) + ") = " + std::to_string(10 * i + c) + "\n" + name + ".sigma_or_max(" + std::to_string(c) + ") = " + std::to_string(10 * i + c + 1) + "\n"; }
    std::unique_ptr<E> ex(InitMonteCarloSimulation(WriteFile("many.ini", f))); E::SetSeed(3, true); std::map<int, double> last; int done = 0;
    while (ex->WillExecuteNextCase() && done < 10) { ex->AtTheBeginningOfEachCase(); ex->RandomizeAllParameters(); for (int i = 0; i < n + 2; i++) { V3 v = MakeV(-1, -2, -3); ex->GetInitializedMonteCarloParameterVector(obj(i), par(i), v); for (int c = 0; c < 3; c++) if (i < n) p.Check(v[c] > 10 * i + c && v[c] < 10 * i + c + 1, "declared-range", "%s.%s component %d is %g", obj(i).c_str(), par(i).c_str(), c, v[c]); else p.Eq(v[c], -1.0 - c, "nominal-kept", "undeclared parameter"); if (i < n) { p.Check(!last.count(i) || last[i] != v[0], "fresh-each-run", "%s repeats %g", par(i).c_str(), v[0]); last[i] = v[0]; } } ex->AtTheEndOfEachCase(); done++; }
    p.Eq(done, 3, "run-count", "number of runs"); p.Obs({(double)n, (double)objects});
  }, {2});
  Scenario("objects", "every history of 5 (thorough 6) of create / create again / delete / enable / set-all over three object names, each subset of two declared", Registry, {3});
  RequireOutcome("objects", "duplicate rejected"); RequireOutcome("objects", "value delivered");
  Scenario("campaign", "the sample spacecraft's simulation: Monte Carlo on or off x 1..3 (thorough 1..5) runs x per-run logs on or off x saved settings on or off x 2 seeds: which runs and logs exist, the summary, and every run's log equals that of the plain simulation of the drawn value", [](Path& p) {
    using namespace sample; bool on = p.Flag(); int n = 1 + p.Choose(Q(3, 5)); bool hist = p.Flag(), save = p.Flag(); int seed = p.PickI({5, 77}); const long rs = 287454020; std::string d = Scratch() + "/mc"; std::filesystem::create_directories(d); char t[64];
    Config base = Merge(Default(), {{kBase, "TIME", "simulation_duration_s", "0.4"}, {kBase, "RANDOMIZE", "rand_seed", "287454020"}}); Config c = Merge(base, {{kBase, "MONTE_CARLO_EXECUTION", "monte_carlo_enable", on ? "ENABLE" : "DISABLE"}, {kBase, "MONTE_CARLO_EXECUTION", "log_enable", hist ? "ENABLE" : "DISABLE"}, {kBase, "MONTE_CARLO_EXECUTION", "number_of_executions", std::to_string(n)}, {kBase, "SIMULATION_SETTINGS", "save_initialize_files", save ? "ENABLE" : "DISABLE"}});
    p.Note("%s %d runs hist %d save %d seed %d", on ? "on" : "off", n, hist, save, seed); Campaign k = RunCampaign(d, c, seed); int runs = on ? n : 1; p.Eq(k.cases, runs, "run-count", "runs"); if ((int)k.drawn.size() != runs) p.Fail("run-count", "%zu runs", k.drawn.size());
    std::set<std::string> want; if (on) { want.insert("monte_carlo.csv"); if (hist) for (int i = 0; i < runs; i++) want.insert("default" + std::to_string(i) + ".csv"); } else want.insert("default.csv");
    for (auto& f : k.files) if (f.first.compare(0, 9, "settings/")) p.Check(want.count(f.first), "log-files", "unexpected log %s", f.first.c_str()); else p.Check(save, "saved-settings", "%s saved without being asked for", f.first.c_str());
    for (auto& f : want) p.Check(k.files.count(f), "log-files", "%s is missing", f.c_str());
    if (save && (hist || !on)) { for (const char* f : {"sample_simulation_base.ini", "satellite.ini"}) p.Check(k.files.count(std::string("settings/") + f), "saved-settings", "%s is not saved", f); p.Check(k.files[std::string("settings/") + kBase] == ReadFile(d + "/settings/" + kBase), "saved-settings", "the saved base file differs"); }
    for (int i = 0; i < runs; i++) for (int j = 0; j < 3; j++) { double w = k.drawn[i][j]; if (on) p.Check(w > 0 && w < 0.05817764, "drawn-bounds", "run %d rate %g", i, w); else p.Eq(w, 0.0, "nominal-kept", "rate"); if (i && on) p.Check(w != k.drawn[i - 1][j], "fresh-each-run", "run %d repeats %g", i, w); }
    if (on) { Log l = Parse(k.files["monte_carlo.csv"]); p.Eq((int)l.rows.size(), runs, "summary", "rows"); p.Eq((int)l.header.size(), 5, "summary", "columns"); p.Check(l.header.size() && l.header[0] == "run[-]", "summary", "header %s", l.header.size() ? l.header[0].c_str() : ""); for (size_t i = 0; i < l.rows.size(); i++) if (l.rows[i].size() == 5) { p.Eq(atof(l.rows[i][0].c_str()), (double)i, "summary", "run number"); for (int j = 0; j < 3; j++) p.Near(atof(l.rows[i][1 + j].c_str()), k.drawn[i][j], 1e-15, "summary", "rate"); p.Check(atof(l.rows[i][4].c_str()) >= 0.4 - 1e-9, "summary", "end time %s", l.rows[i][4].c_str()); } else p.Fail("summary", "row %zu has %zu columns", i, l.rows[i].size()); }
    for (int i = 0; i < runs; i++) { std::string f = on ? "default" + std::to_string(i) + ".csv" : "default.csv"; if (!k.files.count(f)) continue; Config one = base; one.push_back({kBase, "RANDOMIZE", "rand_seed", std::to_string(rs + (on ? i : 0))}); for (int j = 0; j < 3; j++) { char key[64], v[40]; snprintf(key, 64, "initial_angular_velocity_b_rad_s(%d)", j); snprintf(v, 40, "%.17g", k.drawn[i][j]); one.push_back({kSat, "ATTITUDE", key, v}); }
      std::string a = Run(d, one), &b = k.files[f]; if (a != b) { size_t q = 0; while (q < a.size() && q < b.size() && a[q] == b[q]) q++; p.Fail("run-equals-simulation", "run %d differs from the plain simulation of its value at byte %zu of %zu/%zu: %.60s | %.60s", i, q, a.size(), b.size(), a.c_str() + (q > 20 ? q - 20 : 0), b.c_str() + (q > 20 ? q - 20 : 0)); } p.Check(a.size() > 1000, "log-files", "%s is empty", f.c_str()); }
    (void)t; p.Obs({(double)on, (double)n, (double)hist, (double)save, k.drawn[0][0]}); p.Outcome(on ? "campaign" : "single");
  }, {4, 120});
  RequireOutcome("campaign", "campaign"); RequireOutcome("campaign", "single");
  Scenario("attitude", "a real spacecraft's attitude: declared subset of quaternion and rate, for this or another spacecraft, 3 runs", [](Path& p) {
    int dq = p.Choose(3), dw = p.Choose(3); bool on = p.Flag(); static World w; E ex(3); ex.SetEnable(on); V3 m = MakeV(0, 0, 0), s = MakeV(0.3, 0, 0); const char* O[2] = {"attitude0", "attitude1"};
    if (dq) ex.AddInitializedMonteCarloParameter(O[dq - 1], "quaternion_i2b", m, s, P::kQuaternionNormal); m = MakeV(0.1, 0.2, 0.3); s = MakeV(0.11, 0.21, 0.31); if (dw) ex.AddInitializedMonteCarloParameter(O[dw - 1], "angular_velocity_b_rad_s", m, s, P::kCartesianUniform);
    E::SetSeed(5, true); Quat q0(0.6, 0, 0, 0.8); V3 w0 = MakeV(0.01, -0.02, 0.03); double lq = 0, lw = 0;
    for (int k = 0; k < 3; k++) { w.Place(MakeV(7e6, 0, 0), MakeV(0, 7500, 0), q0, w0); ex.RandomizeAllParameters(); SimulationObject::SetAllParameters(ex); Quat q = w.dynamics->GetAttitude().GetQuaternion_i2b(); V3 wb = w.dynamics->GetAttitude().GetAngularVelocity_b_rad_s();
      if (on && dq == 1) { p.Check(q[3] > 0.5 && q[3] != 0.8 && q[0] != lq, "attitude-randomized", "quaternion (%g,%g,%g,%g)", q[0], q[1], q[2], q[3]); lq = q[0]; } else for (int i = 0; i < 4; i++) p.Near(q[i], q0[i], 1e-12, "nominal-kept", "attitude quaternion");
      for (int i = 0; i < 3; i++) if (on && dw == 1) p.Check(wb[i] >= m[i] && wb[i] <= s[i], "rate-randomized", "rate %d is %g", i, wb[i]); else p.Near(wb[i], w0[i], 1e-12, "nominal-kept", "angular velocity");
      if (on && dw == 1) { p.Check(wb[0] != lw, "fresh-each-run", "angular velocity repeated"); lw = wb[0]; } }
    p.ObsHash(dq * 10 + dw); }, {1});
}
