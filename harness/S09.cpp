// Random generators: recurrence over the whole state space, reproducibility under every interleaving, scaling, shuffling, walks.
#include <set>
#include <math_physics/randomization/global_randomization.hpp>
#include <math_physics/randomization/minimal_standard_linear_congruential_generator.hpp>
#include <math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.hpp>
#include <math_physics/randomization/normal_randomization.hpp>
#include <math_physics/randomization/random_walk.hpp>
#include <unordered_map>
#include "env.hpp"
using namespace mc; using namespace env; using namespace s2e::randomization; using s2e::math::Vector;
const char* kProperty = "S09";
const char* kAssumptions = "A seed is any non-zero long that is not a multiple of the modulus 2^31-1 (those have no sequence; the library must refuse them, not hang). The order in which the shuffled generator hands out its table is not judged, only that every value of the underlying recurrence comes out exactly once and not in the unshuffled order. A walk is allowed to overshoot its limit by one step.";
static const int64_t kM = 2147483647, kA = 16807;
static int64_t Mod(int64_t s) { int64_t r = s % kM; return r < 0 ? r + kM : r; }
static const std::vector<long>& Seeds() { static std::vector<long> v = [] { std::vector<long> s; for (long k : {1L, 2L, 3L, 7L, 127772L, 127773L, 127774L, 2836L, 16807L, 65535L, 65536L, 1L << 30, kM - 1, kM - 2, kM + 1, kM + 2, 2 * kM - 1, 2 * kM + 1, 0xdeadbeefL, 0xffffffffL, 1L << 32, (1L << 33) + 5, 1234567890123L, 1L << 62, 9223372036854775807L}) { s.push_back(k); s.push_back(-k); } s.push_back(-9223372036854775807L - 1); for (size_t i = 0; i < s.size();) if (s[i] % kM == 0) s.erase(s.begin() + i); else i++; return s; }(); return v; }
static long SeedOf(Path& p, int quick) { auto& v = Seeds(); long s = v[p.Choose(Thorough() ? (int)v.size() : std::min<int>(quick, v.size()))]; p.Note("seed %ld", s); return s; }

static void Recurrence(Path& p) {
  long s = SeedOf(p, 99); int how = p.Choose(3); MinimalStandardLcg g(how == 0 ? s : 5); if (how == 1) g.Initialize(s); if (how == 2) { for (int i = 0; i < 3; i++) { double x = g; (void)x; } g.Initialize(s); }
  int64_t r = Mod(s); const int N = Q(400, 5000);
  for (int i = 0; i < N; i++) { double u = g; r = kA * r % kM; p.Check(u > 0 && u < 1, "outside-open-unit-interval", "draw %d is %.17g", i, u); p.Near(u * kM, (double)r, 1e-4, "recurrence", "draw times the modulus"); }
  p.ObsHash(r);
}
static void Bad(Path& p) {
  long s = p.Pick(std::vector<long>{0, (long)kM, -(long)kM, 2 * (long)kM, 1000 * (long)kM}); p.Note("seed %ld", s); int what = p.Choose(4); bool refused = false; double u = 0.5, v = 0.5;
  try { if (what == 0) { MinimalStandardLcg g(s); u = g; v = g; } else if (what == 1) { MinimalStandardLcg g(3); g.Initialize(s); u = g; v = g; } else if (what == 2) { MinimalStandardLcgWithShuffle g(s); for (int i = 0; i < 3; i++) { u = g; v = g; } } else { GlobalRandomization g; g.SetSeed(s); u = g.MakeSeed() ? 0.25 : 0; v = g.MakeSeed() ? 0.75 : 0; } } catch (const std::exception&) { refused = true; }
  p.Check(refused || (u > 0 && u < 1 && v > 0 && v < 1 && u != v), "seed-without-sequence", "seed %ld is accepted and gives %g, %g", s, u, v); p.Outcome(refused ? "refused" : "accepted"); p.ObsHash(refused);
}
// every state of the recurrence: 2^31-2 states in 512 blocks
static void AllStates(Path& p) {
  int b = p.Choose(512); int64_t per = (kM - 1 + 511) / 512, lo = 1 + per * b, hi = std::min(lo + per, kM); p.Note("states %ld..%ld", (long)lo, (long)hi - 1);
  MinimalStandardLcg g(1); int64_t bad = 0, first = 0;
  for (int64_t s = lo; s < hi; s++) { g.Initialize(s); double u = g; int64_t r = kA * s % kM; if (!(u > 0 && u < 1) || std::fabs(u * kM - r) > 1e-4) { if (!bad++) first = s; } }
  p.Check(!bad, "recurrence", "%ld states have a wrong successor or draw, the first is %ld", (long)bad, (long)first); p.ObsHash(lo); 
}
static std::vector<double> Stream(long seed, int n) { NormalRand g(0.0, 1.0, seed); std::vector<double> v; for (int i = 0; i < n; i++) v.push_back(g); return v; }
static const std::vector<double>& Z(long seed) { static std::map<long, std::vector<double>> m; auto& v = m[seed]; if (v.empty()) v = Stream(seed, 64); return v; }
static void Interleavings(Path& p) {
  static const long S[3] = {11, -7, 0xdeadbeefL}; static const double M[3] = {0, 5, -1e3}, D[3] = {1, 0.25, 0}; const int depth = Q(6, 7);
  NormalRand g[2] = {NormalRand(0, 1, S[0]), NormalRand(5, 0.25, S[1])}; struct Ref { long s; int n; double m, d; } r[2] = {{S[0], 0, 0, 1}, {S[1], 0, 5, .25}};
  for (int k = 0; k < depth; k++) { int op = p.Choose(10), w = op & 1; Ref& x = r[w];
    switch (op >> 1) {
      case 0: { double got = g[w], want = x.m + x.d * Z(x.s)[x.n]; p.Note("draw %d", w); p.Near(got, want, 1e-12 * (1 + std::fabs(want)), "normal-stream", "draw against the seed's own stream"); x.n++; break; }
      case 1: { int i = k % 3; g[w].SetParameters(M[i], D[i], S[i]); x = {S[i], 0, M[i], D[i]}; p.Note("reseed %d with %ld", w, S[i]); p.Outcome("reseed"); break; }
      case 2: { int i = k % 3; g[w].SetParameters(M[i], D[i]); x.m = M[i]; x.d = D[i]; p.Note("parameters %d", w); break; }
      case 3: { int i = (k + 1) % 3; g[w].SetAverage(M[i]); x.m = M[i]; i = (k + 2) % 3; g[w].SetStandardDeviation(D[i]); x.d = D[i]; p.Note("average/deviation %d", w); break; }
      default: { g[1 - w] = g[w]; r[1 - w] = r[w]; p.Note("copy %d", w); break; } }
    p.Eq(g[w].GetAverage(), x.m, "getter", "average"); p.Eq(g[w].GetStandardDeviation(), x.d, "getter", "deviation"); if (p.Seen(Mix(Mix(Mix(r[0].s, r[0].n), Hash(std::to_string(r[0].m) + std::to_string(r[0].d))), Mix(Mix(r[1].s, r[1].n), Hash(std::to_string(r[1].m) + std::to_string(r[1].d)))) + k, depth - k)) return; }
  for (int w = 0; w < 2; w++) for (int i = 0; i < 3; i++) { double got = g[w], want = r[w].m + r[w].d * Z(r[w].s)[r[w].n++]; p.Near(got, want, 1e-12 * (1 + std::fabs(want)), "normal-stream", "draws after the history"); }
}
static void Uniforms(Path& p) {  // shuffled and plain generators of two seeds, drawn and re-seeded in every order
  static const long S[2] = {9, -123456}; auto ref = [](long s, int n) -> double { static std::map<long, std::vector<double>> m; auto& v = m[s]; if (v.empty()) { MinimalStandardLcgWithShuffle g(s); for (int i = 0; i < 32; i++) v.push_back(g); } return v[n]; };
  MinimalStandardLcgWithShuffle a(S[0]), b(S[1]); MinimalStandardLcg c(S[0]); long sa = S[0], sb = S[1]; int na = 0, nb = 0; int64_t rc = Mod(S[0]);
  for (int k = 0; k < Q(8, 9); k++) { switch (p.Choose(6)) {
      case 0: p.Note("draw a"); p.Eq((double)a, ref(sa, na++), "uniform-stream", "shuffled generator"); break;
      case 1: p.Note("draw b"); p.Eq((double)b, ref(sb, nb++), "uniform-stream", "shuffled generator"); break;
      case 2: p.Note("draw c"); rc = kA * rc % kM; p.Near((double)c * kM, (double)rc, 1e-4, "recurrence", "plain generator"); break;
      case 3: p.Note("seed a"); sa = S[k & 1]; a.InitSeed(sa); na = 0; break;
      case 4: p.Note("seed b"); sb = S[0]; b.InitSeed(sb); nb = 0; break;
      default: p.Note("seed c"); c.Initialize(S[k & 1]); rc = Mod(S[k & 1]); } }
  p.ObsHash(Mix(Mix(na, nb), rc));
}
static void Moments(Path& p, const std::vector<double>& u, bool normal) {
  double n = u.size(), m = 0, v = 0, k4 = 0; for (double x : u) { if (!normal) x = (x - .5) * std::sqrt(12.0); m += x; v += x * x; k4 += x * x * x * x; } m /= n; v /= n; k4 /= n; const char* key = normal ? "normal-distribution" : "uniform-distribution";
  p.Near(m, 0, 6 / std::sqrt(n), key, "normalised mean"); p.Near(v, 1, 6 * std::sqrt((normal ? 2 : 0.8) / n), key, "normalised variance"); p.Near(k4, normal ? 3 : 1.8, 6 * std::sqrt((normal ? 96 : 4) / n), key, "normalised fourth moment");
  for (int lag = 1; lag <= 8; lag++) { double c = 0; for (size_t i = lag; i < u.size(); i++) c += normal ? u[i] * u[i - lag] : 12 * (u[i] - .5) * (u[i - lag] - .5); p.Near(c / (n - lag), 0, 6 / std::sqrt(n), "serial-correlation", "correlation with an earlier draw"); }
  std::vector<double> s(u); std::sort(s.begin(), s.end()); for (size_t i = 1; i < s.size(); i++) p.Check(s[i] != s[i - 1], "value-repeated", "value %.17g comes twice in %zu draws", s[i], u.size());
}
static void Shuffle(Path& p) {
  long s = SeedOf(p, 12); int how = p.Choose(2); MinimalStandardLcgWithShuffle g(how ? 77 : s); if (how) { for (int i = 0; i < 5; i++) { double x = g; (void)x; } g.InitSeed(s); }
  const int N = Q(3000, 30000); std::unordered_map<int64_t, int> pos; int64_t r = Mod(s); for (int i = 0; i < N + 200; i++) { r = kA * r % kM; pos[r] = i; }
  std::vector<double> u; std::vector<bool> used(N + 200); int inorder = 0; int last = -10, firstp = 1 << 30, lastp = 0;
  for (int i = 0; i < N; i++) { double x = g; p.Check(x > 0 && x < 1, "outside-open-unit-interval", "draw %d is %.17g", i, x); u.push_back(x); auto it = pos.find((int64_t)std::llround(x * kM)); p.Check(it != pos.end(), "recurrence", "draw %d (%.17g) is no value of the seed's recurrence", i, x); if (it == pos.end()) return; p.Check(!used[it->second], "value-repeated", "recurrence value %d is handed out twice", it->second); used[it->second] = true; inorder += it->second == last + 1; last = it->second; firstp = std::min(firstp, last); lastp = std::max(lastp, last); }
  int missing = 0; for (int i = firstp; i <= lastp; i++) missing += !used[i]; p.Check(missing <= 32, "value-lost", "%d values of the recurrence missing between the first and the last drawn one", missing);
  p.Check(inorder < N / 4, "not-shuffled", "%d of %d draws follow their predecessor in the recurrence", inorder, N); Moments(p, u, false); p.ObsHash(last);
}
static void Normals(Path& p) {
  long s = SeedOf(p, 12); double m = p.Pick({0.0, 3.5, -1e4}), d = p.Pick({1.0, 1e-3, 40.0, 0.0}); const int N = Q(4000, 40000); NormalRand a(m, d, s), b; b.SetParameters(m, d, s); std::vector<double> z = Stream(s, N), w;
  for (int i = 0; i < N; i++) { double x = a, y = b, want = m + d * z[i]; p.Eq(x, y, "same-seed", "two generators of the same seed"); p.Near(x, want, 1e-12 * (std::fabs(m) + std::fabs(d * z[i]) + 1e-300), "scaling", "draw against the scaled standard normal"); }
  if (m == 0 && d == 1) Moments(p, z, true); p.ObsHash(Mix(s, N));
}
static void Global(Path& p) {
  GlobalRandomization a, b; std::map<long, std::vector<long>> seen; auto fresh = [&](long s, int n) { auto& v = seen[s]; if (v.empty()) { GlobalRandomization g; if (s) g.SetSeed(s); for (int i = 0; i < 12; i++) v.push_back(g.MakeSeed()); } return v[n]; };
  long sa = 0, sb = 0; int na = 0, nb = 0; std::vector<long> drawn;
  for (int k = 0; k < Q(6, 7); k++) switch (p.Choose(5)) {
    case 0: { long s = a.MakeSeed(); p.Note("seed from a"); p.Eq(s, fresh(sa, na++), "seed-sequence", "made seed"); p.Check(s % kM != 0 && s > -kM - 2 && s < kM + 2, "seed-range", "made seed %ld", s); break; }
    case 1: { long s = b.MakeSeed(); p.Note("seed from b"); p.Eq(s, fresh(sb, nb++), "seed-sequence", "made seed"); break; }
    case 2: a.SetSeed(sa = 17); na = 0; p.Note("a:17"); break; case 3: a.SetSeed(sa = -90001); na = 0; p.Note("a:-90001"); break;
    default: { bool t = false; try { b.SetSeed(0); } catch (const std::exception&) { t = true; } p.Check(t, "zero-seed", "seed 0 is accepted"); p.Note("b:0"); } }
  p.Check(fresh(17, 0) != fresh(-90001, 0), "different-seeds", "same first seed from different base seeds"); auto& v = seen[17]; for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j < i; j++) p.Check(v[i] != v[j], "seed-repeated", "two made seeds are equal"); p.ObsHash(Mix(na, nb));
}
static void Many(Path& p) { long base = p.PickI({17, -90001, 1, 287454020, 2147483646}); const int n = Q(2000, 6000); GlobalRandomization g; g.SetSeed(base); std::set<long> s; for (int i = 0; i < n; i++) { long v = g.MakeSeed(); p.Check(s.insert(((v % kM) + kM) % kM).second, "seed-repeated", "made seed %d of base %ld repeats an earlier one", i, base); } p.ObsHash(Mix(base, n)); }
template <size_t N> struct Walk { RandomWalk<N> w; Walk(double dt, const Vector<N>& sd, const Vector<N>& lim, const Vector<N>& st) : w(dt, sd, lim) { w.Setup(0, st); } };
static V3 St(RandomWalk<3>& w) { return MakeV(w[0], w[1], w[2]); }
static V3 Sds(int i) { static const double T[4][3] = {{1, 1, 1}, {0.5, 0, 2}, {0, 0, 0}, {1e-3, 3, 0.1}}; return MakeV(T[i][0], T[i][1], T[i][2]); }
static std::vector<V3> Alone(long seed, int skip, double dt, const V3& sd, const V3& lim, const V3& st, int n) { global_randomization.SetSeed(seed); for (int i = 0; i < skip; i++) global_randomization.MakeSeed(); Walk<3> w(dt, sd, lim, st); std::vector<V3> v; for (int i = 0; i < n; i++) { ++w.w; v.push_back(St(w.w)); } return v; }
static void Walks(Path& p) {  // two walks updated in every order, each as if it were alone
  int ia = p.Choose(4), ib = p.Choose(2), il = p.Choose(3), is = p.Choose(3); long seed = p.Pick(std::vector<long>{5, -33}); double dt = 0.5; V3 lim[3] = {MakeV(1e9, 1e9, 1e9), MakeV(1, 1, 1), MakeV(0, 0.5, 1e9)}, st[3] = {MakeV(0, 0, 0), MakeV(3, -3, 0.5), MakeV(-2, 2, -0.25)};
  const int depth = Q(5, 7); auto ra = Alone(seed, 0, dt, Sds(ia), lim[il], st[is], depth), rb = Alone(seed, 3, 2 * dt, Sds(ib), lim[1], st[0], depth);
  global_randomization.SetSeed(seed); Walk<3> a(dt, Sds(ia), lim[il], st[is]), b(2 * dt, Sds(ib), lim[1], st[0]); int na = 0, nb = 0;
  for (int k = 0; k < depth; k++) { int op = p.Choose(3); if (op == 0) { ++a.w; p.NearV(St(a.w), ra[na++], 3, 0, "walk-independence", "walk a"); } else if (op == 1) { ++b.w; p.NearV(St(b.w), rb[nb++], 3, 0, "walk-independence", "walk b"); } else { NormalRand other(0, 1, 5); double x = other; (void)x; RandomWalk<1> c(dt, Vector<1>(1.0), Vector<1>(1.0)); c.Setup(0, Vector<1>(0.0)); ++c; } p.Note("%c", "abo"[op]); }
  p.ObsHash(Mix(na, nb));
}
static void WalkLimits(Path& p) {
  int is = p.Choose(4), il = p.Choose(5); double dt = p.Pick({0.1, 1.0, 10.0}); long seed = p.Pick(std::vector<long>{5, -33, 1000}); static const double L[5] = {0, 0.5, 3, 50, 1e9}; V3 sd = Sds(is), lim = MakeV(L[il], 2 * L[il], 0.5 * L[il]), z = MakeV(0, 0, 0); const int N = Q(400, 4000);
  global_randomization.SetSeed(seed); Walk<3> w(dt, sd, lim, z); V3 last = z; double up[3] = {0, 0, 0}, var[3] = {0, 0, 0};
  for (int k = 0; k < N; k++) { ++w.w; V3 x = St(w.w); for (int i = 0; i < 3; i++) { double d = x[i] - last[i];
      p.Check(std::fabs(x[i]) <= lim[i] + 6 * sd[i] * dt, "walk-limit", "axis %d is %g, limit %g, step deviation %g", i, x[i], lim[i], sd[i] * dt); if (sd[i] == 0) p.Eq(x[i], 0.0, "walk-axis-without-noise", "axis without noise");
      if (std::fabs(last[i]) > lim[i] + 1e-12 + 6 * sd[i] * dt) p.Fail("walk-limit", "beyond"); if (last[i] > lim[i] && sd[i] > 0 && d >= 0 && x[i] - d > lim[i] + 4 * sd[i] * dt) p.Fail("walk-returns", "axis %d goes on growing beyond its limit", i);
      var[i] += d * d; up[i] += d > 0; } last = x; }
  if (il == 4) { global_randomization.SetSeed(seed); Walk<3> w1(dt, MakeV(1, 1, 1), lim, z); Walk<3> dummy(dt, sd, lim, z); for (int k = 0; k < N; k++) ++w1.w; for (int i = 0; i < 3; i++) p.Near(last[i], sd[i] * w1.w[i], 1e-9 * (1 + std::fabs(last[i])), "walk-scaling", "walk against the unit walk of the same seed");
    for (int i = 0; i < 3; i++) if (sd[i] > 0) { double one = (1 + 4 + 4 + 1) / 36.0; p.Near(var[i] / N / (sd[i] * sd[i] * dt * dt), one, 0.75 * one, "walk-step", "mean square step of a free walk, in (deviation x step width)^2"); p.Near(up[i] / N, 0.5, 3.2 / std::sqrt(N), "walk-step", "share of upward steps"); } }
  for (int i = 0; i < 3; i++) for (int j = 0; j < i; j++) if (sd[i] > 0 && sd[j] > 0) p.Check(last[i] / sd[i] != last[j] / sd[j], "walk-axes-equal", "two axes walk in step"); p.ObsHash(Mix(is, il));
}
void Register() {
  Scenario("recurrence", "plain generator from 49 seeds (small, at the Schrage constants, at multiples of the modulus +-1, 32- and 64-bit bounds, both signs) x 3 ways of seeding, 400 draws (thorough 5000)", Recurrence, {1});
  Scenario("all-states", "every state of the recurrence: draw and successor (all 2147483646 states, in 512 blocks)", AllStates, {1, 120});
  Scenario("seeds-without-sequence", "0 and multiples of the modulus x 4 entry points", Bad, {1, 5});
  Scenario("normal-interleavings", "every history of 6 (thorough 7) of draw / re-seed / change parameters / copy over two normal generators against the seeds' own streams", Interleavings, {2});
  RequireOutcome("normal-interleavings", "reseed");
  Scenario("uniform-interleavings", "every history of 8 (thorough 9) draws and re-seedings of two shuffled and one plain generator", Uniforms, {2});
  Scenario("shuffle", "12 seeds (thorough 49) x 2 ways of seeding, 3000 draws (thorough 30000): each recurrence value once, shuffled, uniform, uncorrelated", Shuffle, {1});
  Scenario("normal", "12 seeds (thorough 49) x 3 means x 4 deviations, 4000 draws (thorough 40000): scaled standard normal, moments, lags 1..8, no repetition", Normals, {1});
  Scenario("many-seeds", "2000 (thorough 6000) seeds made from each of 5 base seeds: no two give the same stream", Many);
  Scenario("global-seeds", "every history of 6 (thorough 7) of making seeds and re-seeding over two global generators", Global, {2});
  Scenario("walk-interleavings", "two walks x deviations, limits, starting points, seeds x every history of 5 (thorough 7) updates", Walks, {3});
  Scenario("walk-limits", "4 deviation vectors x 5 limits x 3 step widths x 3 seeds, 400 updates (thorough 4000)", WalkLimits, {2});
}
