// Integrators, linear algebra, interpolation, angles.
#include <math_physics/math/interpolation.hpp>
#include <math_physics/math/matrix_vector.hpp>
#include <math_physics/math/ordinary_differential_equation.hpp>
#include <math_physics/math/s2e_math.hpp>
#include <math_physics/numerical_integration/numerical_integrator_manager.hpp>
#include <stdexcept>
#include "env.hpp"
using namespace mc; using namespace env; using namespace s2e; using math::Vector; using math::Matrix;
using numerical_integration::NumericalIntegrationMethod; typedef numerical_integration::NumericalIntegratorManager<5> Manager;
const char* kProperty = "M03";
const char* kAssumptions = "Integrators are judged on triangular polynomial systems x_i' of weight i (all elementary differentials above the order vanish), on which a method of order p is exact up to weight p; dense output of the embedded methods up to weight 4.";
typedef std::vector<long double> Poly;
static Poly MulP(const Poly& a, const Poly& b) { Poly r(a.size() + b.size() - 1, 0); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) r[i + j] += a[i] * b[j]; return r; }
static void AddTo(Poly& a, const Poly& b, long double k) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); i++) a[i] += k * b[i]; }
static Poly Int(const Poly& a, long double c) { Poly r(a.size() + 1, 0); r[0] = c; for (size_t i = 0; i < a.size(); i++) r[i + 1] = a[i] / (i + 1); return r; }
static double At(const Poly& a, double t) { long double r = 0; for (int i = a.size() - 1; i >= 0; i--) r = r * t + a[i]; return r; }
// system with coefficients; variable `a` may be replaced by the independent variable
struct Sys { double c[13]; bool use_time; int weight; };
static void Deriv(const Sys& s, double t, const double* x, double* d) {
  double a = s.use_time ? t : x[0], b = x[1], c = x[2], e = x[3]; const double* k = s.c; d[0] = 1; d[1] = k[0] * a + 1; d[2] = k[1] * b + k[2] * a * a; d[3] = k[3] * c + k[4] * a * b + k[5] * a * a * a; d[4] = s.weight < 5 ? 0 : k[6] * e + k[7] * a * c + k[8] * b * b + k[9] * a * a * b + k[10] * a * a * a * a;
}
static std::vector<Poly> Solve(const Sys& s, double t0, const double* x0) { // exact solution as polynomials of time since t0
  Poly one{1}, a = s.use_time ? Poly{t0, 1} : Poly{x0[0], 1}; const double* k = s.c; Poly db = one, dc, dd, de; AddTo(db, a, k[0]); Poly b = Int(db, x0[1]); AddTo(dc, b, k[1]); AddTo(dc, MulP(a, a), k[2]); Poly c = Int(dc, x0[2]); AddTo(dd, c, k[3]); AddTo(dd, MulP(a, b), k[4]); AddTo(dd, MulP(a, MulP(a, a)), k[5]); Poly e = Int(dd, x0[3]);
  de = {0}; if (s.weight >= 5) { AddTo(de, e, k[6]); AddTo(de, MulP(a, c), k[7]); AddTo(de, MulP(b, b), k[8]); AddTo(de, MulP(MulP(a, a), b), k[9]); AddTo(de, MulP(MulP(a, a), MulP(a, a)), k[10]); } return {Int(one, x0[0]), b, c, e, Int(de, x0[4])};
}
struct Ode : numerical_integration::InterfaceOde<5> { Sys s; Vector<5> DerivativeFunction(const double t, const Vector<5>& x) const override { Vector<5> d; double xs[5], ds[5]; for (int i = 0; i < 5; i++) xs[i] = x[i]; Deriv(s, t, xs, ds); for (int i = 0; i < 5; i++) d[i] = ds[i]; return d; } };
struct Old : math::OrdinaryDifferentialEquation<5> { Sys s; explicit Old(double h) : OrdinaryDifferentialEquation<5>(h) {} void DerivativeFunction(double t, const Vector<5>& x, Vector<5>& d) override { double xs[5], ds[5]; for (int i = 0; i < 5; i++) xs[i] = x[i]; Deriv(s, t, xs, ds); for (int i = 0; i < 5; i++) d[i] = ds[i]; } };
template <size_t N> static void Invert(Path& p, const int* e, int scale) {
  Matrix<N, N> m; for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) m[i][j] = e[i * N + j] * (scale ? std::ldexp(1.0, scale * (int)(i % 3)) : 1.0);
  Matrix<N, N> inv; try { inv = math::CalcInverseMatrix(m); } catch (const std::invalid_argument&) { p.Fail("regular-matrix-refused", "regular matrix refused"); }
  for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) { double s = 0, r = 0; for (size_t k = 0; k < N; k++) { s += m[i][k] * inv[k][j]; r += inv[i][k] * m[k][j]; } p.Near(s, i == j, 1e-11 * (scale ? std::ldexp(1.0, scale * (int)(i % 3)) : 1), "inverse", "m times inverse"); p.Near(r, i == j, scale ? 1e-9 : 1e-11, "inverse", "inverse times m"); }
  Matrix<N, N> lu(m); size_t idx[N]; math::LuDecomposition(lu, idx); Vector<N> b; for (size_t i = 0; i < N; i++) b[i] = (double)i * 2 - 1.5; Vector<N> x(b); math::SolveLinearSystemWithLu(lu, idx, x); for (size_t i = 0; i < N; i++) { double s = 0; for (size_t k = 0; k < N; k++) s += m[i][k] * x[k]; p.Near(s, b[i], 1e-10 * (scale ? std::ldexp(1.0, scale * (int)(i % 3)) : 1), "solve"); } Vector<N> mv = m * x; p.NearV(mv, b, N, 1e-10 * std::ldexp(1.0, scale * 2), "product");
}
template <size_t N> static long long Det(const int* e) { if constexpr (N == 1) return e[0]; else { long long s = 0; int sub[(N - 1) * (N - 1)]; for (size_t c = 0; c < N; c++) { if (!e[c]) continue; int q = 0; for (size_t i = 1; i < N; i++) for (size_t j = 0; j < N; j++) if (j != c) sub[q++] = e[i * N + j]; s += (c % 2 ? -1 : 1) * e[c] * Det<N - 1>(sub); } return s; } }
static int Fill(int seed, int i, int j, int which) { return (int)((unsigned)(seed * 131 + i * 29 + j * 17 + which * 57 + i * j * 7) % 19) - 9; }
template <size_t R, size_t C, size_t K> static void Arith(Path& p, int seed) {
  Matrix<R, C> a, a2; Matrix<C, K> b; for (size_t i = 0; i < R; i++) for (size_t j = 0; j < C; j++) { a[i][j] = Fill(seed, i, j, 0); a2[i][j] = Fill(seed, i, j, 1); } for (size_t i = 0; i < C; i++) for (size_t j = 0; j < K; j++) b[i][j] = Fill(seed, i, j, 2); Vector<C> v; for (size_t j = 0; j < C; j++) v[j] = Fill(seed, j, 3, 3);
  Matrix<R, K> ab = a * b; Matrix<C, R> t = a.Transpose(); Vector<R> av = a * v; Matrix<R, C> s = a + a2, d = a - a2, k = 3.0 * a, q = a, w = a, h = a, g = a; q += a2; w -= a2; h *= -2.0; g /= 4.0;
  for (size_t i = 0; i < R; i++) { double y = 0; for (size_t l = 0; l < C; l++) y += a[i][l] * v[l]; p.Eq(av[i], y, "product", "matrix times vector"); for (size_t j = 0; j < K; j++) { double x = 0; for (size_t l = 0; l < C; l++) x += a[i][l] * b[l][j]; p.Eq(ab[i][j], x, "product", "element of the product"); }
    for (size_t j = 0; j < C; j++) { p.Eq(t[j][i], a[i][j], "transpose", "element"); p.Eq(s[i][j], a[i][j] + a2[i][j], "sum", "element"); p.Eq(d[i][j], a[i][j] - a2[i][j], "sum", "difference"); p.Eq(k[i][j], 3 * a[i][j], "sum", "multiple"); p.Eq(q[i][j], s[i][j], "sum", "in place"); p.Eq(w[i][j], d[i][j], "sum", "difference in place"); p.Eq(h[i][j], -2 * a[i][j], "sum", "multiple in place"); p.Eq(g[i][j], a[i][j] / 4, "sum", "quotient in place"); } }
  if constexpr (R == C) { double x = 0; for (size_t i = 0; i < R; i++) x += a[i][i]; p.Eq(a.CalcTrace(), x, "trace", "trace"); Matrix<R, C> e = math::MakeIdentityMatrix<R>(); for (size_t i = 0; i < R; i++) for (size_t j = 0; j < C; j++) p.Eq(e[i][j], i == j ? 1.0 : 0.0, "identity", "element"); }
}
template <size_t N> static void Band(Path& p, int seed) { int e[N * N]; size_t sh = seed % N; for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) { size_t c = (j + sh) % N; e[i * N + j] = c == i ? 4 + (int)i % 3 : c == i + 1 || c + 1 == i ? Fill(seed, i, j, 4) > 0 ? 1 : -1 : 0; } Invert<N>(p, e, 0); }
void Register() {
  Scenario("integrators", "4 integrators x polynomial systems up to the order of the method (11 coefficients one at a time, all together, 4 mixtures) x time or state dependence x 4 initial states x sequences of 1..3 (thorough 4) steps of one width of 4 x re-initialisation half way: exact after every step, dense output exact at both ends and in between", [](Path& p) {
    int meth = p.Choose(4); Sys s{}; int order = meth == 1 || meth == 2 ? 5 : 4; s.weight = order; int ci = p.Choose(16); if (ci < 11) s.c[ci] = 1; else for (int i = 0; i < 11; i++) s.c[i] = ci == 11 ? 1 : ((i * 7 + ci * 3) % 5 - 2) * 0.5; if (ci < 11) for (int i : {0, 1, 3}) if (i != ci) s.c[i] = 1; s.use_time = p.Choose(2);
    static const double I[4][5] = {{0, 0, 0, 0, 0}, {1, 0, 0, 0, 0}, {-0.5, 2, 1, -1, 3}, {2, -1, 0.25, 5, -2}}; const double* x0 = I[p.Choose(4)]; double t0 = s.use_time ? p.Pick({0, 1.5}) : 0; double h = p.Pick({1, 0.5, 0.125, 3}); int reset = p.Choose(3), steps = Q(3, 4); double x[5]; memcpy(x, x0, sizeof x);
    Ode ode; ode.s = s; Manager mgr(h, ode, meth == 0 ? NumericalIntegrationMethod::kRk4 : meth == 1 ? NumericalIntegrationMethod::kRkf : NumericalIntegrationMethod::kDp5); auto in = mgr.GetIntegrator(); Old old(h); old.s = s; Vector<5> v; for (int i = 0; i < 5; i++) v[i] = x[i]; in->SetState(t0, v); old.Setup(t0, v); auto sol = Solve(s, t0, x); double tb = t0; 
    for (int k = 0; k < steps; k++) {
      double t = t0 + k * h, scale = 1; if (meth < 3) in->Integrate(); else ++old; const Vector<5>& g = meth < 3 ? const_cast<const numerical_integration::NumericalIntegrator<5>&>(*in).GetState() : const_cast<const Old&>(old).GetState(); 
      for (int i = 0; i < 5; i++) { double mag = 0; for (size_t j = 0; j < sol[i].size(); j++) mag += std::fabs((double)sol[i][j]) * std::pow(t + h - tb, j); scale = std::max(scale, mag); } for (int i = 0; i < 5; i++) p.Near(g[i], At(sol[i], t + h - tb), 1e-13 * scale, "state", "after a step"); if (meth == 3) p.Near(old.GetIndependentVariable(), t + h, 1e-12, "time");
      if (meth == 1 || meth == 2) { Vector<5> a = in->CalcInterpolationState(0), b = in->CalcInterpolationState(1); for (int i = 0; i < 5; i++) { p.Near(a[i], At(sol[i], t - tb), 1e-13 * scale, "dense-begin"); if (i < 4 || meth == 2) p.Near(b[i], At(sol[i], t + h - tb), 2e-13 * scale, "dense-end"); } for (double q : {0.25, 0.5, 0.9}) { Vector<5> d = in->CalcInterpolationState(q); for (int i = 0; i < 4; i++) p.Near(d[i], At(sol[i], t + q * h - tb), 3e-13 * scale, "dense-inside"); } }
      p.Obs({(double)meth, (double)ci, (double)s.use_time, x0[2], t0, h, (double)reset, (double)k});
      if (k == 0 && reset) { for (int i = 0; i < 5; i++) { x[i] = reset == 1 ? g[i] : 0.5 * i - 1; v[i] = x[i]; } tb = t + h; in->SetState(tb, v); old.Setup(tb, v); sol = Solve(s, tb, x); }
    }
  }, {4});
  Scenario("matrices-2-3", "all regular 2x2 matrices with entries -3..3 and 3x3 with entries -1..1 (thorough -1..2), also with rows scaled by 2^20 and 2^40: inverse and solution", [](Path& p) {
    if (p.Choose(2) == 0) { int a = p.Choose(49); for (int b = 0; b < 49; b++) { int e[4] = {a % 7 - 3, a / 7 - 3, b % 7 - 3, b / 7 - 3}; if (Det<2>(e) == 0) continue; p.Note("%d %d %d %d", e[0], e[1], e[2], e[3]); Invert<2>(p, e, 0); Invert<2>(p, e, 20); p.Obs({(double)a, (double)b}); } p.Outcome("2x2"); }
    else { int B = Q(3, 4); int a = p.Choose(B * B * B * B); int n = B * B * B * B * B; for (int b = 0; b < n; b++) { int e[9]; int v = a; for (int i = 0; i < 4; i++) { e[i] = v % B - 1; v /= B; } v = b; for (int i = 4; i < 9; i++) { e[i] = v % B - 1; v /= B; } if (Det<3>(e) == 0) continue; Invert<3>(p, e, 0); if (b % 8 == 0) Invert<3>(p, e, 20); p.Obs({3, (double)a, (double)b}); } p.Outcome("3x3"); }
  }); RequireOutcome("matrices-2-3", "2x2"); RequireOutcome("matrices-2-3", "3x3");
  Scenario("matrices-4-6", "all regular 4x4 matrices of zeros and ones, all signed permutations of 5 and permutations of 6 rows with an upper triangle of ones: inverse and solution", [](Path& p) {
    int kind = p.Choose(2); if (kind == 0) { int a = p.Choose(256); for (int b = 0; b < 256; b++) { int e[16]; for (int i = 0; i < 16; i++) e[i] = (a * 256 + b) >> i & 1; if (Det<4>(e) == 0) continue; Invert<4>(p, e, 0); p.Obs({4, (double)a, (double)b}); } }
    else { int perm[6] = {0, 1, 2, 3, 4, 5}; int a = p.Choose(720); std::vector<int> pool{0, 1, 2, 3, 4, 5}; int v = a; for (int i = 0; i < 6; i++) { int k = v % (6 - i); v /= 6 - i; perm[i] = pool[k]; pool.erase(pool.begin() + k); } int e[36]; for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) e[i * 6 + j] = j == perm[i] ? (i % 2 ? -3 : 2) : j > perm[i] ? 1 : 0; Invert<6>(p, e, 0); p.Obs({6, (double)a}); int f[25]; int pp[5], q = 0; for (int i = 0; i < 6; i++) if (perm[i] < 5) pp[q++] = perm[i]; for (int sg = 0; sg < 32; sg++) { for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) f[i * 5 + j] = j == pp[i] ? (sg >> i & 1 ? -1 : 1) * (i + 1) : 0; Invert<5>(p, f, 0); } }
  });
  Scenario("matrix-arithmetic", "products of 11 shapes up to 12 rows and columns, transposes, traces of 1 to 12 rows, sums, differences and scalings, of 40 integer fillings: exactly the defining sums; inverses of 8, 10 and 12 rows needing row exchanges", [](Path& p) {
    int kind = p.Choose(12), seed = p.Choose(40);
    switch (kind) { case 0: Arith<2, 5, 2>(p, seed); break; case 1: Arith<1, 6, 1>(p, seed); break; case 2: Arith<5, 1, 5>(p, seed); break; case 3: Arith<3, 3, 3>(p, seed); break; case 4: Arith<12, 12, 12>(p, seed); break; case 5: Arith<6, 2, 9>(p, seed); break; case 6: Arith<1, 1, 1>(p, seed); break; case 7: Arith<4, 7, 3>(p, seed); break; case 8: Arith<5, 5, 1>(p, seed); break; case 9: Arith<6, 6, 6>(p, seed); break; case 10: Arith<8, 9, 8>(p, seed); break;
      default: Band<8>(p, seed); Band<10>(p, seed); Band<12>(p, seed); }
    p.Obs({(double)kind, (double)seed}); p.Outcome(kind == 11 ? "inverse" : "arithmetic"); });
  RequireOutcome("matrix-arithmetic", "arithmetic"); RequireOutcome("matrix-arithmetic", "inverse");
  Scenario("polynomial-interpolation", "all node sets of 1..6 (thorough 8) points chosen from 8 (10) uneven ones x every power below the number of nodes x queries at nodes, between and just outside, and sliding the window by every later point", [](Path& p) {
    static const double X[10] = {-3, -2.5, -1, 0, 0.25, 1, 2, 4, 5.5, 6}; int N = Q(8, 10); int mask = p.Choose((1 << N) - 1) + 1; std::vector<double> x; for (int i = 0; i < N; i++) if (mask >> i & 1) x.push_back(X[i]); if ((int)x.size() > Q(6, 8)) throw Skip(); int n = x.size();
    for (int deg = 0; deg < n; deg++) { auto f = [&](double t) { return 1 + std::pow(t, deg); }; std::vector<double> y; for (double t : x) y.push_back(f(t)); math::Interpolation in(x, y); p.Eq(in.GetDegree(), n, "degree");
      auto all = [&](const math::Interpolation& it, const std::vector<double>& xs, const char* key) { for (size_t i = 0; i < xs.size(); i++) { p.Note("degree %d query %g", deg, xs[i]); p.Near(it.CalcPolynomial(xs[i]), f(xs[i]), 1e-10 * (1 + std::pow(6.5, deg)), key, "node"); double nx = i + 1 < xs.size() ? xs[i + 1] : xs[i] + 0.5; for (double q : {0.25, 0.5, 0.8}) { double t = xs[i] + q * (nx - xs[i]); p.Near(it.CalcPolynomial(t), f(t), 1e-10 * (1 + std::pow(6.5, deg)), key, "between"); } } double t = xs[0] - 0.3; p.Near(it.CalcPolynomial(t), f(t), 1e-10 * (1 + std::pow(6.5, deg)), key, "before"); };
      all(in, x, "polynomial"); std::vector<double> xs = x; p.Check(!in.PushAndPopData(x.back(), 7), "push-refused", "equal"); p.Check(!in.PushAndPopData(x.back() - 0.1, 7), "push-refused", "earlier"); all(in, x, "refused-push"); for (double nx : {7.0, 7.5, 9.0}) { p.Check(in.PushAndPopData(nx, f(nx)), "push", "later"); xs.erase(xs.begin()); xs.push_back(nx); p.Check(in.GetIndependentVariables() == xs && in.GetDependentVariables().size() == xs.size(), "window", "nodes"); all(in, xs, "sliding"); } p.Obs({(double)mask, (double)deg}); }
  });
  Scenario("trigonometric-interpolation", "2..9 equally spaced nodes x 2 base frequencies x every sine and cosine below the resolution: exact at nodes and between", [](Path& p) {
    int n = 2 + p.Choose(8); double w = p.Pick({1, 0.4}); int m = (n % 2 ? n - 1 : n - 2) / 2; std::vector<double> x; for (int i = 0; i < n; i++) x.push_back(0.3 + i * 2 * 3.14159265358979323846 / w / (n + 2));
    for (int k = 0; k <= m; k++) for (int sc = 0; sc < 2; sc++) { auto f = [&](double t) { return sc ? std::sin(k * w * t) : std::cos(k * w * t); }; std::vector<double> y; for (double t : x) y.push_back(f(t)); math::Interpolation in(x, y); for (int i = 0; i + 1 < n; i++) for (double q : {0.0, 0.3, 0.5, 1.0}) { double t = x[i] + q * (x[i + 1] - x[i]); p.Near(in.CalcTrigonometric(t, w), f(t), 1e-9, "trigonometric"); p.Obs({(double)n, w, (double)k, (double)sc, t}); } }
  });
  Scenario("angles", "all ordered pairs of 26 lattice and 6 generic directions with 3 lengths; angles -20..20 turns in steps of 1/24 turn and one rounding beside them: angle between vectors, angle wrapping, polar form, orthogonal unit vector", [](Path& p) {
    static std::vector<V3> v; if (v.empty()) { v = Directions26(); for (V3 x : {MakeV(0.3, -0.5, 0.8), MakeV(-0.3, 0.5, -0.8), MakeV(1, 1e-5, 0), MakeV(0.1, 0.2, 0.3), MakeV(-7e6, 1e5, 2e3), MakeV(1e-3, 2, -5)}) v.push_back(x); } const double pi = 3.14159265358979323846;
    int i = p.Choose(32); for (auto& b : v) for (double k : {1.0, 1e-3, 3.0}) { V3 a = Scale(k, v[i]); double g = math::CalcAngleTwoVectors_rad(a, b), w = std::atan2(Norm(Cross(a, b)), Dot(a, b)); p.Check(std::isfinite(g), "angle-finite", "%g %g %g / %g %g %g", a[0], a[1], a[2], b[0], b[1], b[2]); p.Near(g, w, 1e-7, "angle"); }
    V3 o = math::GenerateOrthogonalUnitVector(v[i]); p.Near(Norm(o), 1, 1e-14, "orthogonal-unit"); p.Near(Dot(o, Unit(v[i])), 0, 1e-14, "orthogonal"); auto po = math::ConvertFrameOrthogonal2Polar(v[i]); p.NearV(Scale(po[0], MakeV(sin(po[1]) * cos(po[2]), sin(po[1]) * sin(po[2]), cos(po[1]))), v[i], 3, 1e-12 * Norm(v[i]), "polar"); p.Check(po[1] >= 0 && po[1] <= pi + 1e-12 && po[2] >= 0 && po[2] < 2 * pi + 1e-12, "polar-range", "%g %g", po[1], po[2]);
    for (int n = -20 * 24 + i; n <= 20 * 24; n += 32) { double a0 = n * 2 * pi / 24; for (double a : {a0, std::nextafter(a0, 1e9), std::nextafter(a0, -1e9)}) { double g = math::WrapTo2Pi(a); p.Check(g >= 0 && g <= 2 * pi + 1e-15, "wrap-range", "%.17g", g); p.Check(std::fabs(std::remainder(g - a, 2 * pi)) < 1e-13, "wrap", "%.17g -> %.17g", a, g); p.Obs({a}); } }
  });
}
