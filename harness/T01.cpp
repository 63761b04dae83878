// Rigid and flexible attitude motion against conservation laws and an independent propagation of inertial momentum.
#include <dynamics/attitude/attitude_rk4.hpp>
#include <dynamics/attitude/attitude_with_cantilever_vibration.hpp>
#include <dynamics/attitude/initialize_attitude.hpp>
#include <sstream>
#include "env.hpp"
using namespace mc; using namespace env; using namespace s2e::dynamics::attitude; using Mat3 = s2e::math::Matrix<3, 3>;
const char* kProperty = "T01";
const char* kAssumptions = "Body rates up to 0.6 rad/s with integration steps up to 0.2 s, so that the truncation error of a correct fourth-order integration stays below the tolerances; torque and wheel momentum are constant between updates.";
struct M3 { double m[3][3]; };
static M3 Inv(const M3& a) { M3 r; auto& m = a.m; double d = m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]);
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { int a1 = (j + 1) % 3, a2 = (j + 2) % 3, b1 = (i + 1) % 3, b2 = (i + 2) % 3; r.m[i][j] = (m[a1][b1] * m[a2][b2] - m[a1][b2] * m[a2][b1]) / d; } return r; }
static V3 Mv(const M3& a, const V3& v) { return MakeV(a.m[0][0] * v[0] + a.m[0][1] * v[1] + a.m[0][2] * v[2], a.m[1][0] * v[0] + a.m[1][1] * v[1] + a.m[1][2] * v[2], a.m[2][0] * v[0] + a.m[2][1] * v[1] + a.m[2][2] * v[2]); }
static Mat3 ToMat(const M3& a) { Mat3 r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r[i][j] = a.m[i][j]; return r; }
// reference: quaternion and inertial angular momentum are the states; the rate follows from the momentum
struct Ref {
  M3 I, Ii; double q[4]; V3 H, h = MakeV(0, 0, 0);
  Ref(const M3& i, const Quat& q0, const V3& w, const V3& wheel) : I(i), Ii(Inv(i)), h(wheel) { for (int k = 0; k < 4; k++) q[k] = q0[k]; H = MulT(R(), Add(Mv(I, w), h)); }
  Rot R() const { return RotOf(q[0], q[1], q[2], q[3]); }
  V3 w() const { return Mv(Ii, Sub(Mul(R(), H), h)); }
  void SetWheel(const V3& n) { V3 o = w(); h = n; H = MulT(R(), Add(Mv(I, o), h)); }
  struct D { double q[4]; V3 H; };
  D Der(const double* s, const V3& Hs, const V3& T) const { Rot r = RotOf(s[0], s[1], s[2], s[3]); V3 o = Mv(Ii, Sub(Mul(r, Hs), h)); return {{.5 * (s[3] * o[0] + s[1] * o[2] - s[2] * o[1]), .5 * (s[3] * o[1] + s[2] * o[0] - s[0] * o[2]), .5 * (s[3] * o[2] + s[0] * o[1] - s[1] * o[0]), -.5 * (s[0] * o[0] + s[1] * o[1] + s[2] * o[2])}, MulT(r, T)}; }
  void Run(double t, const V3& T) {
    int n = std::max(1, (int)std::ceil(t / 0.02 - 1e-9)); double d = t / n;
    for (int i = 0; i < n; i++) { double s[4]; auto st = [&](const D& k, double f) { for (int j = 0; j < 4; j++) s[j] = q[j] + f * k.q[j]; return Add(H, Scale(f, k.H)); };
      D a = Der(q, H, T); V3 x = st(a, d / 2); D b = Der(s, x, T); x = st(b, d / 2); D c = Der(s, x, T); x = st(c, d); D e = Der(s, x, T); double nn = 0;
      for (int j = 0; j < 4; j++) q[j] += d / 6 * (a.q[j] + 2 * b.q[j] + 2 * c.q[j] + e.q[j]), nn += q[j] * q[j]; nn = std::sqrt(nn); for (int j = 0; j < 4; j++) q[j] /= nn;
      H = Add(H, Scale(d / 6, Add(Add(a.H, e.H), Scale(2, Add(b.H, c.H))))); }
  }
};
static double Same(const Quat& q, const double* r) { double s = 0; for (int i = 0; i < 4; i++) s += q[i] * r[i]; s = s < 0 ? -1 : 1; double d = 0; for (int i = 0; i < 4; i++) d = std::max(d, std::fabs(q[i] - s * r[i])); return d; }
static const M3 kI[6] = {{{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}}, {{{1, 0, 0}, {0, 2, 0}, {0, 0, 2.5}}}, {{{.2, 0, 0}, {0, .2, 0}, {0, 0, .05}}}, {{{2, .3, -.1}, {.3, 1.5, .2}, {-.1, .2, 2.2}}}, {{{120, -8, 3}, {-8, 95, 5}, {3, 5, 150}}}, {{{.01, 0, 0}, {0, .012, .002}, {0, .002, .015}}}};
static double Size(const M3& m) { return m.m[0][0] + m.m[1][1] + m.m[2][2]; }
static void Compare(Path& p, const Attitude& a, const Ref& r, const V3& T, double tol) {
  V3 w = a.GetAngularVelocity_b_rad_s(); Quat q = a.GetQuaternion_i2b(); double n = 0; for (int i = 0; i < 4; i++) n += q[i] * q[i]; p.Near(n, 1, 1e-12, "unit-quaternion");
  V3 Hb = Add(Mv(r.I, w), r.h), Hi = MulT(RotOf(q), Hb); double sz = Norm(r.H) + Size(r.I) * 0.05; p.NearV(Hi, r.H, 3, tol * sz, "angular-momentum"); p.Near(a.GetTotalAngularMomentNorm_Nms(), Norm(Hb), 1e-12 * sz, "reported-momentum"); { std::istringstream l(a.GetLogValue()); std::string c; double lm = -1; for (int i = 0; i < 11 && std::getline(l, c, ','); i++) lm = atof(c.c_str()); p.Near(lm, Norm(Hb), 1e-5 * Norm(Hb) + 1e-12, "logged-momentum"); } double e = .5 * Dot(w, Mv(r.I, w)); p.Near(a.GetKineticEnergy_J(), e, 1e-12 * (e + 1e-9), "reported-energy");
  p.NearV(w, r.w(), 3, tol, "angular-velocity"); p.Check(Same(q, r.q) < tol, "attitude", "%.12g %.12g %.12g %.12g want %.12g %.12g %.12g %.12g", q[0], q[1], q[2], q[3], r.q[0], r.q[1], r.q[2], r.q[3]); (void)T;
  p.Obs({w[0], w[1], w[2], q[0], q[1], q[2], q[3]});
}
static V3 Wheel(int i, double s) { return i == 0 ? MakeV(0, 0, 0) : i == 1 ? MakeV(0, 0, .3 * s) : MakeV(.1 * s, -.2 * s, .05 * s); }
static V3 Rate(int i) { static const double v[8][3] = {{0, 0, 0}, {.2, 0, 0}, {0, -.3, 0}, {1e-6, .25, 1e-7}, {0, 0, .5}, {.1, .2, -.15}, {-.3, .1, .25}, {1e-4, -2e-4, 1e-3}}; return MakeV(v[i][0], v[i][1], v[i][2]); }
static V3 Torque(int i, double s) { return i == 0 ? MakeV(0, 0, 0) : i == 1 ? MakeV(.02 * s, 0, 0) : i == 2 ? MakeV(0, -.01 * s, .03 * s) : MakeV(-.015 * s, .02 * s, .01 * s); }
static Attitude* Make(int kind, const V3& w, const Quat& q, const Mat3& I, double step) {
  static int id = 0; std::string n = "t01_" + std::to_string(id++); if (kind == 0) return new AttitudeRk4(w, q, I, MakeV(0, 0, 0), step, n);
  Mat3 z(0.0); return new AttitudeWithCantileverVibration(w, q, I, z, 0.01, 2.0, MakeV(0, 0, 0), step, n);
}
void Register() {
  Scenario("histories", "rigid and zero-coupling flexible model x 6 inertia tensors x 8 initial rates x 3 attitudes x 3 wheel momenta x 4 integration steps; every torque and wheel-momentum history over 4 updates (thorough 5) from 4 torques x 2 wheel settings: momentum, attitude and rate against an independent propagation, energy and momentum without torque", [](Path& p) {
    int kind = p.Choose(2), ii = p.Choose(6), wi = p.Choose(8), qi = p.Choose(3), hi = p.Choose(3); static const double S[4] = {.1, .05, .07, .2}; double step = S[(ii + wi + qi + hi) % 4]; if (Thorough()) step = S[p.Choose(4)];
    M3 I = kI[ii]; double sz = Size(I) / 3; Mat3 m = ToMat(I); Quat q0 = Rotations()[std::vector<int>{0, 5, 11}[qi]]; V3 w0 = Rate(wi); std::unique_ptr<Attitude> a(Make(kind, w0, q0, m, step)); Ref r(I, q0, w0, Wheel(hi, sz)); a->SetRwAngularMomentum_b_Nms(r.h); double t = 0; V3 T = MakeV(0, 0, 0); bool free = true; double e0 = .5 * Dot(w0, Mv(I, w0)), H0 = Norm(r.H);
    static const double D[6] = {.1, .2, .1, .3, .05, 1}; int n = Q(4, 5);
    for (int k = 0; k < n; k++) {
      int ti = (k < 3 || Thorough()) ? p.Choose(4) : (k + ii) % 4; bool sw = k == 1 && p.Flag(); T = Torque(ti, sz); p.Note("torque %d for %g%s", ti, D[k], sw ? " new wheel momentum" : ""); if (ti || sw) free = false;
      if (sw) { V3 n2 = Wheel((hi + 1) % 3, sz); a->SetRwAngularMomentum_b_Nms(n2); r.SetWheel(n2); }
      a->SetTorque_b_Nm(MakeV(0, 0, 0)); a->AddTorque_b_Nm(Scale(.25, T)); a->AddTorque_b_Nm(Scale(.75, T)); t += D[k]; a->Propagate(t); r.Run(D[k], T); Compare(p, *a, r, T, 3e-7);
      if (free) { V3 w = a->GetAngularVelocity_b_rad_s(); p.Near(a->GetTotalAngularMomentNorm_Nms(), H0, 1e-7 * (H0 + sz * .01), "free-momentum"); p.Near(.5 * Dot(w, Mv(I, w)), e0, 1e-7 * (e0 + sz * 1e-4), "free-energy"); }
    }
    p.Outcome(free ? "free" : "torqued");
  }, {4});
  RequireOutcome("histories", "free"); RequireOutcome("histories", "torqued");
  Scenario("division-of-interval", "rigid and zero-coupling flexible model x 3 inertia tensors x 3 rates x 6 integration steps (also longer than, equal to and incommensurate with the updates) x every one of the 512 (thorough 8192) divisions of the interval into updates: one and the same final state", [](Path& p) {
    int kind = p.Choose(2), ii = p.PickI({1, 3, 4}), wi = p.PickI({5, 6, 3}), b = Q(9, 13); double step = p.Pick({.1, .2, .3, .03, .07, .011}); M3 I = kI[ii]; Mat3 m = ToMat(I); double sz = Size(I) / 3; Quat q0 = Rotations()[7]; V3 w0 = Scale(.5, Rate(wi)), h = Wheel(2, sz), T = Torque(3, sz); Ref r(I, q0, w0, h); r.Run(.1 * (b + 1), T);
    for (int mask = 0; mask < (1 << b); mask++) { std::unique_ptr<Attitude> a(Make(kind, w0, q0, m, step)); a->SetRwAngularMomentum_b_Nms(h); a->SetTorque_b_Nm(T); if (mask % 64 == 0) p.Note("inertia %d rate %d step %g divisions from %x", ii, wi, step, mask); for (int k = 0; k <= b; k++) if (k == b || (mask >> k & 1)) a->Propagate(.1 * (k + 1)); Compare(p, *a, r, T, 1e-6); }
  });
  Scenario("kinematics", "6 inertia tensors x 8 rates x 12 attitudes x 2 models: the attitude after a short update is the initial attitude turned by the body rate, in the inertial-to-body convention; attitudes q and -q move alike", [](Path& p) {
    int kind = p.Choose(2), ii = p.Choose(6), wi = p.Choose(8), qi = p.Choose((int)Rotations().size()); Mat3 m = ToMat(kI[ii]); Quat q0 = Rotations()[qi]; V3 w = Rate(wi); std::unique_ptr<Attitude> a(Make(kind, w, q0, m, .01)), b(Make(kind, w, Quat(-q0[0], -q0[1], -q0[2], -q0[3]), m, .01)); a->Propagate(.01); b->Propagate(.01); Rot r0 = RotOf(q0), r1 = RotOf(a->GetQuaternion_i2b()), r2 = RotOf(b->GetQuaternion_i2b());
    for (int i = 0; i < 3; i++) { V3 e = MakeV(i == 0, i == 1, i == 2), x = Mul(r0, e), y = Sub(x, Scale(.01, Cross(w, x))); p.NearV(Mul(r1, e), y, 3, 1e-4 * (Dot(w, w) + Norm(w) * .2) + 1e-12, "kinematics"); p.NearV(Mul(r1, e), Mul(r2, e), 3, 1e-14, "sign"); } p.Obs({(double)ii, (double)wi, (double)qi, (double)kind});
  });
  Scenario("changing-inertia", "rigid and zero-coupling flexible model x 3 inertia tensors x 6 relative changes in 1..4 updates x 4 rates x 2 wheel momenta: momentum stays when the mass distribution changes", [](Path& p) {
    int ii = p.PickI({1, 3, 4}), wi = p.PickI({0, 1, 5, 7}), hi = p.Choose(2); double f = p.Pick({0, 1e-3, -1e-3, .02, -.02, .1}); int n = 1 + p.Choose(4); bool diag = p.Flag(); int kind = p.Choose(2); M3 I = kI[ii]; Mat3 m = ToMat(I); double sz = Size(I) / 3; V3 w = Scale(.2, Rate(wi)), h = Scale(.1, Wheel(hi, sz)); Quat q = Rotations()[3]; std::unique_ptr<Attitude> pa(Make(kind, w, q, m, .01)); Attitude& a = *pa; a.SetRwAngularMomentum_b_Nms(h); a.Propagate(.1); w = a.GetAngularVelocity_b_rad_s(); V3 H = MulT(RotOf(a.GetQuaternion_i2b()), Add(Mv(I, w), h)); double w0 = Norm(w);
    for (int k = 1; k <= n; k++) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m[i][j] = kI[ii].m[i][j] * (1 + f * k / n * (diag ? 1 : i == j ? .5 + .25 * i : 1)); a.Propagate(.1 + .1 * k); w = a.GetAngularVelocity_b_rad_s(); M3 c; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) c.m[i][j] = m[i][j]; V3 Hn = MulT(RotOf(a.GetQuaternion_i2b()), Add(Mv(c, w), h)); p.Note("factor %g", f * k / n); p.NearV(Hn, H, 3, 1e-9 * sz + std::fabs(f) * .1 * w0 * (Norm(H) + sz * w0) * 2, "momentum"); }
    for (int k = 1; k <= 3; k++) a.Propagate(.1 + .1 * (n + k)); w = a.GetAngularVelocity_b_rad_s(); M3 c; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) c.m[i][j] = m[i][j]; p.NearV(MulT(RotOf(a.GetQuaternion_i2b()), Add(Mv(c, w), h)), H, 3, 1e-9 * sz + std::fabs(f) * .1 * w0 * (Norm(H) + sz * w0) * 2, "momentum"); p.Obs({w[0], w[1], w[2], f, (double)n}); p.Outcome(w0 == 0 ? "rest" : f == 0 ? "rigid" : "changed");
  });
  RequireOutcome("changing-inertia", "changed");
  Scenario("flexible", "3 axes x 3 appendage ratios x 3 damping ratios x 2 frequencies x 3 torques x 4 divisions and 2 integration steps x the inertia given at construction or changed at rest: single-axis motion of body and appendage against the analytic oscillator, total momentum", [](Path& p) {
    int ax = p.Choose(3), dv = p.Choose(4); double ratio = p.Pick({.01, .2, 1}), z = p.Pick({0, .05, .3}), wn = p.Pick({.5, 2}), T = p.Pick({0, .02, -.05}), step = p.Pick({.01, .023}), w0 = p.Pick({0, .1}), was = p.Pick({1, .6}); if (was != 1 && w0 != 0) throw Skip(); M3 I = kI[1]; Mat3 m = ToMat(I), c(0.0); for (int i = 0; i < 3; i++) m[i][i] *= was; for (int i = 0; i < 3; i++) c[i][i] = ratio * I.m[i][i];
    double J = I.m[ax][ax], Jc = ratio * J; V3 w = MakeV(0, 0, 0), Tv = w; w[ax] = w0; Tv[ax] = T; AttitudeWithCantileverVibration a(w, Quat(0, 0, 0, 1), m, c, z, wn, MakeV(0, 0, 0), step, "t01_flexible"); for (int i = 0; i < 3; i++) m[i][i] = I.m[i][i]; /* the body may get another inertia while everything is at rest */ a.SetTorque_b_Nm(Tv); static const double D[4] = {.1, .04, .25, 1}; double t = 0;
    // eta'' + (1+ratio)(2 z wn eta' + wn^2 eta) = -T/J with eta(0)=eta'(0)=0; (J+Jc) w + Jc eta' = T t
    double g = (1 + ratio) * z * wn, O2 = (1 + ratio) * wn * wn, s = -T / J / O2; double wd2 = O2 - g * g, wd = std::sqrt(std::fabs(wd2)); bool over = wd2 < 0;
    while (t < 1.9) { t += D[dv]; a.Propagate(t); double C = over ? std::cosh(wd * t) : cos(wd * t), Sn = over ? std::sinh(wd * t) : sin(wd * t), e = exp(-g * t), eta = s * (1 - e * (C + g / wd * Sn)), de = s * e * Sn * (g * g / wd + (over ? -wd : wd)); double want = w0 + (T * t - Jc * de) / (J + Jc); w = a.GetAngularVelocity_b_rad_s(); p.Note("t %g", t); double tol = 1e-7;
      p.Near(w[ax], want, tol, "body-rate"); p.Near(w[(ax + 1) % 3], 0, 1e-12, "other-axis"); double x, q = a.GetQuaternion_i2b()[ax]; x = 2 * std::asin(q); double th = w0 * t + (T * t * t / 2 - Jc * eta) / (J + Jc); p.Near(x, th, tol, "body-angle"); std::string log = a.GetLogValue(); p.Check(!log.empty(), "log", "empty"); p.Obs({t, w[ax], x, ratio, z, wn}); }
    p.Outcome(T == 0 ? "free" : "excited");
  }, {3});
}
