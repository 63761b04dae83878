// Rotation representations.
#include <math_physics/math/quaternion.hpp>
#include <math_physics/math/vector.hpp>
#include <math_physics/math/matrix.hpp>
#include <math_physics/math/matrix_vector.hpp>
#include "env.hpp"
using namespace mc; using namespace env; using s2e::math::Matrix; using s2e::math::Vector;
const char* kProperty = "M02";
const char* kAssumptions = "Quaternions are unit (to rounding) where a rotation is meant; two quaternions of opposite sign are the same rotation.";
static const double kPi = 3.14159265358979323846;
static double Diff(const Quat& a, const Rot& b) { Rot r = RotOf(a); double m = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m = std::max(m, std::fabs(r.m[i][j] - b.m[i][j])); return m; }
static double Diff(const Matrix<3, 3>& a, const Rot& b) { double m = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double e = std::fabs(a[i][j] - b.m[i][j]); if (!(e <= m)) m = e; } return m; }
static Matrix<3, 3> M(const Rot& r) { Matrix<3, 3> x; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) x[i][j] = r.m[i][j]; return x; }
static void Same(Path& p, const Quat& q, const Rot& r, double tol, const char* key, const char* what = "") { double n = 0; for (int i = 0; i < 4; i++) n += q[i] * q[i]; p.Near(n, 1, tol, key, "norm"); double d = Diff(q, r); p.Check(d <= tol, key, "%s: rotations differ by %g", what, d); }
static Rot Compose(const Rot& second, const Rot& first) { Rot r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { r.m[i][j] = 0; for (int k = 0; k < 3; k++) r.m[i][j] += second.m[i][k] * first.m[k][j]; } return r; }
static Rot AxisRot(const V3& a, double t) { V3 u = Unit(a); double c = cos(t), s = sin(t); Rot r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r.m[i][j] = (1 - c) * u[i] * u[j] + (i == j ? c : 0); r.m[0][1] += s * u[2]; r.m[0][2] -= s * u[1]; r.m[1][0] -= s * u[2]; r.m[1][2] += s * u[0]; r.m[2][0] += s * u[1]; r.m[2][1] -= s * u[0]; return r; }
static const std::vector<V3>& Probe() { static const std::vector<V3> v = {MakeV(1, 0, 0), MakeV(0, 1, 0), MakeV(0, 0, 1), MakeV(0.3, -2, 5), MakeV(-7e6, 1e5, 2e3)}; return v; }
static void All(Path& p, const Quat& q, const Rot& r) {
  Same(p, q, r, 1e-14, "quaternion"); Same(p, Quat(-q[0], -q[1], -q[2], -q[3]), r, 1e-14, "quaternion", "negative");
  for (int sg = 0; sg < 2; sg++) {
    Quat x(q); if (sg) for (int i = 0; i < 4; i++) x[i] = -x[i]; double d = Diff(x.ConvertToDcm(), r); p.Check(d < 2e-14, "to-dcm", "off by %g", d); Same(p, Quat::ConvertFromDcm(x.ConvertToDcm()), r, 1e-14, "dcm-round-trip"); Same(p, Quat::ConvertFromEuler(x.ConvertToEuler()), r, 2e-15 * 10, "euler-round-trip");
    Same(p, Quat::ConvertFromDcm(M(r)), r, 1e-14, "from-dcm"); V3 e = x.ConvertToEuler(); p.Check(std::fabs(e[0]) <= kPi + 1e-15 && std::fabs(e[1]) <= kPi / 2 + 1e-15 && std::fabs(e[2]) <= kPi + 1e-15, "euler-range", "%g %g %g", e[0], e[1], e[2]);
    Rot rt; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) rt.m[i][j] = r.m[j][i]; Same(p, x.Conjugate(), rt, 1e-14, "conjugate");
    for (auto& v : Probe()) { double n = Norm(v); V3 f = x.FrameConversion(v), w = Mul(r, v); p.NearV(f, w, 3, 1e-14 * n, "frame-conversion"); p.Near(Norm(f), n, 1e-14 * n, "length"); p.NearV(x.InverseFrameConversion(v), MulT(r, v), 3, 1e-14 * n, "inverse-frame-conversion"); p.NearV(x.InverseFrameConversion(f), v, 3, 1e-14 * n, "frame-round-trip"); Quat c = x.Conjugate(); p.NearV(c.FrameConversion(f), v, 3, 1e-14 * n, "conjugate-inverse"); }
    for (double k : {1e-3, 0.5, 1.0, 3.0, 1e6}) { Quat s(k * x[0], k * x[1], k * x[2], k * x[3]); Quat t = s.Normalize(); Same(p, t, r, 1e-14, "normalize"); Same(p, s, r, 1e-14, "normalize", "in place"); double dot = 0; for (int i = 0; i < 4; i++) dot += t[i] * x[i]; p.Check(dot > 0, "normalize", "sign kept"); }
  }
  Vector<4> v = Quat(q).ConvertToVector(); for (int i = 0; i < 4; i++) p.Check(v[i] == q[i], "vector", "component %d", i); Same(p, Quat(v), r, 1e-14, "vector"); p.Obs({q[0], q[1], q[2], q[3]});
}
void Register() {
  Scenario("axis-angle", "26 lattice axes and 3 generic ones x every 15 degrees (thorough: 5) of -360..360 and 6 offsets of 1e-12..1e-3 rad around quarter turns x both signs: every conversion and its inverse", [](Path& p) {
    int i = p.Choose(29); static const V3 G[3] = {MakeV(0.3, -0.5, 0.8), MakeV(1e-7, 1, -1e-7), MakeV(0.6, 0.64, -0.48)}; V3 a = Unit(i < 26 ? Directions26()[i] : G[i - 26]); int st = Q(15, 5); double t = (p.Choose(720 / st + 1) * st - 360) * kPi / 180; static const double off[] = {0, 1e-12, -1e-12, 1e-8, -1e-6, 1e-3};
    for (double o : off) { double x = t + o; p.Note("axis %g %g %g angle %.15g", a[0], a[1], a[2], x); Quat q(a, x); All(p, q, AxisRot(a, x)); }
    p.Outcome(std::fabs(std::fabs(std::fmod(t, 2 * kPi)) - kPi) < 1e-9 ? "half-turn" : "other");
  }); RequireOutcome("axis-angle", "half-turn");
  Scenario("euler", "all roll, yaw every 15 degrees (thorough: 5) of -180..180 and pitch every 15 (5) of -90..90 with 4 offsets around it: 3-2-1 rotation matrix, and the angles recovered away from the singularity", [](Path& p) {
    int st = Q(15, 5); int pi = p.Choose(180 / st + 1), ri = p.Choose(360 / st + 1); static const double off[] = {0, 1e-9, -1e-9, 1e-5};
    for (int yi = 0; yi <= 360 / st; yi++) for (double o : off) {
      double roll = (ri * st - 180) * kPi / 180 + o, pitch = (pi * st - 90) * kPi / 180 + (pi * st == 180 || pi == 0 ? 0 : o), yaw = (yi * st - 180) * kPi / 180; p.Note("%g %g %g", roll, pitch, yaw); Rot r = Compose(AxisRot(MakeV(1, 0, 0), roll), Compose(AxisRot(MakeV(0, 1, 0), pitch), AxisRot(MakeV(0, 0, 1), yaw)));
      Quat q = Quat::ConvertFromEuler(MakeV(roll, pitch, yaw)); Same(p, q, r, 1e-14, "from-euler"); Same(p, Quat::ConvertFromEuler(q.ConvertToEuler()), r, 3e-14, "euler-round-trip");
      if (std::fabs(pitch) < kPi / 2 - 1e-3) { V3 e = q.ConvertToEuler(); auto w = [](double d) { return std::fabs(std::remainder(d, 2 * kPi)); }; p.Check(w(e[0] - roll) < 1e-12 && w(e[2] - yaw) < 1e-12 && std::fabs(e[1] - pitch) < 1e-12, "euler-angles", "%g %g %g", e[0], e[1], e[2]); p.Outcome("regular"); } else p.Outcome("gimbal-lock"); p.Obs({roll, pitch, yaw});
    }
  }); RequireOutcome("euler", "gimbal-lock");
  Scenario("elementary-matrices", "rotation matrices about each axis every 15 degrees and their products: the frame rotation by that angle, proper and orthogonal", [](Path& p) {
    double a = (p.Choose(49) * 15 - 360) * kPi / 180; Matrix<3, 3> m[3] = {s2e::math::MakeRotationMatrixX(a), s2e::math::MakeRotationMatrixY(a), s2e::math::MakeRotationMatrixZ(a)};
    for (int i = 0; i < 3; i++) { V3 e = MakeV(i == 0, i == 1, i == 2); p.Check(Diff(m[i], AxisRot(e, a)) < 1e-15, "rotation-matrix", "axis %d angle %g", i, a); Same(p, Quat::ConvertFromDcm(m[i]), AxisRot(e, a), 1e-14, "from-dcm"); p.Obs({(double)i, a}); }
  });
  Scenario("composition", "all pairs of a set of 29 axes x 9 angles (thorough 13): product of quaternions is the successive frame conversion", [](Path& p) {
    static std::vector<std::pair<Quat, Rot>> set; if (set.empty()) { std::vector<V3> ax = Directions26(); ax.push_back(MakeV(0.3, -0.5, 0.8)); ax.push_back(MakeV(0.6, 0.64, -0.48)); ax.push_back(MakeV(-1, 2, 3)); for (auto& a : ax) for (int k = 1; k <= Q(9, 13); k++) { double t = k * kPi / Q(5, 7); V3 u = Unit(a); set.emplace_back(Quat(u, t), AxisRot(u, t)); } }
    auto& a = set[p.Choose(set.size())]; for (auto& b : set) { Same(p, a.first * b.first, Compose(b.second, a.second), 1e-14, "product"); V3 v = MakeV(1, -2, 0.5); p.NearV((a.first * b.first).FrameConversion(v), b.first.FrameConversion(a.first.FrameConversion(v)), 3, 1e-14, "successive"); } p.ObsHash(Mix(Hash(a.first[0]), Mix(Hash(a.first[1]), Mix(Hash(a.first[2]), Hash(a.first[3])))));
  });
  Scenario("vector-pairs", "all ordered pairs of 26 lattice and 6 generic directions (parallel, antiparallel, nearly so) with 3 lengths: the rotation taking the first onto the second", [](Path& p) {
    static std::vector<V3> v; if (v.empty()) { v = Directions26(); for (V3 x : {MakeV(0.3, -0.5, 0.8), MakeV(-0.3, 0.5, -0.8), MakeV(1, 1e-5, 0), MakeV(-1, 1e-5, 1e-6), MakeV(0, 1e-9, 1), MakeV(1e-3, 2, -5)}) v.push_back(x); }
    int i = p.Choose(v.size()), j = p.Choose(v.size()); for (double k : {1.0, 1e-3, 7e6}) { V3 a = Scale(k, v[i]), b = v[j]; p.Note("pair %d %d", i, j); Quat q(a, b); double n = 0; for (int c = 0; c < 4; c++) n += q[c] * q[c]; p.Near(n, 1, 1e-14, "pair-unit"); V3 g = q.InverseFrameConversion(Unit(a)); double d = Norm(Sub(g, Unit(b))); p.Check(d < 3e-8, "pair-rotation", "off by %g", d);
      double c = Dot(Unit(a), Unit(b)); double ang = 2 * acos(std::min(1.0, std::fabs(q[3]))); p.Near(cos(ang), c, 1e-7, "pair-shortest", "cosine of the rotation angle"); p.Outcome(c > 1 - 1e-12 ? "parallel" : c < -1 + 1e-12 ? "antiparallel" : "oblique"); p.Obs({(double)i, (double)j, k}); }
  }); for (const char* o : {"parallel", "antiparallel", "oblique"}) RequireOutcome("vector-pairs", o);
}
