// Orbital elements, Kepler's equation and two-body propagation.
#include <math_physics/orbit/kepler_orbit.hpp>
#include <math_physics/orbit/orbital_elements.hpp>
#include "env.hpp"
using namespace mc; using namespace env; using s2e::orbit::KeplerOrbit; using s2e::orbit::OrbitalElements;
const char* kProperty = "O01";
const char* kAssumptions = "Elliptic orbits with eccentricity up to 0.95. Instants are Julian dates in double precision (resolution 40 microseconds), so states agree to the distance travelled in that time.";
static const double kPi = 3.14159265358979323846;
struct El { double a, e, i, O, w, M; };
struct PV { V3 r, v; double E; };
// independent model: Kepler's equation by bisection in long double, perifocal vectors from the element definitions
static PV State(double mu, const El& o) {
  long double M = std::remainder((long double)o.M, 2 * (long double)M_PIl); long double lo = M - o.e - 1e-3L, hi = M + o.e + 1e-3L; for (int k = 0; k < 90; k++) { long double m = (lo + hi) / 2; (m - o.e * sinl(m) < M ? lo : hi) = m; } double E = (lo + hi) / 2;
  double n = std::sqrt(mu / (o.a * o.a * o.a)), b = std::sqrt(1 - o.e * o.e), d = 1 - o.e * cos(E); V3 P = MakeV(cos(o.w) * cos(o.O) - sin(o.w) * cos(o.i) * sin(o.O), cos(o.w) * sin(o.O) + sin(o.w) * cos(o.i) * cos(o.O), sin(o.w) * sin(o.i)), Qv = MakeV(-sin(o.w) * cos(o.O) - cos(o.w) * cos(o.i) * sin(o.O), -sin(o.w) * sin(o.O) + cos(o.w) * cos(o.i) * cos(o.O), cos(o.w) * sin(o.i));
  return {Add(Scale(o.a * (cos(E) - o.e), P), Scale(o.a * b * sin(E), Qv)), Add(Scale(-o.a * n * sin(E) / d, P), Scale(o.a * n * b * cos(E) / d, Qv)), E};
}
static double W(double x) { return std::fabs(std::remainder(x, 2 * kPi)); }
static const double kMu[2] = {3.986004418e14, 4.9028e12}, kEcc[] = {0, 1e-4, 0.01, 0.1, 0.3, 0.6, 0.8, 0.95};
void Register() {
  Scenario("elements", "2 central bodies x 2 axes x 8 eccentricities (0..0.95) x 7 inclinations (0..180 deg) x 8 nodes x 8 perigee arguments x 8 anomalies (thorough 24 each), offset by 0 and 1e-3 rad: state by the propagator, elements recovered in their quadrants, state again at the same and at 5 other instants", [](Path& p) {
    double mu = kMu[p.Choose(2)]; int big = p.Choose(2); El o; o.e = kEcc[p.Choose(8)]; o.a = (mu > 1e14 ? 6.9e6 : 1.9e6) * (big ? 5 : 1) / (1 - o.e); o.i = p.Pick({0, 1e-3, 0.5, kPi / 2, 1.9, kPi - 1e-3, kPi}); int n = Q(8, 24); double off = p.Pick({0, 1e-3}); o.O = 2 * kPi * p.Choose(n) / n + off; double nn = std::sqrt(mu / (o.a * o.a * o.a)); const double epoch = 2459000.25;
    for (int wi = 0; wi < n; wi++) for (int mi = 0; mi < n; mi++) {
      o.w = 2 * kPi * wi / n + off; o.M = 2 * kPi * mi / n + off; p.Note("a %g e %g i %g O %g w %g M %g", o.a, o.e, o.i, o.O, o.w, o.M); double t = epoch + o.M / nn / 86400; PV s = State(mu, El{o.a, o.e, o.i, o.O, o.w, (t - epoch) * 86400 * nn});
      double sp = Norm(s.v), tr = sp * 5e-5 + 1e-8 * Norm(s.r) + 1e-9 * o.a, tv = mu / (Norm(s.r) * Norm(s.r)) * 5e-5 + 1e-8 * sp + 1e-9 * o.a * nn;
      KeplerOrbit k(mu, OrbitalElements(epoch, o.a, o.e, o.i, o.O, o.w)); k.CalcOrbit(t); p.NearV(k.GetPosition_i_m(), s.r, 3, tr, "position"); p.NearV(k.GetVelocity_i_m_s(), s.v, 3, tv, "velocity");
      OrbitalElements r(mu, t, s.r, s.v); double se = std::sin(o.i); bool flat = se < 1e-6, round = o.e < 1e-6; // near-singular elements are ill-conditioned: compare them only where they are defined
      p.Near(r.GetSemiMajorAxis_m(), o.a, 1e-10 * o.a / (1 - o.e), "semi-major-axis"); p.Near(r.GetEccentricity(), o.e, 1e-8, "eccentricity"); p.Near(r.GetInclination_rad(), o.i, 3e-8, "inclination");
      if (!flat) { p.Check(W(r.GetRaan_rad() - o.O) < 1e-9 / se, "raan", "%.12g want %.12g", r.GetRaan_rad(), o.O); if (!round) p.Check(W(r.GetArgPerigee_rad() - o.w) < 1e-9 / se + 1e-9 / o.e, "perigee", "%.12g want %.12g", r.GetArgPerigee_rad(), o.w); }
      if (!round) p.Check(W(nn * (t - r.GetEpoch_jday()) * 86400 - o.M) < nn * 2e-4 + 1e-8 + 1e-9 / o.e, "anomaly", "%.12g want %.12g", nn * (t - r.GetEpoch_jday()) * 86400, o.M);
      KeplerOrbit k2(mu, r); double T = 2 * kPi / nn / 86400; for (double dt : {0.0, 0.013 * T, 0.5 * T, T, -0.3 * T, 7.25 * T}) { k2.CalcOrbit(t + dt); PV q = State(mu, El{o.a, o.e, o.i, o.O, o.w, (t + dt - epoch) * 86400 * nn}); double f = Norm(q.v) * 2e-4 + 1e-7 * o.a * (1 + std::fabs(dt / T) * 0.1), g = mu / (Norm(q.r) * Norm(q.r)) * 2e-4 + 1e-7 * Norm(q.v) + 1e-7 * o.a * nn / (1 - o.e) / (1 - o.e); p.NearV(k2.GetPosition_i_m(), q.r, 3, f, "round-trip-position"); p.NearV(k2.GetVelocity_i_m_s(), q.v, 3, g, "round-trip-velocity"); }
      p.Obs({o.a, o.e, o.i, o.O, o.w, o.M}); p.Outcome(flat ? "equatorial" : round ? "circular" : "general");
    }
  }, {3});
  for (const char* o : {"equatorial", "circular", "general"}) RequireOutcome("elements", o);
  Scenario("kepler-equation", "24 eccentricities 0..0.98 x 720 mean anomalies (thorough 7200) over four revolutions before and after the epoch: Kepler's equation, energy, angular momentum, plane and periodicity", [](Path& p) {
    int ei = p.Choose(24); double e = ei < 20 ? 0.05 * ei : ei == 20 ? 0.96 : ei == 21 ? 0.97 : ei == 22 ? 0.98 : 1e-8; double mu = kMu[0], a = 7e6 / (1 - e), n = std::sqrt(mu / a / a / a); const double ep = 2460000.5; OrbitalElements oe(ep, a, e, 0.7, 2, 4); KeplerOrbit k(mu, oe); int N = Q(720, 7200); int blk = p.Choose(8);
    for (int m = blk * N / 8; m < (blk + 1) * N / 8; m++) {
      double M = (m - N / 2) * (4 * kPi) / N; double jd = ep + M / n / 86400; M = (jd - ep) * 86400 * n; k.CalcOrbit(jd); V3 r = k.GetPosition_i_m(), v = k.GetVelocity_i_m_s(); PV s = State(mu, El{a, e, 0.7, 2, 4, M}); p.Note("e %g M %g", e, M); double tol = 1e-7 / (1 - e); p.NearV(r, s.r, 3, tol * a, "position"); p.NearV(v, s.v, 3, tol * a * n / (1 - e), "velocity");
      double E = Dot(v, v) / 2 - mu / Norm(r); p.Near(E, -mu / 2 / a, tol * mu / 2 / a, "energy"); V3 h = Cross(r, v); p.Near(Norm(h), std::sqrt(mu * a * (1 - e * e)), 1e-9 * Norm(h) + tol * Norm(h), "angular-momentum"); p.NearV(Unit(h), MakeV(sin(2) * sin(.7), -cos(2) * sin(.7), cos(.7)), 3, 1e-12, "plane"); p.Obs({e, M});
    }
  });
}
