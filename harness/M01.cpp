// Calendar, epoch, GPS and Julian representations of time.
#include <math_physics/time_system/date_time_format.hpp>
#include <math_physics/time_system/epoch_time.hpp>
#include <math_physics/time_system/gps_time.hpp>
#include <math_physics/orbit/sgp4/sgp4ext.h>
#include "mc.hpp"
using namespace mc; using namespace s2e::time_system;
const char* kProperty = "M01";
const char* kAssumptions = "Years 1970 to 2099 (Julian dates 1901 to 2099), where every fourth year is a leap year; fractions of seconds are multiples of 2^-53 or decimal fractions of at most six digits; one negative sign of a difference is represented modulo 2^64 seconds.";
static bool Leap(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static int Dim(int y, int m) { static const int d[13] = {0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return m == 2 && Leap(y) ? 29 : d[m]; }
// days since 1970-01-01, by an independent algorithm (civil calendar arithmetic on eras)
static long long Days(long long y, int m, int d) { y -= m <= 2; long long era = (y >= 0 ? y : y - 399) / 400; long long yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + doe - 719468; }
static const int kSod[] = {0, 1, 59, 60, 3599, 3600, 43199, 43200, 86340, 86399};
static const double kFrac[] = {0, 0.5, 0.1, 0.999999};
static void SameDate(Path& p, const DateTime& t, int y, int m, int d, int sod, double f, const char* key) {
  p.Eq(t.GetYear(), y, key, "year"); p.Eq(t.GetMonth(), m, key, "month"); p.Eq(t.GetDay(), d, key, "day"); p.Eq(t.GetHour(), sod / 3600, key, "hour"); p.Eq(t.GetMinute(), sod / 60 % 60, key, "minute"); p.Near(t.GetSecond(), sod % 60 + f, 2e-14, key, "second");
}
void Register() {
  Scenario("every-day", "every day of 1970..2099 x 10 seconds of day x 4 fractions: date -> epoch seconds -> date, GPS week and UTC from 1980 on, all against independent calendar arithmetic", [](Path& p) {
    int y = 1970 + p.Choose(130), m = 1 + p.Choose(12);
    for (int d = 1; d <= Dim(y, m); d++) for (int s : kSod) for (double f : kFrac) {
      long long sec = Days(y, m, d) * 86400LL + s; p.Note("%d/%d/%d %d+%g", y, m, d, s, f);
      DateTime dt(y, m, d, s / 3600, s / 60 % 60, s % 60 + f); EpochTime e(dt); p.Eq(e.GetTime_s(), sec, "epoch", "seconds"); p.Near(e.GetFraction_s(), f, 1e-14, "epoch-fraction"); p.Check(e.GetFraction_s() >= 0 && e.GetFraction_s() < 1, "epoch-fraction-range", "%.17g", e.GetFraction_s()); SameDate(p, DateTime(EpochTime(sec, f)), y, m, d, s, f, "date"); SameDate(p, DateTime(e), y, m, d, s, f, "round-trip");
      long long g = sec - 315964800LL; if (g >= 18) {
        long long w = g / 604800, tow = g % 604800; long long u = sec - 18; (void)u;
        GpsTime a{e}, b{dt}, c((size_t)w, tow + f); for (GpsTime* t : {&a, &b, &c}) {
          p.Eq(t->GetWeek(), w, "gps-week"); p.Near(t->GetElapsedTimeFromWeek_s(), tow + f, 2e-10, "gps-time"); p.Eq(t->GetEpochTime().GetTime_s(), sec, "gps-epoch"); p.Near(t->GetEpochTime().GetFraction_s(), f, 2e-10, "gps-epoch-fraction"); DateTime q = t->GetDateTime(); p.Eq(EpochTime(q).GetTime_s(), sec, "gps-date"); p.Eq(q.GetYear(), y, "gps-date", "year"); p.Eq(q.GetDay(), d, "gps-date", "day"); DateTime v = t->GetDateTimeAsUtc(); p.Eq(EpochTime(v).GetTime_s(), sec - 18, "utc", "leap seconds"); p.Near(EpochTime(v).GetFraction_s(), f, 2e-10, "utc-fraction");
        }
      }
      p.Obs({(double)sec, f});
    }
    p.Outcome(Leap(y) ? "leap" : "common");
  });
  RequireOutcome("every-day", "leap"); RequireOutcome("every-day", "common");
  Scenario("julian-day", "every day of 1901..2099 x 10 seconds of day: Julian date and back to the calendar, day of year to month and day", [](Path& p) {
    int y = 1901 + p.Choose(199), m = 1 + p.Choose(12); static const int half = 0; (void)half;
    for (int d = 1; d <= Dim(y, m); d++) for (int s : kSod) {
      p.Note("%d/%d/%d %d", y, m, d, s); double jd; jday(y, m, d, s / 3600, s / 60 % 60, s % 60, jd); double want = Days(y, m, d) + 2440587.5 + s / 86400.0; p.Near(jd, want, 1e-9, "julian-date");
      int yy, mm, dd, h, mi; double sec; invjday(jd, yy, mm, dd, h, mi, sec); double back = Days(yy, mm, dd) + 2440587.5 + (h * 3600 + mi * 60 + sec) / 86400; p.Near(back, want, 2e-9, "inverse", "instant"); p.Check(mm >= 1 && mm <= 12 && dd >= 1 && dd <= Dim(yy, mm) && h >= 0 && h < 24 && mi >= 0 && mi < 60 && sec > -1e-4 && sec < 60, "inverse-range", "%d/%d/%d %d:%d:%g", yy, mm, dd, h, mi, sec);
      double doy = Days(y, m, d) - Days(y, 1, 1) + 1 + s / 86400.0; int m2, d2, h2, i2; double s2; days2mdhms(y, doy + 1e-10, m2, d2, h2, i2, s2); p.Eq(m2, m, "day-of-year", "month"); p.Eq(d2, d, "day-of-year", "day"); p.Near(h2 * 3600 + i2 * 60 + s2, s, 1e-4, "day-of-year", "time"); p.Obs({jd});
    }
  });
  Scenario("arithmetic", "all pairs and triples of 9 second counts x 9 fractions (multiples of 2^-53 around the carry, quarters): sum, difference, undoing, and all six comparisons against exact integer arithmetic", [](Path& p) {
    static const long long S[9] = {0, 1, 2, 59, 60, 86399, 86400, 1700000000, 4102444799}; const long long U = 1LL << 53; static const long long F[9] = {0, 1, U / 4, U / 2 - 1, U / 2, U / 2 + 1, U / 4 * 3, U - 2, U - 1};
    int a = p.Choose(9), fa = p.Choose(9), b = p.Choose(9); EpochTime x(S[a], (double)F[fa] / U);
    for (int fb = 0; fb < 9; fb++) {
      EpochTime y(S[b], (double)F[fb] / U); typedef __int128 I; I A = (I)S[a] * U + F[fa], B = (I)S[b] * U + F[fb]; p.Note("%lld+%lld/2^53 with %lld+%lld/2^53", S[a], F[fa], S[b], F[fb]);
      auto is = [&](const EpochTime& e, I v, const char* key, bool rounded) { p.Check(e.GetFraction_s() >= 0 && e.GetFraction_s() < 1, "fraction-range", "%s %.17g", key, e.GetFraction_s()); I g = (I)(long long)e.GetTime_s() * U + (I)(e.GetFraction_s() * U); I d = g - v; if (d < 0) d = -d; p.Check(d <= (rounded ? 1 : 0), key, "off by %lld/2^53 s", (long long)d); };
      I sum = A + B; // the sum of two fractions of 53 bits may need one bit more: representable halves round by one unit
      bool exact = (F[fa] + F[fb]) < U || (F[fa] + F[fb]) % 2 == 0; if (sum % U != U - 1 || exact) is(x + y, sum, "sum", !exact); is(y + x, sum, "sum-commutes", true);
      if (A >= B) { is(x - y, A - B, "difference", F[fa] < F[fb]); EpochTime z = (x - y) + y; is(z, A, "undo", true); p.Outcome(F[fa] < F[fb] ? "borrow" : "no-borrow"); }
      p.Eq(x == y, A == B, "compare", "=="); p.Eq(x != y, A != B, "compare", "!="); p.Eq(x < y, A < B, "compare", "<"); p.Eq(x > y, A > B, "compare", ">"); p.Eq(x <= y, A <= B, "compare", "<="); p.Eq(x >= y, A >= B, "compare", ">="); if (A < B) { EpochTime z = (x - y) + y; is(z, A, "undo-negative", true); } p.Outcome(F[fa] + F[fb] >= U ? "carry" : "no-carry"); p.Obs({(double)a, (double)fa, (double)b, (double)fb});
    }
  });
  for (const char* o : {"carry", "no-carry", "borrow", "no-borrow"}) RequireOutcome("arithmetic", o);
  Scenario("strings", "every month and last day x boundary times x 8 seconds values: written date strings are read back as the same instant to the six digits they print, and hand-written spellings with and without padding are read", [](Path& p) {
    int y = 1970 + p.Choose(130), m = 1 + p.Choose(12); static const double S[8] = {0, 4.2, 9.999999, 10, 45.25, 59.0, 59.4, 59.9999}; char txt[64];
    for (int d : {1, 9, 10, Dim(y, m)}) for (int hm : {0, 9 * 60 + 9, 12 * 60, 23 * 60 + 59}) for (double s : S) {
      p.Note("%d/%d/%d %d %g", y, m, d, hm, s); DateTime a(y, m, d, hm / 60, hm % 60, s); DateTime b(a.GetAsString()); { EpochTime ea(a), eb(b); p.Near((double)(int64_t)(eb.GetTime_s() - ea.GetTime_s()) + (eb.GetFraction_s() - ea.GetFraction_s()), 0, 6e-5, "string (six significant digits of the seconds)"); }
      for (const char* f : {"%04d/%02d/%02d %02d:%02d:%09.6f", "%d/%d/%d %d:%d:%.6f"}) { snprintf(txt, 64, f, y, m, d, hm / 60, hm % 60, s); DateTime c{std::string(txt)}; SameDate(p, c, y, m, d, hm * 60 + (int)s, s - (int)s, "parse"); } p.Obs({(double)y, (double)m, (double)d, (double)hm, s});
    }
  });
}
