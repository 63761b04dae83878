// Readers of GNSS correction products: Bias-SINEX bias solutions, ANTEX antenna calibrations, satellite numbers.
#include <math_physics/gnss/antex_file_reader.hpp>
#include <math_physics/gnss/bias_sinex_file_reader.hpp>
#include <math_physics/gnss/gnss_satellite_number.hpp>
#include <cmath>
#include <cstdarg>
#include <cstdlib>
#include <map>
#include <memory>
#include "mc.hpp"
using namespace mc; using namespace s2e; using namespace s2e::gnss;
const char* kProperty = "N06";
const char* kAssumptions = "Well-formed products only: every block is closed, a record names known columns, validity times are whole. Bias epochs and azimuth rows are read over by the code and not judged; a grid is a whole number of steps.";
static std::string F(const char* f, ...) { char b[400]; va_list a; va_start(a, f); vsnprintf(b, 400, f, a); va_end(a); return b; }
static double Num(const std::string& s) { return strtod(s.c_str(), nullptr); }
static void Eqd(Path& p, double got, double want, const char* key, const std::string& what) { p.Check(std::fabs(got - want) <= 1e-13 * std::fabs(want), key, "%.17g not %.17g: %s", got, want, what.c_str()); }
// ---- Bias-SINEX
struct Rec { int id = 0, sat = 0, station = 0, signal = 1, unit = 0, value = 0, sd = 0, slope = 0; };
static const char* kId[] = {"DSB ", "ISB ", "OSB ", "RSB "}; static const BiasIdentifier kIdV[] = {BiasIdentifier::kDsb, BiasIdentifier::kIsb, BiasIdentifier::kOsb, BiasIdentifier::kError};
static const char* kSat[] = {"G063 G01", "R801 R26", "E101 E09", "C020 C62", "        "}; static const char* kStation[] = {"         ", "ABMF     ", "ZIMM00CHE"};
static const char* kSignal[] = {"C1W ", "C2W ", "C1P ", "C2P ", "C1C ", "C2C ", "    "}; static const int kPairs = 49;
static BiasTargetSignal Pair(int k) { int a = k / 7, b = k % 7; return (a == 0 && b == 1) || (a == 2 && b == 3) ? BiasTargetSignal::kP1P2 : a == 2 && b == 4 ? BiasTargetSignal::kP1C1 : a == 3 && b == 5 ? BiasTargetSignal::kP2C2 : BiasTargetSignal::kError; }
static const char* kUnit[] = {"ns  ", "cyc ", "m   "}; static const BiasUnit kUnitV[] = {BiasUnit::kNs, BiasUnit::kCycle, BiasUnit::kError};
static const char* kVal[] = {"-6.75076755510313E+00", "7.787382535396874E+00", "              10.2472", "  -0.000000000000125 ", "0.000000000000000E+00", "-1234567890.123456789"};
static const char* kSd[] = {"2.642146E-01", "     0.0062", "0.000000E+00", "  12.345678"};
static const char* kSlope[] = {"", "-1.25076755510313E-05", "           0.00031250", "-0.000000000000000125"}; static const char* kSlopeSd[] = {"", "     0.0007", "1.250000E-07"};
static const int kSlopes = 10;  // none, or slope x deviation (none, narrow, wide)
static std::string Line(const Rec& r) {
  std::string s = std::string(" ") + kId[r.id] + " " + kSat[r.sat] + " " + kStation[r.station] + " " + kSignal[r.signal / 7] + " " + kSignal[r.signal % 7] + " 2023:091:00000 2023:091:86399 " + kUnit[r.unit] + " " + kVal[r.value] + " " + kSd[r.sd];
  if (r.slope) { s += std::string(" ") + kSlope[1 + (r.slope - 1) / 3]; int d = (r.slope - 1) % 3; if (d) s += std::string(" ") + kSlopeSd[d]; } return s;
}
static void Same(Path& p, BiasSolutionData d, const Rec& r, int i, const std::string& l) {
  p.Check(d.GetIdentifier() == kIdV[r.id], "identifier", "record %d: %s", i, l.c_str()); p.Check(d.GetSatelliteSvnCode() == std::string(kSat[r.sat]).substr(0, 4), "svn", "record %d: '%s' of %s", i, d.GetSatelliteSvnCode().c_str(), l.c_str());
  p.Check(d.GetStationName() == kStation[r.station], "station", "record %d: '%s' of %s", i, d.GetStationName().c_str(), l.c_str()); p.Check(d.GetTargetSignal() == Pair(r.signal), "signal", "record %d: %d of %s", i, (int)d.GetTargetSignal(), l.c_str());
  p.Check(d.GetUnit() == kUnitV[r.unit], "unit", "record %d: %s", i, l.c_str()); Eqd(p, d.GetBias(), Num(kVal[r.value]), "bias", l.c_str()); Eqd(p, d.GetBiasStandardDeviation(), Num(kSd[r.sd]), "bias-deviation", l.c_str());
  int s = r.slope ? 1 + (r.slope - 1) / 3 : 0, v = r.slope ? (r.slope - 1) % 3 : 0; Eqd(p, d.GetSlope(), Num(kSlope[s]), "slope", l.c_str()); Eqd(p, d.GetSlopeStandardDeviation(), Num(kSlopeSd[v]), "slope-deviation", l.c_str());
}
static std::string Section(const std::string& name, int lines) { std::string o = "+" + name + "\n"; for (int i = 0; i < lines; i++) o += i == 0 ? "* KEYWORD__ see also +BIAS/SOLUTION\n" : i == 1 ? Line(Rec()) + "\n" : F(" KEY %d   value\n", i); return o + "-" + name + "\n"; }
static const std::vector<std::string> kSections = {"FILE/REFERENCE", "FILE/COMMENT", "INPUT/ACKNOWLEDGMENTS", "BIAS/DESCRIPTION", "BIAS/RECEIVER_INFORMATION"};
static std::string Solution(const std::vector<Rec>& r, int comments) { std::string o = "+BIAS/SOLUTION\n"; for (size_t i = 0; i <= r.size(); i++) { if (comments & (i == 0 ? 1 : i == r.size() ? 4 : 2)) o += "*BIAS SVN_ PRN STATION__ OBS1 OBS2 BIAS_START____ BIAS_END______ UNIT __ESTIMATED_VALUE____ _STD_DEV___\n"; if (i < r.size()) o += Line(r[i]) + "\n"; } return o + "-BIAS/SOLUTION\n"; }
static const std::string kHead = "%=BIA 1.00 GFZ 2023:092:50740 IGS 2023:091:00000 2023:091:86399 R 00003234\n*---- bias records stand between +BIAS/SOLUTION and -BIAS/SOLUTION\n";
static void ReadBack(Path& p, const std::string& name, const std::string& text, const std::vector<Rec>& want) {
  std::unique_ptr<BiasSinexFileReader> f; try { f.reset(new BiasSinexFileReader(WriteFile(name, text))); } catch (const std::exception& e) { p.Fail("crash", "%s: %s", e.what(), text.substr(0, 600).c_str()); }
  p.Check(f->GetFileReadSuccessFlag(), "success", "refused: %s", text.substr(0, 300).c_str()); p.Check(f->GetNumberOfBiasData() == want.size(), "count", "%zu of %zu records: %s", f->GetNumberOfBiasData(), want.size(), text.substr(0, 600).c_str());
  for (size_t i = 0; i < want.size(); i++) Same(p, f->GetBiasData(i), want[i], i, Line(want[i]));
}
// ---- ANTEX
struct Freq { const char* name; double neu[3]; };
struct Ant { int type = 0, sat = 0, freqs = 1, grid = 0, valid = 3, extra = 0; int seed = 0; };
static const char* kType[] = {"BLOCK IIA           ", "GLONASS-K1          ", "BEIDOU-2M           ", "GALILEO-2 GSAT0210  "}; static const char* kSerial[] = {"G01", "G32", "R01", "R26", "E28", "C62", "J05", "I07", "   ", "00125"};
static const double kGrid[][3] = {{0, 17, 1}, {0, 14, 1}, {0, 90, 5}, {0, 0, 1}, {5, 20, 2.5}, {0, 14.7, 0.1}, {0, 80, 0.5}};
static const char* kFreq[] = {"G01", "G02", "E05", "R02", "C07"};
static size_t Index(const std::string& s) { static const std::map<char, std::pair<int, int>> b = {{'G', {0, 32}}, {'R', {32, 26}}, {'E', {58, 28}}, {'C', {86, 62}}, {'J', {148, 5}}, {'I', {153, 7}}}; return b.at(s[0]).first + atoi(s.c_str() + 1) - 1; }
static std::string L(const std::string& body, const char* label) { std::string s = body; s.resize(60, ' '); return s + label + "\n"; }
static int Cells(int g) { return (int)std::lround((kGrid[g][1] - kGrid[g][0]) / kGrid[g][2]) + 1; }
static std::string Pcv(int seed, int f, int i) { static const char* k[] = {"   -0.80", "   12.34", "-1234.56", "    0.00", "-9999.99", " 1000.25"}; return k[(seed * 7 + f * 3 + i * 5 + i / 6) % 6]; }
static std::string Off(int seed, int f, int i) { static const char* k[] = {"    279.00", "      0.00", "  -2319.50", "   -123.45", "   1663.21"}; return k[(seed + 2 * f + i) % 5]; }
static const char* kFrom[] = {"  1992    11    22     0     0    0.0000000", "  2016     2    29    12    34   56.0000000", "  2019    12    31    23    59   30.5000000"};
static const int kFromV[][5] = {{1992, 11, 22, 0, 0}, {2016, 2, 29, 12, 34}, {2019, 12, 31, 23, 59}}; static const double kFromS[] = {0, 56, 30.5};
static std::string Text(const Ant& a) {
  std::string o = L("", "START OF ANTENNA"), serial = kSerial[a.sat]; serial.resize(20, ' '); o += L(std::string(kType[a.type]) + serial + "G032      1992-079A ", "TYPE / SERIAL NO");
  if (a.extra & 1) o += L("                                             0    29-JAN-17", "METH / BY / # / DATE") + L("comment  START OF FREQUENCY", "COMMENT"); o += L(a.extra & 2 ? "    30.0" : "     0.0", "DAZI"); o += L(F("  %6.1f%6.1f%6.1f", kGrid[a.grid][0], kGrid[a.grid][1], kGrid[a.grid][2]), "ZEN1 / ZEN2 / DZEN"); o += L(F("%6d", a.freqs), "# OF FREQUENCIES");
  if (a.valid & 1) o += L(kFrom[a.seed % 3], "VALID FROM"); if (a.valid & 2) o += L(kFrom[(a.seed + 1) % 3], "VALID UNTIL"); o += L("IGS14_2247", "SINEX CODE");
  for (int f = 0; f < a.freqs; f++) { std::string n = kFreq[(a.seed + f) % 5]; o += L("   " + n, "START OF FREQUENCY"); o += L(Off(a.seed, f, 0) + Off(a.seed, f, 1) + Off(a.seed, f, 2), "NORTH / EAST / UP"); o += "   NOAZI"; for (int i = 0; i < Cells(a.grid); i++) o += Pcv(a.seed, f, i); o += "\n";
    if (a.extra & 2) for (int z = 0; z <= 360; z += 30) { o += F("%8.1f", (double)z); for (int i = 0; i < Cells(a.grid); i++) o += Pcv(a.seed + z + 1, f, i); o += "\n"; } o += L("   " + n, "END OF FREQUENCY"); }
  if (a.extra & 4) { o += L("   G01", "START OF FREQ RMS") + L("      9.00      9.00      9.00", "NORTH / EAST / UP") + "   NOAZI"; for (int i = 0; i < Cells(a.grid); i++) o += "    9.99"; o += "\n" + L("   G01", "END OF FREQ RMS"); }
  return o + L("", "END OF ANTENNA");
}
static void Date(Path& p, const time_system::DateTime& d, int w, const char* what, int i) { double v[6] = {(double)d.GetYear(), (double)d.GetMonth(), (double)d.GetDay(), (double)d.GetHour(), (double)d.GetMinute(), d.GetSecond()}; for (int k = 0; k < 6; k++) p.Near(v[k], k < 5 ? kFromV[w][k] : kFromS[w], 1e-9, what, F("field %d of antenna %d", k, i).c_str()); }
static void SameAnt(Path& p, const AntexSatelliteData& d, const Ant& a, int i) {
  std::string serial = kSerial[a.sat]; serial.resize(20, ' '); p.Check(d.GetAntennaType() == kType[a.type], "type", "antenna %d: '%s' for '%s'", i, d.GetAntennaType().c_str(), kType[a.type]); p.Check(d.GetSerialNumber() == serial, "serial", "antenna %d: '%s' for '%s'", i, d.GetSerialNumber().c_str(), serial.c_str()); p.Check((int)d.GetNumberOfFrequency() == a.freqs, "frequencies", "antenna %d: %zu for %d", i, d.GetNumberOfFrequency(), a.freqs);
  if (a.valid & 1) Date(p, d.GetValidStartTime(), a.seed % 3, "valid-from", i); if (a.valid & 2) Date(p, d.GetValidEndTime(), (a.seed + 1) % 3, "valid-until", i);
  for (int f = 0; f < a.freqs; f++) { auto c = d.GetPhaseCenterData(f); p.Check(c.GetFrequencyName() == kFreq[(a.seed + f) % 5], "frequency-name", "antenna %d, %d: '%s'", i, f, c.GetFrequencyName().c_str()); for (int k = 0; k < 3; k++) Eqd(p, c.GetPhaseCenterOffset_mm()[k], Num(Off(a.seed, f, k)), "offset", F("antenna %d frequency %d component %d", i, f, k).c_str());
    auto g = c.GetGridInformation(); Eqd(p, g.GetZenithStartAngle_deg(), kGrid[a.grid][0], "grid-start", "grid"); Eqd(p, g.GetZenithEndAngle_deg(), kGrid[a.grid][1], "grid-end", "grid"); Eqd(p, g.GetZenithStepAngle_deg(), kGrid[a.grid][2], "grid-step", "grid"); p.Check((int)g.GetNumberOfZenithGrid() == Cells(a.grid), "grid-count", "antenna %d: %zu for %d cells of %g to %g in %g", i, g.GetNumberOfZenithGrid(), Cells(a.grid), kGrid[a.grid][0], kGrid[a.grid][1], kGrid[a.grid][2]);
    auto m = c.GetPhaseCenterVariationMatrix_mm(); p.Check(m.size() >= 1 && (int)m[0].size() == Cells(a.grid), "variation-shape", "antenna %d frequency %d: %zu rows of %zu", i, f, m.size(), m.empty() ? 0 : m[0].size()); for (int k = 0; k < Cells(a.grid); k++) Eqd(p, m[0][k], Num(Pcv(a.seed, f, k)), "variation", F("antenna %d frequency %d cell %d", i, f, k).c_str()); }
}
static std::string AntHead(int c) { std::string o = L("     1.4            M", "ANTEX VERSION / SYST") + L("A", "PCV TYPE / REFANT"); if (c) o += L("START OF ANTENNA", "COMMENT") + "short\n\n" + L("", "COMMENT"); return o + L("", "END OF HEADER"); }
static void ReadAnt(Path& p, const std::string& name, const std::string& text, const std::vector<Ant>& want) {
  std::unique_ptr<AntexFileReader> f; try { f.reset(new AntexFileReader(WriteFile(name, text))); } catch (const std::exception& e) { p.Fail("crash", "%s: %s", e.what(), text.substr(0, 900).c_str()); }
  p.Check(f->GetFileReadSuccessFlag(), "success", "refused"); std::map<size_t, std::vector<int>> by; for (size_t i = 0; i < want.size(); i++) if (isalpha(kSerial[want[i].sat][0])) by[Index(kSerial[want[i].sat])].push_back(i);
  p.Check(f->GetNumberOfSatelliteData() == by.size(), "satellites", "%zu of %zu", f->GetNumberOfSatelliteData(), by.size());
  for (auto& b : by) { std::vector<AntexSatelliteData> v; try { v = f->GetAntexSatelliteData(b.first); } catch (const std::exception&) { p.Fail("index", "satellite %zu absent", b.first); } p.Check(v.size() == b.second.size(), "antennas-of-satellite", "satellite %zu: %zu of %zu", b.first, v.size(), b.second.size()); for (size_t k = 0; k < v.size(); k++) SameAnt(p, v[k], want[b.second[k]], b.second[k]); }
}
void Register() {
  Scenario("bias-records", "a record of 4 kinds x 5 satellites x 3 stations x 49 signal pairs x 3 units x 6 values x 4 deviations (values cycling unless thorough) x 10 slopes (absent, of 3 forms, with none, a narrow or a wide deviation), alone or behind a different record: every field is the written one", [](Path& p) {
    Rec r; r.id = p.Choose(4); r.sat = p.Choose(5); r.signal = p.Choose(kPairs); r.slope = p.Choose(kSlopes); r.value = Thorough() ? p.Choose(6) : (r.signal + r.id + r.slope / 3) % 6; r.sd = (r.value + r.slope + r.id) % 4; r.station = (r.signal + r.sat) % 3; r.unit = Thorough() ? p.Choose(3) : (r.signal + r.value + r.id) % 3;
    Rec q; q.id = (r.id + 1) % 4; q.slope = (r.slope + 4) % kSlopes; q.value = (r.value + 3) % 6; q.sat = (r.sat + 2) % 5; q.unit = (r.unit + 1) % 3; q.signal = (r.signal + 3) % kPairs; q.station = (r.station + 1) % 3; q.sd = (r.sd + 1) % 4; std::vector<Rec> w; if ((r.sat + r.value) % 2) w = {q, r}; else w = {r, q}; ReadBack(p, "r.bsx", kHead + Solution(w, 1) + "%=ENDBIA\n", w); p.Obs({(double)r.id, (double)r.slope, (double)r.value}); p.Outcome(r.slope ? "slope" : "no slope");
  }, {2});
  for (const char* o : {"slope", "no slope"}) RequireOutcome("bias-records", o);
  Scenario("bias-files", "solutions of 0 to 2 (3 thorough) out of 4 unlike records x comment lines before, between and behind x every subset of the 5 other sections (with headings and lines like records) before or behind the solution x a second solution x text behind the end mark x end mark absent", [](Path& p) {
    static const std::vector<Rec> kR = {Rec(), {1, 1, 1, 18, 1, 1, 1, 1}, {2, 2, 2, 6, 0, 2, 2, 3}, {0, 3, 0, 26, 2, 3, 3, 5}}; int n = p.Choose(Q(3, 4)); std::vector<Rec> w; for (int i = 0; i < n; i++) w.push_back(kR[p.Choose(4)]); int com = p.PickI({0, 1, 7, 6}), sub = p.Choose(32), place = p.Choose(2), end = p.Choose(4); std::string t = kHead; if (end == 3 && place) t = "";
    auto extra = [&](int odd) { for (int s = 0; s < 5; s++) if (sub >> s & 1) { t += Section(kSections[s], (s + odd + n) % 4); if (odd) t += "*---\n"; } }; if (!place) extra(1); t += Solution(w, com); if (end == 1) { t += Solution({kR[3], kR[1]}, 1); w.push_back(kR[3]); w.push_back(kR[1]); } if (place) extra(0); if (end != 2) t += "%=ENDBIA\n"; if (end == 3) t += Solution({kR[2]}, 0);
    ReadBack(p, "f.bsx", t, w); p.Obs({(double)n, (double)sub, (double)place, (double)end});
  }, {2});
  Scenario("bias-many", "solutions of {31,32,33,64,100,255,256,1000,3234,5000} records cycling through the alphabets, in one solution or three", [](Path& p) {
    int n = p.PickI({31, 32, 33, 64, 100, 255, 256, 1000, 3234, 5000}); bool three = p.Flag("three"); std::vector<Rec> w, part; std::string t = kHead; for (int i = 0; i < n; i++) { Rec r; r.id = i % 4; r.sat = i % 5; r.station = i / 2 % 3; r.signal = i * 3 % kPairs; r.unit = i / 5 % 3; r.value = i * 5 / 7 % 6; r.sd = i / 3 % 4; r.slope = i * 3 / 4 % kSlopes; w.push_back(r); part.push_back(r); if (i == n - 1 || (three && (i == n / 3 || i == n / 2))) { t += Solution(part, i % 8); part.clear(); } }
    ReadBack(p, "m.bsx", t + "%=ENDBIA\n", w); p.Obs({(double)n});
  });
  Scenario("antennas", "calibrations of 0 to 3 (4 thorough) antennas out of 10 (satellites of 6 systems, the same satellite twice, receivers) x a header with comments or not x rows by azimuth, deviations and remarks: every antenna under its satellite in file order with its own fields", [](Path& p) {
    static const std::vector<Ant> kA = {{0, 0, 2, 0, 3, 0, 0}, {0, 0, 1, 1, 1, 1, 1}, {1, 3, 2, 2, 0, 4, 2}, {2, 5, 3, 3, 2, 7, 3}, {3, 4, 5, 4, 3, 2, 4}, {0, 1, 2, 5, 3, 6, 5}, {1, 2, 0, 0, 3, 0, 6}, {2, 8, 2, 2, 0, 6, 7}, {3, 9, 1, 0, 0, 1, 8}, {2, 6, 1, 6, 1, 5, 9}};
    int n = p.Choose(Q(4, 5)); bool c = p.Choose(2); std::vector<Ant> w; for (int i = 0; i < n; i++) w.push_back(kA[p.Choose(kA.size())]); std::string t = AntHead(c); for (auto& a : w) t += Text(a); ReadAnt(p, "a.atx", t, w); double o = c; for (auto& a : w) o = 11 * o + a.seed + 1; p.Obs({o}); bool rec = false; for (auto& a : w) rec |= a.sat >= 8; p.Outcome(rec ? "with receivers" : "satellites");
  }, {2});
  for (const char* o : {"with receivers", "satellites"}) RequireOutcome("antennas", o);
  Scenario("antenna-fields", "one antenna of 4 types x 10 numbers x 7 grids x {1,2,5} (1 to 5 thorough) frequencies x validity bounds given or not x 8 extras x 2 (15 thorough) sets of values, behind and before another one", [](Path& p) {
    Ant a; a.grid = p.Choose(7); a.sat = p.Choose(10); a.valid = p.Choose(4); a.freqs = Thorough() ? 1 + p.Choose(5) : p.PickI({1, 2, 5}); a.extra = p.Choose(8); a.seed = Thorough() ? p.Choose(15) : 5 * (a.sat % 2) + p.Choose(2); a.type = (a.sat + a.seed) % 4; Ant b = a; b.sat = (a.sat + 3) % 8; b.grid = (a.grid + 1) % 7; b.seed = a.seed + 1; b.freqs = 1 + a.freqs % 3; b.extra = 7 - a.extra; b.valid = 3 - a.valid; b.type = 0;
    if (a.grid % 2) ReadAnt(p, "o.atx", AntHead(0) + Text(a) + Text(b), {a, b}); else ReadAnt(p, "o.atx", AntHead(1) + Text(b) + Text(a) + Text(b), {b, a, b}); p.Obs({(double)a.grid, (double)a.sat, (double)a.freqs, (double)a.seed});
  }, {2});
  Scenario("antenna-many", "calibrations of {31,33,64,100,160,255,256,600} antennas over all satellites, each recurring", [](Path& p) {
    int n = p.PickI({31, 33, 64, 100, 160, 255, 256, 600}), step = p.PickI({1, 3}); std::vector<Ant> w; std::string t = AntHead(1); for (int i = 0; i < n; i++) { Ant a; a.type = i % 4; a.sat = i * step % 10; a.freqs = 1 + i % 5; a.grid = i % 3; a.valid = i % 4; a.extra = i % 8; a.seed = i; w.push_back(a); t += Text(a); } ReadAnt(p, "am.atx", t, w); p.Obs({(double)n, (double)step});
  });
  Scenario("grid", "grids from 0 or 5 deg in steps of {0.1, 0.5, 1, 2.5, 5, 10} of 0 to 180 (900 for the finest) steps, azimuth in steps of {0, 1, 5, 10, 30, 120}: number of nodes, and for every query on a quarter-step lattice that reaches beyond both ends the nearest node", [](Path& p) {
    double from = p.Pick({0, 5}), step = p.Pick({0.1, 0.5, 1, 2.5, 5, 10}); int n = p.Choose(step == 0.1 ? 901 : 181); double az = p.Pick({0, 1, 5, 10, 30, 120}); double to = std::strtod(F("%.1f", from + n * step).c_str(), nullptr); if (az != 0 && n % 9 != 0) throw Skip(); AntexGridDefinition g(from, to, step, az);
    p.Check((int)g.GetNumberOfZenithGrid() == n + 1, "nodes", "%g to %g in %g: %zu", from, to, step, g.GetNumberOfZenithGrid()); p.Check(g.GetNumberOfAzimuthGrid() == (az == 0 ? 0 : (size_t)std::lround(360 / az) + 1), "azimuth-nodes", "%g: %zu", az, g.GetNumberOfAzimuthGrid());
    for (int k = -6; k <= 4 * n + 6; k++) { if (std::abs(k % 4) == 2) continue; double q = from + k * step / 4; size_t i = g.CalcClosestZenithIndex(q); int w = std::max(0, std::min(n, (int)std::floor(k / 4.0 + 0.5))); p.Check((int)i == w, "nearest", "%g on %g to %g in %g: %zu not %d", q, from, to, step, i, w); }
    if (az != 0) { int m = (int)std::lround(360 / az); for (int k = -6; k <= 4 * m + 6; k++) { if (std::abs(k % 4) == 2) continue; size_t i = g.CalcClosestAzimuthIndex(k * az / 4); int w = std::max(0, std::min(m, (int)std::floor(k / 4.0 + 0.5))); p.Check((int)i == w, "nearest-azimuth", "%g in %g: %zu not %d", k * az / 4, az, i, w); } } p.Obs({from, step, (double)n, az});
  }, {2});
  Scenario("numbers", "all satellite numbers of the 6 systems and all indices 0..165: number and index denote the same satellite, numbers of no system and indices of no satellite are refused", [](Path& p) {
    int i = p.Choose(166); static const std::pair<char, int> k[] = {{'G', 32}, {'R', 26}, {'E', 28}, {'C', 62}, {'J', 5}, {'I', 7}}; std::string want = "err"; int b = 0; for (auto& s : k) { if (i >= b && i < b + s.second) want = F("%c%02d", s.first, i - b + 1); b += s.second; } std::string got = ConvertIndexToGnssSatelliteNumber(i); p.Check(got == want, "number", "index %d: %s not %s", i, got.c_str(), want.c_str()); if (want != "err") for (std::string s : {want, want + "       ", std::string(1, want[0]) + std::to_string(atoi(want.c_str() + 1))}) p.Check(ConvertGnssSatelliteNumberToIndex(s) == (size_t)i, "index", "%s: %zu not %d", s.c_str(), ConvertGnssSatelliteNumberToIndex(s), i);
    else for (const char* s : {"S20", "X01", " 01", "001", "g01"}) p.Check(ConvertGnssSatelliteNumberToIndex(s) == UINT32_MAX, "unknown", "%s: %zu", s, ConvertGnssSatelliteNumberToIndex(s)); p.Obs({(double)i});
  });
  Scenario("absent", "a file that does not exist, or that holds nothing, and the products that come with the library: refused, empty, or read with the number of records they state", [](Path& p) {
    int what = p.Choose(3); if (what == 0) { p.Check(!BiasSinexFileReader(Scratch() + "/none.bsx").GetFileReadSuccessFlag(), "absent", "bias"); p.Check(!AntexFileReader(Scratch() + "/none.atx").GetFileReadSuccessFlag(), "absent", "antex"); }
    else if (what == 1) { ReadBack(p, "e.bsx", "", {}); ReadBack(p, "e.bsx", kHead, {}); ReadAnt(p, "e.atx", "", {}); ReadAnt(p, "e.atx", AntHead(1), {}); }
    else { BiasSinexFileReader r(std::string(CORE_DIR_FROM_EXE) + "/src/math_physics/gnss/example.BSX"); p.Check(r.GetFileReadSuccessFlag() && r.GetNumberOfBiasData() == 3234, "example", "%zu records", r.GetNumberOfBiasData()); for (size_t i = 0; i < r.GetNumberOfBiasData(); i++) { auto d = r.GetBiasData(i); p.Check(d.GetIdentifier() != BiasIdentifier::kError && d.GetUnit() == BiasUnit::kNs && d.GetSlope() == 0 && d.GetSlopeStandardDeviation() == 0 && std::fabs(d.GetBias()) < 1e3, "example", "record %zu", i); } }
    p.Obs({(double)what});
  });
}
