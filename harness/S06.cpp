// Settings and table files generated from a grammar, read back through IniAccess against the text's own meaning.
#include <setting_file_reader/initialize_file_access.hpp>
#include <sys/stat.h>
#include "env.hpp"
using namespace mc; using namespace s2e; using setting_file_reader::IniAccess;
const char* kProperty = "S06";
const char* kAssumptions = "Keys and sections differ in more than letter case; a key appears once per section; integers are decimal without leading zeros and fit an int; a value contains no two slashes; the last field of a table row is not empty; lines up to 3000 characters.";
#ifndef SETTINGS_DIR_FROM_EXE
#error
#endif
static const std::string kSet = SETTINGS_DIR_FROM_EXE, kExt = EXT_LIB_DIR_FROM_EXE, kCore = CORE_DIR_FROM_EXE;

// the ways a line "key value" may be dressed
struct Dress { std::string before_eq, after_eq, tail, eol; bool lead; };
static Dress PickDress(Path& p) {
  static const char* be[3] = {"", " ", "\t "}; static const char* ae[3] = {"", " ", "  \t"}; static const char* ta[6] = {"", "  ", "\t", " // note", "\t//note = 5", "   // [OTHER] // 7"}; static const char* el[2] = {"\n", "\r\n"};
  Dress d; int k = p.Choose(3); d.before_eq = be[k]; d.after_eq = ae[p.Choose(3)]; d.tail = ta[p.Choose(6)]; d.eol = el[p.Choose(2)]; d.lead = p.Choose(2); return d;
}
static std::string Line(const Dress& d, const std::string& key, const std::string& value) { return (d.lead ? "  " : "") + key + d.before_eq + "=" + d.after_eq + value + d.tail + d.eol; }
static std::string Num(double v) { char b[40]; snprintf(b, 40, "%.17g", v); return b; }

void Register() {
  Scenario("scalars", "62 values (real, integer, boolean, switch, string, with placeholders) x dressing of the line (blanks around key, equals sign and value; comments; line ends; indentation) x byte order mark x last line ended or not x the line before or after a section with the same key: read back by every reader meant for it", [](Path& p) {
    static const std::vector<std::pair<const char*, double>> reals = {{"0", 0}, {"-0.0", -0.0}, {"1", 1}, {"+1", 1}, {"-1.5", -1.5}, {"1e-3", 1e-3}, {"1E+20", 1e20}, {"6.02214076e23", 6.02214076e23}, {".5", .5}, {"5.", 5}, {"123456789.123456789", 123456789.123456789}, {"-1e300", -1e300}, {"2.2250738585072014e-308", 2.2250738585072014e-308}, {"0.1", 0.1}, {"299792458.0", 299792458.0}};
    static const std::vector<std::pair<const char*, int>> ints = {{"0", 0}, {"1", 1}, {"-1", -1}, {"+7", 7}, {"255", 255}, {"2147483647", 2147483647}, {"-2147483648", -2147483647 - 1}, {"1000000", 1000000}};
    static const std::vector<std::pair<const char*, int>> bools = {{"1", 1}, {"true", 1}, {"TRUE", 1}, {"yes", 1}, {"on", 1}, {"0", 0}, {"false", 0}, {"False", 0}, {"no", 0}, {"off", 0}};
    static const std::vector<std::pair<const char*, int>> sw = {{"ENABLE", 1}, {"1", 1}, {"DISABLE", 0}, {"0", 0}, {"ENABLED", 0}, {"NOTENABLE", 0}, {"-1", 0}, {"11", 0}};
    static const std::vector<std::pair<std::string, std::string>> strs = {{"abc", "abc"}, {"a b  c", "a b  c"}, {"a=b", "a=b"}, {"a:b:c", "a:b:c"}, {"path/to/file.ext", "path/to/file.ext"}, {"a/", "a/"}, {"/", "/"}, {"a / b", "a / b"}, {"SETTINGS_DIR_FROM_EXE/x.ini", kSet + "/x.ini"}, {"EXT_LIB_DIR_FROM_EXE/x/y", kExt + "/x/y"}, {"CORE_DIR_FROM_EXE", kCore}, {"x/SETTINGS_DIR_FROM_EXE", "x/" + kSet}, {"SETTINGS_DIR_FROM_EXE:SETTINGS_DIR_FROM_EXE", kSet + ":" + kSet}, {"CORE_DIR_FROM_EXE,EXT_LIB_DIR_FROM_EXE", kCore + "," + kExt}, {"CORE_DIR_FROM_EXE/a CORE_DIR_FROM_EXE/b", kCore + "/a " + kCore + "/b"}, {"EXT_LIB_DIR_FROM_EXE,EXT_LIB_DIR_FROM_EXE/c", kExt + "," + kExt + "/c"}, {"SETTINGS_DIR", "SETTINGS_DIR"}, {"a;b", "a;b"}, {"a#b", "a#b"}, {"[x]", "[x]"}, {"\"q\"", "\"q\""}, {"-", "-"}, {"1 27651U 03004A   07083.49636287  .00000119  00000-0  30706-4 0  2692", "1 27651U 03004A   07083.49636287  .00000119  00000-0  30706-4 0  2692"}};
    int kind = p.Choose(5), n = kind == 0 ? reals.size() : kind == 1 ? ints.size() : kind == 2 ? bools.size() : kind == 3 ? sw.size() : strs.size(), v = p.Choose(n); Dress d = PickDress(p); int place = p.Choose(4); bool bom = p.Choose(2), open = p.Choose(2);
    std::string val = kind == 0 ? reals[v].first : kind == 1 ? ints[v].first : kind == 2 ? bools[v].first : kind == 3 ? sw[v].first : strs[v].first, other = "[OTHER]" + d.eol + Line(d, "key", kind == 4 ? "wrong" : kind == 3 ? v < 2 ? "DISABLE" : "ENABLE" : kind == 2 ? v < 5 ? "0" : "1" : "77") , mine = "[SECTION]" + d.tail + d.eol + (place & 2 ? "// key = 99" + d.eol + d.eol : "") + Line(d, "key_2", "3") + Line(d, "key", val);
    std::string text = (bom ? "\xEF\xBB\xBF" : "") + (place & 1 ? other + mine : mine + other); if (open) while (!text.empty() && (text.back() == '\n' || text.back() == '\r')) text.pop_back();
    IniAccess f(WriteFile("s.ini", text)); const char *s = "SECTION", *k = "key"; std::string why = val + " in <" + text + ">"; const char* w = why.c_str();
    if (kind == 0) { double g = f.ReadDouble(s, k); p.Check(g == reals[v].second && std::signbit(g) == std::signbit(reals[v].second), "real", "got %.17g for %s", g, w); } if (kind == 1) { p.Check(f.ReadInt(s, k) == ints[v].second, "integer", "got %d for %s", f.ReadInt(s, k), w); p.Check(f.ReadDouble(s, k) == ints[v].second, "integer-as-real", "%s", w); }
    if (kind == 2) p.Check(f.ReadBoolean(s, k) == bools[v].second, "boolean", "%s", w); if (kind == 3) p.Check(f.ReadEnable(s, k) == sw[v].second, "switch", "%s", w); if (kind == 4) { std::string g = f.ReadString(s, k); p.Check(g == strs[v].second, "string", "got <%s> for %s", g.c_str(), w); }
    p.Check(f.ReadInt(s, "key_2") == 3, "neighbour", "%s", w); p.Obs({(double)kind, (double)v}); p.Note("%d/%d", kind, v); p.Outcome(kind == 0 ? "real" : kind == 1 ? "integer" : kind == 2 ? "boolean" : kind == 3 ? "switch" : "string");
  }, {3});
  for (const char* o : {"real", "integer", "boolean", "switch", "string"}) RequireOutcome("scalars", o);

  Scenario("files", "all orders of 3 sections out of 6 names (alike, with blanks, and of 45 to 120 letters with a common beginning) x 6 (all 32 thorough) subsets of 5 keys (alike, indexed) in the first and 3 subsets in the others: every key of every section, and of an absent one, reads its own value or the default", [](Path& p) {
    static const std::string L(45, 'L'); static const std::string names[6] = {"A", "AB", "A B", L, L + std::string(10, 'X') + "1", L + std::string(74, 'X') + "2"}; static const char* keys[5] = {"k", "kk", "k(0)", "k0(0)", "k_(0)"};
    int a = p.Choose(6), b = p.Choose(6), c = p.Choose(6); if (a == b || b == c || a == c) throw Skip(); int order[3] = {a, b, c}, sub[3] = {Thorough() ? p.Choose(32) : p.PickI({0, 1, 2, 10, 21, 31}), 0, 0}; static const int subs[3] = {0, 21, 31}; sub[1] = subs[p.Choose(3)]; sub[2] = subs[p.Choose(3)]; bool blank = (a + sub[0] + sub[1]) % 2;
    std::string text; for (int i = 0; i < 3; i++) { text += "[" + names[order[i]] + "]\n"; for (int k = 4; k >= 0; k--) if (sub[i] >> k & 1) text += std::string(keys[k]) + " = " + std::to_string(10 * order[i] + k + 100) + "\n"; if (blank) text += "\n   \n// [A]\n//k = 1\n"; }
    IniAccess f(WriteFile("f.ini", text)); for (int n = 0; n < 6; n++) for (int k = 0; k < 5; k++) {
      int want = 0; for (int i = 0; i < 3; i++) if (order[i] == n && sub[i] >> k & 1) want = 10 * n + k + 100; const char *s = names[n].c_str(), *q = keys[k]; std::string msg = "[" + names[n] + "] " + q + " in " + text;
      p.Check(f.ReadInt(s, q) == want, "integer", "got %d want %d: %s", f.ReadInt(s, q), want, msg.c_str()); p.Check(f.ReadDouble(s, q) == want, "real", "%s", msg.c_str()); std::string g = f.ReadString(s, q); p.Check(g == (want ? std::to_string(want) : "NULL"), "string", "got %s: %s", g.c_str(), msg.c_str()); p.Check(!f.ReadBoolean(s, q), "switch", "%s", msg.c_str()); p.Outcome(want ? "present" : "absent");
    }
    p.Obs({(double)a, (double)b, (double)c, (double)sub[0], (double)sub[1], (double)sub[2]});
  }, {2});
  for (const char* o : {"present", "absent"}) RequireOutcome("files", o);

  Scenario("arrays", "arrays of 0 to 4 written entries out of 5 (every subset) x 8 typed array readers x requested lengths 0 to 5, quaternions under both spellings with every subset of their components: entry i is the one written with index i, or the default", [](Path& p) {
    int mask = p.Choose(32), kind = p.Choose(8), num = p.Choose(6); std::string t = "[S]\nv = 9\nv7 = 8\n"; static const double rv[5] = {1.25, -3, 0.5, 1e7, -0.125}; static const int iv[5] = {3, 255, -4, 128, 70000}; static const char* sv[5] = {"a", "b b", "CORE_DIR_FROM_EXE/c", "d=e", "f"};
    bool str = kind == 5 || kind == 6, integer = kind == 2 || kind == 3, q = kind == 7; std::string name = kind == 4 ? "v7" : "v";
    auto val = [&](int i) { return str ? std::string(sv[i]) : integer ? std::to_string(iv[i]) : Num(rv[i]); };
    if (q) { if (num > 2) throw Skip(); if (mask > 15) throw Skip(); for (int i = 0; i < 4; i++) { if ((num == 0 || num == 2) && (mask >> i & 1)) t += "v_(" + std::to_string(i) + ") = " + Num(rv[i]) + "\n"; if (num == 1) { if (mask >> i & 1) t += "v(" + std::to_string(i) + ") = " + Num(rv[i]) + "\n"; } if (num == 2) t += "v(" + std::to_string(i) + ") = 0.75\n"; } }
    else for (int i = 4; i >= 0; i--) if (mask >> i & 1) t += name + "(" + std::to_string(i) + ") = " + val(i) + "\n";
    if (kind == 4) for (int i = 0; i < 5; i++) t += "v(" + std::to_string(i) + ") = 55\nv71(" + std::to_string(i) + ") = 56\n"; t += "[T]\nv(0) = 66\n"; IniAccess f(WriteFile("a.ini", t)); const char* w = t.c_str(); auto real = [&](int i) { return i < 5 && (mask >> i & 1) ? rv[i] : 0; }; auto in = [&](int i) { return i < 5 && (mask >> i & 1) ? iv[i] : 0; };
    switch (kind) {
      case 0: { if (num != 3) throw Skip(); math::Vector<5> v; f.ReadVector("S", "v", v); for (int i = 0; i < 5; i++) p.Check(v[i] == real(i), "vector", "%d %s", i, w); math::Vector<1> u; f.ReadVector("S", "v", u); p.Check(u[0] == real(0), "vector-1", "%s", w); break; }
      case 1: { auto v = f.ReadVectorDouble("S", "v", num); p.Check((int)v.size() == num, "length", "%s", w); for (int i = 0; i < num; i++) p.Check(v[i] == real(i), "real-vector", "%d %s", i, w); break; }
      case 2: { auto v = f.ReadVectorInt("S", "v", num); p.Check((int)v.size() == num, "length", "%s", w); for (int i = 0; i < num; i++) p.Check(v[i] == in(i), "integer-vector", "%d %s", i, w); break; }
      case 3: { auto v = f.ReadVectorUnsignedChar("S", "v", num); p.Check((int)v.size() == num, "length", "%s", w); for (int i = 0; i < num; i++) if (in(i) >= 0 && in(i) < 256) p.Check(v[i] == in(i), "byte-vector", "%d %s", i, w); break; }
      case 4: { double d[6] = {-1, -1, -1, -1, -1, -1}; f.ReadDoubleArray("S", "v", 7, num, d); for (int i = 0; i < 6; i++) p.Check(d[i] == (i < num ? real(i) : -1), "real-array", "%d %s", i, w); break; }
      case 5: { auto v = f.ReadVectorString("S", "v", num); p.Check((int)v.size() == num, "length", "%s", w); for (int i = 0; i < num; i++) p.Check(v[i] == (i < 5 && (mask >> i & 1) ? i == 2 ? kCore + "/c" : std::string(sv[i]) : "NULL"), "string-vector", "%d <%s> %s", i, v[i].c_str(), w); break; }
      case 6: { if (num) throw Skip(); auto v = f.ReadStrVector("S", "v"); int n = 0; while (n < 5 && (mask >> n & 1)) n++; p.Check((int)v.size() == n, "list-length", "got %d want %d: %s", (int)v.size(), n, w); for (int i = 0; i < n; i++) p.Check(v[i] == (i == 2 ? kCore + "/c" : std::string(sv[i])), "list", "%d %s", i, w); break; }
      case 7: { math::Quaternion x; f.ReadQuaternion("S", "v", x); for (int i = 0; i < 4; i++) { double want = mask >> i & 1 ? rv[i] : 0; if (num == 2 && mask == 0) want = 0.75; p.Check(x[i] == want, "quaternion", "%d got %g want %g %s", i, x[i], want, w); } break; }
    }
    p.Obs({(double)mask, (double)kind, (double)num}); p.Outcome(str ? "strings" : q ? "quaternion" : "numbers");
  }, {2});
  for (const char* o : {"strings", "quaternion", "numbers"}) RequireOutcome("arrays", o);

  Scenario("long-lines", "values, keys and comments of 14 lengths from 10 to 3000 characters x where the long line stands x the tail it has: nothing of the file is lost and the file is accepted; strings copied into buffers of 8 sizes are cut and terminated inside them", [](Path& p) {
    int len = p.PickI({10, 100, 180, 189, 190, 191, 192, 197, 198, 199, 200, 201, 1000, 3000}), where = p.Choose(5); bool tail = p.Choose(2), cr = p.Choose(2); std::string big(len, 'x'), eol = cr ? "\r\n" : "\n"; for (int i = 0; i < len; i++) big[i] = "abcdefghij = klmno:/pq"[i % 22]; big[0] = 'a'; big[len - 1] = 'z'; std::string value = "first", key = "k", com, post;
    for (char& ch : big) if (where == 0 && ch == ' ') ch = '_'; if (where == 0) value = big; if (where == 1) com = "// " + big; if (where == 2) post = " // " + big; if (where == 3) { key = std::string(len, 'y'); } if (where == 4) com = std::string(len, ' ');
    std::string t = "[S]" + eol + "a = 1" + eol + com + eol + key + " = " + value + post + (tail ? " // end" : "") + eol + "b = 2" + eol + "[T]" + eol + "k = other" + eol; std::string msg = "length " + std::to_string(len) + " at " + std::to_string(where);
    try { IniAccess f(WriteFile("l.ini", t)); std::string g = f.ReadString("S", key.c_str()); p.Check(g == value, "long-value", "%s: %s", msg.c_str(), g.substr(0, 80).c_str()); p.Check(f.ReadInt("S", "a") == 1 && f.ReadInt("S", "b") == 2 && f.ReadString("T", "k") == "other", "neighbours", "%s", msg.c_str());
      for (int size : {1, 2, 5, 30, 80, 199, 256, 1024}) { std::vector<char> buf(size + 2, 0x5a); f.ReadChar("S", key.c_str(), size, buf.data()); std::string want = value.substr(0, size - 1); p.Check(memchr(buf.data(), 0, size) && want == buf.data() && buf[size] == 0x5a && buf[size + 1] == 0x5a, "buffer", "%s size %d", msg.c_str(), size); }
    } catch (const std::runtime_error& e) { p.Fail("refused", "%s: %s", msg.c_str(), e.what()); }
    p.Obs({(double)len, (double)where});
  }, {1});

  Scenario("malformed", "missing files, lines without a separator, unclosed sections at each of 4 places, for .ini files and others: an .ini file with an error is refused, any other and any sound file accepted", [](Path& p) {
    int what = p.Choose(4), at = p.Choose(4), ext = p.Choose(3); static const char* exts[3] = {"m.ini", "m.csv", "ini"}; std::vector<std::string> l = {"[S]", "a = 1", "[T]", "b = 2"}; if (what == 1) l.insert(l.begin() + at, "garbage"); if (what == 2) l.insert(l.begin() + at, "[open"); std::string t; for (auto& x : l) t += x + "\n";
    std::string path = WriteFile(exts[ext], t); if (what == 3) path = Scratch() + "/absent_" + exts[ext]; bool threw = false; try { IniAccess f(path); if (what == 0) p.Check(f.ReadInt("S", "a") == 1 && f.ReadInt("T", "b") == 2, "sound", "%s", t.c_str()); } catch (const std::runtime_error&) { threw = true; } p.Check(threw == (what && ext == 0), "refusal", "what %d at %d %s: %s", what, at, exts[ext], t.c_str()); p.Outcome(threw ? "refused" : "accepted"); p.Obs({(double)what, (double)at, (double)ext});
  });
  for (const char* o : {"refused", "accepted"}) RequireOutcome("malformed", o);

  Scenario("many", "arrays and lists of 5..130 entries (written in order, in reverse or with every 7th missing) by every typed reader, and tables of up to 1000 rows and 130 columns, with 0 or 3 header rows and columns: entry i is the one written with index i", [](Path& p) {
    int n = p.PickI({5, 8, 9, 10, 11, 16, 17, 20, 33, 64, 65, 99, 100, 101, 130}), kind = p.Choose(9);
    if (kind >= 6) { int rows = p.PickI({1, 9, 10, 17, 65, 130, 257, 1000}); if ((long)rows * n > 20000) throw Skip(); int hr = kind == 7 ? p.PickI({0, 3}) : 0, hc = kind == 7 ? p.PickI({0, 3}) : 0; auto num = [&](int r, int c) { return r + c * 0.0078125; };
      std::string t; for (int r = 0; r < hr; r++) t += "head,er\n"; for (int r = 0; r < rows; r++) { for (int c = 0; c < hc; c++) t += "name,"; for (int c = 0; c < n; c++) t += (c ? "," : "") + Num(num(r, c)); t += "\n"; }
      IniAccess f(WriteFile("m.csv", t)); std::vector<std::vector<double>> d; std::vector<std::vector<std::string>> w; if (kind == 6) f.ReadCsvDouble(d, n); if (kind == 7) f.ReadCsvDoubleWithHeader(d, n, hr, hc); if (kind == 8) f.ReadCsvString(w, n);
      p.Eq((int)(kind == 8 ? w.size() : d.size()), rows, "rows", "rows of a long table"); for (int r = 0; r < rows; r++) { p.Eq((int)(kind == 8 ? w[r].size() : d[r].size()), n, "columns", "columns of a wide table"); for (int c = 0; c < n; c++) { double g = kind == 8 ? atof(w[r][c].c_str()) : d[r][c]; if (g != num(r, c)) p.Fail("number", "%d x %d table, field %d,%d is %.17g", rows, n, r, c, g); } }
      p.Obs({(double)n, (double)kind, (double)rows, (double)hr, (double)hc}); return; }
    int how = p.Choose(3); auto there = [&](int i) { return i < n && (how != 2 || i % 7 != 3); }; std::string t = "[S]\n"; for (int k = 0; k < n; k++) { int i = how == 1 ? n - 1 - k : k; if (there(i)) t += (kind == 4 ? "v7(" : "v(") + std::to_string(i) + ") = " + (kind >= 5 || kind == 0 ? "text" : "") + std::to_string(i + 1) + "\n"; } t += "[T]\nv(3) = 9\n";
    IniAccess f(WriteFile("m.ini", t)); int m = n + 2;
    if (kind == 0) { auto v = f.ReadStrVector("S", "v"); p.Eq((int)v.size(), how == 2 ? 3 : n, "list-length", "list"); for (size_t i = 0; i < v.size(); i++) p.Check(v[i] == "text" + std::to_string(i + 1), "list", "entry %zu of %d is %s", i, n, v[i].c_str()); }
    if (kind == 1) { auto v = f.ReadVectorDouble("S", "v", m); for (int i = 0; i < m; i++) p.Eq(v[i], there(i) ? i + 1.0 : 0.0, "real-vector", "entry"); }
    if (kind == 2) { auto v = f.ReadVectorInt("S", "v", m); for (int i = 0; i < m; i++) p.Eq(v[i], there(i) ? i + 1 : 0, "integer-vector", "entry"); }
    if (kind == 3) { auto v = f.ReadVectorUnsignedChar("S", "v", m); for (int i = 0; i < m; i++) p.Eq((int)v[i], there(i) ? i + 1 : 0, "byte-vector", "entry"); }
    if (kind == 4) { std::vector<double> v(m, -1); f.ReadDoubleArray("S", "v", 7, m, v.data()); for (int i = 0; i < m; i++) p.Eq(v[i], there(i) ? i + 1.0 : 0.0, "real-array", "entry"); }
    if (kind == 5) { auto v = f.ReadVectorString("S", "v", m); for (int i = 0; i < m; i++) p.Check(v[i] == (there(i) ? "text" + std::to_string(i + 1) : "NULL"), "string-vector", "entry %d of %d is %s", i, n, v[i].c_str()); }
    p.Obs({(double)n, (double)kind, (double)how});
  }, {2});
  Scenario("tables", "tables of 0 to 4 rows and 1 to 4 columns x 0 to 2 header rows x 0 to 2 header columns x line ends x last line ended or not x lengths of the path up to 1500 characters x declared sizes smaller and larger: every field of every reader in its row and column", [](Path& p) {
    int rows = p.Choose(5), cols = 1 + p.Choose(4), hr = p.Choose(3), hc = p.Choose(3); bool cr = p.Choose(2), open = p.Choose(2); int lng = p.Choose(3), node = p.PickI({0, 2, 100}), kind = p.Choose(3); if (kind != 1 && (hr || hc)) throw Skip();
    static const double nv[6] = {0, -1.5, 3e8, 0.1, 7, -1e-9}; static const char* sv[6] = {"a", "b c", "x/y.ini", "7", "", "\"q\""}; std::string t; auto num = [&](int r, int c) { return nv[(r * 5 + c * 2) % 6]; }; auto str = [&](int r, int c) { int k = (r * 5 + c * 3) % 6; if (c == cols - 1 && k == 4) k = 0; return std::string(sv[k]); };
    const char* eol = cr ? "\r\n" : "\n"; for (int r = 0; r < hr; r++) t += std::string("head, er") + eol; for (int r = 0; r < rows; r++) { std::string l; for (int c = 0; c < hc; c++) l += "name,"; for (int c = 0; c < cols; c++) l += (c ? "," : "") + (kind == 2 ? str(r, c) : (c && r % 2 ? " " : "") + Num(num(r, c))); t += l + (open && r == rows - 1 ? "" : eol); }
    std::string dir = Scratch(); if (lng) { for (int i = 0; i < (lng == 1 ? 4 : 6); i++) { dir += "/" + std::string(lng == 1 ? 240 - (i == 0) * (int)(Scratch().size()) : 240, 'd'); mkdir(dir.c_str(), 0755); } } std::string path = dir + "/table.csv"; { std::ofstream(path) << t; } IniAccess f(path); std::vector<std::vector<double>> d; std::vector<std::vector<std::string>> s; std::string msg = "<" + t + "> path of " + std::to_string(path.size());
    if (kind == 0) f.ReadCsvDouble(d, node); if (kind == 1) f.ReadCsvDoubleWithHeader(d, node, hr, hc); if (kind == 2) f.ReadCsvString(s, node); size_t got = kind == 2 ? s.size() : d.size(); p.Check((int)got == rows, "rows", "got %zu want %d: %s", got, rows, msg.c_str());
    for (int r = 0; r < rows; r++) { size_t n = kind == 2 ? s[r].size() : d[r].size(); p.Check((int)n == cols, "columns", "row %d got %zu want %d: %s", r, n, cols, msg.c_str()); for (int c = 0; c < cols; c++) if (kind == 2) p.Check(s[r][c] == str(r, c), "field", "%d,%d <%s>: %s", r, c, s[r][c].c_str(), msg.c_str()); else p.Check(d[r][c] == num(r, c), "number", "%d,%d %.17g: %s", r, c, d[r][c], msg.c_str()); }
    p.Obs({(double)rows, (double)cols, (double)hr, (double)hc, (double)kind}); p.Outcome(kind == 2 ? "strings" : kind == 1 ? "headers" : "numbers");
  }, {3});
  for (const char* o : {"strings", "headers", "numbers"}) RequireOutcome("tables", o);
}
