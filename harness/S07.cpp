// Command database, argument encoding and operation files, down to the packets handed to the flight software (recorded by a stand-in).
#define USE_C2A
#include <components/real/communication/wings_command_sender_to_c2a.cpp>
#include <environment/global/clock_generator.hpp>
#include "env.hpp"
using namespace mc; using namespace s2e; using setting_file_reader::C2aArgumentType; using components::WingsCommandSenderToC2a;
const char* kProperty = "S07";
const char* kAssumptions = "Raw arguments and block commands, which the sender does not implement, emit nothing here; integers are decimal (a hexadecimal one may be encoded or rejected); denormal reals are not used.";
struct Packet { bool timed; uint32_t ti; int id; std::vector<uint8_t> body; };
static std::vector<Packet> g_out;
void CCP_register_rtc(CMD_CODE id, const uint8_t* p, uint16_t n) { g_out.push_back({false, 0, id, std::vector<uint8_t>(p, p + n)}); }
void CCP_register_tlc(uint32_t ti, TLCD_ID, CMD_CODE id, const uint8_t* p, uint16_t n) { g_out.push_back({true, ti, id, std::vector<uint8_t>(p, p + n)}); }

static const char* kType[10] = {"uint8_t", "uint16_t", "uint32_t", "uint64_t", "int8_t", "int16_t", "int32_t", "int64_t", "float", "double"}; static const int kSize[10] = {1, 2, 4, 8, 1, 2, 4, 8, 4, 8};
struct Val { const char* text; int ok; uint64_t bits; };  // ok: 1 must be encoded, 0 must be rejected, 2 either
static uint64_t D(double d) { uint64_t b; memcpy(&b, &d, 8); return b; } static uint64_t F(float f) { uint32_t b; memcpy(&b, &f, 4); return b; }
static const std::vector<Val>& Values(int t) {
  static std::vector<Val> v[10]; static bool done = false; if (!done) { done = true;
    v[0] = {{"0", 1, 0}, {"255", 1, 255}, {"18", 1, 18}, {"007", 1, 7}, {"+5", 1, 5}, {"256", 0}, {"-1", 0}, {"4294967297", 0}}; v[1] = {{"65535", 1, 65535}, {"258", 1, 258}, {"0", 1, 0}, {"65536", 0}, {"-1", 0}}; v[2] = {{"4294967295", 1, 4294967295u}, {"16909060", 1, 0x01020304}, {"0", 1, 0}, {"4294967296", 0}, {"-5", 0}}; v[3] = {{"18446744073709551615", 1, ~0ull}, {"72623859790382856", 1, 0x0102030405060708ull}, {"4294967296", 1, 4294967296ull}, {"18446744073709551616", 0}, {"-1", 0}};
    v[4] = {{"127", 1, 127}, {"-128", 1, 0x80}, {"-1", 1, 0xff}, {"128", 0}, {"-129", 0}}; v[5] = {{"32767", 1, 32767}, {"-32768", 1, 0x8000}, {"-2", 1, 0xfffe}, {"32768", 0}, {"-32769", 0}}; v[6] = {{"2147483647", 1, 2147483647}, {"-2147483648", 1, 0x80000000u}, {"-16909060", 1, (uint32_t)-16909060}, {"2147483648", 0}, {"-2147483649", 0}}; v[7] = {{"9223372036854775807", 1, 0x7fffffffffffffffull}, {"-9223372036854775808", 1, 1ull << 63}, {"-4294967297", 1, (uint64_t)-4294967297ll}, {"9223372036854775808", 0}};
    v[8] = {{"1.5", 1, F(1.5f)}, {"-0.1", 1, F(-0.1f)}, {"3e8", 1, F(3e8f)}, {"7", 1, F(7)}, {"1e39", 0}}; v[9] = {{"1.5", 1, D(1.5)}, {"-0.1", 1, D(-0.1)}, {"1e-300", 1, D(1e-300)}, {"1577836800.25", 1, D(1577836800.25)}, {"1e309", 0}};
    for (int i = 0; i < 10; i++) { for (const char* b : {"abc", "12abc", "--1", "1,2", "-", "1-"}) v[i].push_back({b, 0, 0}); if (i < 8) { v[i].push_back({"1.5", 0, 0}); v[i].push_back({"0x10", 2, 0x10}); } }
  }
  return v[t];
}
static void Append(std::vector<uint8_t>& o, int t, uint64_t bits) { for (int i = kSize[t] - 1; i >= 0; i--) o.push_back(bits >> (8 * i)); }
static std::string Row(const std::string& name, int id, const std::vector<int>& types, const std::string& eol = "\n") { char c[16]; snprintf(c, 16, "0x%04X", id); std::string r = "," + name + ",OBC," + c + "," + std::to_string(types.size()); for (int i = 0; i < 6; i++) r += i < (int)types.size() ? std::string(",") + kType[types[i]] + ",what it means" : ",,"; return r + ",,,a note," + eol; }
static std::string Head(const std::string& eol) { return "Component,Name,Target,Code,Params,,,,,,,,,,,,,Danger Flag,Is Restricted,Description,Note" + eol + "MOBC,,,,Num Params,Param1,,Param2,,Param3,,,,,,,,,,," + eol + "Comment,,,,,Type,Description,Type,Description,,,,,,,,,,,," + eol + "*,EXAMPLE,OBC,,2,uint32_t,address,int32_t,time,,,,,,,,,,,x,y" + eol + "* CORE,,,,,,,,,,,,,,,,,,,," + eol + ",,,,,,,,,,,,,,,,,,,," + eol; }
static environment::ClockGenerator* Clock() { static environment::ClockGenerator c; return &c; }
static std::string Show() { std::string s; char b[64]; for (auto& q : g_out) { snprintf(b, 64, "%s id %d ti %u:", q.timed ? "TL" : "RT", q.id, q.ti); s += b; for (uint8_t x : q.body) { snprintf(b, 8, " %02x", x); s += b; } s += "; "; } return s; }
static bool Same(const std::vector<Packet>& a, const std::vector<Packet>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (a[i].timed != b[i].timed || a[i].ti != b[i].ti || a[i].id != b[i].id || a[i].body != b[i].body) return false; return true; }

void Register() {
  Scenario("encoding", "10 argument types x every valid value of their list: exactly the big-endian bytes are written, and the size reported", [](Path& p) {
    int t = p.Choose(10), v = p.Choose(Values(t).size()); const Val& x = Values(t)[v]; if (x.ok != 1) throw Skip(); std::vector<uint8_t> buf(24, 0xa5), want; Append(want, t, x.bits); size_t n = 99; C2aArgumentType ty = setting_file_reader::C2aCommandInformation(Row("X", 1, {t})).GetArgumentType(0); setting_file_reader::DecodeC2aCommandArgument(ty, x.text, buf.data() + 8, n); p.Check((int)n == kSize[t], "size", "%s %s: %zu", kType[t], x.text, n); for (int i = 0; i < 24; i++) p.Check(buf[i] == (i >= 8 && i < 8 + kSize[t] ? want[i - 8] : 0xa5), "bytes", "%s %s byte %d: %02x", kType[t], x.text, i - 8, buf[i]); p.Obs({(double)t, (double)v});
  });
  Scenario("database", "databases of 1 to 4 commands of 0 to 6 parameters with codes over the whole range, between headers, comments and empty rows x line ends: each command is found with its code and its parameters' types, anything else is not", [](Path& p) {
    int n = 1 + p.Choose(4), first = p.Choose(7), seed = p.Choose(10), idk = p.Choose(6); bool cr = p.Choose(2); static const int ids[6] = {0, 1, 0x7f, 0x100, 0xabc, 0xffff}; std::string eol = cr ? "\r\n" : "\n", t = Head(eol); std::vector<std::vector<int>> types; std::vector<std::string> names; const char* nm[4] = {"NOP", "NOP_2", "EXAMPLE_X", "TMGR_SET.TIME"};
    for (int i = 0; i < n; i++) { std::vector<int> ty; for (int k = 0; k < (first + 2 * i) % 7; k++) ty.push_back((seed + 3 * k + i) % 10); types.push_back(ty); names.push_back(nm[i]); t += Row(nm[i], ids[(idk + i) % 6], ty, eol); if (i == 1) t += "* OTHER,,,," + eol; }
    setting_file_reader::C2aCommandDatabase db(WriteFile("db.csv", t)); for (int i = 0; i < 4; i++) { auto c = db.GetCommandInformation(nm[i]); if (i >= n) { p.Check(c.GetCommandName() == "Error", "unknown", "%s", nm[i]); continue; } p.Check(c.GetCommandName() == nm[i] && c.GetCommandId() == (size_t)ids[(idk + i) % 6] && c.GetNumberOfArgument() == types[i].size(), "entry", "%s got %s %zu %zu", nm[i], c.GetCommandName().c_str(), c.GetCommandId(), c.GetNumberOfArgument()); for (size_t k = 0; k < 7; k++) p.Check(c.GetArgumentType(k) == (k < types[i].size() ? (C2aArgumentType)types[i][k] : C2aArgumentType::kError), "type", "%s %zu", nm[i], k); }
    for (const char* u : {"EXAMPLE", "OBC", "", "nop", "NOP_", "Name"}) p.Check(db.GetCommandInformation(u).GetCommandName() == "Error", "unknown", "<%s>", u); p.Obs({(double)n, (double)first, (double)seed, (double)idk});
  }, {1});
  Scenario("commands", "all tuples of up to 3 of 10 parameter types x 3 valid values each, or one malformed or out-of-range value (each of its list) in one place x real-time, time-line and block commands, with one argument too few, right, or too many: exactly the encoded packet is sent, or nothing", [](Path& p) {
    int n = p.Choose(4); std::vector<int> ty; for (int i = 0; i < n; i++) ty.push_back(p.Choose(10)); int kind = p.Choose(3), extra = p.Choose(3); std::vector<const Val*> v; int bad = extra == 1 ? p.Choose(n + 1) : n; bool ok = extra == 1 && kind < 2; Val none{"1", 1, 1};
    int pick = bad < n || extra != 1 ? 0 : p.Choose(3); for (int i = 0; i < n; i++) { int k = i == bad ? p.Choose(Values(ty[i]).size()) : (pick + i) % 3; v.push_back(&Values(ty[i])[k]); if (i == bad && v.back()->ok == 1) throw Skip(); if (v.back()->ok == 0) ok = false; }
    std::string line = std::string(" MOBC_") + (kind == 0 ? "RT" : kind == 1 ? "TL" : "BL") + ".CMD"; if (kind) line += " 70000"; int args = n - 1 + extra; if (args < 0) { if (kind != 1) throw Skip(); line = " MOBC_TL.CMD"; } for (int i = 0; i < args; i++) line += std::string(" ") + (i < n ? v[i]->text : "1");
    g_out.clear(); static std::map<std::vector<int>, std::string> dbs; static std::string db; db = WriteFile("c.csv", Head("\n") + Row("CMD", 0x1234, ty) + Row("AFTER", 7, {})); WingsCommandSenderToC2a s(1, Clock(), 0.1, db, WriteFile("c.ops", line + "\nMOBC_RT.AFTER\n"), true);
    try { for (int i = 0; i < 5; i++) s.Tick(i); } catch (const std::exception& e) { p.Fail("crash", "%s: %s", line.c_str(), e.what()); }
    std::vector<Packet> after{{false, 0, 7, {}}}, want; bool either = false; if (ok) { Packet q{kind == 1, kind == 1 ? 70000u : 0, 0x1234, {}}; for (int i = 0; i < n; i++) { Append(q.body, ty[i], v[i]->bits); either |= v[i]->ok == 2; } want.push_back(q); } want.push_back(after[0]); p.Check(Same(g_out, want) || (either && Same(g_out, after)), "packet", "%s of %d parameters: %s", line.c_str(), n, Show().c_str()); p.Obs({(double)n, (double)kind, (double)extra, (double)bad, (double)g_out.size()}); p.Outcome(ok ? "sent" : "rejected");
  }, {2});
  for (const char* o : {"sent", "rejected"}) RequireOutcome("commands", o);
  static const std::vector<const char*> kLine = {".MOBC_RT.NOP", " MOBC_RT.SET 5", "AOBC_TL.SET 100 7", "MOBC_RT.SET 6 # MOBC_RT.NOP", ".#MOBC_RT.NOP", "", "     ", "\t\t\t", " wait_sec 0.35", " wait_sec 1", "wait_sec 0", " wait_sec", " wait_sec x", " check_value SET 3", " let m = 2", " MOBC_RT.SET {m}", " MOBC_RT.UNKNOWN", " MOBC_RT.SET", " MOBC_TL.SET", " MOBC_TL.NOP x", " garbage", " MOBC_RT", " MOBC_XX.NOP"};
  Scenario("operation-files", "all files of up to 3 (4 thorough) out of 23 lines (commands, comments, blanks, waits, sound and malformed) x steps x line ends x prescalers, set up directly or from a settings file: the sound commands are sent in order, once, none before its waits are over nor later than the lines before it take", [](Path& p) {
    int len = p.Choose(Q(3, 4)) + 1; std::vector<int> l; for (int i = 0; i < len; i++) l.push_back(p.Choose(kLine.size())); double step = p.Pick({0.1, 0.25}); bool cr = p.Choose(2); int pre = cr ? 3 : 1; bool ini = step == 0.25;
    std::string f, eol = cr ? "\r\n" : "\n"; for (int i : l) f += kLine[i] + eol; f += "MOBC_RT.NOP 1" + eol + "wait_sec 0.6" + eol + "MOBC_RT.SET 9"; static const std::string db = WriteFile("o.csv", Head("\n") + Row("NOP", 1, {}) + Row("SET", 2, {1})); std::string ops = WriteFile("o.ops", f); g_out.clear();
    std::unique_ptr<WingsCommandSenderToC2a> s; if (!ini) s.reset(new WingsCommandSenderToC2a(pre, Clock(), step * pre, db, ops, true)); else { env::Ini q; q.Set("WINGS_COMMAND_SENDER_TO_C2A", "command_send_enable", "ENABLE").Set("WINGS_COMMAND_SENDER_TO_C2A", "prescaler", (double)pre).Set("WINGS_COMMAND_SENDER_TO_C2A", "c2a_command_database_file", db).Set("WINGS_COMMAND_SENDER_TO_C2A", "wings_operation_file", ops); s.reset(new WingsCommandSenderToC2a(components::InitWingsCommandSenderToC2a(Clock(), step, q.Write("o.ini")))); }
    std::vector<Packet> want; std::vector<double> from, to; double early = 0, late = 0, h = step * pre; l.push_back(-1);
    for (int i : l) { std::string x = i < 0 ? "end" : kLine[i]; late += h; auto emit = [&](Packet q) { want.push_back(q); from.push_back(early); to.push_back(late); }; if (i < 0) { early += 0.6; late += 0.6 + 4 * h; emit({false, 0, 2, {0, 9}}); } else if (i == 0) emit({false, 0, 1, {}}); else if (i == 1) emit({false, 0, 2, {0, 5}}); else if (i == 2) emit({true, 100, 2, {0, 7}}); else if (i == 3) emit({false, 0, 2, {0, 6}}); else if (i == 8) { early += 0.35; late += 0.35 + 2 * h; } else if (i == 9) { early += 1; late += 1 + 2 * h; } }
    std::vector<double> when; int c = 0, end = (int)((late + 6 * h) / step) + 1; try { for (; c < end; c++) { size_t b = g_out.size(); s->Tick(c); p.Check(g_out.size() <= b + 1, "one-per-update", "%s", f.c_str()); if (g_out.size() > b) when.push_back(c * step); } } catch (const std::exception& e) { p.Fail("crash", "%s: %s", f.c_str(), e.what()); }
    p.Check(Same(g_out, want), "packets", "%s sent %s", f.c_str(), Show().c_str()); for (size_t i = 0; i < when.size(); i++) { p.Check(when[i] >= from[i] - 1e-9, "early", "command %zu at %g before %g: %s", i, when[i], from[i], f.c_str()); p.Check(when[i] <= to[i] + 1e-9, "late", "command %zu at %g after %g: %s", i, when[i], to[i], f.c_str()); } for (int i : l) p.Obs({(double)i, (double)when.size()}); p.Outcome(early > .7 ? "waited" : "at once"); p.Note("%zu", l.size());
  }, {3});
  for (const char* o : {"waited", "at once"}) RequireOutcome("operation-files", o);
  Scenario("large-files", "databases of {63,64,65,100,255,256,300,1000} commands, each in turn looked up (first, last, middle, every 37th), and operation files of {20,32,33,100,255,256,300,1000} lines (commands; blank, comment and malformed lines every 7th; a wait near the end): every sound command is sent once, in order", [](Path& p) {
    int n = p.PickI({63, 64, 65, 100, 255, 256, 300, 1000}); bool data = p.Flag("database"); if (data) { std::string t = Head("\n"); for (int i = 0; i < n; i++) t += Row("CMD_" + std::to_string(i), (i * 61 + 3) & 0xffff, std::vector<int>(i % 5, i % 10)); setting_file_reader::C2aCommandDatabase db(WriteFile("big.csv", t)); for (int i = 0; i < n; i++) { auto c = db.GetCommandInformation("CMD_" + std::to_string(i)); p.Check(c.GetCommandName() == "CMD_" + std::to_string(i) && (int)c.GetCommandId() == ((i * 61 + 3) & 0xffff) && (int)c.GetNumberOfArgument() == i % 5, "entry", "CMD_%d of %d: got %s %zu", i, n, c.GetCommandName().c_str(), c.GetCommandId()); } p.Check(db.GetCommandInformation("CMD_" + std::to_string(n)).GetCommandName() == "Error", "unknown", "%d", n); p.Obs({(double)n, 1}); return; }
    if (n == 63) n = 20; if (n == 64) n = 32; if (n == 65) n = 33; static const std::string db = WriteFile("big_o.csv", Head("\n") + Row("NOP", 1, {}) + Row("SET", 2, {1})); std::string f; std::vector<Packet> want; g_out.clear();
    for (int i = 0; i < n; i++) { if (i % 7 == 3) f += i % 3 == 0 ? "\n" : i % 3 == 1 ? ".# a comment\n" : " MOBC_RT.UNKNOWN\n"; else if (i == n - 4) f += " wait_sec 3\n"; else { f += " MOBC_" + std::string(i % 2 ? "TL" : "RT") + ".SET " + (i % 2 ? std::to_string(1000 * i) + " " : "") + std::to_string(i) + "\n"; want.push_back({i % 2 == 1, i % 2 ? 1000u * i : 0, 2, {(uint8_t)(i >> 8), (uint8_t)i}}); } }
    WingsCommandSenderToC2a s(1, Clock(), 0.1, db, WriteFile("big.ops", f), true); for (int i = 0; i < n + 60; i++) s.Tick(i); if (!Same(g_out, want)) { size_t k = 0; while (k < g_out.size() && k < want.size() && g_out[k].body == want[k].body && g_out[k].ti == want[k].ti) k++; p.Fail("packets", "%d lines: sent %zu of %zu, first difference at %zu", n, g_out.size(), want.size(), k); } p.Obs({(double)n, 0});
  });
  Scenario("disabled", "the sender switched off, or given an operation file that is missing or empty, or a missing database: nothing is sent however long it runs", [](Path& p) {
    int what = p.Choose(4); std::string db = WriteFile("d.csv", Head("\n") + Row("NOP", 1, {})), ops = WriteFile("d.ops", what == 2 ? "# nothing\n" : "MOBC_RT.NOP\n"); g_out.clear(); WingsCommandSenderToC2a s(1, Clock(), 0.1, what == 3 ? Scratch() + "/absent.csv" : db, what == 1 ? Scratch() + "/absent.ops" : ops, what != 0); for (int i = 0; i < 20; i++) s.Tick(i); p.Check(g_out.empty(), "sent", "%d: %s", what, Show().c_str()); p.Obs({(double)what});
  });
}
