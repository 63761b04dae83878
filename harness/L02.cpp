// SLIP framing: all payloads and all raw inputs up to a length.
#include <utilities/slip.hpp>

#include "mc.hpp"
using namespace mc;
using namespace s2e::utilities;
typedef std::vector<uint8_t> V;
const char* kProperty = "L02";
const char* kAssumptions = "Payload bytes outside the alphabet {reserved bytes, their neighbours, 00, FF} are only covered singly and in pairs.";
static const V A = {0xc0, 0xdb, 0xdc, 0xdd, 0x00, 0xff, 0xc1, 0x41};
static std::string Hex(const V& v) { std::string s; char b[4]; for (int c : v) { snprintf(b, 4, "%02x ", c); s += b; } return s; }
static V Enc(const V& in) { V o; for (uint8_t c : in) { if (c == 0xc0) { o.push_back(0xdb); o.push_back(0xdc); } else if (c == 0xdb) { o.push_back(0xdb); o.push_back(0xdd); } else o.push_back(c); } return o; }
static void RoundTrip(Path& p, const V& in) {
  p.Note("payload %s", Hex(in).c_str());
  V want = Enc(in);
  V e = encode_slip(in);
  V we = want; we.push_back(0xc0);
  p.Check(e == we, "encode", "encode(%s) = %s want %s", Hex(in).c_str(), Hex(e).c_str(), Hex(we).c_str());
  V h = encode_slip_with_header(in); V wh = we; wh.insert(wh.begin(), 0xc0);
  p.Check(h == wh, "encode-header", "encode_with_header(%s) = %s", Hex(in).c_str(), Hex(h).c_str());
  V d = decode_slip(e);
  p.Check(d == in, "round-trip", "decode(encode(%s)) = %s", Hex(in).c_str(), Hex(d).c_str());
  V dh = decode_slip_with_header(h);
  p.Check(dh == in, "round-trip-header", "decode_with_header(encode_with_header(%s)) = %s", Hex(in).c_str(), Hex(dh).c_str());
  // bytes following a complete frame belong to the next frame
  V t = e; t.push_back(0xdb); t.push_back(0x41); t.push_back(0xc0);
  V dt = decode_slip(t);
  p.Check(dt == in, "trailing", "decode with a following frame gave %s", Hex(dt).c_str());
  p.ObsHash(HashBytes(e.data(), e.size()));
  p.Outcome(e.size() == in.size() + 1 ? "no escape" : "escaped");
}
void Register() {
  Scenario("payloads", "all payloads of length 0..6/7 over 8 bytes", [](Path& p) {
    int n = p.Choose(Q(7, 8)); V in(n); for (auto& c : in) c = p.Pick(A);
    RoundTrip(p, in);
  });
  Scenario("byte-pairs", "all 65536 two-byte payloads and all single bytes", [](Path& p) {
    int a = p.Choose(256), b = p.Choose(257); V in{(uint8_t)a}; if (b < 256) in.push_back((uint8_t)b);
    RoundTrip(p, in);
  });
  Scenario("repeats", "all patterns of length 1..4 repeated to 300 bytes", [](Path& p) {
    int n = 1 + p.Choose(4); V pat(n); for (auto& c : pat) c = p.Pick(A);
    V in; while (in.size() < 300) in.insert(in.end(), pat.begin(), pat.end());
    RoundTrip(p, in);
  });
  Scenario("raw-decode", "all raw decoder inputs of length 0..6/7 over the reserved alphabet; memory-safe, output bounded, valid prefix exact", [](Path& p) {
    int n = p.Choose(Q(7, 8)); static const V R = {0xc0, 0xdb, 0xdc, 0xdd, 0x41};
    V in(n); for (auto& c : in) c = p.Pick(R);
    p.Note("raw %s", Hex(in).c_str());
    V d = decode_slip(in), h = decode_slip_with_header(in);
    // reference: up to the delimiter; well-formed input is decoded exactly
    auto ref = [](const V& x, size_t from, bool* well) { V o; *well = true; for (size_t i = from; i < x.size() && x[i] != 0xc0; i++) { if (x[i] == 0xdb) { if (i + 1 < x.size() && x[i + 1] == 0xdc) { o.push_back(0xc0); i++; } else if (i + 1 < x.size() && x[i + 1] == 0xdd) { o.push_back(0xdb); i++; } else { *well = false; return o; } } else o.push_back(x[i]); } return o; };
    bool well; V r = ref(in, 0, &well);
    p.Check(d.size() <= in.size(), "decode-size", "decoder output longer than its input");
    if (well) p.Check(d == r, "decode", "decode(%s) = %s want %s", Hex(in).c_str(), Hex(d).c_str(), Hex(r).c_str());
    bool wellh; V rh = ref(in, in.empty() ? 0 : 1, &wellh);
    if (wellh) p.Check(h == rh, "decode-header", "decode_with_header(%s) = %s want %s", Hex(in).c_str(), Hex(h).c_str(), Hex(rh).c_str());
    p.Outcome(well ? "well-formed" : "malformed");
    p.ObsHash(HashBytes(d.data(), d.size()));
  });
}
