// LIBS: v_mc v_core
// P31: numbers and strings are parsed, compared and printed exactly.
#include <memory>
#include <sstream>
#include <unordered_map>
#include "mc.h"
#include "util/fast_printer.h"
#include "util/parse_utils.h"
#include "util/printer.h"
#include "util/string_piece.h"
#include "util/char_buffer.h"
#include "util/codegen.h"
using namespace jumanpp;
using mc::Ctx;
namespace {
struct Exact {
  std::unique_ptr<char[]> p; size_t n;
  explicit Exact(const std::string& s) : p(new char[s.size() ? s.size() : 1]), n(s.size()) { memcpy(p.get(), s.data(), n); }
  StringPiece sp() const { return StringPiece{p.get(), p.get() + n}; }
};
// schoolbook decimal reference on digit strings (no machine arithmetic)
bool refU64(const std::string& s, u64* out) {
  if (s.empty()) return false;
  for (char ch : s) if (ch < '0' || ch > '9') return false;
  size_t i = 0; while (i + 1 < s.size() && s[i] == '0') ++i;
  std::string t = s.substr(i);
  static const std::string mx = "18446744073709551615";
  if (t.size() > mx.size() || (t.size() == mx.size() && t > mx)) return false;
  u64 v = 0; for (char ch : t) v = v * 10 + (u64)(ch - '0');
  *out = v; return true;
}
void one(Ctx& c, const std::string& s) {
  Exact e{s}; u64 a = 12345, b = 0;
  bool ra = util::parseU64(e.sp(), &a), rb = refU64(s, &b);
  if (ra != rb) c.fail(ra ? "accepts" : "rejects", "parseU64('%s') = %d, expected %d", s.c_str(), ra, rb);
  if (ra && a != b) c.fail("value", "parseU64('%s') = %llu, expected %llu", s.c_str(), (unsigned long long)a, (unsigned long long)b);
  c.sig(ra ? a * 2 + 1 : 0);
}
void parseShort(Ctx& c) {
  static const std::vector<std::string> A{"0", "1", "9", "+", "-", " ", "a", ".", std::string(1, '\0'), "\xef", "/", ":"};
  std::string s = c.str(A, 0, c.thorough() ? 6 : 5);
  c.note("'%s'", s.c_str());
  one(c, s);
}
void parseLong(Ctx& c) {
  // all strings of 18..22 digits where the last 4 and the first 2 digits vary around the 2^64 boundary
  static const std::string mx = "18446744073709551615";
  int mode = c.choose(3);
  std::string s;
  if (mode == 0) {  // every single/double digit change of 2^64-1
    s = mx; int i = c.choose(20); s[i] = '0' + c.choose(10); int j = c.choose(20); s[j] = '0' + c.choose(10);
  } else if (mode == 1) {  // leading zeros, then a suffix of digits of max with any tail
    s = std::string(c.choose(4), '0') + mx.substr(0, c.range(17, 20)) + c.str({"0", "5", "9"}, 0, 3);
  } else {
    s = std::string(c.range(17, 22), (char)('0' + c.choose(10))); s[c.choose((int)s.size())] = '0' + c.choose(10);
  }
  c.note("'%s'", s.c_str());
  one(c, s);
}
int sgn(int v) { return (v > 0) - (v < 0); }
// reference lexicographic byte compare
int refCmp(const std::string& a, const std::string& b) {
  for (size_t i = 0; i < a.size() && i < b.size(); ++i)
    if ((u8)a[i] != (u8)b[i]) return (u8)a[i] < (u8)b[i] ? -1 : 1;
  return a.size() == b.size() ? 0 : (a.size() < b.size() ? -1 : 1);
}
const std::vector<std::string>& bytes() { static std::vector<std::string> A{std::string(1, '\0'), "a", "b", "\x7f", "\x80", "\xff"}; return A; }
void cmp(Ctx& c) {
  std::string pre = (const char*[]){"", "0123456789abcdef"}[c.choose(2)];
  int mx = c.thorough() ? 4 : 3;
  std::string a = pre + c.str(bytes(), 0, mx), b = pre + c.str(bytes(), 0, mx);
  c.note("%zu/%zu bytes", a.size(), b.size());
  Exact x{a}, y{b}; auto p = x.sp(), q = y.sp();
  int r = refCmp(a, b);
  if ((p == q) != (r == 0)) c.fail("eq", "operator== wrong");
  if ((p != q) != (r != 0)) c.fail("ne", "operator!= wrong");
  if ((p < q) != (r < 0)) c.fail("lt", "operator< wrong");
  if ((q < p) != (r > 0)) c.fail("lt2", "operator< wrong (swapped)");
  std::hash<StringPiece> h;
  if (r == 0 && h(p) != h(q)) c.fail("hash", "equal strings hash differently");
  if (p.str() != a || p.size() != a.size() || p.empty() != a.empty()) c.fail("str", "str()/size() wrong");
  c.sig((u64)(r + 1) * 31 + a.size() * 7 + b.size());
}
// hash must depend on every byte and the length: all short strings distinct (64 bit)
void hashAll(Ctx& c) {
  int n = c.range(0, c.thorough() ? 40 : 24);
  c.note("length %d", n);
  std::unordered_map<size_t, std::string> seen;
  std::string base(n, 'q');
  auto add = [&](const std::string& s) {
    Exact e{s}; size_t h = std::hash<StringPiece>()(e.sp());
    // a hash never depends on memory around or alignment
    std::string sh = "x" + s; Exact e2{sh}; auto sub = e2.sp().from(1);
    if (n > 0 && std::hash<StringPiece>()(sub) != h) c.fail("hash-place", "hash depends on where the string is");
    seen[h] = s; c.count();
  };
  add(base);
  for (int i = 0; i < n; ++i) for (int v = 0; v < 256; ++v) { std::string s = base; s[i] = (char)v; add(s); }
  c.sig(seen.size());
}
void slices(Ctx& c) {
  std::string a = c.str(bytes(), 1, c.thorough() ? 5 : 4);
  Exact x{a}; auto p = x.sp();
  for (size_t f = 0; f <= a.size(); ++f) {
    for (size_t t = f; t <= a.size(); ++t) {
      if (p.slice(f, t).str() != a.substr(f, t - f)) c.fail("slice", "slice(%zu,%zu)", f, t);
      c.count();
    }
    if (p.from(f).str() != a.substr(f)) c.fail("from", "from(%zu)", f);
    if (p.take(f).str() != a.substr(0, f)) c.fail("take", "take(%zu)", f);
    if (f < a.size() && p[f] != a[f]) c.fail("index", "[%zu]", f);
  }
  std::string t; p.assignTo(t); if (t != a) c.fail("assign", "assignTo loses bytes");
  std::stringstream ss; ss << p; if (ss.str() != a) c.fail("stream", "stream output loses bytes");
  std::string lit = StringPiece("ab").str(); if (lit != "ab") c.fail("literal", "literal length");
  c.sig(a);
}
void print(Ctx& c) {
  // a sequence of prints; result is the concatenation, byte for byte
  util::io::FastPrinter fp; util::io::Printer pr; std::string want, wantP;
  int rounds = c.range(1, 2);
  for (int r = 0; r < rounds; ++r) {
    fp.reset(); pr.reset(); want.clear(); wantP.clear();
    int n = c.range(0, c.thorough() || !r ? 2 : 1);
    for (int i = 0; i < n; ++i) {
      switch (c.choose(6)) {
        case 0: { std::string s = c.str(bytes(), 0, 1); Exact e{s}; fp << e.sp(); pr << e.sp(); want += s; wantP += s; break; }
        case 1: { static const i64 V[] = {0, -1, INT64_MIN, INT64_MAX, 42}; i64 v = c.pick(V); fp << v; pr << v; want += std::to_string(v); wantP += std::to_string(v); break; }
        case 2: { static const i32 V[] = {0, -7, INT32_MIN, INT32_MAX}; i32 v = c.pick(V); fp << v; pr << v; want += std::to_string(v); wantP += std::to_string(v); break; }
        case 3: { std::string s(300, 'z'); fp << StringPiece(s); pr << StringPiece(s); want += s; wantP += s; break; }
        case 4: { std::string s = c.str(bytes(), 0, 1); i32 v = 5; StringPiece sp{s}; fp.write("<{}|", v); fp << sp; fp.write("{:>4}>", v); want += "<5|" + s + "   5>"; break; }
        case 5: { char ch = "x\0\n"[c.choose(2)]; fp << ch; pr << ch; want += ch; wantP += ch; break; }
      }
    }
    if (fp.result().str() != want) c.fail("fastprinter", "FastPrinter output differs (%zu vs %zu bytes)", fp.result().size(), want.size());
    if (pr.result().str() != wantP) c.fail("printer", "Printer output differs (%zu vs %zu bytes)", pr.result().size(), wantP.size());
    c.count();
  }
  c.sig(want);
}
// every printed u64/i64 edge parses back to itself
void roundtrip(Ctx& c) {
  int bit = c.choose(64);
  for (int d = -2; d <= 2; ++d) {
    u64 v = (1ull << bit) + d;
    util::io::FastPrinter fp; fp << v; u64 w = 0;
    if (!util::parseU64(fp.result(), &w) || w != v) c.fail("roundtrip", "%llu does not print/parse back", (unsigned long long)v);
    c.count();
  }
  c.sig((u64)bit);
}
// interning buffer: strings keep their contents and place
void charbuf(Ctx& c) {
  util::CharBuffer<32> cb; std::vector<std::pair<StringPiece, std::string>> got;
  int n = c.range(1, 4); std::string log;
  for (int i = 0; i < n; ++i) {
    static const int L[] = {0, 1, 15, 16, 31, 32};
    std::string s(c.pick(L), (char)('a' + i)); if (!s.empty() && c.flag()) s[0] = 0;
    Exact e{s}; StringPiece p = e.sp(); log += std::to_string(s.size()) + " ";
    bool ok = cb.import(&p);
    if (!ok) c.fail("charbuf-reject", "string of %zu bytes rejected by 32 byte pages", s.size());
    memset(e.p.get(), '#', e.n);
    got.emplace_back(p, s);
    for (auto& g : got) if (g.first.str() != g.second) c.fail("charbuf", "interned string changed");
  }
  { std::string big(33, 'x'); StringPiece p{big}; if (cb.import(&p) && p.str() != big) c.fail("charbuf-big", "too large string altered"); }
  for (auto& g : got) if (g.first.str() != g.second) c.fail("charbuf", "interned string changed");
  c.note("%s", log.c_str()); c.sig(log);
}
}  // namespace
int main(int argc, char** argv) {
  return mc::run(argc, argv, {
    {"parse_short", parseShort, "all strings of length<=5 (6) over 12 bytes incl. NUL and sign/space"},
    {"parse_long", parseLong, "all 1-2 digit changes of 2^64-1, 17..23 digit strings"},
    {"compare", cmp, "all pairs of strings of length<=3 (4) over 6 bytes incl. NUL/0x80/0xff, with and without 16-byte common prefix"},
    {"hash", hashAll, "all single-byte variations of strings of length 0..24 (40): independent of place and neighbouring memory"},
    {"slices", slices, "all strings of length<=4 (5), all slices"},
    {"print", print, "all print sequences of length<=2, printer reused for a second sequence of length<=1 (2)"},
    {"roundtrip", roundtrip, "numbers around every power of two"},
    {"charbuf", charbuf, "all intern sequences of length<=4 over 6 lengths"},
  });
}
