// LIBS: v_mc v_core
// P01: UTF-8 decoding, character classes, input limits.
#include <memory>
#include "core/analysis/analysis_input.h"
#include "core/analysis/lattice_config.h"
#include <limits>
#include "mc.h"
#include "util/characters.h"
using namespace jumanpp;
using mc::Ctx;
using chars::CharacterClass;
namespace {
struct Exact {
  std::unique_ptr<char[]> p; size_t n;
  explicit Exact(const std::string& s) : p(new char[s.size() ? s.size() : 1]), n(s.size()) { memcpy(p.get(), s.data(), n); }
  StringPiece sp() const { return StringPiece{p.get(), p.get() + n}; }
};
std::string hex(const std::string& s) { std::string r; char b[4]; for (unsigned char ch : s) { snprintf(b, 4, "%02x ", ch); r += b; } return r; }
std::string encode(u32 cp) {
  std::string s;
  if (cp < 0x80) s += (char)cp;
  else if (cp < 0x800) { s += (char)(0xc0 | cp >> 6); s += (char)(0x80 | (cp & 0x3f)); }
  else if (cp < 0x10000) { s += (char)(0xe0 | cp >> 12); s += (char)(0x80 | (cp >> 6 & 0x3f)); s += (char)(0x80 | (cp & 0x3f)); }
  else { s += (char)(0xf0 | cp >> 18); s += (char)(0x80 | (cp >> 12 & 0x3f)); s += (char)(0x80 | (cp >> 6 & 0x3f)); s += (char)(0x80 | (cp & 0x3f)); }
  return s;
}
// Reference decoder.  kind: 0 ok, 1 malformed structure (must be rejected),
// 2 structurally fine but overlong / surrogate / >10FFFF (verdict unspecified)
struct Piece { u32 cp; size_t off, len; };
int reference(const std::string& s, std::vector<Piece>* out) {
  bool odd = false;
  for (size_t i = 0; i < s.size();) {
    u8 b = (u8)s[i]; size_t n; u32 v;
    if (b < 0x80) { n = 1; v = b; } else if (b < 0xc0) return 1; else if (b < 0xe0) { n = 2; v = b & 0x1f; } else if (b < 0xf0) { n = 3; v = b & 0xf; } else if (b < 0xf8) { n = 4; v = b & 7; } else return 1;
    if (i + n > s.size()) return 1;
    for (size_t k = 1; k < n; ++k) { u8 x = (u8)s[i + k]; if ((x & 0xc0) != 0x80) return 1; v = v << 6 | (x & 0x3f); }
    if ((n == 2 && v < 0x80) || (n == 3 && v < 0x800) || (n == 4 && v < 0x10000) || v > 0x10ffff || (v >= 0xd800 && v < 0xe000)) odd = true;
    out->push_back({v, i, n}); i += n;
  }
  return odd ? 2 : 0;
}
struct Range { u32 lo, hi; int cls; };
static const Range classTable[] = {
#include "char_classes.inc"
};
const char* const unspecNote = "the codes @ [ ` { and their fullwidth forms sit between two rules and are left unspecified";
bool classUnspecified(u32 cp) { return cp == 0x40 || cp == 0x5b || cp == 0x60 || cp == 0x7b || cp == 0xff20 || cp == 0xff3b || cp == 0xff40 || cp == 0xff5b; }
int refClass(u32 cp) { size_t lo = 0, hi = sizeof(classTable) / sizeof(classTable[0]); while (hi - lo > 1) { size_t m = (lo + hi) / 2; if (classTable[m].lo <= cp) lo = m; else hi = m; } return classTable[lo].cls; }

int verify(Ctx& c, const std::string& s) {
  Exact e{s}; std::vector<chars::InputCodepoint> r; std::vector<Piece> want;
  int k = reference(s, &want);
  Status st = chars::preprocessRawData(e.sp(), &r);
  if (k == 1 && st) c.fail("malformed-accepted", "malformed bytes %s accepted", hex(s).c_str());
  if (k == 0 && !st) c.fail("valid-rejected", "well-formed bytes %s rejected: %s", hex(s).c_str(), std::string(st.message().begin(), st.message().end()).c_str());
  if (st) {
    if (k == 2) return 2;
    if (r.size() != want.size()) c.fail("count", "%s split into %zu code points, expected %zu", hex(s).c_str(), r.size(), want.size());
    for (size_t i = 0; i < r.size(); ++i) {
      if (r[i].codepoint != want[i].cp) c.fail("codepoint", "%s: code point %zu is %x expected %x", hex(s).c_str(), i, (u32)r[i].codepoint, want[i].cp);
      if (r[i].bytes.begin() != e.p.get() + want[i].off || r[i].bytes.size() != want[i].len) c.fail("bytes", "%s: code point %zu reported with wrong bytes", hex(s).c_str(), i);
      if (!classUnspecified(want[i].cp) && (int)r[i].charClass != refClass(want[i].cp)) c.fail("class", "U+%04X has class %x expected %x", want[i].cp, (int)r[i].charClass, refClass(want[i].cp));
      if (r[i].charClass != chars::getCodeType(want[i].cp)) c.fail("class-context", "class of U+%04X depends on its place", want[i].cp);
    }
    if (k == 0 && chars::numCodepoints(e.sp()) != (i32)want.size()) c.fail("numcodepoints", "numCodepoints %d expected %zu", chars::numCodepoints(e.sp()), want.size());
  }
  return k;
}
// every byte sequence of length 1..3
void bytes3(Ctx& c) {
  int a = c.choose(256), n = c.range(1, 3);
  std::string s(n, 0); s[0] = (char)a; u64 acc = 0;
  if (n == 1) { acc = verify(c, s); c.count(); }
  if (n == 2) for (int b = 0; b < 256; ++b) { s[1] = (char)b; acc = acc * 3 + verify(c, s); c.count(); }
  if (n == 3) for (int b = 0; b < 256; ++b) for (int d = 0; d < 256; ++d) { s[1] = (char)b; s[2] = (char)d; acc = acc * 3 + verify(c, s); c.count(); }
  c.note("%02x.. len %d", a, n); c.sig(acc * 7919 + a * 4 + n);
}
// 4 byte sequences: every lead byte x boundary continuation bytes, all
// truncations and extensions
void bytes4(Ctx& c) {
  static const u8 B[] = {0x00, 0x20, 0x41, 0x7f, 0x80, 0x81, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc2, 0xdf, 0xe0, 0xef, 0xf0, 0xf4, 0xf7, 0xf8, 0xff};
  u8 lead = (u8)c.range(0xe0, 0xff); u8 b1 = c.pick(B);
  u64 acc = 0; std::string s(4, 0); s[0] = (char)lead; s[1] = (char)b1;
  for (u8 b2 : B) for (u8 b3 : B) {
    s[2] = (char)b2; s[3] = (char)b3; acc = acc * 3 + verify(c, s); c.count();
    acc = acc * 3 + verify(c, s + "a"); acc = acc * 3 + verify(c, "\xe3\x81\x82" + s); c.count(2);
  }
  c.note("%02x %02x", lead, b1); c.sig(acc * 7919 + lead * 256 + b1);
}
// every code point, alone and in the middle of text; the class of each
void allCodepoints(Ctx& c) {
  u32 page = (u32)c.choose(17) << 16 | (u32)c.choose(256) << 8; u64 acc = page;
  for (u32 cp = page; cp < page + 256; ++cp) {
    if (cp >= 0xd800 && cp < 0xe000) continue;
    std::string s = encode(cp);
    if (verify(c, s) != 0) c.fail("harness", "reference disagrees");
    verify(c, "\xe3\x81\x82" + s + "a" + s);
    Exact e{s}; auto ci = chars::getCodepoint(e.sp().ubegin(), e.sp().uend());
    if (ci.codepoint != cp || ci.utf8Length != (int)s.size()) c.fail("getcodepoint", "getCodepoint(U+%04X) = U+%04X", cp, (u32)ci.codepoint);
    chars::InputCodepoint ic{e.sp()};
    if (ic.codepoint != cp || ic.charClass != chars::getCodeType(cp)) c.fail("inputcodepoint", "InputCodepoint of U+%04X wrong", cp);
    acc = acc * 31 + (u64)chars::getCodeType(cp); c.count(2);
  }
  c.note("U+%04X..", page); c.sig(acc);
}
// texts made of well-formed characters of each length and broken pieces
void texts(Ctx& c) {
  static const std::vector<std::string> P{"a", "\xc3\xa9", "\xe3\x81\x82", "\xf0\xa0\xae\xb7", std::string(1, '\0'), "\n", "\x80", "\xc3", "\xe3\x81", "\xf0\xa0\xae", "\xff", "\xe3", "\xf0"};
  std::string s = c.str(P, 0, c.thorough() ? 5 : 4);
  c.note("%s", hex(s).c_str());
  int k = verify(c, s);
  // through the analyzer's own input object, reused after another input
  core::analysis::AnalysisInput in{64}; std::vector<Piece> want; reference(s, &want);
  for (int round = 0; round < 2; ++round) {
    (void)in.reset("\xe3\x81\x84zz");
    if (round) (void)in.reset("a\xff");
    Exact e{s}; Status st = in.reset(e.sp()); memset(e.p.get(), '#', e.n);
    if (bool(st) != (k == 0) && k != 2) c.fail("input-verdict", "AnalysisInput verdict wrong for %s", hex(s).c_str());
    if (st) {
      if (in.surface().str() != s || in.numCodepoints() != want.size()) c.fail("input-surface", "AnalysisInput keeps other text");
      for (size_t i = 0; i < want.size(); ++i) for (size_t j = i; j <= want.size(); ++j) {
        std::string w = i == j ? "" : s.substr(want[i].off, want[j - 1].off + want[j - 1].len - want[i].off);
        if (in.surface((i32)i, (i32)j).str() != w) c.fail("input-slice", "surface(%zu,%zu) wrong", i, j);
      }
    }
  }
  c.sig(s);
}
// size limit: exactly at the limit accepted, one byte more rejected
void limits(Ctx& c) {
  int lim = c.range(0, 40); int n = c.range(0, 45); int w = c.range(1, 4);
  if (n % w) c.discard();
  static const char* ch[] = {"", "a", "\xc3\xa9", "\xe3\x81\x82", "\xf0\xa0\xae\xb7"};
  std::string s; for (int i = 0; i < n / w; ++i) s += ch[w];
  core::analysis::AnalysisInput in{(size_t)lim};
  Exact e{s}; bool ok = (bool)in.reset(e.sp());
  if (ok != (n <= lim)) c.fail("limit", "%d bytes with limit %d: accepted=%d", n, lim, ok);
  if (ok && in.numCodepoints() != n / w) c.fail("limit-count", "wrong code point count");
  c.note("limit %d, %d bytes", lim, n); c.sig((u64)lim * 64 + n);
}
// number of code points near the 16 bit position limit
void hugeInputs(Ctx& c) {
  static const int N[] = {32766, 32767, 32768, 65533, 65534, 65535, 65536, 65537, 70000};
  int n = c.pick(N); int w = c.flag() ? 3 : 1; std::string s; for (int i = 0; i < n; ++i) s += w == 3 ? "\xe3\x81\x82" : "x";
  core::analysis::AnalysisInput in{1000000}; bool ok = (bool)in.reset(s);
  if (ok && (in.codepoints().size() != (size_t)n || in.numCodepoints() != n)) c.fail("wrap", "input of %d code points is reported as %d", n, in.numCodepoints());
  if (!ok && n + 2 <= (int)std::numeric_limits<core::analysis::LatticePosition>::max()) c.fail("huge-rejected", "%d code points rejected", n);
  c.note("%d x %d", n, w); c.sig((u64)n * 4 + w + ok);
}
// classes asked in every order of a few representatives (no hidden state)
void classOrder(Ctx& c) {
  static const u32 R[] = {0x20, 0x3001, 0x3042, 0x3083, 0x30a2, 0x30fc, 0xff70, 0x4e00, 0x5341, 0x6570, 0x41, 0x31, 0x25cb, 0x300c};
  int a = c.choose(14), b = c.choose(14), d = c.choose(14);
  for (int i : {a, b, d, a}) if ((int)chars::getCodeType(R[i]) != refClass(R[i])) c.fail("class-order", "class of U+%04X changes with history", R[i]);
  c.sig((u64)a * 400 + b * 20 + d); c.note("%x %x %x", R[a], R[b], R[d]);
}
}  // namespace
int main(int argc, char** argv) {
  if (argc > 1 && !strcmp(argv[1], "--dump-classes")) {
    int last = -1; u32 lo = 0;
    for (u32 cp = 0; cp <= 0x10ffff + 1; ++cp) {
      int k = cp <= 0x10ffff ? (int)chars::getCodeType(cp) : -2;
      if (k != last) { if (last != -1) printf("{0x%x,0x%x,0x%x},\n", lo, cp - 1, last); lo = cp; last = k; }
    }
    return 0;
  }
  return mc::run(argc, argv, {
    {"bytes_1_3", bytes3, "every byte sequence of length 1..3 in an exact-size buffer"},
    {"bytes_4", bytes4, "lead bytes e0..ff x 21^3 boundary bytes, alone, followed and preceded by text"},
    {"all_codepoints", allCodepoints, "every Unicode scalar value: decode, length, class table"},
    {"texts", texts, "all texts of <=4 (5) pieces out of 13 (valid of each length, every kind of damage)"},
    {"limits", limits, "all limits 0..40 x lengths 0..45 x character widths"},
    {"huge", hugeInputs, "code point counts around 2^15 and 2^16"},
    {"class_order", classOrder, "class queries in every order of 3 of 14 representatives"},
  });
}
