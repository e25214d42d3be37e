// LIBS: v_mc v_core
// P03: serialized data reads back equal; damaged data is refused.
#include <memory>
#include <map>
#include <cmath>
#include "mc.h"
#include "util/flatmap.h"
#include "util/serialization.h"
#include "util/serialization_flatmap.h"
using namespace jumanpp;
using mc::Ctx;
namespace S = jumanpp::util::serialization;

struct In { i32 a = 0; std::string s; };
template <typename A> void Serialize(A& a, In& o) { a& o.a; a& o.s; }
enum class En : i32 { X = 0, Y = 7, Z = 300 };
SERIALIZE_ENUM_CLASS(En, i32)
struct Out {
  bool b = false; i64 l = 0; u64 ul = 0; u32 u = 0; float f = 0;
  std::vector<In> v; std::vector<std::vector<i32>> vv; std::string s; En e = En::X;
  i32 last = 0;
};
template <typename A> void Serialize(A& a, Out& o) {
  a& o.b; a& o.l; a& o.ul; a& o.u; a& o.f; a& o.v; a& o.vv; a& o.s; a& o.e; a& o.last;
}
struct Scal { i32 a = 0; i64 b = 0; u32 c = 0; u64 d = 0; float f = 0; bool t = false; };
template <typename A> void Serialize(A& a, Scal& o) { a& o.a; a& o.b; a& o.c; a& o.d; a& o.f; a& o.t; }
struct Flat { util::FlatMap<std::string, i32> m; i32 tail = 0; };
template <typename A> void Serialize(A& a, Flat& o) { a& o.m; a& o.tail; }

namespace {
bool eq(const In& a, const In& b) { return a.a == b.a && a.s == b.s; }
bool feq(float a, float b) { return memcmp(&a, &b, 4) == 0; }
bool eq(const Out& a, const Out& b) {
  if (!(a.b == b.b && a.l == b.l && a.ul == b.ul && a.u == b.u && feq(a.f, b.f) && a.vv == b.vv && a.s == b.s && a.e == b.e && a.last == b.last)) return false;
  if (a.v.size() != b.v.size()) return false;
  for (size_t i = 0; i < a.v.size(); ++i) if (!eq(a.v[i], b.v[i])) return false;
  return true;
}
bool eq(const Scal& a, const Scal& b) { return a.a == b.a && a.b == b.b && a.c == b.c && a.d == b.d && feq(a.f, b.f) && a.t == b.t; }
bool eq(Flat& a, Flat& b) {
  if (a.tail != b.tail || a.m.size() != b.m.size()) return false;
  for (auto& kv : a.m) { auto i = b.m.find(kv.first); if (i == b.m.end() || i->second != kv.second) return false; }
  return true;
}
std::string enc(const u8* p, size_t n) { std::string r; char b[4]; for (size_t i = 0; i < n; ++i) { snprintf(b, 4, "%02x ", p[i]); r += b; } return r; }

// exact-size heap copy: any over-read is an ASan report
struct Exact {
  std::unique_ptr<char[]> p; size_t n;
  explicit Exact(const std::string& s) : p(new char[s.size() ? s.size() : 1]), n(s.size()) { memcpy(p.get(), s.data(), n); }
  StringPiece sp() const { return StringPiece{p.get(), p.get() + n}; }
};
template <typename T> std::string save(T& o) { S::Saver s; s.save(o); auto r = s.result(); return std::string(r.begin(), r.end()); }
template <typename T> bool load(const std::string& d, T* o) { Exact e{d}; S::Loader l{e.sp()}; return l.load(o); }

template <typename T> void full(Ctx& c, T& o, bool corrupt) {
  std::string d = save(o);
  c.note("%s", enc((const u8*)d.data(), d.size()).c_str());
  c.sig(d);
  {
    T x; if (!load(d, &x)) c.fail("load-fails", "saved data is not loaded");
    if (!eq(o, x)) c.fail("not-equal", "loaded object differs from the saved one");
    c.count();
  }
  { T x; if (load(d + '\0', &x)) c.fail("extra-accepted", "data followed by an extra byte is accepted"); c.count(); }
  for (size_t i = 0; i < d.size(); ++i) {
    T x; if (load(d.substr(0, i), &x)) c.fail("prefix-accepted", "first %zu of %zu bytes load successfully", i, d.size());
    c.count();
  }
  if (corrupt) {
    static const u8 vals[] = {0x00, 0x01, 0x7f, 0x80, 0x81, 0xff};
    for (size_t i = 0; i < d.size(); ++i)
      for (u8 v : vals) {
        std::string m = d; if ((u8)m[i] == v) continue; m[i] = (char)v;
        T x; load(m, &x);  // must neither crash, hang nor over-read; verdict free
        // and a truncated damaged buffer
        if (i + 1 < d.size()) { T y; load(m.substr(0, i + 1), &y); }
        c.count(2);
      }
  }
}
template <typename T> const std::vector<T>& edges() {
  static std::vector<T> r = [] {
    std::vector<T> x;
    for (int bit = 0; bit < (int)sizeof(T) * 8; ++bit)
      for (int d = -1; d <= 1; ++d) x.push_back((T)((typename std::make_unsigned<T>::type(1) << bit) + d));
    x.push_back(0); x.push_back((T)~T(0));
    std::sort(x.begin(), x.end()); x.erase(std::unique(x.begin(), x.end()), x.end());
    return x;
  }();
  return r;
}
std::vector<float>& floats() {
  static std::vector<float> f{0.f, -0.f, 1.f, -1.f, 1e-45f, -1e-45f, 3.4028235e38f, -3.4028235e38f, INFINITY, -INFINITY, NAN, 0.1f};
  return f;
}
// every value around every power of two, for each integer type
void ints(Ctx& c) {
  int t = c.choose(4);
  Scal o;
  char buf[40];
  // fixed neighbours must survive whatever value is in the middle
  o.a = -1; o.b = 5; o.c = 300; o.d = 1; o.f = 0.1f; o.t = true;
  if (t == 0) o.a = c.pick(edges<i32>()); else if (t == 1) o.b = c.pick(edges<i64>());
  else if (t == 2) o.c = c.pick(edges<u32>()); else o.d = c.pick(edges<u64>());
  full(c, o, false);
}
void scal(Ctx& c) {
  Scal o;
  static const i32 A[] = {0, 127, 128, -1, INT32_MIN, INT32_MAX};
  static const i64 B[] = {0, -1, INT64_MIN, INT64_MAX, 1ll << 35};
  static const u32 C[] = {0, 128, 0xffffffffu};
  static const u64 D[] = {0, 1ull << 63, ~0ull, 16384};
  o.a = c.pick(A); o.b = c.pick(B); o.c = c.pick(C); o.d = c.pick(D); o.f = c.pick(floats()); o.t = c.flag();
  full(c, o, c.thorough());
}
std::string genStr(Ctx& c) {
  switch (c.choose(c.thorough() ? 5 : 4)) {
    case 0: return ""; case 1: return "a"; case 2: return std::string("\0\x80\xff", 3);
    case 4: return std::string(127, 'x'); default: return std::string(128, 'y');
  }
}
void nested(Ctx& c) {
  Out o;
  o.b = c.flag(); o.l = c.thorough() && c.flag() ? -3 : 9; o.ul = c.thorough() && c.flag() ? 3 : ~0ull; o.u = 70000; o.f = -2.5f;
  int n = c.choose(3);
  for (int i = 0; i < n; ++i) { In x; x.a = i ? -1 : 1000; x.s = genStr(c); o.v.push_back(x); }
  int m = c.choose(3);
  for (int i = 0; i < m; ++i) { std::vector<i32> v; int k = c.choose(3); for (int j = 0; j < k; ++j) v.push_back(j * 200 - 1); o.vv.push_back(v); }
  o.s = genStr(c);
  o.e = (En[]){En::X, En::Y, En::Z}[c.choose(3)];
  o.last = c.flag() ? 77 : 0;
  full(c, o, true);
}
// vectors with every size around varint boundaries
void vecSizes(Ctx& c) {
  static const int sz[] = {0, 1, 2, 126, 127, 128, 129, 255, 256, 16383, 16384, 16385};
  int n = c.pick(sz);
  std::vector<i32> v; for (int i = 0; i < n; ++i) v.push_back(i * 37);
  std::string d = save(v); c.note("vector of %d", n); c.sig(d);
  std::vector<i32> w; if (!load(d, &w) || v != w) c.fail("vector", "vector of %d elements does not survive", n);
  for (size_t i = 0; i < d.size(); i += (d.size() > 2000 ? 97 : 1)) { std::vector<i32> x; if (load(d.substr(0, i), &x)) c.fail("vector-prefix", "prefix %zu of %zu accepted", i, d.size()); c.count(); }
}
void flatmaps(Ctx& c) {
  Flat o; int n = c.choose(6);
  for (int i = 0; i < n; ++i) o.m[std::string(1, 'a' + c.choose(4))] = i * 100 - 50;
  if (n > 1 && c.flag()) o.m.erase("a");
  o.tail = 5;
  full(c, o, false);
}
// every byte string as serialized data: never accepted unless it is the
// serialization of something that re-serializes to an equivalent value
void raw(Ctx& c) {
  static const u8 A[] = {0x00, 0x01, 0x02, 0x05, 0x7f, 0x80, 0xff};
  int n = c.range(0, c.thorough() ? 6 : 5);
  std::string d; for (int i = 0; i < n; ++i) d += (char)c.pick(A);
  c.note("%s", enc((const u8*)d.data(), d.size()).c_str());
  std::vector<In> v; std::vector<std::string> vs; std::string s; u64 u; std::vector<std::vector<i32>> vv;
  bool r1 = load(d, &v), r2 = load(d, &vs), r3 = load(d, &s), r4 = load(d, &u), r5 = load(d, &vv);
  if (r1) { std::vector<In> w; if (!load(save(v), &w) || w.size() != v.size()) c.fail("reload", "accepted data does not survive another round"); }
  if (r3) { std::string w; if (!load(save(s), &w) || w != s) c.fail("reload-str", "accepted string does not survive"); }
  if (r4) { u64 w; if (!load(save(u), &w) || w != u) c.fail("reload-u64", "accepted number does not survive"); }
  // strings: independent decoder
  if (n >= 1 && (u8)d[0] < 0x80) {
    bool want = (size_t)(u8)d[0] == d.size() - 1;
    if (r3 != want) c.fail("str-accept", "string data with length byte %d and %zu payload bytes: load says %d", (u8)d[0], d.size() - 1, r3);
    if (r3 && s != d.substr(1)) c.fail("str-value", "wrong string value");
  }
  if (n == 0 && (r1 || r2 || r3 || r4 || r5)) c.fail("empty-accepted", "empty data accepted");
  // varint reference
  u64 val = 0; int i = 0; bool ok = false;
  for (; i < n && i < 10; ++i) { val |= (u64)((u8)d[i] & 0x7f) << (7 * i); if (!((u8)d[i] & 0x80)) { ok = true; ++i; break; } }
  if (r4 != (ok && i == n)) c.fail("varint-accept", "varint accepted=%d expected=%d", r4, ok && i == n);
  if (r4 && u != val) c.fail("varint-value", "varint value %llu expected %llu", (unsigned long long)u, (unsigned long long)val);
  c.count(5);
  c.sig((r1 | r2 * 2 | r3 * 4 | r4 * 8 | r5 * 16) * 1000003ull + (r4 ? u : 0) + v.size() * 7 + vv.size());
}
// one number of up to 12 bytes, anywhere before the end of the buffer (the
// parser has a fast way for numbers which are far from the end)
void varints(Ctx& c) {
  int k = c.choose(c.thorough() ? 13 : 12);
  u64 want = 0;
  std::string d;
  for (int i = 0; i < k; ++i) d += (char)(c.flag() ? 0xff : 0x80);
  int last = c.choose(4);
  static const u8 L[] = {0, 1, 0x7f};
  if (last < 3) d += (char)L[last];
  int tail = c.choose(12);
  d.append(tail, '\0');
  c.note("%s", enc((const u8*)d.data(), d.size()).c_str());
  bool ok = false;
  size_t i = 0;
  for (; i < d.size() && i < 10 && !ok; ++i) { want |= (u64)((u8)d[i] & 0x7f) << (7 * i); ok = !((u8)d[i] & 0x80); }
  bool lossy = ok && i == 10 && (u8)d[9] > 1;       // more than 64 bits: either way
  Exact e{d};
  util::CodedBufferParser p{e.sp()};
  u64 v = 0;
  bool got = p.readVarint64(&v);
  c.count();
  c.sig(got * 1000003ull + v);
  if (lossy && !got) return;
  if (got != ok) c.fail("varint-accept", "varint accepted=%d expected=%d", got, ok);
  if (!got) return;
  if (v != want) c.fail("varint-value", "varint value %llu expected %llu", (unsigned long long)v, (unsigned long long)want);
  if ((size_t)p.numReadBytes() != i) c.fail("varint-length", "%zu bytes are read, not %zu", (size_t)p.numReadBytes(), i);
}
// CodedBuffer / parser sequences: what was written in any order comes back in
// the same order, whatever way the buffer grows
void coded(Ctx& c) {
  util::CodedBuffer b;
  struct Op { int k; u64 v; std::string s; };
  std::vector<Op> ops;
  int n = c.range(1, c.thorough() ? 5 : 4);
  for (int i = 0; i < n; ++i) {
    Op o; o.k = c.choose(3); o.v = 0;
    if (o.k == 0) { static const u64 V[] = {0, 127, 128, 1ull << 62, ~0ull}; o.v = c.pick(V); }
    else if (o.k == 1) { static const u64 V[] = {0, 0xdeadbeef, 0xffffffff}; o.v = c.pick(V); }
    else { static const int L[] = {0, 1, 9, 11, 300}; o.s = std::string(c.pick(L), 'a' + i); }
    ops.push_back(o);
  }
  int rounds = c.flag() ? 2 : 1;
  for (int r = 0; r < rounds; ++r) {
    b.reset();
    for (auto& o : ops) { if (o.k == 0) b.writeVarint(o.v); else if (o.k == 1) b.writeFixed32((u32)o.v); else b.writeString(o.s); }
    if (b.position() != b.contents().size()) c.fail("position", "position() differs from the content size");
    Exact e{std::string(b.contents().begin(), b.contents().end())};
    util::CodedBufferParser p{e.sp()};
    for (auto& o : ops) {
      if (o.k == 0) { u64 v; if (!p.readVarint64(&v) || v != o.v) c.fail("coded-varint", "varint lost"); }
      else if (o.k == 1) { u32 v; if (!p.readFixed32(&v) || v != (u32)o.v) c.fail("coded-fixed", "fixed32 lost"); }
      else { StringPiece s; if (!p.readStringPiece(&s) || s.str() != o.s) c.fail("coded-string", "string lost"); }
    }
    if (!p.atEnd() || p.remaining() != 0 || (size_t)p.numReadBytes() != e.n) c.fail("coded-end", "not at end after reading everything");
    u64 v; u32 w; StringPiece s;
    if (p.readVarint64(&v) || p.readFixed32(&w) || p.readStringPiece(&s)) c.fail("coded-past-end", "read past the end succeeds");
    c.sig(std::string(e.p.get(), e.n));
  }
}
}  // namespace
int main(int argc, char** argv) {
  return mc::run(argc, argv, {
    {"ints", ints, "every value around every power of two for i32/i64/u32/u64; all strict prefixes"},
    {"scalars", scal, "product of boundary values of all scalar fields; all strict prefixes (thorough: all single-byte damages)"},
    {"nested", nested, "all structures with <=2 nested elements, <=2 nested vectors, 4 (5) string shapes; all strict prefixes, all single-byte damages with 6 values"},
    {"vector_sizes", vecSizes, "vector sizes at varint boundaries"},
    {"flatmap", flatmaps, "all maps built by <=5 assignments over 4 keys, optional erase"},
    {"raw_bytes", raw, "all byte strings of length<=5 (6) over 7 bytes loaded as 5 types"},
    {"varints", varints, "every number of up to 11 (12) bytes of 2 values, 4 last bytes, 0-11 bytes after it"},
    {"coded_buffer", coded, "all write sequences of length<=4 (5) over 13 operations, read back"},
  });
}
