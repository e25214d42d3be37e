// LIBS: v_mc v_util
// P20: containers against std models, all operation sequences up to a depth,
// with hash functors that force every collision pattern of the tables.
#include "mc.h"
#include "util/flatmap.h"
#include "util/flatset.h"
#include "util/inlined_vector.h"
#include "util/lru_cache.h"
#include <list>
#include <map>
#include <set>
using namespace jumanpp;
using mc::Ctx;

namespace {
// element type with life tracking
struct Tracked {
  static long live;
  int v;
  unsigned magic = 0x600dcafe;
  Tracked() : v(0) { ++live; }
  Tracked(int x) : v(x) { ++live; }
  Tracked(const Tracked& o) : v(o.v) { o.chk(); ++live; }
  Tracked(Tracked&& o) : v(o.v) { o.chk(); ++live; }
  Tracked& operator=(const Tracked& o) { chk(); o.chk(); v = o.v; return *this; }
  ~Tracked() { chk(); magic = 0xdeadbeef; --live; }
  void chk() const { if (magic != 0x600dcafe) throw mc::Violation{"lifetime", "use of an element that is not alive"}; }
  bool operator==(const Tracked& o) const { chk(); o.chk(); return v == o.v; }
  bool operator!=(const Tracked& o) const { return !(*this == o); }
  bool operator<(const Tracked& o) const { return v < o.v; }
};
long Tracked::live = 0;

// hash layout: low 8 bits = marker, next bits = slot
enum HashMode { SameSlotSameMarker, SameSlot, SameMarker, Spread, LowMarkers, Stride };
size_t hashOf(int mode, int v) {
  switch (mode) {
    case SameSlotSameMarker: return 0;
    case SameSlot: return (7u << 8) | (unsigned)(v & 0xff);
    case SameMarker: return ((size_t)v << 8) | 5;
    case LowMarkers: return ((size_t)(v / 3) << 8) | (v % 3);  // 0 and 1 are special markers
    case Stride: return ((size_t)(v * 8) << 8) | (v & 3);
    default: return (size_t)v * 0x9e3779b97f4a7c15ULL;
  }
}
int gMode = 0;
struct H { size_t operator()(const Tracked& t) const { return hashOf(gMode, t.v); }
           size_t operator()(int t) const { return hashOf(gMode, t); } };

using Map = util::FlatMap<Tracked, Tracked, H>;
void checkMap(Ctx& c, const Map& m, const std::map<int, int>& ref, const char* when) {
  if (m.size() != ref.size()) c.fail("map-size", "%s: size %zu, expected %zu", when, m.size(), ref.size());
  c.check(m.empty() == ref.empty(), "map-empty", "empty() is wrong");
  std::map<int, int> seen;
  size_t n = 0;
  for (auto& p : m) { seen[p.first.v] = p.second.v; if (++n > 200) break; }
  if (n != ref.size() || seen != ref) c.fail("map-iter", "%s: iteration yields %zu entries, expected %zu (or wrong contents)", when, n, ref.size());
  for (int k = 0; k < 18; ++k) {
    auto it = m.find(Tracked(k));
    auto r = ref.find(k);
    if ((it != m.end()) != (r != ref.end())) c.fail("map-find", "%s: key %d found=%d", when, k, (int)(it != m.end()));
    if (r != ref.end() && it->second.v != r->second) c.fail("map-value", "%s: key %d maps to %d, expected %d", when, k, it->second.v, r->second);
    if (m.count(Tracked(k)) != (r != ref.end() ? 1u : 0u) || m.exists(Tracked(k)) != (r != ref.end())) c.fail("map-count", "count/exists of %d", k);
    c.count();
  }
}
void mapOps(Ctx& c) {
  gMode = c.choose(6);
  Tracked::live = 0;
  int depth = c.thorough() ? 6 : 5;
  std::string log = "mode " + std::to_string(gMode);
  {
    Map m, other;
    std::map<int, int> ref, oref;
    int next = 0;
    auto put = [&](int k, int v) {
      auto r = m.insert(std::make_pair(Tracked(k), Tracked(v)));
      bool ins = ref.insert({k, v}).second;
      if (r.second != ins || r.first->first.v != k || r.first->second.v != ref[k]) c.fail("map-insert", "insert(%d) reports %d", k, (int)r.second);
    };
    for (int d = 0; d < depth; ++d) {
      int op = c.choose(11);
      log += " op" + std::to_string(op);
      c.note("%s", log.c_str());
      switch (op) {
        case 0: put(next++ % 18, d); break;
        case 1: for (int i = 0; i < 5; ++i) put(next++ % 18, d * 10 + i); break;
        case 2: if (next) { int k = (next - 1) % 18; bool e = m.erase(Tracked(k)); c.check(e == (ref.erase(k) > 0), "map-erase", "erase result"); } break;
        case 3: for (int k = 0; k < 18; k += 2) { bool e = m.erase(Tracked(k)); c.check(e == (ref.erase(k) > 0), "map-erase", "erase result"); } break;
        case 4: put(0, 100 + d); put(3, 200 + d); break;
        case 5: m[Tracked(1)] = Tracked(300 + d); ref[1] = 300 + d; break;
        case 6: m.clear(); ref.clear(); break;
        case 7: other = m; oref = ref; break;
        case 8: m.swap(other); ref.swap(oref); break;
        case 9: m.reserve(c.choose(2) ? 40 : 0); break;
        case 10: { auto& v = m.findOrInsert(Tracked(2), [&] { return Tracked(400 + d); });
                   auto r = ref.insert({2, 400 + d}); c.check(v.v == r.first->second, "map-foi", "findOrInsert value"); break; }
      }
      checkMap(c, m, ref, "after op");
    }
    checkMap(c, other, oref, "copy");
    Map cp{m};
    checkMap(c, cp, ref, "copy constructed");
    c.check(cp == m, "map-eq", "copy is not equal to the original");
    std::string s;
    for (auto& p : ref) s += std::to_string(p.first) + ":" + std::to_string(p.second) + ",";
    c.sig(s + "/" + std::to_string(gMode) + "/" + std::to_string(m.bucket_count()));
  }
  if (Tracked::live != 0) c.fail("lifetime", "%ld elements leaked or destroyed twice", Tracked::live);
}

using Set = util::FlatSet<Tracked, H>;
void setOps(Ctx& c) {
  gMode = c.choose(6);
  Tracked::live = 0;
  int depth = c.thorough() ? 7 : 6;
  std::string log = "mode " + std::to_string(gMode);
  {
    Set m;
    std::set<int> ref;
    int next = 0;
    for (int d = 0; d < depth; ++d) {
      int op = c.choose(6);
      log += " op" + std::to_string(op);
      c.note("%s", log.c_str());
      auto put = [&](int k) { auto r = m.insert(Tracked(k)); c.check(r.second == ref.insert(k).second && (*r.first).v == k, "set-insert", "insert result"); };
      switch (op) {
        case 0: put(next++ % 16); break;
        case 1: for (int i = 0; i < 6; ++i) put(next++ % 16); break;
        case 2: for (int k = 1; k < 16; k += 3) { bool e = m.erase(Tracked(k)); c.check(e == (ref.erase(k) > 0), "set-erase", "erase result"); } break;
        case 3: { auto it = m.begin(); if (it != m.end()) { int k = (*it).v; m.erase(it); ref.erase(k); } break; }
        case 4: m.clear_no_resize(); ref.clear(); break;
        case 5: { Set x{m}; m = x; m.resize(0); break; }
      }
      c.check(m.size() == ref.size(), "set-size", "size is wrong");
      std::set<int> seen;
      size_t n = 0;
      for (auto& k : m) { seen.insert(k.v); if (++n > 100) break; }
      c.check(seen == ref && n == ref.size(), "set-iter", "iteration is wrong");
      for (int k = 0; k < 16; ++k) { c.check((m.count(Tracked(k)) > 0) == (ref.count(k) > 0), "set-count", "membership is wrong"); c.count(); }
    }
    std::string s;
    for (int p : ref) s += std::to_string(p) + ",";
    c.sig(s + "/" + std::to_string(gMode) + "/" + std::to_string(m.bucket_count()));
  }
  if (Tracked::live != 0) c.fail("lifetime", "%ld elements leaked or destroyed twice", Tracked::live);
}

void lruOps(Ctx& c) {
  gMode = c.choose(4);
  int cap = c.range(1, 3);
  util::LruCache<int, int, H> cache{(size_t)cap};
  int depth = c.thorough() ? 8 : 7;
  std::string log = "mode " + std::to_string(gMode) + " capacity " + std::to_string(cap) + ":";
  int version[4] = {0, 0, 0, 0};
  bool ever[4] = {false, false, false, false};
  int hits = 0;
  for (int d = 0; d < depth; ++d) {
    int k = c.choose(4);
    int out = -1;
    // the way it is used: look up, compute and insert on a miss
    bool hit = cache.tryFind(k, &out);
    log += " " + std::to_string(k) + (hit ? "+" : "-");
    c.note("%s", log.c_str());
    if (hit) {
      c.check(ever[k], "lru-ghost", "lookup finds a key that was never inserted");
      if (out != k * 1000 + version[k]) c.fail("lru-value", "key %d yields %d", k, out);
      ++hits;
    } else {
      cache.insert(k, k * 1000 + version[k]);
      ever[k] = true;
    }
    int again = -1;
    c.check(cache.tryFind(k, &again) && again == k * 1000 + version[k], "lru-recent", "the entry used last is not in the cache");
  }
  c.sig(log);
}

template <typename T, int N>
void ivOps(Ctx& c, const char* nm) {
  Tracked::live = 0;
  int depth = c.thorough() ? 6 : 5;
  std::string log = nm;
  {
    util::InlinedVector<T, N> v, w;
    std::vector<T> r, rw;
    int val = 1;
    auto same = [&](const util::InlinedVector<T, N>& a, const std::vector<T>& b, const char* what) {
      if (a.size() != b.size()) c.fail("iv-size", "%s size %zu expected %zu", what, a.size(), b.size());
      c.check(a.empty() == b.empty(), "iv-empty", "empty()");
      if (a.capacity() < a.size()) c.fail("iv-capacity", "capacity below size");
      for (size_t i = 0; i < b.size(); ++i) if (!(a[i] == b[i])) c.fail("iv-value", "%s element %zu differs", what, i);
      if (!std::equal(a.begin(), a.end(), b.begin())) c.fail("iv-iter", "%s iteration differs", what);
      c.count();
    };
    for (int d = 0; d < depth; ++d) {
      int op = c.choose(14);
      log += " " + std::to_string(op);
      c.note("%s", log.c_str());
      switch (op) {
        case 0: v.push_back(T(val)); r.push_back(T(val)); ++val; break;
        case 1: for (int i = 0; i < N + 1; ++i) { v.emplace_back(val); r.emplace_back(val); ++val; } break;
        case 2: if (!r.empty()) { v.pop_back(); r.pop_back(); } break;
        case 3: v.clear(); r.clear(); break;
        case 4: v.resize(N); r.resize(N); break;
        case 5: v.resize(3 * N + 2, T(77)); r.resize(3 * N + 2, T(77)); break;
        case 6: v.swap(w); r.swap(rw); break;
        case 7: w = v; rw = r; break;
        case 8: v = w; r = rw; break;
        case 9: if (!r.empty()) { auto it = v.erase(v.begin()); c.check(it == v.begin(), "iv-erase", "erase result"); r.erase(r.begin()); } break;
        case 10: if (r.size() > 2) { v.erase(v.begin() + 1, v.begin() + 2 + r.size() / 3); r.erase(r.begin() + 1, r.begin() + 2 + r.size() / 3); } break;
        case 11: { T x(val); ++val; auto it = v.insert(v.begin() + r.size() / 2, x); c.check(*it == x, "iv-insert", "insert result"); r.insert(r.begin() + r.size() / 2, x); break; }
        case 12: v.reserve(2 * N + 1); break;
        case 13: { util::InlinedVector<T, N> z{v}; same(z, r, "copy"); util::InlinedVector<T, N> y(r.begin(), r.end()); same(y, r, "range constructed"); c.check(z == y && !(z < y), "iv-cmp", "comparison"); break; }
      }
      same(v, r, "vector");
    }
    same(w, rw, "second vector");
    std::string s;
    c.sig(std::string(nm) + std::to_string(r.size()) + "/" + std::to_string(rw.size()) + "/" + std::to_string(v.capacity()) + "/" + std::to_string(w.capacity()) + "/" + std::to_string(val));
  }
  if (Tracked::live != 0) c.fail("lifetime", "%ld elements leaked or destroyed twice", Tracked::live);
}
void ivAll(Ctx& c) {
  switch (c.choose(3)) {
    case 0: ivOps<Tracked, 2>(c, "tracked,2:"); break;
    case 1: ivOps<int, 4>(c, "int,4:"); break;
    case 2: ivOps<unsigned char, 30>(c, "byte,30:"); break;
  }
}
}  // namespace
int main(int argc, char** argv) {
  return mc::run(argc, argv, {
    {"flatmap_ops", mapOps, "all sequences of 5 (6) of 11 operations x 6 hash collision layouts; full contents compared after every operation"},
    {"flatset_ops", setOps, "all sequences of 6 (7) of 6 operations x 6 hash collision layouts"},
    {"lru_ops", lruOps, "all key sequences of length 7 (8) over 4 keys, capacities 1-3, 4 hash layouts, look-up-then-insert protocol"},
    {"inlined_vector_ops", ivAll, "all sequences of 5 (6) of 14 operations on 3 instantiations"},
  });
}
