// LIBS: v_mc v_core
// P28 (packed beam entries, all floats) and P29 (top-k selection).
#include <cmath>
#include <numeric>
#include "core/analysis/score_processor.h"
#include "core/analysis/lattice_types.h"
#include "mc.h"
#include "util/stl_util.h"
using namespace jumanpp;
using namespace jumanpp::core::analysis;
using mc::Ctx;
namespace {
// ---------------------------------------------------------------- P28
float bitsToFloat(u32 v) { float f; memcpy(&f, &v, 4); return f; }
u32 floatToBits(float f) { u32 v; memcpy(&v, &f, 4); return v; }
// largest position the type can hold
constexpr u16 MX = std::numeric_limits<u16>::max();
// k-th float in ascending order, k in [0, 2^32)
u32 orderBits(u32 k) { return (k & 0x80000000u) ? (k ^ 0x80000000u) : ~k; }
void allFloats(Ctx& c) {
  u64 blocks = 4096;
  u64 b = (u64)c.choose(64) * 64 + c.choose(64);
  static const u16 P[] = {0, 1, 0x7fff, 256, MX - 1, MX};
  u64 lo = b << 20, hi = (b + 1) << 20;
  c.note("floats %llx..", (unsigned long long)lo);
  u32 h = 0; bool havePrev = false; float prev = 0; BeamCandidate pbc;
  u64 start = lo ? lo - 1 : lo;
  for (u64 k = start; k < hi; ++k) {
    u32 bits = orderBits((u32)k); float f = bitsToFloat(bits);
    if (std::isnan(f)) { havePrev = false; continue; }
    u16 l = P[(k >> 3) % 6], bm = P[k % 6];
    BeamCandidate x{f, l, bm};
    if (floatToBits(x.score()) != bits || x.left() != l || x.beam() != bm)
      c.fail("unpack", "score %a left %u beam %u unpack as %a %u %u", f, l, bm, x.score(), x.left(), x.beam());
    if (havePrev && prev < f) {
      // extreme positions on both sides must not disturb the order of scores
      BeamCandidate lowBig{prev, MX, MX}, highSmall{f, 0, 0};
      if (!(lowBig < highSmall) || !(highSmall > lowBig) || highSmall < lowBig)
        c.fail("order", "entries with scores %a < %a are not ordered", prev, f);
      if (!(pbc < x) || !(x > pbc)) c.fail("order", "entries with scores %a < %a are not ordered", prev, f);
    }
    prev = f; havePrev = true; pbc = x; h += bits;
  }
  (void)blocks;
  c.count(1 << 20);
  c.sig(b * 0x9e3779b97f4a7c15ull + h);
}
// all pairs of a set of extreme scores x all positions
void pairs(Ctx& c) {
  static const float F[] = {0.f, -0.f, 1e-45f, -1e-45f, 1.1754942e-38f, -1.1754942e-38f, 1.f, -1.f, 1.0000001f, 3.4028235e38f, -3.4028235e38f, INFINITY, -INFINITY, 0.1f, -0.1f, 65536.f, -65536.f};
  static const u16 P[] = {0, 1, 255, 256, 0x7fff, MX - 1, MX};
  float a = c.pick(F), b = c.pick(F);
  u16 la = c.pick(P), ba = c.pick(P);
  c.note("%a(%u,%u) vs %a", a, la, ba, b);
  for (u16 lb : P) for (u16 bb : P) {
    BeamCandidate x{a, la, ba}, y{b, lb, bb};
    if (a < b && !(x < y && y > x && !(y < x) && !(x > y))) c.fail("pair", "%a(%u,%u) must be below %a(%u,%u)", a, la, ba, b, lb, bb);
    if (a > b && !(x > y && y < x && !(y > x) && !(x < y))) c.fail("pair", "%a(%u,%u) must be above %a(%u,%u)", a, la, ba, b, lb, bb);
    if (x.left() != la || x.beam() != ba || floatToBits(x.score()) != floatToBits(a)) c.fail("unpack", "unpacking %a %u %u gives %a %u %u", a, la, ba, x.score(), x.left(), x.beam());
    c.count();
  }
  u64 s; float ab[2] = {a, b}; s = Ctx::hash(ab, 8) ^ (la * 65537ull + ba); c.sig(s);
}
void positions(Ctx& c) {
  int hi = c.choose(MX / 256 + 1);
  static const float F[] = {-1.5f, 2.5f, -INFINITY};
  for (int lo = 0; lo < 256; ++lo) for (float f : F) for (u16 o : {(u16)0, (u16)0x7fff, MX}) {
    u16 v = (u16)(hi << 8 | lo);
    BeamCandidate x{f, v, o}, y{f, o, v};
    if (x.left() != v || x.beam() != o || x.score() != f || y.left() != o || y.beam() != v || y.score() != f) c.fail("unpack-pos", "score %g left %u beam %u unpack as %g %u %u", f, v, o, x.score(), x.left(), x.beam());
    c.count(2);
  }
  c.sig((u64)hi);
}
// ---------------------------------------------------------------- P29
std::string show(const std::vector<int>& v) { std::string r; for (int x : v) r += std::to_string(x) + ","; return r; }
// exact-size buffer: touching neighbours is an ASan report
template <typename F> void part(Ctx& c, F f, bool exactMin) {
  int n = c.range(1, c.thorough() ? 8 : 7);
  int kinds = n <= 5 ? 4 : (n == 6 ? 3 : 2);
  if (c.thorough()) ++kinds;
  std::vector<int> v; for (int i = 0; i < n; ++i) v.push_back(c.choose(kinds));
  bool desc = c.flag();
  c.note("%s desc=%d", show(v).c_str(), desc);
  u64 s = 0;
  for (int mn = exactMin ? 0 : 1; mn <= n; ++mn) for (int mx = mn; mx <= n; ++mx) {
    if (exactMin && (mn == n || mx != mn)) continue;
    std::vector<std::pair<int,int>> w; for (int i = 0; i < n; ++i) w.push_back({v[i], i});
    w.shrink_to_fit();
    auto comp = [desc](const std::pair<int,int>& a, const std::pair<int,int>& b) { return desc ? a.first > b.first : a.first < b.first; };
    auto it = f(w.begin(), w.end(), comp, (size_t)mn, (size_t)mx);
    auto k = std::distance(w.begin(), it);
    if (k < mn || k > mx) c.fail("size", "kept %d, wanted between %d and %d", (int)k, mn, mx);
    std::vector<int> seen; for (auto& p : w) { seen.push_back(p.second); if (v[p.second] != p.first) c.fail("perm", "element changed"); }
    std::sort(seen.begin(), seen.end()); for (int i = 0; i < n; ++i) if (seen[i] != i) c.fail("perm", "elements lost or duplicated");
    for (int i = 0; i < k; ++i) for (int j = (int)k; j < n; ++j) if (comp(w[j], w[i])) c.fail("topk", "element %d not kept although better than kept %d (min %d max %d)", w[j].first, w[i].first, mn, mx);
    c.count(); s = s * 31 + k;
  }
  c.sig(s ^ Ctx::hash(v.data(), v.size() * sizeof(int)));
}
void partitionQuick(Ctx& c) { part(c, [](auto a, auto b, auto cmp, size_t mn, size_t mx) { return util::partition(a, b, cmp, mn, mx); }, false); }
void partitionStl(Ctx& c) { part(c, [](auto a, auto b, auto cmp, size_t mn, size_t mx) { return util::partition_stl(a, b, cmp, mn, mx); }, true); }
// all permutations of 0..n-1
void perms(Ctx& c) {
  int n = c.range(1, c.thorough() ? 9 : 8);
  std::vector<int> pool(n), v; std::iota(pool.begin(), pool.end(), 0);
  for (int i = 0; i < n; ++i) { int k = c.choose((int)pool.size()); v.push_back(pool[k]); pool.erase(pool.begin() + k); }
  c.note("%s", show(v).c_str());
  u64 s = 0;
  for (int mn = 1; mn <= n; ++mn) for (int mx = mn; mx <= n && mx <= mn + 2; ++mx) {
    std::vector<int> w = v; w.shrink_to_fit();
    auto it = util::partition(w.begin(), w.end(), std::greater<>(), (size_t)mn, (size_t)mx);
    int k = (int)std::distance(w.begin(), it);
    if (k < mn || k > mx) c.fail("size", "kept %d, wanted between %d and %d", k, mn, mx);
    for (int i = 0; i < k; ++i) if (w[i] < n - k) c.fail("topk", "element %d kept among best %d of %d", w[i], k, n);
    s = s * 31 + k; c.count();
  }
  c.sig(s ^ Ctx::hash(v.data(), v.size() * sizeof(int)));
}
// EntryBeam: k-best heap used for the per-node beam
void entryBeam(Ctx& c) {
  int k = c.range(1, 4), n = c.range(0, c.thorough() ? 7 : 6);
  static const float F[] = {-3.f, -1.f, 0.f, 2.f, -3.0e38f};
  int kinds = n >= 6 ? 4 : 5;
  std::vector<float> v; std::string log = std::to_string(k) + ":";
  std::vector<ConnectionBeamElement> buf(k);
  buf.shrink_to_fit();
  util::MutableArraySlice<ConnectionBeamElement> sl{buf.data(), buf.size()};
  EntryBeam::initializeBlock(sl);
  EntryBeam eb{sl};
  if (!eb.isTopFake()) c.fail("fake", "fresh beam has an entry");
  for (int i = 0; i < n; ++i) {
    float f = F[c.choose(kinds)]; v.push_back(f); log += " " + std::to_string(f);
    ConnectionBeamElement e{{1, (u16)i, (u16)i, 0, nullptr}, f};
    eb.pushItem(e);
  }
  c.note("%s", log.c_str());
  auto res = eb.finalize();
  std::vector<float> want = v; std::sort(want.begin(), want.end(), std::greater<float>()); if ((int)want.size() > k) want.resize(k);
  if (res.size() != want.size()) c.fail("count", "beam reports %zu entries, expected %zu", res.size(), want.size());
  std::vector<int> ids;
  for (size_t i = 0; i < want.size(); ++i) {
    if (res.at(i).totalScore != want[i]) c.fail("beam-order", "entry %zu has score %g expected %g", i, res.at(i).totalScore, want[i]);
    if (v[res.at(i).ptr.left] != want[i] || res.at(i).ptr.left != res.at(i).ptr.right) c.fail("beam-entry", "score and pointer of an entry do not belong together");
    ids.push_back(res.at(i).ptr.left);
  }
  std::sort(ids.begin(), ids.end());
  if (std::unique(ids.begin(), ids.end()) != ids.end()) c.fail("beam-dup", "an item is in the beam twice");
  c.sig(log);
}
}  // namespace
int main(int argc, char** argv) {
  const char* which = getenv("VERIF_PROP");
  std::vector<mc::Scenario> p28{
    {"all_floats", allFloats, "every non-NaN float: pack/unpack exact, each compared with its successor under extreme positions"},
    {"pairs", pairs, "all pairs of 17 extreme scores x 49x49 positions"},
    {"positions", positions, "all 2^16 left and beam values"},
  };
  std::vector<mc::Scenario> p29{
    {"partition", partitionQuick, "all vectors of length<=7 (8) over 2-4 values, ascending and descending, all (min,max)"},
    {"partition_stl", partitionStl, "same for the nth_element variant"},
    {"permutations", perms, "all permutations of length<=8 (9), all min, max<=min+2"},
    {"entry_beam", entryBeam, "all push sequences of length<=6 (7) over 5 scores, beam width 1..4"},
  };
  return mc::run(argc, argv, which && !strcmp(which, "P29") ? p29 : p28);
}
