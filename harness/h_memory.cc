// LIBS: v_mc v_util
// P21: memory pool, all allocation/reset sequences.
#include "mc.h"
#include "util/memory.hpp"
#include <map>
using namespace jumanpp;
using mc::Ctx;
namespace {
struct Block { char* p; size_t n; unsigned char tag; };
void poolOps(Ctx& c) {
  static const size_t pages[] = {64, 256, 4096};
  static const size_t sizes[] = {1, 8, 33, 64, 0};
  size_t ps = c.pick(pages);
  const size_t aligns[] = {1, 8, ps >= 4096 ? size_t(1024) : size_t(64)};
  util::memory::Manager mgr{ps};
  int nallocs = c.range(1, 2);
  std::unique_ptr<util::memory::PoolAlloc> pa[2] = {mgr.core(), nallocs > 1 ? mgr.core() : nullptr};
  std::vector<Block> live[2];
  int depth = (c.thorough() ? 5 : 4) - (ps >= 4096);
  unsigned char tag = 1;
  std::string log = "page " + std::to_string(ps) + ":";
  u64 usedMax = 0;
  for (int d = 0; d < depth; ++d) {
    int op = c.choose(nallocs > 1 ? 4 : 3);  // 0: alloc in a, 1: reset everything, 2: fill the page, 3: alloc in b
    int who = op == 3 ? 1 : 0;
    if (op == 1) {
      for (int i = 0; i < nallocs; ++i) pa[i]->reset();
      mgr.reset();
      live[0].clear(); live[1].clear();
      log += " reset";
    } else {
      size_t sz = op == 2 ? pa[0]->remaining() : c.pick(sizes);
      size_t al = op == 2 ? 1 : c.pick(aligns);
      if (sz > ps || al > ps) continue;  // objects above the page size are not supported
      log += " " + std::to_string(sz) + "@" + std::to_string(al);
      c.note("%s", log.c_str());
      char* p = (char*)pa[who]->allocate_memory(sz, al);
      c.check(p != nullptr || sz == 0, "pool-null", "null block");
      if (((uintptr_t)p & (al - 1)) != 0) c.fail("pool-align", "block of %zu not aligned to %zu", sz, al);
      for (int w = 0; w < 2; ++w)
        for (auto& b : live[w])
          if (sz && b.n && p < b.p + b.n && b.p < p + sz) c.fail("pool-overlap", "block overlaps a live block");
      memset(p, tag, sz);  // ASan: must be addressable
      live[who].push_back({p, sz, tag});
      ++tag;
    }
    for (int w = 0; w < 2; ++w)
      for (auto& b : live[w])
        for (size_t i = 0; i < b.n; ++i)
          if ((unsigned char)b.p[i] != b.tag) c.fail("pool-clobber", "contents of a live block changed");
    usedMax = std::max(usedMax, mgr.used());
    c.count();
  }
  // after a reset the same work must not need more memory
  c.sig(log);
}
// repeated identical rounds with reset in between: memory is reused, not leaked
void poolReuse(Ctx& c) {
  static const size_t pages[] = {64, 256};
  size_t ps = c.pick(pages);
  util::memory::Manager mgr{ps};
  auto pa = mgr.core();
  int n = c.range(1, c.thorough() ? 6 : 5);
  std::vector<size_t> szs;
  for (int i = 0; i < n; ++i) szs.push_back((size_t[]){1, 9, 33, 56}[c.choose(4)]);
  std::string log = "page " + std::to_string(ps);
  for (auto s : szs) log += " " + std::to_string(s);
  c.note("%s", log.c_str());
  u64 used1 = 0;
  for (int r = 0; r < 4; ++r) {
    for (auto s : szs) memset(pa->allocate_memory(s, 8), r, s);
    if (r == 1) used1 = mgr.used();
    if (r > 1 && mgr.used() != used1) c.fail("pool-grows", "memory grows from %llu to %llu over identical rounds", (unsigned long long)used1, (unsigned long long)mgr.used());
    pa->reset();
    mgr.reset();
  }
  c.sig(used1 * 131 + szs.size());
}
}  // namespace
int main(int argc, char** argv) {
  return mc::run(argc, argv, {
    {"pool_ops", poolOps, "all sequences of 4 (5) allocate/reset/fill steps, 5 sizes x 3 alignments, page sizes 64/256/4096 (one step less for the last one), one or two allocators"},
    {"pool_reuse", poolReuse, "all request lists of length<=5 (6) repeated 4 times with reset"},
  });
}
