// Complete textual description of what an analyzer computed.
#ifndef VERIF_DUMP_H
#define VERIF_DUMP_H
#include "env.h"
namespace vt {
// features: how many patterns of a node to print (-1: all stored)
inline std::string dumpAnalysis(An& an, int features = -1, bool scored = true) {
  std::string r;
  char buf[128];
  auto* l = an.lattice();
  u32 nb = l->createdBoundaryCount();
  auto put = [&](const char* f, auto... v) { snprintf(buf, sizeof buf, f, v...); r += buf; };
  put("%u boundaries\n", nb);
  // nodes some path reaches
  std::vector<std::vector<bool>> live(nb);
  for (u32 b = 0; b < nb; ++b) live[b].resize(l->boundary(b)->starts()->numEntries());
  std::vector<bool> reach(nb + 1);
  if (nb > 2) reach[2] = true;
  for (u32 b = 2; b < nb; ++b)
    for (u32 i = 0; i < live[b].size(); ++i) {
      live[b][i] = reach[b];
      if (reach[b] && b + 1 < nb) reach[l->boundary(b)->starts()->nodeInfo().at(i).end() + 2] = true;
    }
  NodeWalker nw = an.output().nodeWalker();
  StringField sf, tf;
  bool hasF = bool(an.output().stringField("f1", &sf)) && bool(an.output().stringField("f2", &tf));
  for (u32 b = 2; b < nb; ++b) {
    auto bnd = l->boundary(b);
    auto st0 = bnd->starts();
    put("@%u ends", b);
    for (auto& p : bnd->ends()->nodePtrs()) put(" %u.%u", p.boundary, p.position);
    if (scored && an.cfg().globalBeamSize > 0 && st0->numEntries() && nb > 3) {
      r += " gbeam";
      auto gb = bnd->ends()->globalBeam();
      for (auto* e : gb) put(" %u.%u=%a", e->ptr.boundary, e->ptr.right, e->totalScore);
    }
    r += "\n";
    for (u32 i = 0; i < st0->numEntries(); ++i) {
      auto ni = st0->nodeInfo().at(i);
      bool eos = b + 1 == nb;
      put(" %d-%d ptr %d", ni.start(), ni.end(), ni.entryPtr().rawValue());
      if (!eos && hasF && an.output().locate(ni.entryPtr(), &nw)) {
        while (nw.next()) { r += " " + st(sf[nw]) + "/" + st(tf[nw]); put(" id %d", nw.eptr().rawValue()); }
      }
      if (!live[b][i]) { r += " unreachable\n"; continue; }
      if (scored && nb > 3) {
        if (!eos) { r += " data"; auto ed = st0->entryData().row(i); for (auto v : ed) put(" %d", v); }
        r += " pats";
        auto pd = st0->patternFeatureData().row(i);
        int n = 0;
        for (auto v : pd) { if (features >= 0 && n >= features) break; put(" %llx", (unsigned long long)v); ++n; }
        r += " beam";
        auto bd = st0->beamData().row(i);
        for (auto& e : bd) {
          if (EntryBeam::isFake(e)) break;
          put(" %u.%u.%u.%u=%a", e.ptr.boundary, e.ptr.left, e.ptr.right, e.ptr.beam, e.totalScore);
          auto lsc = bnd->scores()->forPtr(e.ptr);
          put("(%a)", lsc.at(0));
        }
        put(" of %d", (int)bd.size());
      }
      r += "\n";
    }
  }
  return r;
}
inline size_t diffAt(const std::string& a, const std::string& b) {
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
  return i;
}
inline std::string diffStr(const std::string& a, const std::string& b) {
  size_t i = diffAt(a, b);
  size_t s = i > 60 ? i - 60 : 0;
  return "...[" + a.substr(s, 150) + "] vs ...[" + b.substr(s, 150) + "]";
}
inline std::vector<float> intWeights(int bits, int mod, u32 salt) {
  std::vector<float> w(size_t(1) << bits);
  u64 x = 0x9e3779b97f4a7c15ULL * (salt + 1);
  for (auto& f : w) {
    x ^= x << 13; x ^= x >> 7; x ^= x << 17;
    f = (float)((int)((x >> 20) % mod) - mod / 2);
  }
  return w;
}
}  // namespace vt
#endif
