// A recurrent network in the format of faster-rnnlm, and its evaluation.
#ifndef VERIF_RNNNET_H
#define VERIF_RNNNET_H
#include <cmath>
#include <string>
#include <vector>
#include "util/types.hpp"
namespace vt {
using jumanpp::u32;
using jumanpp::u64;
// ---- the network, written down again
struct Net {
  u32 layer = 3, order = 3;
  u64 maxent = 97;
  float lnz = 9;
  std::vector<std::string> voc;
  std::vector<float> emb, nce, mat, me;
  static float val(u64 k) {
    k ^= k >> 31; k *= 0x9e3779b97f4a7c15ULL; k ^= k >> 29; k *= 0xbf58476d1ce4e5b9ULL; k ^= k >> 32;
    return (float)((int)(k % 2001) - 1000) / 500.f;
  }
  void fill(u64 salt) {
    auto f = [&](std::vector<float>& v, size_t n, u64 s) {
      v.resize(n);
      for (size_t i = 0; i < n; ++i) v[i] = val((salt * 16 + s) * 1000003 + i);
    };
    f(emb, voc.size() * layer, 1);
    f(nce, voc.size() * layer, 2);
    f(mat, (size_t)layer * layer, 3);
    f(me, maxent, 4);
  }
  std::string dict() const {
    std::string r;
    for (size_t i = 0; i < voc.size(); ++i) r += voc[i] + " " + std::to_string(100 - (int)i) + "\n";
    return r;
  }
  std::string file() const {
    std::string r;
    auto put = [&](const void* p, size_t n) { r.append((const char*)p, n); };
    u64 sv = 60000 + layer;
    put(&sv, 8);
    put(&maxent, 8);
    put(&order, 4);
    char one = 1, zero = 0;
    put(&one, 1);
    put(&lnz, 4);
    put(&zero, 1);
    char name[64] = "sigmoid";
    put(name, 64);
    u32 lc = 1, hs = 2;
    put(&lc, 4);
    put(&hs, 4);
    put(emb.data(), emb.size() * 4);
    put(nce.data(), nce.size() * 4);
    put(mat.data(), mat.size() * 4);
    put(me.data(), me.size() * 4);
    return r;
  }
  using Vec = std::vector<double>;
  Vec step(const Vec& ctx, int word) const {
    Vec r(layer);
    for (u32 j = 0; j < layer; ++j) {
      double s = emb[(size_t)word * layer + j];
      for (u32 i = 0; i < layer; ++i) s += (double)mat[(size_t)j * layer + i] * ctx[i];
      r[j] = 1 / (1 + std::exp(-s));
    }
    return r;
  }
  // hist: previous words, the nearest first
  double score(const Vec& ctx, const std::vector<int>& hist, int word) const {
    double s = 0;
    for (u32 i = 0; i < layer; ++i) s += (double)nce[(size_t)word * layer + i] * ctx[i];
    static const u64 P[] = {
        108641969, 116049371, 125925907, 133333309, 145678979, 175308587, 197530793, 234567803, 251851741,
        264197411, 330864029, 399999781, 407407183, 459258997, 479012069, 545678687, 560493491, 607407037,
        629629243, 656789717, 716048933, 718518067, 725925469, 733332871, 753085943, 755555077, 782715551,
        790122953, 812345159, 814814293, 893826581, 923456189, 940740127, 953085797, 985184539, 990122807};
    const u64 NP = sizeof(P) / sizeof(P[0]);
    u64 hmax = maxent - voc.size();
    for (u64 o = 0; o < order; ++o) {
      u64 h = P[0] * P[1];
      for (u64 k = 1; k <= o; ++k) h += P[(o * P[k] + k) % NP] * ((u64)hist[k - 1] + 1);
      s += me[(h % hmax + word) % hmax];
    }
    return s;
  }
};
}  // namespace vt
#endif
