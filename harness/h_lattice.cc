// P10 P11 P12 (and the beam part of P23): complete segmentation, beam search and global beam.
// LIBS: v_mc v_core
#include "env.h"
#include <algorithm>
#include <functional>
using namespace vt;
using mc::Ctx;
using CC = chars::CharacterClass;

namespace {
struct H {
  u64 s = 0x16f11fe89b0d677cULL;
  H mix(u64 d) const { u64 v = (s ^ d) * 0x6eed0e9da4d94a4fULL; return {v << 32 | v >> 32}; }
};

// ---------------------------------------------------------------- models
using Fs = std::vector<std::string>;                 // fields of one pattern
struct Ng { std::vector<Fs> p; };                    // [t2][t1][t0], as documented
using SpecV = std::vector<Ng>;
Ng uni(Fs a) { return {{a}}; }
Ng bi(Fs t1, Fs t0) { return {{t1, t0}}; }
Ng tri(Fs t2, Fs t1, Fs t0) { return {{t2, t1, t0}}; }

const std::vector<SpecV>& specs() {
  static const Fs A = {"f1"}, B = {"f2"}, AB = {"f1", "f2"}, N = {"n"}, BN = {"f2", "n"};
  static const std::vector<SpecV> r = {
      {uni(A), uni(AB)},
      {uni(AB), bi(B, A), bi(A, B), bi(AB, AB)},
      {uni(A), bi(AB, N), tri(A, B, N), tri(N, A, B), tri(AB, AB, AB)},
      {tri(AB, BN, A)},
      {uni(A), uni(B), uni(N), uni(AB), uni(BN), bi(A, A), bi(A, B), bi(B, A), bi(B, B), bi(BN, N), tri(A, A, A), tri(B, B, B), tri(B, A, A), tri(A, A, B), tri(A, B, A)},
      {bi(AB, AB)},
  };
  return r;
}
struct Row { std::string f1, f2; int n; };
const std::vector<std::vector<Row>>& dics() {
  static std::vector<std::vector<Row>> r = {
      {{"a", "x", 1}, {"b", "y", 2}, {"ab", "z", 3}},
      {{"a", "x", 1}, {"a", "y", 2}, {"a", "x", 3}, {"b", "x", 1}, {"b", "y", 1}, {"ab", "x", 2}},
      {{"aa", "x", 1}, {"ab", "y", 2}, {"ba", "z", 3}, {"a", "x", 1}, {"b", "x", 2}, {"aba", "y", 1}},
      // with words no path reaches, and words which no path leaves
      {{"aba", "x", 1}, {"b", "y", 2}, {"ba", "z", 3}, {"aab", "w", 4}, {"aa", "y", 1}, {"aa", "z", 1}},
      {},
  };
  if (r[4].empty()) {
    for (int i = 0; i < 9; ++i) r[4].push_back({"a", std::string(1, 'p' + i), i % 3});
    r[4].push_back({"b", "x", 1});
    r[4].push_back({"b", "y", 1});
    r[4].push_back({"ab", "y", 2});
  }
  return r;
}
struct Mdl {
  Model m;
  struct G { int order; u32 idx; std::vector<int> pat; };  // pat: [t0, t1, t2]
  std::vector<G> ng;
  std::string err;
};
Status buildSpec(Model& m, const SpecV& sv, const std::string& csv, int unk) {
  return m.build([&](dsl::ModelSpecBuilder& b) {
    auto& f1 = b.field(1, "f1").strings().trieIndex();
    auto& f2 = b.field(2, "f2").strings();
    auto& n = b.field(3, "n").integers();
    auto ref = [&](const Fs& f) {
      std::vector<dsl::FeatureRef> r;
      for (auto& x : f) {
        if (x == "f1") r.push_back(f1); else if (x == "f2") r.push_back(f2); else r.push_back(n);
      }
      return r;
    };
    for (auto& g : sv) {
      if (g.p.size() == 1) b.unigram(ref(g.p[0]));
      else if (g.p.size() == 2) b.bigram(ref(g.p[0]), ref(g.p[1]));
      else b.trigram(ref(g.p[0]), ref(g.p[1]), ref(g.p[2]));
    }
    if (unk == 1) b.unk("u", 1).chunking(CC::FAMILY_ALPH).outputTo({f1});
    if (unk == 2) b.unk("u", 1).single(CC::FAMILY_ALPH).outputTo({f1});
    if (unk == 3) b.unk("u", 1).chunking(CC::FAMILY_ALPH).outputTo({f1}).lowPriority();
  }, sp(csv));
}
std::string csvOf(const std::vector<Row>& rows) {
  std::string csv = csvRow({"UNK", "u", "9"});
  for (auto& r : rows) csv += csvRow({r.f1, r.f2, std::to_string(r.n)});
  return csv;
}
Mdl& model(int s, int d, int unk) {
  static std::map<int, std::unique_ptr<Mdl>> cache;
  auto& p = cache[s * 100 + d * 10 + unk];
  if (p) return *p;
  p.reset(new Mdl);
  Status q = buildSpec(p->m, specs()[s], csvOf(dics()[d]), unk);
  if (!q) { p->err = msg(q); return *p; }
  auto& spec = p->m.spec();
  auto& fs = spec.features;
  // find every n-gram of the source among the n-grams of the model
  auto patOf = [&](const Fs& f) {
    for (auto& pt : fs.pattern) {
      std::set<std::string> names;
      for (auto r : pt.references) {
        auto& pf = fs.primitive.at(r);
        if (pf.kind != spec::PrimitiveFeatureKind::Copy) { names.insert("?"); continue; }
        for (auto& fd : spec.dictionary.fields) if (fd.dicIndex == pf.references.at(0)) names.insert(fd.name);
      }
      if (names == std::set<std::string>(f.begin(), f.end())) return pt.index;
    }
    return -1;
  };
  std::vector<bool> used(fs.ngram.size());
  for (auto& g : specs()[s]) {
    Mdl::G x;
    x.order = (int)g.p.size();
    for (int i = x.order - 1; i >= 0; --i) x.pat.push_back(patOf(g.p[i]));
    bool found = false;
    for (size_t i = 0; i < fs.ngram.size() && !found; ++i) {
      if (used[i] || fs.ngram[i].references != x.pat) continue;
      x.idx = (u32)fs.ngram[i].index;
      used[i] = found = true;
    }
    if (!found) { p->err = "an n-gram of the specification is not in the model"; return *p; }
    p->ng.push_back(x);
  }
  if (fs.ngram.size() != p->ng.size()) p->err = "the model has other n-grams";
  return *p;
}

// ---------------------------------------------------------------- weights
struct W {
  std::vector<float> w;
  HashedFeaturePerceptron perc;
  ScorerDef sd;
  W(int bits, int mod, u32 salt) : w(size_t(1) << bits), perc(util::ArraySlice<float>(mkw(w, mod, salt))) {
    sd.feature = &perc;
    sd.scoreWeights.push_back(1.0f);
  }
  static std::vector<float>& mkw(std::vector<float>& w, int mod, u32 salt) {
    u64 x = 0x9e3779b97f4a7c15ULL * (salt + 1);
    for (auto& f : w) {
      x ^= x << 13; x ^= x >> 7; x ^= x << 17;
      f = (float)((int)((x >> 20) % mod) - mod / 2);
    }
    return w;
  }
};
W& weights(int i) {
  static std::unique_ptr<W> ws[6];
  static const int bits[] = {14, 14, 14, 3, 16, 12}, mod[] = {8191, 3, 601, 9, 8191, 1};
  if (!ws[i]) ws[i].reset(new W(bits[i], mod[i], (u32)i));
  return *ws[i];
}

// deterministic score plugin
struct Plug : public ScorePlugin {
  int add(const Lattice* l, int b, int right, int left) const {
    auto& n0 = l->boundary(b)->starts()->nodeInfo().at(right);
    auto lp = l->boundary(b)->ends()->nodePtrs().at(left);
    return ((n0.end() * 5 + n0.start() + right * 3 + lp.boundary + lp.position * 7) % 11) * 97 - 400;
  }
  bool updateScore(const Lattice* l, const ConnectionPtr& p, float* s) const override {
    *s += add(l, p.boundary, p.right, p.left);
    return true;
  }
};

// ---------------------------------------------------------------- reference
using NP = std::pair<int, int>;  // boundary, position
struct Ref {
  Ctx& c;
  An* an;
  Mdl& md;
  const W& w;
  const Plug* plug;
  Lattice* l;
  int nb;
  Ref(Ctx& c, An* an, Mdl& md, const W& w, const Plug* p) : c(c), an(an), md(md), w(w), plug(p), l(an->lattice()), nb((int)l->createdBoundaryCount()) {}

  u64 pv(NP n, int p) const {
    if (n.first < 2) return (u32)EntryPtr::BOS().rawValue();
    return l->boundary(n.first)->starts()->patternFeatureData().row(n.second).at(p);
  }
  float local(NP t2, NP t1, NP t0) const {
    float s = 0;
    u64 mask = w.w.size() - 1;
    for (auto& g : md.ng) {
      H h;
      if (g.order == 1) h = H{}.mix(3).mix(g.idx).mix(0x5123a31421fULL).mix(pv(t0, g.pat[0]));
      else if (g.order == 2) h = H{}.mix(4).mix(g.idx).mix(0x5123a68442fULL).mix(pv(t0, g.pat[0])).mix(pv(t1, g.pat[1]));
      else h = H{}.mix(5).mix(g.idx).mix(0x51239ab41f1fULL).mix(pv(t0, g.pat[0])).mix(pv(t1, g.pat[1])).mix(pv(t2, g.pat[2]));
      s += w.w[(u32)h.s & mask];
    }
    return s;
  }
  int leftIndex(NP t0b, NP t1) const {
    auto e = l->boundary(t0b.first)->ends()->nodePtrs();
    for (size_t i = 0; i < e.size(); ++i) if (e.at(i).boundary == t1.first && e.at(i).position == t1.second) return (int)i;
    return -1;
  }
  // nodes whose span ends where boundary b starts
  std::vector<NP> lefts(int b) const {
    std::vector<NP> r;
    if (b == 2) return {{1, 0}};
    for (int i = 2; i < b; ++i) {
      auto st = l->boundary(i)->starts();
      for (u32 k = 0; k < st->numEntries(); ++k) if (st->nodeInfo().at(k).end() + 2 == b) r.push_back({i, (int)k});
    }
    return r;
  }
  void checkEnds() {
    for (int b = 2; b < nb; ++b) {
      std::vector<NP> got, exp = lefts(b);
      for (auto& p : l->boundary(b)->ends()->nodePtrs()) got.push_back({p.boundary, p.position});
      std::sort(got.begin(), got.end());
      std::sort(exp.begin(), exp.end());
      if (got != exp) c.fail("left nodes", "%d left nodes at %d, %d end there", (int)got.size(), b - 2, (int)exp.size());
    }
  }
  struct Elm { float total; const ConnectionBeamElement* e; };
  std::vector<const ConnectionBeamElement*> beam(NP n) const {
    auto row = l->boundary(n.first)->starts()->beamData().row(n.second);
    std::vector<const ConnectionBeamElement*> r;
    for (auto& e : row) {
      if (EntryBeam::isFake(e)) break;
      r.push_back(&e);
    }
    return r;
  }
  NP nodeOf(const ConnectionPtr* p) const { return {p->boundary, p->right}; }
  float edge(const ConnectionBeamElement* le, NP t0, int left) const {
    NP t1 = nodeOf(&le->ptr);
    NP t2 = nodeOf(le->ptr.previous);
    float s = local(t2, t1, t0);
    if (plug) s += plug->add(l, t0.first, t0.second, left);
    return s;
  }
  struct Cand { float total, local; int left, beam; const ConnectionBeamElement* le; };
  std::vector<Cand> cands(NP t0) const {
    std::vector<Cand> r;
    auto e = l->boundary(t0.first)->ends()->nodePtrs();
    for (size_t i = 0; i < e.size(); ++i) {
      auto b = beam({e.at(i).boundary, e.at(i).position});
      for (size_t k = 0; k < b.size(); ++k) {
        float lc = edge(b[k], t0, (int)i);
        r.push_back({b[k]->totalScore + lc, lc, (int)i, (int)k, b[k]});
      }
    }
    return r;
  }
  static std::vector<float> top(std::vector<float> v, size_t k) {
    std::sort(v.begin(), v.end(), std::greater<float>());
    if (v.size() > k) v.resize(k);
    return v;
  }
  std::string ls(const std::vector<float>& v) {
    std::string r;
    for (size_t i = 0; i < v.size() && i < 12; ++i) r += " " + std::to_string((int)v[i]);
    return r;
  }
  // is the beam of t0 the top k of the candidates?  -1: yes, otherwise explains
  std::string beamIs(NP t0, const std::vector<Cand>& cs, size_t k, bool scores) {
    auto b = beam(t0);
    std::vector<float> exp;
    for (auto& x : cs) exp.push_back(x.total);
    exp = top(exp, k);
    std::vector<float> got;
    std::set<std::pair<int, int>> seen;
    for (auto* e : b) got.push_back(e->totalScore);
    if (got != exp) return "scores" + ls(got) + ", expected" + ls(exp);
    for (auto* e : b) {
      if (e->ptr.boundary != t0.first || e->ptr.right != t0.second) return "element of another node";
      if (!seen.insert({e->ptr.left, e->ptr.beam}).second) return "an element appears twice";
      const Cand* f = nullptr;
      for (auto& x : cs) if (x.left == e->ptr.left && x.beam == e->ptr.beam) f = &x;
      if (!f) return "an element has no left context of the beam";
      if (f->total != e->totalScore) return "an element has the score of another one";
      if (e->ptr.previous != &f->le->ptr) return "an element is linked to another one than its left context";
      if (scores && l->boundary(t0.first)->scores()->forPtr(e->ptr).at(0) != f->local) return "the stored local score differs";
    }
    return "";
  }
  template <typename Fn> void eachNode(Fn fn) {
    for (int b = 2; b < nb; ++b) {
      u32 n = (u32)l->boundary(b)->starts()->numEntries();
      for (u32 i = 0; i < n; ++i) { c.count(); fn(NP(b, i)); }
    }
  }
  void checkFull(size_t k) {
    eachNode([&](NP n) {
      auto r = beamIs(n, cands(n), k, true);
      if (!r.empty()) c.fail("beam", "node %d/%d: %s", n.first - 2, n.second, r.c_str());
    });
  }
  // all paths over the nodes, by plain enumeration
  std::vector<float> allPaths() {
    std::vector<float> r;
    NP eos(nb - 1, 0);
    std::function<void(NP, NP, float)> go = [&](NP t2, NP t1, float s) {
      int b = t1.first < 2 ? 2 : l->boundary(t1.first)->starts()->nodeInfo().at(t1.second).end() + 2;
      auto ends = b;
      for (u32 k = 0; k < l->boundary(b)->starts()->numEntries(); ++k) {
        NP t0(b, k);
        float x = local(t2, t1, t0);
        if (plug) x += plug->add(l, b, (int)k, leftIndex(t0, t1));
        if (t0 == eos) r.push_back(s + x); else go(t1, t0, s + x);
      }
      (void)ends;
    };
    go({0, 0}, {1, 0}, 0);
    return r;
  }
  // the elements at the end are paths, their score is that of the path
  float pathScore(const ConnectionPtr* p) const {
    float s = 0;
    while (p->boundary >= 2) {
      NP t0 = nodeOf(p), t1 = nodeOf(p->previous), t2 = nodeOf(p->previous->previous);
      s += local(t2, t1, t0);
      if (plug) s += plug->add(l, t0.first, t0.second, leftIndex(t0, t1));
      p = p->previous;
    }
    return s;
  }
  std::string pathStr(const ConnectionPtr* p) const {
    std::string r;
    for (; p->boundary >= 2; p = p->previous) r += std::to_string(p->boundary) + "." + std::to_string(p->right) + " ";
    return r;
  }
  void checkEos() {
    auto b = beam({nb - 1, 0});
    if (b.empty()) c.fail("no path", "there is no path at the end of the text");
    std::set<std::string> seen;
    for (auto* e : b) {
      c.count();
      const ConnectionPtr* p = &e->ptr;
      int end = -1;
      for (; p->boundary >= 2; p = p->previous) {
        auto ni = l->boundary(p->boundary)->starts()->nodeInfo().at(p->right);
        if (end >= 0 && ni.end() + 2 != end) c.fail("path", "morphemes of a path do not follow each other");
        end = p->boundary;
        if (!p->previous) c.fail("path", "a path ends in the middle");
      }
      if (end != 2) c.fail("path", "a path does not start at the beginning");
      if (!seen.insert(pathStr(&e->ptr)).second) c.fail("path twice", "a path is reported twice");
      if (e->totalScore > b[0]->totalScore) c.fail("order", "a path is better than the first one");
      float s = pathScore(&e->ptr);
      if (s != e->totalScore) c.fail("path score", "score %d, the sum over the path is %d", (int)e->totalScore, (int)s);
    }
  }
  // top path by the reading API
  void checkPath(const std::string& in) {
    auto ch = cps(in);
    AnalysisPath ap;
    Status q = ap.fillIn(l);
    if (!q) c.fail("path api", "%s", msg(q).c_str());
    std::string out;
    const ConnectionPtr* p = nullptr;
    std::vector<const ConnectionPtr*> exp;
    if (nb > 3) for (p = beam({nb - 1, 0})[0]->ptr.previous; p->boundary >= 2; p = p->previous) exp.push_back(p);
    std::reverse(exp.begin(), exp.end());
    size_t i = 0;
    while (ap.nextBoundary()) {
      ConnectionPtr cp;
      if (ap.totalNodesInChunk() != 1) c.fail("path api", "%d nodes in a chunk", ap.totalNodesInChunk());
      if (!ap.nextNode(&cp)) c.fail("path api", "no node in a chunk");
      if (i >= exp.size() || !(cp == *exp[i])) c.fail("path api", "morpheme %d is not that of the best path", (int)i);
      ++i;
      auto ni = l->boundary(cp.boundary)->starts()->nodeInfo().at(cp.right);
      for (int x = ni.start(); x < ni.end(); ++x) out += ch.at(x);
      if (ap.nextNode(&cp)) c.fail("path api", "too many nodes in a chunk");
    }
    if (out != in) c.fail("surface", "the morphemes join to [%s]", out.c_str());
    if (i != exp.size()) c.fail("path api", "morphemes are missing");
  }
  // global beam
  void checkGbeam(size_t k, size_t G, int R, int S) {
    for (int b = 2; b < nb; ++b) {
      auto bnd = l->boundary(b);
      int n = (int)bnd->starts()->numEntries();
      if (!n) continue;
      std::vector<float> all, got;
      for (auto& p : bnd->ends()->nodePtrs()) for (auto* e : beam({p.boundary, p.position})) all.push_back(e->totalScore);
      all = top(all, G);
      std::set<const void*> seen;
      std::vector<const ConnectionBeamElement*> gb;
      auto gbv = bnd->ends()->globalBeam();
      for (auto* e : gbv) {
        got.push_back(e->totalScore);
        gb.push_back(e);
        if (!seen.insert(e).second) c.fail("global beam", "an element of the global beam at %d appears twice", b - 2);
        if (leftIndex({b, 0}, nodeOf(&e->ptr)) < 0) c.fail("global beam", "an element of the global beam at %d does not end there", b - 2);
      }
      if (got != all) c.fail("global beam", "global beam at %d:%s, expected%s", b - 2, ls(got).c_str(), ls(all).c_str());
      std::vector<std::vector<Cand>> cs(n);
      for (int i = 0; i < n; ++i) {
        auto full = cands({b, i});
        for (auto* e : gb) for (auto& x : full) if (x.le == e) cs[i].push_back(x);
        c.count();
      }
      if (R <= 0) {
        for (int i = 0; i < n; ++i) {
          auto r = beamIs({b, i}, cs[i], k, true);
          if (!r.empty()) c.fail("beam", "node %d/%d: %s", b - 2, i, r.c_str());
        }
        continue;
      }
      // right check: every node has the beam over the whole global beam or over a head of it
      std::vector<bool> isFull(n);
      int nfull = 0;
      for (int i = 0; i < n; ++i) {
        auto r = beamIs({b, i}, cs[i], k, true);
        isFull[i] = r.empty();
        nfull += isFull[i];
        bool ok = isFull[i];
        for (size_t h = std::min<size_t>({(size_t)R, (size_t)n, gb.size()}); h >= 1 && h < gb.size() && !ok; ++h)
          ok = beamIs({b, i}, std::vector<Cand>(cs[i].begin(), cs[i].begin() + h), k, true).empty();
        if (!ok) c.fail("beam of the right check", "node %d/%d: %s", b - 2, i, r.c_str());
      }
      if (nfull < std::min(n, S)) c.fail("right beam", "at %d %d of %d nodes are connected to the whole global beam, at least %d should be", b - 2, nfull, n, std::min(n, S));
      size_t h = std::min<size_t>({(size_t)R, (size_t)n, gb.size()});
      for (int i = 0; i < n; ++i) for (int j = 0; j < n && h; ++j) {
        if (isFull[i] || !isFull[j]) continue;
        // kept j, cut i: i must not beat j everywhere in the head (a full beam may look like a cut one, hence count)
        bool dom = true;
        for (size_t x = 0; x < h; ++x) dom &= cs[i][x].local > cs[j][x].local;
        if (dom && nfull == S) c.fail("right beam choice", "at %d node %d is kept and node %d, which is better with all of the head, is cut", b - 2, j, i);
      }
    }
  }
};

std::string text(Ctx& c, const std::vector<std::string>& al, int maxLen) { return c.str(al, 0, maxLen); }
const std::vector<std::string> AB = {"a", "b"};

void start(Ctx& c, Mdl& md) { if (!md.err.empty()) c.fail("setup", "%s", md.err.c_str()); }

// ---------------------------------------------------------------- P11
void s_full(Ctx& c) {
  int s = c.choose((int)specs().size()), d = c.choose((int)dics().size());
  int unk = c.choose(3);
  if (d == 3 && !unk) c.discard();
  std::string in = text(c, AB, d == 4 ? (c.thorough() ? 4 : 3) : (c.thorough() ? 7 : 5));
  Mdl& md = model(s, d, unk);
  start(c, md);
  for (int wi = 0; wi < (c.thorough() ? 6 : 4); ++wi) for (int pl = 0; pl < 2; ++pl) {
    if (pl && wi > 1) continue;
    W& w = weights(wi);
    Plug plug;
    std::vector<float> best;
    for (int k : {0, 1, 2, 3, 5, 12}) {
      if (!c.thorough() && k == 5) continue;
      if (k && c.thorough() == false && wi == 3 && k > 2) continue;
      int beam = k ? k : 40;
      c.note("spec %d dictionary %d unk %d text [%s] weights %d beam %d plugin %d", s, d, unk, in.c_str(), wi, beam, pl);
      AnalyzerConfig cfg = acfg();
      if (c.thorough()) cfg.pageSize = 4 << 20;
      cfg.globalBeamSize = 0;
      auto mk = [&](int beam) {
        auto an = md.m.analyzer(beam, cfg);
        Status q = an->initScorers(w.sd);
        if (!q) c.fail("status", "%s", msg(q).c_str());
        q = an->resetForInput(sp(in));
        if (q && pl) an->setPlugin(&plug);
        if (q) q = an->prepareNodeSeeds();
        if (q) q = an->buildLattice();
        if (q) q = an->bootstrapAnalysis();
        if (q) q = an->computeScores(&w.sd);
        if (!q) c.fail("status", "%s", msg(q).c_str());
        return an;
      };
      auto an = mk(beam);
      Ref r(c, an.get(), md, w, pl ? &plug : nullptr);
      if (in.empty()) { r.checkPath(in); continue; }
      r.checkEnds();
      auto paths = k ? std::vector<float>{} : r.allPaths();
      if (!k && paths.size() > 40) {  // widen the beam so that nothing is ever cut
        if (paths.size() > 1500) { paths.clear(); }
        else {
          beam = (int)paths.size();
          c.note("spec %d dictionary %d unk %d text [%s] weights %d beam %d plugin %d", s, d, unk, in.c_str(), wi, beam, pl);
          an = mk(beam);
        }
      }
      Ref r2(c, an.get(), md, w, pl ? &plug : nullptr);
      r2.checkFull(beam);
      r2.checkEos();
      r2.checkPath(in);
      if (!paths.empty()) {
        auto exp = Ref::top(paths, beam);
        std::vector<float> got;
        for (auto* e : r2.beam({r2.nb - 1, 0})) got.push_back(e->totalScore);
        if (got != exp) c.fail("best paths", "%d paths with scores%s, expected %d:%s", (int)got.size(), r2.ls(got).c_str(), (int)exp.size(), r2.ls(exp).c_str());
        c.sig((uint64_t)(int)exp[0] * 1000 + paths.size());
      }
    }
  }
}

// ---------------------------------------------------------------- P12
void s_gbeam(Ctx& c) {
  int s = c.choose((int)specs().size()), d = c.choose((int)dics().size());
  int unk = c.choose(2);
  if (d == 3 && !unk) c.discard();
  std::string in = text(c, AB, d == 4 ? (c.thorough() ? 4 : 3) : (c.thorough() ? 5 : 4));
  if (in.empty()) c.discard();
  Mdl& md = model(s, d, unk);
  start(c, md);
  Plug plug;
  int bm[] = {1, 2, 4, 30}, gm[] = {1, 2, 3, 6, 2000}, rm[] = {0, 1, 2, 5}, sm[] = {1, 2, 50};
  for (int wi = 0; wi < (c.thorough() ? 4 : 2); ++wi)
    for (int pl = 0; pl < 2; ++pl)
      for (int beam : bm) {
        if (!c.thorough() && pl && beam == 4) continue;
        W& w = weights(wi);
        auto run = [&](int G, int R, int S) {
          AnalyzerConfig cfg = acfg();
          if (c.thorough()) cfg.pageSize = 4 << 20;
          cfg.globalBeamSize = G;
          cfg.rightGbeamCheck = R;
          cfg.rightGbeamSize = S;
          c.note("spec %d dictionary %d unk %d text [%s] weights %d beam %d global beam %d check %d right %d plugin %d", s, d, unk, in.c_str(), wi, beam, G, R, S, pl);
          auto an = md.m.analyzer(beam, cfg);
          Status q = an->initScorers(w.sd);
          if (q) q = an->resetForInput(sp(in));
          if (q && pl) an->setPlugin(&plug);
          if (q) q = an->prepareNodeSeeds();
          if (q) q = an->buildLattice();
          if (q) q = an->bootstrapAnalysis();
          if (q) q = an->computeScores(&w.sd);
          if (!q) c.fail("status", "%s", msg(q).c_str());
          return an;
        };
        auto base = run(0, 0, 0);
        Ref rb(c, base.get(), md, w, pl ? &plug : nullptr);
        auto eosB = rb.beam({rb.nb - 1, 0});
        for (int G : gm) for (int R : rm) for (int S : sm) {
          if (R == 0 && S != 1) continue;
          if (!c.thorough() && (G == 3 || (G == 2000 && R > 2))) continue;
          auto an = run(G, R, S);
          Ref r(c, an.get(), md, w, pl ? &plug : nullptr);
          r.checkEnds();
          r.checkGbeam(beam, G, R, S);
          r.checkEos();
          r.checkPath(in);
          if (G == 2000 && (R == 0 || S == 50)) {
            auto eosG = r.beam({r.nb - 1, 0});
            // narrow beams may cut different ones of equal contexts
            if (beam < 30 && (wi || pl)) continue;
            if (eosG.size() != eosB.size()) c.fail("wide global beam", "%d paths, %d without a global beam", (int)eosG.size(), (int)eosB.size());
            for (size_t i = 0; i < eosG.size(); ++i)
              if (eosG[i]->totalScore != eosB[i]->totalScore) c.fail("wide global beam", "path %d has score %d, without a global beam %d", (int)i, (int)eosG[i]->totalScore, (int)eosB[i]->totalScore);
            if ((eosB.size() < 2 || eosB[0]->totalScore != eosB[1]->totalScore) && beam == 30)
              if (rb.pathStr(&eosB[0]->ptr) != r.pathStr(&eosG[0]->ptr)) c.fail("wide global beam path", "another best path than without a global beam");
          }
          c.sig((uint64_t)(int)r.beam({r.nb - 1, 0})[0]->totalScore);
        }
      }
}

// adaptive beam sizes
void s_auto(Ctx& c) {
  static const int STEP[] = {1, 2, 3, 100}, BASE[] = {0, 1, 2, 5}, MAX[] = {0, 1, 2, 3, 5, 40}, GL[] = {0, 1, 3, 40};
  int s = c.choose(2) ? 2 : 4, d = c.choose(2) ? 1 : 4;
  int step = c.pick(STEP), base = c.pick(BASE), mx = c.pick(MAX), G = c.pick(GL);
  int R = c.choose(3);
  if (!G && R) c.discard();
  Mdl& md = model(s, d, 1);
  start(c, md);
  W& w = weights(0);
  AnalyzerConfig cfg = acfg();
  if (c.thorough()) cfg.pageSize = 4 << 20;
  cfg.globalBeamSize = G;
  cfg.rightGbeamCheck = R;
  cfg.rightGbeamSize = R ? 2 : 0;
  cfg.autoBeamStep = step;
  cfg.autoBeamBase = base;
  cfg.autoBeamMax = mx;
  auto an = md.m.analyzer(3, cfg);
  Status q = an->initScorers(w.sd);
  if (!q) c.fail("status", "%s", msg(q).c_str());
  // one analyzer goes through texts of different lengths
  for (std::string in : {"ab", "a", "aabab", "", "bbbbab", "b", "ababb", "a", "aba"}) {
    if (!c.thorough() && d == 4 && in.size() > 5) continue;
    c.note("spec %d dictionary %d step %d base %d max %d global beam %d right check %d text [%s]", s, d, step, base, mx, G, R, in.c_str());
    q = an->full(sp(in), &w.sd);
    if (!q) c.fail("status", "%s", msg(q).c_str());
    Ref r(c, an.get(), md, w, nullptr);
    r.checkPath(in);
    if (in.empty()) continue;
    size_t exp = std::max<size_t>(1, std::min<size_t>(base + in.size() / step, mx));
    size_t k = an->lattice()->boundary(r.nb - 1)->starts()->beamData().rowSize();
    if (k != exp) c.fail("auto beam size", "beam of %d elements, expected %d", (int)k, (int)exp);
    r.checkEnds();
    if (G > 0) r.checkGbeam(k, k, R, 2); else r.checkFull(k);
    r.checkEos();
    c.sig((uint64_t)(int)r.beam({r.nb - 1, 0})[0]->totalScore * 64 + k);
  }
}

// second scorer: it rescored the elements of the global beam
struct Extra : public ScorerFactory {
  struct Cmp : public ScoreComputer {
    const Extra* x;
    Status scoreLattice(Lattice* l, const ExtraNodesContext*, u32 idx) override {
      for (u32 b = 2; b < l->createdBoundaryCount(); ++b) {
        auto bnd = l->boundary(b);
        auto gb = bnd->ends()->globalBeam();
        for (u32 n = 0; n < bnd->localNodeCount(); ++n) {
          auto ns = bnd->scores()->nodeScores(n);
          for (auto* e : gb) {
            int left = -1;
            auto ep = bnd->ends()->nodePtrs();
            for (size_t i = 0; i < ep.size(); ++i) if (ep.at(i).boundary == e->ptr.boundary && ep.at(i).position == e->ptr.right) left = (int)i;
            auto row = l->boundary(e->ptr.boundary)->starts()->beamData().row(e->ptr.right);
            int bi = (int)(e - &row.at(0));
            ns.beamLeft(bi, left).at(idx) = x->val(l, b, n, e->ptr.boundary, e->ptr.right);
          }
        }
      }
      return Status::Ok();
    }
  };
  int salt;
  explicit Extra(int s) : salt(s) {}
  float val(const Lattice* l, int b, int n, int lb, int lr) const { return (float)(((b * 31 + n * 17 + lb * 7 + lr * 3 + salt) * 2654435761u >> 20) % 701) - 350; }
  Status load(const model::ModelInfo&) override { return Status::Ok(); }
  Status makeInstance(std::unique_ptr<ScoreComputer>* r) override {
    auto* p = new Cmp;
    p->x = this;
    r->reset(p);
    return Status::Ok();
  }
};
void s_scorers(Ctx& c) {
  int s = c.choose(2) ? 1 : 2, d = c.choose(2) ? 1 : 2, unk = c.choose(2);
  std::string in = c.str(AB, 1, c.thorough() ? 5 : 4);
  static const float WT[][3] = {{1, 1, 0}, {1, 0, 0}, {2, 3, 1}, {0, 1, 1}, {1, -1, 2}};
  auto& wt = c.pick(WT);
  Mdl& md = model(s, d, unk);
  start(c, md);
  Extra x1(1), x2(77);
  for (int beam : {1, 2, 5}) for (int G : {1, 2, 6, 50}) for (int R : {0, 2}) {
    W w(14, 601, 3);
    w.sd.others = {&x1, &x2};
    w.sd.scoreWeights = {wt[0], wt[1], wt[2]};
    AnalyzerConfig cfg = acfg();
    if (c.thorough()) cfg.pageSize = 4 << 20;
    cfg.globalBeamSize = G;
    cfg.rightGbeamCheck = R;
    cfg.rightGbeamSize = R ? 2 : 0;
    c.note("spec %d dictionary %d unk %d text [%s] beam %d global beam %d right check %d weights %g %g %g", s, d, unk, in.c_str(), beam, G, R, wt[0], wt[1], wt[2]);
    auto an = md.m.analyzer(beam, cfg, 3);
    Status q = an->initScorers(w.sd);
    if (q) q = an->full(sp(in), &w.sd);
    if (!q) c.fail("status", "%s", msg(q).c_str());
    Ref r(c, an.get(), md, w, nullptr);
    r.checkEnds();
    auto weighted = [&](const ConnectionPtr* p) {
      float t = 0;
      for (; p->boundary >= 2; p = p->previous) {
        NP t0 = r.nodeOf(p), t1 = r.nodeOf(p->previous), t2 = r.nodeOf(p->previous->previous);
        t += wt[0] * r.local(t2, t1, t0) + wt[1] * x1.val(r.l, t0.first, t0.second, t1.first, t1.second) + wt[2] * x2.val(r.l, t0.first, t0.second, t1.first, t1.second);
      }
      return t;
    };
    auto b = r.beam({r.nb - 1, 0});
    if (b.empty()) c.fail("no path", "there is no path at the end of the text");
    std::set<std::string> seen;
    for (size_t i = 0; i < b.size(); ++i) {
      c.count();
      if (!seen.insert(r.pathStr(&b[i]->ptr)).second) c.fail("path twice", "a path is reported twice");
      float e = weighted(&b[i]->ptr);
      if (e != b[i]->totalScore) c.fail("weighted score", "path %d has score %d, the weighted sum is %d", (int)i, (int)b[i]->totalScore, (int)e);
      if (i && b[i]->totalScore > b[i - 1]->totalScore) c.fail("order", "path %d is better than the one before", (int)i);
    }
    // exactly the best of the paths through the last global beam
    std::vector<float> all, got;
    auto gbv = r.l->boundary(r.nb - 1)->ends()->globalBeam();
    for (auto* e : gbv) {
      NP t0(r.nb - 1, 0), t1 = r.nodeOf(&e->ptr), t2 = r.nodeOf(e->ptr.previous);
      all.push_back(weighted(&e->ptr) + wt[0] * r.local(t2, t1, t0) + wt[1] * x1.val(r.l, t0.first, 0, t1.first, t1.second) + wt[2] * x2.val(r.l, t0.first, 0, t1.first, t1.second));
    }
    all = Ref::top(all, beam);
    for (auto* e : b) got.push_back(e->totalScore);
    if (got != all) c.fail("rescored beam", "paths%s, expected%s", r.ls(got).c_str(), r.ls(all).c_str());
    r.checkPath(in);
    c.sig((uint64_t)(int)b[0]->totalScore);
  }
}

// ---------------------------------------------------------------- P10
// the morphemes of the best path join to the text; also read through the output interface
void checkJoin(Ctx& c, An* an, const std::vector<std::string>& ch, const std::string& in) {
  Status q = Status::Ok();
  auto* l = an->lattice();
  AnalysisPath ap;
  q = ap.fillIn(l);
  if (!q) c.fail("path", "%s", msg(q).c_str());
  std::string out, spans;
  NodeWalker nw = an->output().nodeWalker();
  StringField sf;
  q = an->output().stringField("f1", &sf);
  if (!q) c.fail("status", "%s", msg(q).c_str());
  int pos = 0;
  std::string viaOut;
  while (ap.nextBoundary()) {
    ConnectionPtr cp;
    if (ap.currentBoundary() != pos + 2) c.fail("path", "a morpheme at %d, expected at %d", ap.currentBoundary() - 2, pos);
    if (!ap.nextNode(&cp)) c.fail("path", "no morpheme at %d", pos);
    auto ni = l->boundary(cp.boundary)->starts()->nodeInfo().at(cp.right);
    if (ni.start() != pos || ni.end() <= pos) c.fail("path", "a morpheme %d-%d at %d", ni.start(), ni.end(), pos);
    pos = ni.end();
    for (int x = ni.start(); x < ni.end(); ++x) out += ch.at(x);
    if (!an->output().locate(ni.entryPtr(), &nw) || !nw.next()) c.fail("path", "a morpheme can not be read");
    viaOut += st(sf[nw]);
  }
  if (pos != (int)ch.size() || out != in) c.fail("surface", "the morphemes join to [%s]", out.c_str());
  if (viaOut != in) c.fail("surface field", "the surfaces of the morphemes join to [%s]", viaOut.c_str());
}
void s_cover(Ctx& c) {
  static const std::vector<std::string> AL = {"a", "b", "あ", "漢", "、", "𠮷", "\n", "\xff"};
  static const std::vector<Row> D[] = {
      {{"a", "x", 1}, {"ab", "y", 1}, {"あ", "x", 1}},
      {{"aa", "x", 1}, {"bあ", "y", 1}, {"漢", "x", 1}, {"漢漢", "y", 2}, {"b", "z", 1}},
      {{"zz", "x", 1}},
      {{"a\n", "x", 1}, {"、𠮷", "y", 1}, {"𠮷", "x", 1}, {"b", "y", 3}},
  };
  int d = c.choose(4), u = c.choose(6);
  struct Key { std::unique_ptr<Model> m; std::string err; };
  static std::map<int, Key> cache;
  auto& k = cache[d * 10 + u];
  if (!k.m) {
    k.m.reset(new Model);
    Status q = k.m->build([&](dsl::ModelSpecBuilder& b) {
      auto& f1 = b.field(1, "f1").strings().trieIndex();
      auto& f2 = b.field(2, "f2").strings();
      b.field(3, "n").integers();
      b.unigram({f1, f2});
      b.bigram({f2}, {f1});
      b.trigram({f2}, {f1}, {f2});
      if (u == 1) b.unk("u", 1).single(CC::FAMILY_ALPH).outputTo({f1});
      if (u == 2) b.unk("u", 1).chunking(CC::FAMILY_KANJI).outputTo({f1});
      if (u == 3) b.unk("u", 1).single(CC::FAMILY_ANYTHING).outputTo({f1}).lowPriority();
      if (u == 4) b.unk("u", 1).chunking(CC::FAMILY_ANYTHING).outputTo({f1});
      if (u == 5) { b.unk("u", 1).single(CC::HIRAGANA).outputTo({f1}); b.unk("v", 1).chunking(CC::FAMILY_PUNC).outputTo({f1}).lowPriority(); }
    }, sp(csvOf(D[d])));
    if (!q) k.err = msg(q);
  }
  if (!k.err.empty()) c.fail("setup", "%s", k.err.c_str());
  static const std::vector<std::string> AL2 = {"a", "b", "漢"};
  std::string in = c.flag() ? c.str(AL2, 5, c.thorough() ? 8 : 6) : c.str(AL, 0, c.thorough() ? 5 : 4);
  c.note("dictionary %d handlers %d text [%s]", d, u, in.c_str());
  bool bad = in.find('\xff') != std::string::npos;
  // can the text be covered?
  auto ch = bad ? std::vector<std::string>{} : cps(in);
  std::vector<bool> cov(ch.size() + 1);
  cov[0] = true;
  auto single = [&](const std::string& x) {
    if (u == 1) return x == "a" || x == "b";
    if (u == 2) return x == "漢";
    if (u == 3 || u == 4) return true;
    if (u == 5) return x == "あ" || x == "、";
    return false;
  };
  for (size_t i = 0; i < ch.size(); ++i) {
    if (!cov[i]) continue;
    if (single(ch[i])) cov[i + 1] = true;
    for (auto& r : D[d]) {
      auto w = cps(r.f1);
      bool ok = i + w.size() <= ch.size();
      for (size_t j = 0; ok && j < w.size(); ++j) ok = w[j] == ch[i + j];
      if (ok) cov[i + w.size()] = true;
    }
  }
  W& w = weights(0);
  static const int CF[][5] = {{1, 0, 0, 0, 0}, {3, 0, 0, 0, 0}, {1, 1, 0, 0, 0}, {2, 3, 1, 1, 0}, {2, 2, 2, 1, 0}, {1, 4, 0, 0, 1}};
  for (auto& f : CF) {
    AnalyzerConfig cfg = acfg();
    if (c.thorough()) cfg.pageSize = 4 << 20;
    cfg.globalBeamSize = f[1];
    cfg.rightGbeamCheck = f[2];
    cfg.rightGbeamSize = f[3];
    if (f[4]) { cfg.autoBeamStep = 2; cfg.autoBeamBase = 1; cfg.autoBeamMax = 4; }
    auto an = k.m->analyzer(f[0], cfg);
    Status q = an->initScorers(w.sd);
    if (!q) c.fail("status", "%s", msg(q).c_str());
    ExactBuf e(in);
    q = an->full(e.sp(), &w.sd);
    bool exp = !bad && cov.back();
    if (bool(q) != exp) c.fail(exp ? "refused" : bad ? "malformed accepted" : "uncovered accepted", "status is %s", msg(q).c_str());
    c.sig(q ? 1 : 0);
    if (!q) continue;
    checkJoin(c, an.get(), ch, in);
  }
}
// long texts: as many characters and candidates as the limit of input sizes lets through
void s_long(Ctx& c) {
  static const std::vector<int> L[] = {{127, 128, 255, 256, 257}, {127, 128, 256, 4095, 4096, 32764, 32765, 32766, 32767, 32768, 65535, 65536}, {127, 128, 256, 4096, 16384, 32765, 32766, 32767, 32768, 65536}};
  static const std::vector<int> TL[] = {{180, 181, 182, 300, 361, 362, 363, 400, 512, 700}, {512, 2047, 2048, 8191, 8192, 16383, 16384, 32769, 40000, 65530, 65537, 70000}, {181, 182, 363, 2047, 2048, 8191, 8192, 16383, 16385, 32764, 32769, 65535, 65540}};
  int kind = c.choose(3);  // 0: every chunk is a candidate, 1: single characters, 2: dictionary words only
  int beam = c.choose(2), tail = c.choose(c.thorough() ? 3 : 2);
  std::vector<int> len = L[kind];
  if (c.thorough()) len.insert(len.end(), TL[kind].begin(), TL[kind].end());
  int n = c.pick(len);
  static const std::string T[] = {"", "犬b犬b犬b犬", "犬"};
  std::string in(n, 'a');
  in += T[tail];
  static std::unique_ptr<Model> ms[3];
  auto& m = ms[kind];
  if (!m) {
    m.reset(new Model);
    Status q = m->build([&](dsl::ModelSpecBuilder& b) {
      auto& f1 = b.field(1, "f1").strings().trieIndex();
      auto& f2 = b.field(2, "f2").strings();
      b.field(3, "n").integers();
      b.unigram({f1, f2});
      b.bigram({f2}, {f1});
      if (kind == 0) b.unk("u", 1).chunking(CC::FAMILY_ALPH).outputTo({f1});
      if (kind != 2) b.unk("v", 1).single(CC::FAMILY_ANYTHING).outputTo({f1});
    }, sp(csvOf(kind == 2 ? std::vector<Row>{{"a", "x", 1}, {"aa", "y", 2}, {"犬", "z", 1}, {"犬b", "z", 2}} : std::vector<Row>{{"犬", "z", 1}})));
    if (!q) c.fail("setup", "%s", msg(q).c_str());
  }
  AnalyzerConfig cfg = acfg();
  cfg.pageSize = 4 << 20;
  if (beam) cfg.globalBeamSize = 2;
  cfg.maxInputBytes = 100000;
  c.note("handlers %d, %d characters and tail %d, global beam %d", kind, n, tail, (int)cfg.globalBeamSize);
  W& w = weights(0);
  auto an = m->analyzer(1, cfg);
  Status q = an->initScorers(w.sd);
  if (!q) c.fail("status", "%s", msg(q).c_str());
  ExactBuf e(in);
  q = an->full(e.sp(), &w.sd);
  c.sig(q ? 1 : 0);
  auto ch = cps(in);
  // what ordinary limits let through has to be analysed
  if (!q && ch.size() <= 4096) c.fail("refused", "status is %s", msg(q).c_str());
  if (q) checkJoin(c, an.get(), ch, in);
  // and the analyzer is not disturbed by a refused or a long text
  q = an->full(sp("aa犬"), &w.sd);
  if (!q) c.fail("status", "%s", msg(q).c_str());
  checkJoin(c, an.get(), cps("aa犬"), "aa犬");
}
}  // namespace

int main(int argc, char** argv) {
  const char* p = getenv("VERIF_PROP");
  std::string pr = p ? p : "";
  std::vector<mc::Scenario> v;
  if (pr.empty() || pr == "P11") v.push_back({"full", s_full, "6 feature sets x 5 dictionaries (homographs, overlaps, unreachable words) x with and without unknown words x every text of <=5 (7) characters over 2 (<=3 (4) for 9 homographs); weights with and without ties and collisions, beams 1,2,3,12 and as wide as the number of paths, with and without a score plugin"});
  if (pr.empty() || pr == "P12") {
    v.push_back({"gbeam", s_gbeam, "6 feature sets x 5 dictionaries x unk x every text of <=4 (5) characters; beams 1,2,4,30 x global beams 1,2,3,6,2000 x right checks 0,1,2,5 x right beams 1,2,50 x plugin"});
    v.push_back({"auto", s_auto, "adaptive sizes: step, base, maximum, global beam and right check; one analyzer through 9 texts"});
    v.push_back({"scorers", s_scorers, "two additional scorers x weights x beams x global beams x texts of 1-4 (5)"});
  }
  if (pr.empty() || pr == "P10") v.push_back({"cover", s_cover, "every text of <=4 (5) symbols over 8 (including a 4-byte character, newline and a malformed byte) and of 5-6 (8) over 3 x 4 dictionaries x 6 sets of handlers x 6 beam settings"});
  if (pr.empty() || pr == "P10") v.push_back({"long", s_long, "texts of lengths around the capacities of the integers which hold positions and candidates (127 to 70000 characters, more than 32767 and 65535 candidates) x 3 sets of handlers x 3 endings x with and without a global beam"});
  return mc::run(argc, argv, v);
}
