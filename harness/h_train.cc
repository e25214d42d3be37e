// LIBS: v_mc v_train v_core v_util
// P22: the real trainer and the real weight update on every small annotated
// sentence; gold path, loss, feature differences and weights against a
// reference computed from the lattice.
#include <cmath>
#include "core/training/scw.h"
#include "core/training/trainer.h"
#include "core/training/training_env.h"
#include "tenv.h"
using mc::Ctx;
using namespace vt;
namespace tr = jumanpp::core::training;
namespace {
struct Row { std::string a, p, x; };
// the first row is the template of unknown words
const std::vector<std::vector<Row>> DICS = {
    {{"UU", "U", "u"}, {"a", "N", "x"}, {"b", "N", "x"}, {"ab", "N", "x"}, {"ba", "V", "y"}, {"a", "V", "y"}},
    {{"UU", "U", "u"}, {"a", "N", "x"}, {"a", "N", "y"}, {"b", "V", "x"}, {"b", "N", "y"}, {"ab", "V", "x"}},
    {{"UU", "U", "u"}, {"aba", "V", "z"}, {"ab", "N", "x"}, {"b", "U", "z"}},
};
enum Kind { Plain, DataBetween, ZeroData, ZeroFeature, GoldIf, Swapped, NKinds };
const char* KN[] = {"plain", "data field between", "zero weight data field", "zero weight feature", "unk_gold_if", "fields in another order"};
struct TM {
  TrainModel m;
  input::TrainFieldsIndex idx;
  std::vector<Row> rows;
};
// position of the fields in an annotated word
std::vector<std::string> annot(int kind, const Row& r) {
  switch (kind) {
    case ZeroData: return {r.a, r.x, r.p};
    case ZeroFeature: return {r.a, r.p, r.x};
    case Swapped: return {r.p, r.a};
    default: return {r.a, r.p};
  }
}
double weightOf(int kind) { return kind == ZeroData || kind == DataBetween ? 0.5 : 1.0; }
TM& model(Ctx& c, int kind, int dic) {
  static TM tms[NKinds][3];
  TM& t = tms[kind][dic];
  if (t.m.env) return t;
  t.rows = DICS[dic];
  std::string csv;
  for (auto& r : t.rows) csv += csvRow({r.a, r.x, r.p, r.a == "UU" ? "t:N k:V" : "k:N"});
  Status s = t.m.make(c.scratch() + "/m", [kind](dsl::ModelSpecBuilder& b) {
    if (kind == Plain || kind == Swapped || kind == GoldIf) {
      auto& a = b.field(1, "a").strings().trieIndex();
      auto& p = b.field(3, "p").strings();
      b.unigram({a}); b.unigram({p}); b.unigram({a, p});
      b.bigram({a}, {a}); b.bigram({p}, {p});
      b.trigram({p}, {p}, {p});
      b.unk("alph", 1).chunking(chars::CharacterClass::ALPH).outputTo({a});
      if (kind == Swapped) b.train().field(p, 1.0f).field(a, 1.0f);
      else if (kind == Plain) b.train().field(a, 1.0f).field(p, 1.0f);
      else { auto& k = b.field(4, "k").kvLists(); b.train().field(a, 1.0f).field(p, 1.0f).allowGoldUnkWith(p, k, "t"); }
      return;
    }
    auto& a = b.field(1, "a").strings().trieIndex();
    auto& x = b.field(2, "x").strings();
    auto& p = b.field(3, "p").strings();
    b.unigram({a}); b.unigram({p}); b.unigram({a, p});
    if (kind == ZeroFeature) b.unigram({x});
    b.bigram({a}, {a}); b.bigram({p}, {p});
    b.trigram({p}, {p}, {p});
    b.unk("alph", 1).chunking(chars::CharacterClass::ALPH).outputTo({a});
    if (kind == DataBetween) b.train().field(a, 1.0f).field(p, 0.5f);
    else if (kind == ZeroData) b.train().field(a, 1.0f).field(x, 0.0f).field(p, 0.5f);
    else b.train().field(a, 1.0f).field(p, 1.0f).field(x, 0.0f);
  }, csv);
  if (!s) c.fail("setup", "%s: %s", KN[kind], msg(s).c_str());
  s = t.idx.initialize(*t.m.env->coreHolder());
  if (!s) c.fail("setup", "%s: %s", KN[kind], msg(s).c_str());
  return t;
}

struct Hs {
  u64 s = 0x16f11fe89b0d677cULL;
  Hs mix(u64 d) const { u64 v = (s ^ d) * 0x6eed0e9da4d94a4fULL; return {v << 32 | v >> 32}; }
};
struct Nd { int b, p; };
// hashed n-gram features of a node after two others
std::vector<u32> feats(const CoreHolder& core, Lattice* l, Nd t2, Nd t1, Nd t0) {
  auto row = [&](Nd n) { return l->boundary(n.b)->starts()->patternFeatureData().row(n.p); };
  std::vector<u32> r;
  for (auto& g : core.spec().features.ngram) {
    auto& f = g.references;
    Hs h = Hs{}.mix(2 + f.size()).mix(g.index);
    if (f.size() == 1) h = h.mix(0x5123a31421fULL).mix(row(t0)[f[0]]);
    if (f.size() == 2) h = h.mix(0x5123a68442fULL).mix(row(t0)[f[0]]).mix(row(t1)[f[1]]);
    if (f.size() == 3) h = h.mix(0x51239ab41f1fULL).mix(row(t0)[f[0]]).mix(row(t1)[f[1]]).mix(row(t2)[f[2]]);
    r.push_back((u32)h.s);
  }
  return r;
}
struct Weights {
  std::vector<float> v;
  explicit Weights(tr::SoftConfidenceWeighted& s) {
    model::ModelInfo mi;
    s.exportModel(&mi);
    auto d = mi.parts.back().data[1];
    v.resize(d.size() / 4);
    memcpy(v.data(), d.data(), d.size());
  }
};
int cpLen(const std::string& s) { int n = 0; for (unsigned char ch : s) n += (ch & 0xc0) != 0x80; return n; }

void train(Ctx& c, int kind, int dic, const std::vector<Row>& words, int beam, tr::TrainingMode mode, int exponent, u32 seed, bool morph, int rounds, int gbeam) {
  TM& t = model(c, kind, dic);
  const CoreHolder& core = *t.m.env->coreHolder();
  const spec::TrainingSpec& ts = core.spec().training;
  std::string text, ex;
  for (auto& w : words) {
    text += w.a;
    auto f = annot(kind, w);
    if (morph) ex += (ex.empty() ? "" : " ") + join(f, "_");
    else ex += csvRow(f);
  }
  ex += "\n";
  c.note("%s dic %d beam %d mode %d exponent %d seed %u%s gbeam %d: %s", KN[kind], dic, beam, (int)mode, exponent, seed, morph ? " morph" : "", gbeam, ex.c_str());
  tr::TrainingConfig tc;
  tc.mode = mode;
  tc.featureNumberExponent = (u32)exponent;
  tc.randomSeed = seed;
  tc.beamSize = beam;
  tr::SoftConfidenceWeighted scw(tc);
  AnalyzerConfig ac = acfg();
  tr::TrainerFullConfig fc{&ac, &core, &ts, &tc};
  tr::OwningFullTrainer trainer(fc);
  Status s = trainer.initAnalyzer(scw.scorers());
  c.check(bool(s), "setup", "initAnalyzer");
  if (gbeam) {
    tr::GlobalBeamTrainConfig g;
    g.leftBeam = gbeam;
    trainer.setGlobalBeam(g);
  }
  tr::FullExampleReader rdr;
  rdr.setTrainingIo(&t.idx);
  s = morph ? rdr.initDoubleCsv(sp(ex)) : rdr.initCsv(sp(ex));
  c.check(bool(s), "read", "reader");
  trainer.reset();
  s = trainer.readExample(&rdr);
  if (!s) c.fail("read", "the example is not read: %s", msg(s).c_str());
  std::vector<double> var(size_t(1) << exponent, 1.0);
  for (int round = 0; round < rounds; ++round) {
    c.count();
    s = trainer.prepare();
    if (!s) c.fail("prepare", "prepare: %s", msg(s).c_str());
    Lattice* l = trainer.lattice();
    // the gold path
    std::vector<Nd> gold;
    trainer.markGold([&](LatticeNodePtr p) { gold.push_back({p.boundary, p.position}); });
    if (gold.size() != words.size()) c.fail("gold-path", "%zu gold nodes for %zu words", gold.size(), words.size());
    StringField fa, fp;
    if (!trainer.outputMgr().stringField("a", &fa) || !trainer.outputMgr().stringField("p", &fp)) c.fail("setup", "fields");
    NodeWalker nw = trainer.outputMgr().nodeWalker();
    int pos = 2;
    auto desc = [&](Nd n, std::string* a, std::string* p) {
      auto ni = l->boundary(n.b)->starts()->nodeInfo().at(n.p);
      if (!trainer.outputMgr().locate(ni.entryPtr(), &nw) || !nw.next()) c.fail("gold-node", "node %d.%d has no content", n.b, n.p);
      *a = st(fa[nw]);
      *p = st(fp[nw]);
    };
    for (size_t i = 0; i < words.size(); ++i) {
      auto& w = words[i];
      auto bnd = l->boundary(gold[i].b)->starts();
      int len = cpLen(w.a);
      if (gold[i].b != pos || gold[i].p >= (int)bnd->numEntries()) c.fail("gold-path", "gold node %zu at %d.%d, expected at %d", i, gold[i].b, gold[i].p, pos);
      auto ni = bnd->nodeInfo().at(gold[i].p);
      if (ni.start() + 2 != pos || ni.end() + 2 != pos + len) c.fail("gold-span", "gold node %zu covers %d-%d, expected %d-%d", i, ni.start() + 2, ni.end() + 2, pos, pos + len);
      std::string a, p;
      desc(gold[i], &a, &p);
      bool surfKnown = false, posKnown = false, exact = false;
      for (auto& r : t.rows) { surfKnown |= r.a == w.a; posKnown |= r.p == w.p; }
      for (int k = 0; k < (int)bnd->numEntries(); ++k) {
        auto ki = bnd->nodeInfo().at(k);
        if (ki.end() + 2 != pos + len) continue;
        std::string ka, kp;
        desc({pos, k}, &ka, &kp);
        exact |= ka == w.a && kp == w.p;
      }
      // an unknown-word candidate of the same text is accepted, with unk_gold_if
      // only for the value its template declares
      bool anyPos = posKnown && !surfKnown && (kind != GoldIf || w.p == "N");
      if (a != w.a && posKnown) c.fail("gold-surface", "gold node %zu is <%s>, annotated <%s>", i, a.c_str(), w.a.c_str());
      if (posKnown && p != w.p && (exact || !anyPos)) c.fail("gold-field", "gold node %zu has p=<%s>, annotated <%s>%s", i, p.c_str(), w.p.c_str(), exact ? " and such a candidate exists" : "");
      pos += len;
    }
    // system path and steps
    Weights w0(scw);
    s = trainer.compute(scw.scorers());
    if (!s) c.fail("compute", "compute: %s", msg(s).c_str());
    int eos = (int)l->createdBoundaryCount() - 1;
    if (pos != eos) c.fail("gold-path", "gold path ends at %d, the sentence at %d", pos, eos);
    std::vector<const ConnectionBeamElement*> dummy;
    auto& eosEl = l->boundary(eos)->starts()->beamData().at(0);
    struct Sys { Nd n; float score; Nd t1, t2; };
    std::vector<Sys> sys;
    {
      const ConnectionPtr* p = &eosEl.ptr;
      float sc = eosEl.totalScore;
      while (p && p->boundary >= 2) {
        Sys x;
        x.n = {p->boundary, p->right};
        x.score = sc;
        x.t1 = {p->previous->boundary, p->previous->right};
        x.t2 = p->previous->previous ? Nd{p->previous->previous->boundary, p->previous->previous->right} : Nd{0, 0};
        sys.push_back(x);
        const ConnectionPtr* q = p->previous;
        if (q->boundary >= 2) {
          // the score of the previous path element is stored in its own beam
          auto row = l->boundary(q->boundary)->starts()->beamData().row(q->right);
          sc = NAN;
          for (auto& e : row) if (&e.ptr == q) sc = e.totalScore;
          if (std::isnan(sc)) c.fail("system-path", "path element not in its beam");
        }
        p = q;
      }
    }
    std::reverse(sys.begin(), sys.end());
    // gold features and scores
    std::vector<std::vector<u32>> gf;
    std::vector<double> gs;
    u32 mask = (1u << exponent) - 1;
    {
      Nd t2{0, 0}, t1{1, 0};
      double acc = 0;
      for (size_t i = 0; i <= gold.size(); ++i) {
        Nd t0 = i < gold.size() ? gold[i] : Nd{eos, 0};
        gf.push_back(feats(core, l, t2, t1, t0));
        for (auto f : gf.back()) acc += w0.v[f & mask];
        gs.push_back(acc);
        t2 = t1;
        t1 = t0;
      }
    }
    struct Step { bool top, gold; int ti, gi; double viol = 0, mism = 0; int nm = 0; bool inBeam = true; };
    std::vector<Step> steps;
    double full = 0;
    for (auto& f : ts.fields) full += f.weight;
    bool same = true, nearThreshold = false;
    {
      size_t gi = 0, ti = 0;
      double lastGold = 0;
      while (gi <= gold.size() || ti < sys.size()) {
        int gb = gi < gold.size() ? gold[gi].b : eos, tb = ti < sys.size() ? sys[ti].n.b : eos + 1;
        Step x{false, false, -1, -1};
        if (gi > gold.size()) gb = eos + 1;
        if (gb <= tb) {
          x.gold = true;
          x.gi = (int)gi;
          lastGold = gs[gi];
          if (gi > 0) {
            Nd n = gi < gold.size() ? gold[gi] : Nd{eos, 0}, pr = gold[gi - 1];
            x.inBeam = false;
            auto row = l->boundary(n.b)->starts()->beamData().row(n.p);
            for (auto& e : row) {
              if (EntryBeam::isFake(e)) break;
              if (e.ptr.previous && e.ptr.previous->boundary == pr.b && e.ptr.previous->right == pr.p) x.inBeam = true;
            }
          }
        }
        if (tb <= gb) {
          x.top = true;
          x.ti = (int)ti;
          x.viol = sys[ti].score - lastGold;
          nearThreshold |= std::fabs(x.viol - 0.001) < 2e-4;
        }
        if (x.top && x.gold && gi < gold.size()) {
          auto ed = l->boundary(gb)->starts()->entryData();
          for (auto& f : ts.fields) {
            if (f.weight == 0) continue;
            if (ed.row(gold[gi].p)[f.dicIdx] != ed.row(sys[ti].n.p)[f.dicIdx]) { ++x.nm; x.mism += f.weight; }
          }
        }
        same &= x.top && x.gold && !x.nm;
        if (x.gold) ++gi;
        if (x.top) ++ti;
        steps.push_back(x);
      }
    }
    double loss = 0;
    for (auto& x : steps) loss += x.top && x.gold ? x.mism : full;
    loss /= steps.size() * full;
    float got = trainer.loss();
    if ((got == 0) != same) c.fail("loss-zero", "loss %g while the system path %s the gold path", got, same ? "equals" : "differs from");
    if (!(std::fabs(got - loss) < 1e-5)) c.fail("loss-value", "loss %g, expected %g over %zu steps", got, loss, steps.size());
    // features until the chosen step
    int sz = (int)steps.size(), till = sz;
    bool ambiguous = nearThreshold;
    if (mode == tr::TrainingMode::FalloffBeam) {
      for (int i = 0; i < sz; ++i)
        if (steps[i].gold && !steps[i].inBeam) { till = std::min(i + 2, sz - 1); break; }
    } else if (mode == tr::TrainingMode::MaxViolation) {
      int best = 0;
      double v = 0;
      for (int i = 0; i < sz; ++i) {
        if (!steps[i].top) continue;
        if (std::fabs(steps[i].viol - v) < 1e-4) ambiguous |= i != best;
        if (steps[i].viol > v) { best = i; v = steps[i].viol; }
      }
      till = std::min(best + 2, sz - 1);
    }
    std::map<u32, float> ref;
    for (int i = 0; i < till; ++i) {
      auto& x = steps[i];
      bool err = !(x.top && x.gold) || x.nm || x.viol > 0.001;
      if (!err) continue;
      if (x.gold) for (auto f : gf[x.gi]) ref[f & mask] += 1;
      if (x.top) for (auto f : feats(core, l, sys[x.ti].t2, sys[x.ti].t1, sys[x.ti].n)) ref[f & mask] -= 1;
    }
    std::map<u32, float> diff;
    for (auto& f : trainer.featureDiff()) {
      if (f.score == 0) continue;
      if (diff.count(f.feature)) c.fail("diff-repeated", "feature %u occurs twice in the difference", f.feature);
      if (f.feature > mask) c.fail("diff-range", "feature %u of %u", f.feature, mask + 1);
      diff[f.feature] = f.score;
    }
    if (!ambiguous) {
      double ng = 0, nt = 0;
      for (auto it = ref.begin(); it != ref.end();) {
        if (it->second == 0) { it = ref.erase(it); continue; }
        (it->second > 0 ? ng : nt) += std::fabs(it->second);
        ++it;
      }
      // the two sides are balanced: system features are scaled to the sum of
      // gold ones, except when they would grow more than twice
      if (nt != 0) {
        double wt = ng / nt;
        for (auto& f : ref) {
          if (wt > 2 ? f.second > 0 : f.second < 0) f.second *= wt > 2 ? nt / ng : wt;
        }
      }
      for (auto it = ref.begin(); it != ref.end();) it = it->second == 0 ? ref.erase(it) : std::next(it);
      for (auto& f : ref) {
        auto it = diff.find(f.first);
        if (it == diff.end()) c.fail("diff-missing", "feature %u (%s) is missing in the difference", f.first, f.second > 0 ? "gold" : "system");
        if ((it->second > 0) != (f.second > 0)) c.fail("diff-sign", "feature %u of the %s path has score %g", f.first, f.second > 0 ? "gold" : "system", it->second);
        if (std::fabs(it->second - f.second) > 1e-4) c.fail("diff-value", "feature %u has score %g, expected %g", f.first, it->second, f.second);
      }
      for (auto& f : diff) if (!ref.count(f.first)) c.fail("diff-extra", "feature %u (%g) does not distinguish the paths", f.first, f.second);
    }
    c.sig(&got, sizeof got);
    c.sig(std::string((const char*)&*sys.begin(), 0) + std::to_string(diff.size()) + "/" + std::to_string(steps.size()) + "/" + std::to_string(till));
    c.state(steps.size());
    c.transition(diff.size());
    // the update
    double vt0 = 0;
    for (auto& f : diff) vt0 += f.second * f.second;
    if (got >= 1e-5 && vt0 == 0) return;  // features collide: nothing to learn from
    // soft confidence-weighted learning (SCW-I): step size from the margin and
    // the variance of the difference, shrinking variances; all variances start at 1
    double vt = 0, mt = 0;
    for (auto& f : diff) { vt += f.second * f.second * var[f.first]; mt += (double)w0.v[f.first] * f.second; }
    mt *= got;
    double phi = tc.scw.phi, zeta = 1 + phi * phi, psi = 1 + phi * phi / 2, al = 0, be = 0;
    if (got >= 1e-5) {
      al = (-mt * psi + std::sqrt(mt * mt * phi * phi * phi * phi / 4 + vt * phi * phi * zeta)) / (vt * zeta);
      al = std::min(std::max(al, 0.0), (double)tc.scw.C);
      double t = -al * vt * phi + std::sqrt(al * al * vt * vt * phi * phi + 4 * vt);
      be = al * phi / (t / 2 + vt * al * phi);
    }
    scw.update(got, trainer.featureDiff());
    Weights w1(scw);
    for (auto& f : diff) {
      if (got < 1e-5) break;
      double d = al * got * var[f.first] * f.second, r = (double)w1.v[f.first] - w0.v[f.first];
      if (!(std::fabs(d - r) < 1e-4 + 1e-3 * std::fabs(d))) c.fail("update-size", "weight %u changed by %g, the confidence-weighted update is %g (variance %g, step %g, loss %g)", f.first, r, d, var[f.first], al, got);
      var[f.first] -= be * var[f.first] * var[f.first] * f.second * f.second;
    }
    double m0 = 0, m1 = 0;
    for (auto& f : diff) { m0 += (double)w0.v[f.first] * f.second; m1 += (double)w1.v[f.first] * f.second; }
    for (u32 i = 0; i <= mask; ++i) {
      auto it = diff.find(i);
      double d = (double)w1.v[i] - w0.v[i];
      if (std::isnan(w1.v[i])) c.fail("update-nan", "weight %u is not a number", i);
      if (it == diff.end() || got < 1e-5) {
        if (d != 0) c.fail("update-other", "weight %u changed by %g, the paths do not differ there (loss %g)", i, d, got);
      } else if (d * it->second < 0) c.fail("update-sign", "weight %u of the %s path changed by %g", i, it->second > 0 ? "gold" : "system", d);
    }
    if (got >= 1e-5 && m0 <= 0 && !(m1 > m0)) c.fail("update-none", "margin of the annotated analysis %g before and %g after the update", m0, m1);
    if (got < 1e-5) return;
  }
}
const std::vector<std::string> W1 = {"a", "b", "ab", "ba", "aba", "c", "bc", "水", "a水"};
const std::vector<std::string> PS = {"N", "V", "U", "Z"};
void draw(Ctx& c, std::vector<Row>* ws, int n) {
  for (int i = 0; i < n; ++i) {
    Row r;
    static const std::vector<std::string> W2 = {"a", "ab", "ba", "bc", "水", "c"}, W3 = {"a", "b", "ab", "c"};
    static const std::vector<std::string> P2 = {"N", "V", "Z"}, P3 = {"N", "V"};
    if (n == 1) { r.a = c.pick(W1); r.p = c.pick(PS); }
    else if (n == 2) { r.a = c.thorough() ? c.pick(W1) : c.pick(W2); r.p = c.thorough() ? c.pick(PS) : c.pick(P2); }
    else { r.a = c.thorough() ? c.pick(W1) : c.pick(W3); r.p = c.pick(P3); }
    r.x = "y";
    ws->push_back(r);
  }
}
tr::TrainingMode MODES[] = {tr::TrainingMode::Full, tr::TrainingMode::FalloffBeam, tr::TrainingMode::MaxViolation};
void s_words(Ctx& c) {
  int n = c.range(1, 3);
  int kind = c.choose(NKinds);
  int dic = c.choose((int)DICS.size());
  int beam = c.flag() ? 3 : 1;
  std::vector<Row> ws;
  draw(c, &ws, n);
  auto mode = n < 3 || c.thorough() ? c.pick(MODES) : MODES[(ws[0].a.size() + beam + dic) % 3];
  train(c, kind, dic, ws, beam, mode, 12, 1, false, 2, 0);
}
// the same sentence under other hash sizes, initial weights, readers and more rounds
void s_space(Ctx& c) {
  static const std::vector<std::vector<Row>> EX = {
      {{"a", "N", "x"}, {"b", "N", "x"}, {"a", "V", "x"}},
      {{"ab", "V", "x"}, {"c", "U", "x"}},
      {{"ba", "V", "y"}, {"ba", "V", "y"}, {"ba", "N", "y"}},
      {{"a", "N", "x"}, {"水", "N", "x"}, {"ab", "N", "x"}, {"bc", "U", "x"}},
      {{"abab", "N", "x"}},
      {{"a", "N", "x"}, {"b", "V", "x"}, {"a", "N", "x"}, {"b", "V", "x"}, {"c", "U", "x"}},
  };
  auto& ex = EX[c.choose((int)EX.size())];
  int kind = c.choose(NKinds), dic = c.choose((int)DICS.size());
  int beam = c.range(1, 3), exponent = std::vector<int>{2, 4, 6, 9, 14}[c.choose(5)];
  auto mode = c.pick(MODES);
  u32 seed = (u32)c.range(1, c.thorough() ? 12 : 3);
  bool morph = c.flag();
  int gbeam = c.choose(3);
  train(c, kind, dic, ex, beam, mode, exponent, seed, morph, c.thorough() ? 8 : 4, gbeam);
}
}  // namespace
int main(int argc, char** argv) {
  return mc::run(argc, argv, {
    {"words", s_words, "annotated sentences of up to 3 words out of 9 texts x 4 tags, 6 training specifications, 3 dictionaries, beams 1 and 3, 3 modes"},
    {"space", s_space, "6 sentences, hash sizes 2^2..2^14, several initial weights, beams 1-3, global beam, both readers, up to 4 rounds"},
  });
}
