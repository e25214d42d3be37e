// LIBS: v_mc v_core
// P26: the recurrent network scores of all reported paths, against an
// independent evaluation of the network for each word sequence.
#include <cmath>
#include <fstream>
#include "dump.h"
#include "rnnnet.h"
#include "core/analysis/rnn_scorer_gbeam.h"
#include "core/env.h"
#include "rnn/mikolov_rnn.h"
using namespace vt;
using mc::Ctx;
namespace rnnc = jumanpp::core::analysis::rnn;
using CC = jumanpp::chars::CharacterClass;

namespace {
// missing vocabulary words are scored with the embedding of the first word
struct Walk {
  const Net& n;
  double unkC, unkL, lnz;
  int unkId;
  Net::Vec ctx;
  std::vector<int> hist;
  Walk(const Net& nn, double c, double l, double z, int u) : n(nn), unkC(c), unkL(l), lnz(z), unkId(u), ctx(nn.layer, 0.0), hist(8, 0) {
    ctx = n.step(ctx, 0);
  }
  double word(int id, int len) {
    double s = id == unkId ? unkC + unkL * len : n.score(ctx, hist, id) - lnz;
    int e = id < 0 ? 0 : id;
    ctx = n.step(ctx, e);
    hist.insert(hist.begin(), id);
    return s;
  }
};

struct Row { std::string a, b; };
const std::vector<Row> DICS[] = {
    {{"a", "x"}, {"b", "x"}, {"ab", "x"}, {"ba", "y"}},
    {{"a", "x"}, {"a", "y"}, {"ab", "x"}, {"ab", "y"}, {"b", "x"}, {"b", "z"}},
    {{"a", "x"}, {"a", "y"}, {"a", "z"}, {"a", "w"}, {"b", ""}},
    {{"a", ""}, {"aa", ""}, {"b", "x"}, {"bb", ""}, {"aba", "y"}},
    {{"b", "x"}, {"bab", "y"}},
};
// {repr fields, separator, vocabulary}
struct Voc {
  std::vector<std::string> fields;
  std::string sep, unk;
  std::vector<std::string> words;
};
const Voc VOCS[] = {
    {{"f1"}, "_", "<unk>", {"</s>", "<unk>", "a", "b", "ab", "ba"}},
    {{"f1"}, "_", "<unk>", {"</s>", "ab", "b", "<unk>", "aa", "bb"}},
    {{"f1", "f2"}, "_", "<unk>", {"</s>", "a_x", "a_y", "b_x", "<unk>", "ab_x", "ba_y", "b_z"}},
    {{"f2", "f1"}, ",", "", {"</s>", "x,a", "y,a", "x,b", "z,b", "x,ab", "y,ab", "y,aba"}},
    {{"f2"}, "_", "UNK", {"</s>", "x", "y", "z", "UNK"}},
    {{"f1", "f2"}, "_", "<unk>", {"</s>", "a_", "aa_", "b_", "<unk>", "bb_", "b_x", "aab_x", "ca_x"}},
    {{"f1"}, "_", "<unk>", {"</s>", "<unk>", "q", "r", "\"", "ca"}},
    {{"f1"}, "_", "", {"</s>", "a", "b"}},
};
const std::vector<std::string> AB = {"a", "b"};

struct Mdl {
  Model m;
  std::string err;
};
Mdl& model(int d, bool unk, int align) {
  static std::map<int, std::unique_ptr<Mdl>> cache;
  auto& p = cache[d * 16 + unk * 8 + align];
  if (p) return *p;
  p.reset(new Mdl);
  static std::vector<std::unique_ptr<std::string>> keep;
  std::vector<std::vector<std::string>> rows = {{"<t>", "x"}};
  for (auto& r : DICS[d]) rows.push_back({r.a, r.b});
  keep.emplace_back(new std::string(csvText(rows)));
  Status q = p->m.build(
      [&](dsl::ModelSpecBuilder& b) {
        auto& f1 = b.field(1, "f1").strings().trieIndex();
        auto& f2 = b.field(2, "f2").strings();
        if (align) f2.align(align);
        b.unigram({f1, f2});
        b.bigram({f1}, {f2});
        b.trigram({f2}, {f1}, {f2});
        if (unk) b.unk("u", 1).chunking(CC::FAMILY_ALPH).outputTo({f1});
      },
      sp(*keep.back()));
  if (!q) p->err = msg(q);
  return *p;
}
void write(const std::string& f, const std::string& s) {
  std::ofstream o(f, std::ios::binary);
  o.write(s.data(), s.size());
}

struct Case {
  int d, v, order, layer;
  bool unk;
  int align;
  std::unique_ptr<RnnScorerGbeamFactory> fac, loaded;
  model::FilesystemModel fm;
  model::ModelInfo info;
  Net net;
  float lnz, unkC = -6, unkL = -1.5f, wp = 1, wr = 1;
  std::string err;
};
const int LAYERS[] = {1, 3, 8};
// creating a network once is enough, it does not change
Case& get(Ctx& c, int d, int v, int order, int layer, bool unk, int align, int conf) {
  static std::map<std::vector<int>, std::unique_ptr<Case>> cache;
  auto& p = cache[{d, v, order, layer, unk, align, conf}];
  if (p) return *p;
  p.reset(new Case);
  Case& k = *p;
  k.d = d, k.v = v, k.order = order, k.layer = layer, k.unk = unk, k.align = align;
  k.net.order = order;
  k.net.layer = layer;
  k.net.voc = VOCS[v].words;
  k.net.fill(d * 100 + v * 10 + order);
  std::string path = c.scratch() + "/net";
  write(path, k.net.dict());
  write(path + ".nnet", k.net.file());
  rnnc::RnnInferenceConfig cfg;
  cfg.rnnFields = VOCS[v].fields;
  cfg.fieldSeparator = VOCS[v].sep;
  cfg.unkSymbol = VOCS[v].unk;
  k.lnz = 9;
  if (conf == 1) { cfg.nceBias = 2.5f; cfg.unkConstantTerm = -3.25f; cfg.unkLengthPenalty = 0.5f; cfg.rnnWeight = 0.25f; k.lnz = 2.5f; k.unkC = -3.25f; k.unkL = 0.5f; }
  if (conf == 2) { cfg.rnnWeight = 3.f; cfg.perceptronWeight = 0.5f; k.wr = 3; k.wp = 0.5f; }
  if (conf == 1) k.wr = 0.25f;
  k.fac.reset(new RnnScorerGbeamFactory);
  auto& m = model(d, unk, align);
  if (!m.err.empty()) { k.err = "setup: " + m.err; return k; }
  Status q = k.fac->make(sp(path), m.m.holder, cfg);
  if (!q) { k.err = "make: " + msg(q); return k; }
  // the same network saved and loaded
  model::ModelInfo mi;
  q = k.fac->makeInfo(&mi, "rnn");
  if (q) {
    model::ModelSaver ms;
    q = ms.open(sp(path + ".model"));
    if (q) q = ms.save(mi);
  }
  if (q) q = k.fm.open(sp(path + ".model"));
  if (q) q = k.fm.load(&k.info);
  if (!q) { k.err = "save: " + msg(q); return k; }
  k.loaded.reset(new RnnScorerGbeamFactory);
  q = k.loaded->load(k.info);
  if (!q) k.err = "load: " + msg(q);
  return k;
}

struct Ref {
  Ctx& c;
  An& an;
  Case& k;
  const Lattice* l;
  std::map<std::string, int> ids;
  int unkId = -1;
  NodeWalker nw;
  StringField f1, f2;
  std::set<std::string> s1, s2;
  Ref(Ctx& cc, An& a, Case& kk) : c(cc), an(a), k(kk), l(a.lattice()), nw(a.output().nodeWalker()) {
    auto& v = VOCS[k.v];
    for (size_t i = 0; i < v.words.size(); ++i) {
      if (v.words[i] == v.unk) unkId = (int)i; else if (i) ids[v.words[i]] = (int)i;
    }
    if (!an.output().stringField("f1", &f1) || !an.output().stringField("f2", &f2)) c.fail("status", "no field");
    s1.insert("<t>"), s1.insert(""), s2.insert("x"), s2.insert("");
    for (auto& r : DICS[k.d]) { s1.insert(r.a); s2.insert(r.b); }
  }
  int idOf(int b, int pos, int* len) {
    auto ni = l->boundary(b)->starts()->nodeInfo().at(pos);
    *len = ni.end() - ni.start();
    if (b + 1 == (int)l->createdBoundaryCount()) { *len = 0; return 0; }
    if (!an.output().locate(ni.entryPtr(), &nw) || !nw.next()) c.fail("node", "unreadable node");
    std::string w1 = st(f1[nw]), w2 = st(f2[nw]), r;
    bool known = true;
    for (auto& f : VOCS[k.v].fields) {
      if (&f != &VOCS[k.v].fields[0]) r += VOCS[k.v].sep;
      r += f == "f1" ? w1 : w2;
      known &= f == "f1" ? s1.count(w1) > 0 : s2.count(w2) > 0;
    }
    auto it = ids.find(r);
    // candidates made for unknown words have no entry for words the dictionary knows,
    // unless the network does not look at the surface at all
    if (ni.entryPtr().isSpecial() && known) return VOCS[k.v].fields == std::vector<std::string>{"f2"} && it != ids.end() ? -2 : unkId;
    return it == ids.end() ? unkId : it->second;
  }
};

void runText(Ctx& c, Case& k, RnnScorerGbeamFactory* f, const std::string& in, int beam, int G, int wi, std::map<std::string, float>* out) {
  static std::vector<float> W0 = intWeights(10, 401, 3), W1(1024, 0.f);
  HashedFeaturePerceptron hp{util::ArraySlice<float>(wi ? W1 : W0)};
  ScorerDef sd;
  sd.feature = &hp;
  sd.others = {f};
  sd.scoreWeights = {k.wp, k.wr};
  AnalyzerConfig cfg = acfg();
  cfg.globalBeamSize = G;
  auto& m = model(k.d, k.unk, k.align);
  auto an = m.m.analyzer(beam, cfg, 2);
  Status q = an->initScorers(sd);
  if (!q) c.fail("status", "%s", msg(q).c_str());
  for (int rep = 0; rep < 2; ++rep) {
    // the second time after another text
    if (rep) {
      q = an->full("abba", &sd);
      if (!q) c.fail("status", "%s", msg(q).c_str());
    }
    q = an->full(sp(in), &sd);
    if (!q) c.fail("status", "%s", msg(q).c_str());
    Ref r(c, *an, k);
    auto* l = an->lattice();
    u32 nb = l->createdBoundaryCount();
    auto eos = l->boundary(nb - 1);
    auto bd = eos->starts()->beamData().row(0);
    auto gb = eos->ends()->globalBeam();
    std::vector<double> all;
    // every path the network had to score
    auto evaluate = [&](std::vector<const ConnectionPtr*> path, double* total, std::string* name) {
      Walk w(k.net, k.unkC, k.unkL, k.lnz, r.unkId);
      *total = 0;
      name->clear();
      for (auto* p : path) {
        int len, id = r.idOf(p->boundary, p->right, &len);
        if (id == -2) return false;
        double e = w.word(id, len);
        auto sc = l->boundary(p->boundary)->scores()->forPtr(*p);
        c.count();
        char b[160];
        snprintf(b, sizeof b, "%u.%u(%d) ", p->boundary, p->right, id);
        *name += b;
        if (!(std::fabs(sc.at(1) - e) < 1e-3)) c.fail(id == r.unkId ? "unknown word score" : "network score", "path %s: last word has score %g, the network gives %g", name->c_str(), sc.at(1), e);
        *total += k.wp * sc.at(0) + k.wr * e;
        if (out) {
          auto ins = out->insert({*name, sc.at(1)});
          if (!ins.second && std::fabs(ins.first->second - sc.at(1)) > 1e-4f) c.fail("depends on context", "path %s: %g and %g", name->c_str(), ins.first->second, sc.at(1));
        }
      }
      return true;
    };
    double t;
    std::string nm;
    for (auto* e : gb) {
      std::vector<const ConnectionPtr*> path;
      for (const ConnectionPtr* p = &e->ptr; p->boundary >= 2; p = p->previous) path.insert(path.begin(), p);
      if (!evaluate(path, &t, &nm)) continue;
      if (!(std::fabs(t - e->totalScore) < 1e-2)) c.fail("path score", "path %s has score %g, expected %g", nm.c_str(), e->totalScore, t);
      // and its continuation to the end of the text
      int left = -1;
      auto ep = eos->ends()->nodePtrs();
      for (size_t i = 0; i < ep.size(); ++i) if (ep.at(i).boundary == e->ptr.boundary && ep.at(i).position == e->ptr.right) left = (int)i;
      auto row = l->boundary(e->ptr.boundary)->starts()->beamData().row(e->ptr.right);
      ConnectionPtr cp{(u16)(nb - 1), (u16)left, 0, (u16)(e - &row.at(0)), &e->ptr};
      path.push_back(&cp);
      if (evaluate(path, &t, &nm)) all.push_back(t);
    }
    std::sort(all.rbegin(), all.rend());
    size_t n = 0;
    for (auto& e : bd) {
      if (EntryBeam::isFake(e)) break;
      std::vector<const ConnectionPtr*> path;
      for (const ConnectionPtr* p = &e.ptr; p->boundary >= 2; p = p->previous) path.insert(path.begin(), p);
      if (evaluate(path, &t, &nm) && !(std::fabs(t - e.totalScore) < 1e-2)) c.fail("total", "path %s has score %g, expected %g", nm.c_str(), e.totalScore, t);
      if (all.size() == gb.size() && !(std::fabs(all[n] - e.totalScore) < 2e-2)) c.fail("selection", "path %d has score %g, the %d-th best is %g", (int)n, e.totalScore, (int)n, all[n]);
      ++n;
    }
    if (n != std::min<size_t>(beam, gb.size())) c.fail("paths", "%d paths, expected %d", (int)n, (int)std::min<size_t>(beam, gb.size()));
    c.sig((uint64_t)(int64_t)(bd.at(0).totalScore * 100) ^ n << 56);
  }
}

void s_scores(Ctx& c) {
  int d = c.choose(5), v = c.choose(8);
  bool unk = c.flag();
  int order = 1 + c.choose(4);
  int layer = c.pick(LAYERS);
  if (!c.thorough() && (order + layer + d + v) % 2 == 0) c.discard();
  std::string in = c.str(AB, 1, c.thorough() ? 7 : d <= 1 && v <= 2 && layer == 3 ? 5 : 3);
  Case& k = get(c, d, v, order, layer, unk, 0, 0);
  c.note("dictionary %d vocabulary %d unk %d order %d layer %d text [%s]", d, v, unk, order, layer, in.c_str());
  if (!k.err.empty()) c.fail("setup", "%s", k.err.c_str());
  auto ch = cps(in);
  bool cov = unk;
  {
    std::vector<bool> ok(ch.size() + 1);
    ok[0] = true;
    for (size_t i = 0; i < ch.size(); ++i)
      for (auto& r : DICS[d]) if (ok[i] && in.compare(i, r.a.size(), r.a) == 0) ok[i + r.a.size()] = true;
    cov = cov || ok.back();
    if (d == 4 && !unk) c.discard();  // "abba" has no analysis
  }
  if (!cov) c.discard();
  std::map<std::string, float> seen;
  for (int G : {1, 2, 5, 40}) for (int wi : {0, 1}) {
    for (int beam : {1, 5}) {
      c.note("dictionary %d vocabulary %d unk %d order %d layer %d text [%s] beam %d global beam %d weights %d", d, v, unk, order, layer, in.c_str(), beam, G, wi);
      runText(c, k, k.fac.get(), in, beam, G, wi, &seen);
    }
  }
  c.note("loaded: dictionary %d vocabulary %d unk %d order %d layer %d text [%s]", d, v, unk, order, layer, in.c_str());
  runText(c, k, k.loaded.get(), in, 5, 40, 0, &seen);
}

// other settings, other characters
void s_conf(Ctx& c) {
  static const std::vector<std::string> T = {"a", "b", "c", "\"", "漢", "ca"};
  int d = c.choose(5), v = c.choose(8), conf = c.choose(3), align = c.choose(3);
  std::string in = c.str(T, 1, c.thorough() ? 4 : 2);
  if (in.find("漢") != std::string::npos || in.find('"') != std::string::npos) {
    // no candidate of that class: the text can not be analysed
    static const std::vector<std::string> X = {"a", "b"};
  }
  Case& k = get(c, d, v, 3, 3, true, align, conf);
  c.note("dictionary %d vocabulary %d align %d settings %d text [%s]", d, v, align, conf, in.c_str());
  if (!k.err.empty()) c.fail("setup", "%s", k.err.c_str());
  for (char x : in) if (x == '"' || (x & 0x80)) c.discard();
  std::map<std::string, float> seen;
  for (int G : {1, 6, 40}) {
    runText(c, k, k.fac.get(), in, 5, G, 0, &seen);
    runText(c, k, k.loaded.get(), in, 5, G, 0, &seen);
  }
}

// damaged network files are refused
void s_files(Ctx& c) {
  static Net n;
  if (n.voc.empty()) { n.voc = {"</s>", "<unk>", "a", "b"}; n.maxent = 11; n.fill(5); }
  Net k = n;
  std::string what;
  std::string f, d;
  bool ok = false;
  auto& m = model(0, true, 0);
  if (!m.err.empty()) c.fail("setup", "%s", m.err.c_str());
  int kind = c.choose(6);
  if (kind == 0) {
    f = k.file();
    size_t len = c.choose((int)f.size() + 5);
    ok = len == f.size();
    what = "file of " + std::to_string(len) + " of " + std::to_string(f.size()) + " bytes";
    f.resize(len, 0);
  } else if (kind == 1) {
    k.order = c.choose(10);
    k.maxent = c.choose(12);
    k.fill(5);
    f = k.file();
    // every order has weights besides those of the words
    ok = k.order >= 1 && k.order <= 4 && k.maxent > 4;
    what = "order " + std::to_string(k.order) + " with " + std::to_string(k.maxent) + " weights";
  } else if (kind == 2) {
    f = k.file();
    size_t p = c.choose(30);
    p = p < 21 ? p : p == 29 ? 25 : p + 5;  // structure and the name of the activation; not the constants
    if (p == 16 || p == 25) c.discard();
    unsigned char x = c.choose(2) ? 0xff : 0x01;
    if (p >= 8 && p < 21 && p != 20) x = 0x80;
    f[p] ^= x;
    what = "byte " + std::to_string(p) + " damaged";
    if (p == 20) f[20] = 0;
    ok = false;
  } else if (kind == 3) {
    // vocabulary and network of different sizes
    int x = c.choose(4);
    std::vector<std::string> V[] = {{"</s>", "<unk>", "a"}, {"</s>", "<unk>", "a", "b", "ab"}, {}, {"</s>"}};
    f = k.file();
    k.voc = V[x];
    what = "vocabulary of " + std::to_string(k.voc.size());
  } else if (kind == 4) {
    // no sentence boundary at the first place, no unknown word, a wrong number of fields
    int x = c.choose(3);
    std::vector<std::string> V[] = {{"<unk>", "</s>", "a", "b"}, {"</s>", "a", "b", "ab"}, {"</s>", "<unk>", "a_x", "b"}};
    k.voc = V[x];
    f = k.file();
    what = "vocabulary " + join(k.voc, " ");
  } else {
    ok = true;
    k.layer = 1 + c.choose(40);
    k.fill(9);
    f = k.file();
    what = "layer of " + std::to_string(k.layer);
  }
  c.note("%s", what.c_str());
  std::string path = c.scratch() + "/n";
  write(path, k.dict());
  write(path + ".nnet", f);
  rnnc::RnnInferenceConfig cfg;
  cfg.rnnFields = std::vector<std::string>{"f1"};
  RnnScorerGbeamFactory fac;
  Status q = fac.make(sp(path), m.m.holder, cfg);
  c.count();
  if (ok != bool(q)) c.fail(ok ? "refused" : "accepted", "%s: %s", what.c_str(), msg(q).c_str());
  c.sig(ok);
  if (!ok) return;
  // and it works
  Case ks;
  ks.d = 0, ks.v = 0, ks.unk = true, ks.align = 0;
  ks.net = k;
  ks.lnz = 9;
  static std::vector<float> W0 = intWeights(10, 401, 3);
  HashedFeaturePerceptron hp{util::ArraySlice<float>(W0)};
  ScorerDef sd;
  sd.feature = &hp;
  sd.others = {&fac};
  sd.scoreWeights = {1.f, 1.f};
  AnalyzerConfig ac = acfg();
  ac.globalBeamSize = 8;
  auto an = m.m.analyzer(3, ac, 2);
  q = an->initScorers(sd);
  if (q) q = an->full("abab", &sd);
  if (!q) c.fail("status", "%s", msg(q).c_str());
  auto* l = an->lattice();
  u32 nb = l->createdBoundaryCount();
  StringField f1;
  if (!an->output().stringField("f1", &f1)) c.fail("status", "no field");
  auto nw = an->output().nodeWalker();
  for (auto* e : l->boundary(nb - 1)->ends()->globalBeam()) {
    std::vector<const ConnectionPtr*> ps;
    for (const ConnectionPtr* p = &e->ptr; p->boundary >= 2; p = p->previous) ps.insert(ps.begin(), p);
    Walk w(k, -6, -1.5, 9, 1);
    for (auto* p : ps) {
      auto ni = l->boundary(p->boundary)->starts()->nodeInfo().at(p->right);
      if (!an->output().locate(ni.entryPtr(), &nw) || !nw.next()) c.fail("node", "unreadable node");
      std::string s = st(f1[nw]);
      int id = ni.entryPtr().isSpecial() ? 1 : s == "a" ? 2 : s == "b" ? 3 : 1;
      double x = w.word(id, ni.end() - ni.start());
      float g = l->boundary(p->boundary)->scores()->forPtr(*p).at(1);
      if (!(std::fabs(g - x) < 1e-3)) c.fail("network score", "[%s] has score %g, the network gives %g", s.c_str(), g, x);
    }
  }
}
}  // namespace

int main(int argc, char** argv) {
  return mc::run(argc, argv, {
      {"scores", s_scores, "5 dictionaries x 8 vocabularies x unknown words x order 1-4 x layer 1,3,8 x every text of <=3 or 5 (7) characters over 2; 16 combinations of beams and weights, fresh and reused analyzer, made and loaded network"},
      {"conf", s_conf, "settings and storage alignments x vocabularies x texts"},
      {"files", s_files, "every truncation of a network file, sizes, orders, damaged header bytes, vocabularies"},
  });
}
