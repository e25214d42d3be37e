// P13: an analysis does not depend on what the analyzer did before.
// LIBS: v_mc v_vss v_core
#include "core/analysis/analyzer.h"
#include "core/analysis/score_plugin.h"
#include "dump.h"
#include "static_specs.h"
#include "vss_1.h"
using namespace vt;
using mc::Ctx;

namespace {
void noUnk(dsl::ModelSpecBuilder& m) {
  auto& f1 = m.field(1, "f1").strings().trieIndex();
  auto& f2 = m.field(2, "f2").strings();
  m.unigram({f1}); m.unigram({f2});
  m.bigram({f2}, {f1});
  m.trigram({f2}, {f2}, {f1});
  m.unk("num", 1).numeric(chars::CharacterClass::FAMILY_DIGITS).outputTo({f1});
}
const std::string DIC = "T,t0,7,r q,k:v\na,x,1,p,k\nb,y,2,q,j\nab,z,3,p q,k:v\na,y,1,,\nあ,x,1,q,\nあー,z,4,,\n";
// kinds: 0 interpreted, 1 generated code, 2 without catch-all unknown words
Model& model(int k) {
  static std::unique_ptr<Model> ms[3];
  static jumanpp_generated::VssStatic1 sf;
  auto& p = ms[k];
  if (p) return *p;
  p.reset(new Model);
  Status s = k == 2 ? p->build(noUnk, sp(DIC)) : p->build([](dsl::ModelSpecBuilder& b) { vss::S1::fillSpec(b); }, sp(DIC), k ? &sf : nullptr);
  if (!s) { fprintf(stderr, "%s\n", msg(s).c_str()); abort(); }
  return *p;
}

struct Plug : ScorePlugin {
  bool updateScore(const Lattice* l, const ConnectionPtr& p, float* score) const override {
    auto ni = l->boundary(p.boundary)->starts()->nodeInfo().at(p.right);
    if (ni.numCodepoints() == 1) *score -= 100000;
    return true;
  }
};

const std::vector<std::string> TEXTS = {
    "ab", "", "\xff", "abあーab1あab", "11", "zz", "ワクワク", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "あーb",
};
struct Conf {
  int left, check, right;
  bool all;
  bool operator<(const Conf& o) const { return std::tie(left, check, right, all) < std::tie(o.left, o.check, o.right, o.all); }
};
const Conf SWITCH[] = {{0, 0, 0, false}, {2, 0, 0, false}, {3, 1, 1, false}, {2, 0, 0, true}, {0, 0, 0, true}};

template <typename... A>
std::string keyOf(A... a) {
  std::string r;
  for (int v : {a...}) r += std::to_string(v) + ",";
  return r;
}
struct World {
  int kind, autoBeam, page, beam;
  std::vector<float> w = intWeights(12, 8191, 3);
  HashedFeaturePerceptron perc{util::ArraySlice<float>{w}};
  ScorerDef sd;
  World() { sd.feature = &perc; sd.scoreWeights.push_back(1.0f); }
  AnalyzerConfig cfg(const Conf& k) const {
    AnalyzerConfig c = acfg();
    c.pageSize = page ? 24 * 1024 : 256 * 1024;
    c.maxInputBytes = 40;
    c.globalBeamSize = k.left; c.rightGbeamCheck = k.check; c.rightGbeamSize = k.right; c.storeAllPatterns = k.all;
    if (autoBeam) { c.autoBeamStep = 2; c.autoBeamBase = 1; c.autoBeamMax = 4; }
    return c;
  }
};

Status analyse(An& an, const std::string& text, bool plugin, const World& w, int stages) {
  static Plug plug;
  auto buf = std::unique_ptr<ExactBuf>(new ExactBuf(text));
  JPP_RETURN_IF_ERROR(an.resetForInput(buf->sp()));
  buf.reset();  // the analyzer owns its input
  if (plugin) an.setPlugin(&plug);
  if (stages == 0) return Status::Ok();
  JPP_RETURN_IF_ERROR(an.prepareNodeSeeds());
  if (stages == 1) return Status::Ok();
  JPP_RETURN_IF_ERROR(an.buildLattice());
  if (stages == 2) return Status::Ok();
  JPP_RETURN_IF_ERROR(an.bootstrapAnalysis());
  if (stages == 3) return Status::Ok();
  return an.computeScores(&w.sd);
}
// everything a user can see
std::string view(An& an, const Status& s, AnalysisPath& path) {
  if (!s) return "error " + msg(s);
  std::string r = dumpAnalysis(an);
  Status t = path.fillIn(an.lattice());
  if (!t) return r + "path error " + msg(t);
  path.reset();
  int n = 0;
  while (path.nextBoundary()) {
    r += "|" + std::to_string(path.currentBoundary()) + ":" + std::to_string(path.remainingNodesInChunk());
    ConnectionPtr p;
    while (path.nextNode(&p)) r += " " + std::to_string(p.boundary) + "." + std::to_string(p.right) + "." + std::to_string(p.beam);
    if (++n > 200) return r + "endless path";
  }
  return r;
}
std::unique_ptr<An> fresh(World& w, const Conf& k, Ctx& c) {
  auto an = model(w.kind).analyzer(w.beam, w.cfg(k));
  Status s = an->initScorers(w.sd);
  if (!s) c.fail("setup", "%s", msg(s).c_str());
  return an;
}
const std::string& expect(World& w, const Conf& k, int text, bool plugin, Ctx& c) {
  static std::map<std::string, std::string> cache;
  std::string key = keyOf(w.kind, w.autoBeam, w.page, w.beam, k.left, k.check, k.right, (int)k.all, text, (int)plugin);
  auto it = cache.find(key);
  if (it != cache.end()) return it->second;
  auto an = fresh(w, k, c);
  AnalysisPath path;
  Status s = analyse(*an, TEXTS[text], plugin, w, 4);
  return cache[key] = view(*an, s, path);
}

// operations: analyse text i (with or without plugin), abandon text i after a stage, change the configuration
const int NT = 9;
int nops() { return NT + 4 + 4 * 3 + 5; }
void s_history(Ctx& c) {
  World w;
  w.kind = c.choose(3);
  int ini = c.choose(4);
  w.autoBeam = ini == 3; w.page = ini == 2; w.beam = ini == 1 ? 1 : 3;
  Conf k = SWITCH[ini == 0 ? 1 : ini == 1 ? 0 : 2];
  auto an = fresh(w, k, c);
  AnalysisPath path;
  int len = c.thorough() ? 4 : 3;
  std::string tr;
  for (int step = 0; step < len; ++step) {
    // the last operation is always a whole analysis
    int op = c.choose(step + 1 == len ? NT + 4 : nops());
    c.transition();
    if (op < NT + 4) {
      static const int PT[] = {0, 3, 5, 2};
      bool plugin = op >= NT;
      int t = plugin ? PT[op - NT] : op;
      tr += " analyse[" + TEXTS[t] + "]" + (plugin ? "+plugin" : "");
      c.note("model %d setting %d:%s", w.kind, ini, tr.c_str());
      Status s = analyse(*an, TEXTS[t], plugin, w, 4);
      std::string got = view(*an, s, path);
      const std::string& exp = expect(w, k, t, plugin, c);
      c.count();
      if (got != exp) c.fail("history", "reused and fresh analyzer differ: %s", diffStr(got, exp).c_str());
      c.sig(got);
    } else if (op < NT + 4 + 12) {
      int x = op - NT - 4;
      static const int PT[] = {3, 4, 2};
      tr += " abandon[" + TEXTS[PT[x % 3]] + "] after " + std::to_string(x / 3);
      (void)analyse(*an, TEXTS[PT[x % 3]], x % 2, w, x / 3);
    } else {
      k = SWITCH[op - NT - 4 - 12];
      tr += " settings " + std::to_string(k.left) + "/" + std::to_string(k.check) + "/" + std::to_string(k.right) + (k.all ? "/all" : "");
      an->setGlobalBeam(k.left, k.check, k.right);
      an->setStoreAllPatterns(k.all);
    }
  }
}
// the public interface
void s_public(Ctx& c) {
  World w;
  w.kind = c.choose(3);
  w.autoBeam = c.choose(2); w.page = c.choose(2); w.beam = 2;
  Conf k = SWITCH[c.choose(5)];
  static Plug plug;
  Analyzer an;
  Status s = an.initialize(model(w.kind).core.get(), w.cfg(k), ScoringConfig{w.beam, 1}, &w.sd);
  if (!s) c.fail("setup", "%s", msg(s).c_str());
  AnalysisPath path;
  std::string tr;
  int len = c.thorough() ? 3 : 2;
  for (int step = 0; step < len; ++step) {
    int op = c.choose(NT * 2);
    int t = op % NT;
    bool plugin = op >= NT;
    tr += " [" + TEXTS[t] + "]" + (plugin ? "+plugin" : "");
    c.note("model %d auto %d page %d settings %d/%d/%d/%d:%s", w.kind, w.autoBeam, w.page, k.left, k.check, k.right, k.all, tr.c_str());
    c.transition();
    auto buf = std::unique_ptr<ExactBuf>(new ExactBuf(TEXTS[t]));
    s = an.analyze(buf->sp(), plugin ? &plug : nullptr);
    buf.reset();
    std::string got = view(*static_cast<An*>(an.impl()), s, path);
    const std::string& exp = expect(w, k, t, plugin, c);
    c.count();
    if (got != exp) c.fail("history", "reused and fresh analyzer differ: %s", diffStr(got, exp).c_str());
    c.sig(got);
  }
}
}  // namespace

int main(int argc, char** argv) {
  return mc::run(argc, argv, {
      {"history", s_history, "3 models (interpreted, generated code, without catch-all unknown words) x 4 settings x every sequence of 3 (4) of 34 operations: whole analyses of 9 texts (empty, malformed, too long, uncoverable, ...), with a score plugin, abandoned after each stage, beam and pattern settings changed in between; every whole analysis compared with that of a fresh analyzer"},
      {"public", s_public, "the same through Analyzer::analyze: 3 models x 20 settings x every sequence of 2 (3) of 18 analyses"},
  });
}
