// P14: generated feature code computes what the interpreter computes.
// LIBS: v_mc v_vss v_core
#include "dump.h"
#include "static_specs.h"
#include "vss_1.h"
#include "vss_2.h"
#include "vss_3.h"
#include "vss_4.h"
#include "vss_5.h"
#include "vss_6.h"
#include "vss_7.h"
using namespace vt;
using mc::Ctx;

namespace {
const features::StaticFeatureFactory* factory(int i) {
  static jumanpp_generated::VssStatic1 s1;
  static jumanpp_generated::VssStatic2 s2;
  static jumanpp_generated::VssStatic3 s3;
  static jumanpp_generated::VssStatic4 s4;
  static jumanpp_generated::VssStatic5 s5;
  static jumanpp_generated::VssStatic6 s6;
  static jumanpp_generated::VssStatic7 s7;
  const features::StaticFeatureFactory* a[] = {&s1, &s2, &s3, &s4, &s5, &s6, &s7};
  return a[i];
}
void fill(int i, dsl::ModelSpecBuilder& b) {
  switch (i) {
    case 0: return vss::S1::fillSpec(b);
    case 1: return vss::S2::fillSpec(b);
    case 2: return vss::S3::fillSpec(b);
    case 3: return vss::S4::fillSpec(b);
    case 4: return vss::S5::fillSpec(b);
    case 5: return vss::S6::fillSpec(b);
    default: return vss::S7::fillSpec(b);
  }
}
const int NSPEC = 7;
const std::string DIC[] = {
    "T,t0,7,r q,k:v\na,x,1,p,k\nb,y,2,q,j\nab,z,3,p q,k:v\na,y,1,,\nあ,x,1,q,\n",
    "T,x,7,p,\naa,x,1,p,k\nb,x,2,q,j\nba,z,3,p q,k:v\nba,x,1,,\nba,y,3,p,j\nああ,x,1,q,k\nあ,z,2,p,j\n1,y,1,p,\naあ,t0,1,,\n",
    "T,y,0,,k\na,x,1,p,k\na,y,1,p,k\na,z,2,q,j:k\na,x,3,p q,\na,w,2147483647,,\na,y,2,q,k\nb,y,1,,k\n",
};
struct M2 { Model dyn, stat; std::string err; };
M2& model(int s, int d) {
  static std::map<int, std::unique_ptr<M2>> cache;
  auto& p = cache[s * 10 + d];
  if (p) return *p;
  p.reset(new M2);
  for (int k = 0; k < 2 && p->err.empty(); ++k) {
    Status q = (k ? p->stat : p->dyn).build([&](dsl::ModelSpecBuilder& b) { fill(s, b); }, sp(DIC[d]), k ? factory(s) : nullptr);
    if (!q) p->err = msg(q);
  }
  return *p;
}

void s_texts(Ctx& c) {
  static const std::vector<std::string> AL = {"a", "b", "あ", "ー", "1"};
  int s = c.choose(NSPEC), d = c.choose(3);
  static const std::vector<std::string> AL3 = {"a", "あ", "1"};
  bool lng = !c.thorough() && c.flag();
  std::string in = lng ? c.str(AL3, 4, 4) : c.str(AL, 1, c.thorough() ? 5 : 3);
  M2& m = model(s, d);
  if (!m.err.empty()) c.fail("setup", "spec %d: %s", s + 1, m.err.c_str());
  if (!m.stat.core->features().patternStatic || m.dyn.core->features().patternStatic) c.fail("setup", "the generated code is not used");
  static const int CF[][4] = {{1, 0, 0, 0}, {3, 0, 0, 0}, {2, 2, 0, 0}, {3, 4, 1, 1}, {2, 3, 2, 2}, {3, 9, 1, 2}};
  static std::vector<float> ws[2] = {intWeights(14, 8191, 1), intWeights(7, 5, 2)};
  for (auto& f : CF) for (int all = 0; all < 2; ++all) for (int wi = 0; wi < 2; ++wi) {
    if (wi && (all || f[0] == 1)) continue;
    AnalyzerConfig cfg = acfg();
    cfg.globalBeamSize = f[1];
    cfg.rightGbeamCheck = f[2];
    cfg.rightGbeamSize = f[3];
    cfg.storeAllPatterns = all;
    c.note("spec %d dictionary %d text [%s] beam %d global %d check %d right %d store all %d weights %d", s + 1, d, in.c_str(), f[0], f[1], f[2], f[3], all, wi);
    HashedFeaturePerceptron perc(util::ArraySlice<float>{ws[wi]});
    ScorerDef sd;
    sd.feature = &perc;
    sd.scoreWeights.push_back(1.0f);
    std::string out[2];
    auto& fs = m.stat.spec().features;
    int npat = all ? -1 : (int)fs.pattern.size() - fs.numUniOnlyPats;
    for (int k = 0; k < 2; ++k) {
      auto an = (k ? m.stat : m.dyn).analyzer(f[0], cfg);
      Status q = an->initScorers(sd);
      if (q) q = an->full(sp(in), &sd);
      out[k] = q ? dumpAnalysis(*an, npat) : "error " + msg(q);
      if (!q && k == 0) break;
      c.count();
    }
    if (out[0].compare(0, 5, "error") == 0) c.fail("status", "%s", out[0].c_str());
    if (out[0] != out[1]) c.fail("static differs", "interpreted and generated: %s", diffStr(out[0], out[1]).c_str());
    c.sig(out[0]);
  }
}
// a generated factory is refused for another specification
void s_mismatch(Ctx& c) {
  int s = c.choose(NSPEC), f = c.choose(NSPEC);
  Model m;
  Status q = m.build([&](dsl::ModelSpecBuilder& b) { fill(s, b); }, sp(DIC[0]), factory(f));
  bool ok = q && bool(m.core->features().validate());
  c.note("specification %d with the code generated for %d", s + 1, f + 1);
  // if it is not refused, it has to compute the right thing, hence must not be used
  if (s == f && !(ok && m.core->features().patternStatic)) c.fail("refused", "%s", msg(q).c_str());
  if (s != f && ok && m.core->features().patternStatic) c.fail("code of another specification", "the generated code of another specification is used");
  c.sig(ok);
}
}  // namespace

int main(int argc, char** argv) {
  return mc::run(argc, argv, {
      {"texts", s_texts, "7 specifications (all kinds of features, 0-17 n-grams of each order) x 3 dictionaries x every text of 1-3 (5) characters over 5 and 4 over 3 x 6 beam settings x all patterns stored or not x weights"},
      {"mismatch", s_mismatch, "7 specifications x code generated for each of 7"},
  });
}
