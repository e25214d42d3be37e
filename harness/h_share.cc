// LIBS: v_mc v_jumandic v_core v_util
// P30: analyzers which share one loaded model run as threads of a controlled
// scheduler; every memory access is checked for races, every result against
// the result of the analyzer alone.
#include "csched.h"
#include "dump.h"
#include "jenv.h"
#include "jumandic/shared/juman_format.h"
#include "jumandic/shared/jumandic_env.h"
#include "jumandic/shared/lattice_format.h"
#include "jumandic/shared/morph_format.h"
#include "jumandic/shared/subset_format.h"
#include "core/impl/segmented_format.h"
using mc::Ctx;
using namespace vt;
namespace {
struct Loaded { std::unique_ptr<JumanppEnv> env; };
Loaded& model(Ctx& c, int rnn, int stat) {
  static Loaded m[2][2];
  auto& r = m[rnn][stat];
  if (!r.env) {
    JModel jm;
    Net net;
    net.voc = {"</s>", "<unk>", "水", "だ", "は", "が", "書く", "東京"};
    net.maxent = 97;
    net.fill(5);
    if (rnn) {
      jm.net = &net;
      jm.rnn.rnnFields = std::vector<std::string>{"baseform"};
    }
    std::string f = c.scratch() + "/m" + std::to_string(rnn);
    Status s = jm.write(f);
    if (!s) c.fail("setup", "write: %s", msg(s).c_str());
    r.env.reset(new JumanppEnv);
    s = r.env->loadModel(sp(f));
    if (!s) c.fail("setup", "load: %s", msg(s).c_str());
    s = r.env->initFeatures(stat ? jumandic::jumandicStaticFeatures() : nullptr);
    if (!s) c.fail("setup", "features: %s", msg(s).c_str());
    unlink(f.c_str());
  }
  return r;
}
const char* TX[] = {"水が書き", "すごぉいコーヒー", "東京都,12a", "", "\xff", "ぴかぴかかか ええー", "京都だだだは水"};
const int NT = 7;
struct Conf { int beam, left, check, right, autoStep; };
const Conf CF[] = {{1, 0, 0, 0, 0}, {5, 6, 1, 5, 0}, {2, 2, 2, 2, 0}, {1, 0, 0, 0, 1}};
const char* FM[] = {"juman", "morph", "full morph", "subset", "lattice", "segments"};

// one analyzer's work, with a scheduling point between the stages
void work(JumanppEnv& env, const Conf& cf, int fmt, const std::vector<int>& texts, bool pts, std::string* out) {
  auto pt = [&] { if (pts) sched::point(); };
  Analyzer an;
  AnalyzerConfig ac = acfg();
  ac.globalBeamSize = cf.left;
  ac.rightGbeamCheck = cf.check;
  ac.rightGbeamSize = cf.right;
  ac.autoBeamBase = cf.autoStep ? 1 : 0;
  ac.autoBeamStep = cf.autoStep;
  ac.autoBeamMax = cf.autoStep ? 4 : 0;
  ScoringConfig sc{cf.beam, (i32)env.scorers()->scoreWeights.size()};
  Status s = an.initialize(env.coreHolder(), ac, sc, env.scorers());
  if (!s) { *out += msg(s); return; }
  pt();
  std::unique_ptr<OutputFormat> of;
  using namespace jumandic::output;
  if (fmt == 0) { auto f = new JumanFormat; of.reset(f); s = f->initialize(an.output()); }
  else if (fmt == 1 || fmt == 2) { auto f = new MorphFormat(fmt == 2); of.reset(f); s = f->initialize(an.output()); }
  else if (fmt == 3) { auto f = new SubsetFormat; of.reset(f); s = f->initialize(an.output()); }
  else if (fmt == 4) { auto f = new LatticeFormat(3); of.reset(f); s = f->initialize(an.output()); }
  else { auto f = new core::output::SegmentedFormat; of.reset(f); s = f->initialize(an.output(), *env.coreHolder(), " "); }
  if (!s) { *out += msg(s); return; }
  pt();
  for (int t : texts) {
    std::string in = TX[t];
    auto* im = const_cast<AnalyzerImpl*>(an.impl());
    // the stages of Analyzer::analyze
    s = im->resetForInput(sp(in));
    pt();
    if (s) s = im->prepareNodeSeeds();
    pt();
    if (s) s = im->buildLattice();
    pt();
    if (s) s = im->bootstrapAnalysis();
    pt();
    if (s) s = im->computeScores(env.scorers());
    pt();
    if (s) s = of->format(an, "c");
    pt();
    *out += s ? st(of->result()) : msg(s) + "\n";
    // and in one piece
    s = an.analyze(sp(in));
    if (s) s = of->format(an, "d");
    pt();
    *out += s ? st(of->result()) : msg(s) + "\n";
  }
}
void runCase(Ctx& c, int rnn, int stat, const std::vector<std::vector<int>>& texts, const std::vector<int>& cfs, const std::vector<int>& fms, int preempt) {
  std::string what = std::string(rnn ? "with network, " : "") + (stat ? "static features" : "dynamic features");
  int n = (int)texts.size();
  for (int i = 0; i < n; ++i) {
    what += " | " + std::to_string(CF[cfs[i]].beam) + "/" + std::to_string(CF[cfs[i]].left) + (CF[cfs[i]].autoStep ? " auto" : "") + " " + FM[fms[i]] + ":";
    for (int t : texts[i]) what += std::string(" <") + TX[t] + ">";
  }
  c.note("%s", what.c_str());
  auto& m = model(c, rnn, stat);
  static std::map<std::string, std::string> alone;
  std::vector<std::string> want(n);
  for (int i = 0; i < n; ++i) {
    std::string k = std::to_string(rnn * 1000 + stat * 100 + cfs[i] * 10 + fms[i]);
    for (int t : texts[i]) k += "," + std::to_string(t);
    auto it = alone.find(k);
    if (it == alone.end()) {
      std::string o;
      work(*m.env, CF[cfs[i]], fms[i], texts[i], false, &o);
      it = alone.insert({k, o}).first;
    }
    want[i] = it->second;
  }
  static std::vector<std::string> got;
  got.assign(n, "");
  sched::Options so;
  so.preemptions = preempt;
  so.races = true;
  so.loadPoints = false;
  so.maxSteps = 100000;
  auto r = sched::run(c, so, [&] {
    std::vector<int> ids;
    for (int i = 0; i < n; ++i) ids.push_back(sched::spawn([&, i] { work(*m.env, CF[cfs[i]], fms[i], texts[i], true, &got[i]); }));
    for (int i : ids) sched::join(i);
  });
  if (r.end == sched::End::Race) c.fail("race", "%s: %s", what.c_str(), r.text.c_str());
  if (r.end != sched::End::Done) c.fail("stuck", "%s: %s", what.c_str(), r.text.c_str());
  uint64_t h = 1469598103934665603ull;
  for (int i = 0; i < n; ++i) {
    if (got[i] != want[i]) c.fail("result", "%s: analyzer %d differs from the analyzer alone: %s", what.c_str(), i, diffStr(want[i], got[i]).c_str());
    for (char ch : got[i]) h = (h ^ (unsigned char)ch) * 1099511628211ull;
  }
  c.sig(h);
  c.state(sched::gSteps);
}
void s_pairs(Ctx& c) {
  int rnn = c.choose(2), stat = c.choose(2);
  std::vector<std::vector<int>> t(2);
  std::vector<int> cf(2), fm(2);
  for (int i = 0; i < 2; ++i) {
    t[i] = {c.choose(c.thorough() ? NT : 6)};
    if (t[i][0] >= 3 && t[i][0] <= 4 && !c.thorough() && i) c.discard();
    cf[i] = c.choose(c.thorough() ? 4 : i ? 2 : 4);
    fm[i] = (t[i][0] + cf[i] * 2 + i) % 6;
  }
  if (c.thorough()) fm[0] = c.choose(6);
  if (!c.thorough() && rnn != stat && t[0][0] != t[1][0]) c.discard();
  runCase(c, rnn, stat, t, cf, fm, c.thorough() ? 2 : 1);
}
void s_history(Ctx& c) {
  int rnn = c.choose(2);
  std::vector<std::vector<int>> t(2);
  std::vector<int> cf(2), fm(2);
  int a = c.choose(c.thorough() ? NT : 4), b = c.choose(c.thorough() ? NT : 5);
  t[0] = {a, b};
  t[1] = {b, 6, a};
  cf = {1, c.choose(c.thorough() ? 4 : 2)};
  fm = {c.thorough() ? c.choose(6) : (a + 2 * b + 1) % 6, (a + b) % 6};
  runCase(c, rnn, 1, t, cf, fm, 1);
}
void s_three(Ctx& c) {
  std::vector<std::vector<int>> t(3);
  std::vector<int> cf(3), fm(3);
  int rnn = c.choose(2);
  for (int i = 0; i < 3; ++i) {
    t[i] = {c.choose(c.thorough() ? NT : 2 + (i == 0))};
    cf[i] = (i + t[i][0]) % 4;
    fm[i] = (i * 2 + t[i][0]) % 6;
  }
  runCase(c, rnn, 1, t, cf, fm, c.thorough() ? 2 : 1);
}
}  // namespace
int main(int argc, char** argv) {
  return mc::run(argc, argv, {
      {"pairs", s_pairs, "2 analyzers x pairs of texts x configurations x output formats x network or not x static or dynamic features; preemption bound 1 (2) at every stage boundary"},
      {"history", s_history, "2 analyzers with several texts each"},
      {"three", s_three, "3 analyzers"},
  });
}
