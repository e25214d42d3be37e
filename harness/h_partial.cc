// LIBS: v_mc v_train v_core v_util
// P23: partially annotated sentences read by the real reader and analysed with
// its plugin; constraints taken by an independent reader of the format, the
// result checked against them, for every small annotation.
#include <fstream>
#include <sstream>
#include "core/analysis/analyzer.h"
#include "core/input/pex_stream_reader.h"
#include "core/training/training_env.h"
#include "dump.h"
#include "tenv.h"
using mc::Ctx;
using namespace vt;
namespace tr = jumanpp::core::training;
namespace {
const std::vector<std::string> FIELDS = {"a", "p", "e", "x"};
struct PM {
  TrainModel m;
  std::vector<float> w;
  std::unique_ptr<HashedFeaturePerceptron> hp;
  ScorerDef sd;
};
// kind 1: x is a field of the training description which no feature uses
PM& model(Ctx& c, int kind) {
  static PM pms[2];
  PM& t = pms[kind];
  if (t.m.env) return t;
  const std::string csv =
      "T,N,*,x\na,N,*,x\na,V,q,y\nb,N,*,x\nab,N,q,x\nab,V,*,y\nba,V,*,x\nbab,W,*,x\na&,N,*,x\n";
  Status s = t.m.make(c.scratch() + "/m", [kind](dsl::ModelSpecBuilder& b) {
    auto& a = b.field(1, "a").strings().trieIndex();
    auto& p = b.field(2, "p").strings();
    auto& e = b.field(3, "e").strings().emptyValue("*");
    auto& x = b.field(4, "x").strings();
    b.unigram({a}); b.unigram({p}); b.unigram({e}); b.unigram({a, p});
    b.bigram({p}, {p}); b.bigram({a}, {p});
    b.trigram({p}, {p}, {p});
    b.unk("any", 1).single(chars::CharacterClass::FAMILY_ANYTHING).outputTo({a});
    b.unk("alph", 1).chunking(chars::CharacterClass::ALPH).outputTo({a});
    b.train().field(a, 1.0f).field(p, 1.0f).field(e, 1.0f);
    if (kind) b.train().field(x, 0.0f);
  }, csv);
  if (!s) c.fail("setup", "%s", msg(s).c_str());
  t.w = intWeights(8, 11, 3);
  t.hp.reset(new HashedFeaturePerceptron(t.w));
  t.sd.feature = t.hp.get();
  t.sd.scoreWeights.push_back(1.0f);
  return t;
}
// beam settings which cannot lose the paths without violations
const int NB = 5;
AnalyzerConfig beamCfg(int b, int* beam) {
  static const int B[][2] = {{1, 0}, {3, 0}, {30, 0}, {2, 1}, {5, 3}};
  AnalyzerConfig a = acfg();
  *beam = B[b][0];
  a.globalBeamSize = B[b][1];
  return a;
}
struct Setup {
  Analyzer an;
  input::PexStreamReader rd;
};
std::unique_ptr<Setup> setup(Ctx& c, PM& m, int b) {
  std::unique_ptr<Setup> r(new Setup);
  int beam;
  AnalyzerConfig ac = beamCfg(b, &beam);
  Status s = r->an.initialize(m.m.env->coreHolder(), ac, ScoringConfig{beam, 1}, &m.sd);
  if (s) s = r->rd.initialize(*m.m.env->coreHolder());
  if (!s) c.fail("setup", "%s", msg(s).c_str());
  return r;
}
// ---- constraints
struct Tagged { int start, len; std::string surf; std::vector<std::pair<std::string, std::string>> tags; };
struct Ann {
  bool bad = false;
  std::string text, comment;
  std::vector<std::string> chars;
  std::set<int> brk, no;
  std::vector<Tagged> words;
  bool contradictory() const {
    for (int x : no) if (brk.count(x) || x == 0 || x == (int)chars.size()) return true;
    return false;
  }
};
std::vector<std::string> chars(const std::string& s) {
  std::vector<std::string> r;
  for (char x : s) { if ((x & 0xc0) != 0x80) r.emplace_back(); r.back() += x; }
  return r;
}
Ann parse(const std::vector<std::string>& lines, bool dataField) {
  Ann a;
  for (auto& l : lines) {
    if (l.size() > 2 && l.compare(0, 2, "# ") == 0) { a.comment = l.substr(2); continue; }
    auto f = splitOn(l, "\t");
    if (f.size() == 1) {
      for (auto& ch : chars(l)) {
        if (ch == "&") a.no.insert(a.chars.size());
        else a.chars.push_back(ch);
      }
      a.brk.insert(a.chars.size());
      continue;
    }
    if (!f[0].empty() || f[1].empty()) { a.bad = true; break; }
    Tagged t{(int)a.chars.size(), 0, f[1], {}};
    for (auto& ch : chars(f[1])) { a.chars.push_back(ch); ++t.len; }
    for (int i = 1; i < t.len; ++i) a.no.insert(t.start + i);
    a.brk.insert(t.start);
    a.brk.insert(a.chars.size());
    for (size_t i = 2; i < f.size(); ++i) {
      size_t k = f[i].find(':');
      std::string n = f[i].substr(0, k);
      if (k == std::string::npos || !(n == "a" || n == "p" || n == "e")) { a.bad = true; break; }
      t.tags.push_back({n, f[i].substr(k + 1)});
    }
    if (a.bad) break;
    a.words.push_back(t);
  }
  a.text = join(a.chars, "");
  return a;
}
struct Node { int s, e; std::map<std::string, std::string> f; bool dic; };
// exact: the value certainly is the annotated one, as the model represents values
bool okNode(const Ann& a, const Node& n, bool exact) {
  if (a.no.count(n.s) || a.no.count(n.e)) return false;
  for (int x : a.brk) if (x > n.s && x < n.e) return false;
  for (auto& w : a.words) {
    if (w.start != n.s) continue;
    if (n.e - n.s != w.len) return false;
    for (auto& t : w.tags) {
      std::string v = n.f.at(t.first);
      std::string want = t.second;
      if (t.first == "e") { if (v == "*") v = ""; if (want == "*") want = ""; }
      if (v != want) return false;
      if (exact && !n.dic && t.first == "a") return false;
    }
  }
  return true;
}
std::string describe(const std::vector<Node>& p) {
  std::string r;
  for (auto& n : p) { r += (r.empty() ? "" : "|") + n.f.at("a") + "/" + n.f.at("p"); }
  return r;
}
std::vector<Node> best(Ctx& c, Analyzer& an) {
  auto* l = an.impl()->lattice();
  std::vector<Node> r;
  if (l->createdBoundaryCount() <= 3) return r;
  AnalysisPath p;
  Status s = p.fillIn(l);
  if (!s) c.fail("path", "%s", msg(s).c_str());
  auto& om = an.output();
  NodeWalker nw = om.nodeWalker();
  std::map<std::string, StringField> sf;
  for (auto& f : FIELDS) if (!om.stringField(sp(f), &sf[f])) c.fail("setup", "field");
  while (p.nextBoundary()) {
    ConnectionPtr cp;
    if (!p.nextNode(&cp)) c.fail("path", "empty boundary");
    auto ni = l->boundary(cp.boundary)->starts()->nodeInfo().at(cp.right);
    Node n{cp.boundary - 2, (int)ni.end(), {}, ni.entryPtr().isDic()};
    if (!om.locate(cp.latticeNodePtr(), &nw) || !nw.next()) c.fail("path", "no word");
    for (auto& f : FIELDS) n.f[f] = st(sf[f][nw]);
    r.push_back(n);
  }
  return r;
}
std::vector<Node> allNodes(Ctx& c, Analyzer& an) {
  auto* l = an.impl()->lattice();
  std::vector<Node> r;
  auto& om = an.output();
  NodeWalker nw = om.nodeWalker();
  std::map<std::string, StringField> sf;
  for (auto& f : FIELDS) om.stringField(sp(f), &sf[f]);
  for (u32 b = 2; b + 1 < l->createdBoundaryCount(); ++b) {
    auto st0 = l->boundary(b)->starts();
    for (u32 i = 0; i < st0->numEntries(); ++i) {
      auto ni = st0->nodeInfo().at(i);
      if (!om.locate(ni.entryPtr(), &nw)) continue;
      while (nw.next()) {
        Node n{ni.start(), ni.end(), {}, ni.entryPtr().isDic()};
        for (auto& f : FIELDS) n.f[f] = st(sf[f][nw]);
        r.push_back(n);
      }
    }
  }
  return r;
}
// the result obeys the annotation whenever some path of the lattice does
void obey(Ctx& c, Analyzer& an, const Ann& a, const char* how) {
  auto nodes = allNodes(c, an);
  int n = a.chars.size();
  std::vector<bool> reach(n + 1);
  reach[0] = true;
  for (int b = 0; b < n; ++b)
    if (reach[b])
      for (auto& x : nodes)
        if (x.s == b && okNode(a, x, true)) reach[x.e] = true;
  auto p = best(c, an);
  int pos = 0;
  std::string text;
  for (auto& x : p) {
    if (x.s != pos) c.fail("path", "%s: hole at %d", how, pos);
    for (; pos < x.e; ++pos) text += a.chars.at(pos);
  }
  if (text != a.text) c.fail("path", "%s: the result covers '%s'", how, text.c_str());
  c.sig(describe(p));
  if (!reach[n]) return;
  c.state();
  for (auto& x : p)
    if (!okNode(a, x, false)) c.fail("obey", "%s: '%s' violates the annotation at %d-%d", how, describe(p).c_str(), x.s, x.e);
}
std::string esc(const std::string& s) {
  std::string r;
  for (char x : s) r += x == '\n' ? "\\n" : x == '\t' ? "\\t" : x == '\r' ? "\\r" : std::string(1, x);
  return r;
}
std::vector<std::string> linesOf(const std::string& s) {
  auto r = splitOn(s, "\n");
  if (!r.empty() && r.back().empty()) r.pop_back();
  return r;
}
// one sentence from a stream; checks everything about it
void sentence(Ctx& c, Setup& s, std::istream& in, const Ann& a, const std::string& what) {
  c.count();
  Status q = s.rd.readExample(&in);
  if (a.bad) {
    if (q) c.fail("accepted", "%s: malformed annotation is accepted", what.c_str());
    c.sig("bad " + msg(q).substr(0, 10));
    return;
  }
  if (!q) c.fail("rejected", "%s: %s", what.c_str(), msg(q).c_str());
  if (st(s.rd.surface()) != a.text) c.fail("surface", "%s is read as '%s', not '%s'", what.c_str(), st(s.rd.surface()).c_str(), a.text.c_str());
  if (st(s.rd.comment()) != a.comment) c.fail("comment", "%s has the comment '%s', not '%s'", what.c_str(), st(s.rd.comment()).c_str(), a.comment.c_str());
  q = s.rd.analyzeWith(&s.an);
  if (!q) c.fail("analysis", "%s: %s", what.c_str(), msg(q).c_str());
  obey(c, s.an, a, what.c_str());
}
// every sequence of tokens
void s_raw(Ctx& c) {
  static const std::vector<std::string> A = {"a", "b", "&", "\n", "\t", "p:N", "# c", "e:*"};
  int n = c.choose(c.thorough() ? 8 : 7), na = c.thorough() ? 8 : 7, tail = std::min(n, 3), total = 1;
  int b = c.choose(2) * 3;
  PM& m = model(c, 0);
  static std::unique_ptr<Setup> ss[NB];
  if (!ss[b]) ss[b] = setup(c, m, b);
  std::string head;
  for (int i = 0; i < n - tail; ++i) head += A[c.choose(na)];
  for (int i = 0; i < tail; ++i) total *= na;
  for (int x = 0; x < total; ++x) {
    std::string d = head;
    for (int i = 0, y = x; i < tail; ++i, y /= na) d += A[y % na];
    if (d.find("\n\n") != std::string::npos || d.compare(0, 1, "\n") == 0) continue;
    c.note("'%s', beam setting %d", esc(d).c_str(), b);
    std::istringstream in(d);
    sentence(c, *ss[b], in, parse(linesOf(d), false), "'" + esc(d) + "'");
  }
}
// every marking of every short text
void s_marks(Ctx& c) {
  int len = 1 + c.choose(c.thorough() ? 5 : 4), b = c.thorough() ? c.choose(NB) : c.choose(2) * 4;
  std::vector<std::string> ch;
  for (int i = 0; i < len; ++i) { static const char* A[] = {"a", "b", "あ"}; ch.push_back(A[c.choose(i < 3 ? 3 : 2)]); }
  // words: none, or one word annotated, or two
  static const std::vector<std::string> TAGS = {"", "\tp:N", "\tp:V", "\te:q", "\te:*\tp:V", "\ta:ab", "\tp:W", "\tp:zz", "\ta:b\tp:N", "\te:"};
  int nw = c.choose(3);
  std::vector<std::pair<int, int>> w;
  std::vector<std::string> tg;
  int from = 0;
  for (int k = 0; k < nw; ++k) {
    if (from >= len) c.discard();
    int s = from + c.choose(len - from), e = s + 1 + c.choose(std::min(3, len - s));
    w.push_back({s, e});
    tg.push_back(TAGS[c.choose(k ? 4 : (int)TAGS.size())]);
    from = e;
  }
  PM& m = model(c, 0);
  static std::unique_ptr<Setup> ss[NB];
  if (!ss[b]) ss[b] = setup(c, m, b);
  std::vector<int> freePos;
  for (int i = 1; i < len; ++i) {
    bool in = false;
    for (auto& x : w) in |= i >= x.first && i <= x.second;
    if (!in) freePos.push_back(i);
  }
  int total = 1;
  for (size_t i = 0; i < freePos.size(); ++i) total *= 3;
  for (int mk = 0; mk < total; ++mk) {
    std::vector<int> mark(len + 1);
    for (int i = 0, y = mk; i < (int)freePos.size(); ++i, y /= 3) mark[freePos[i]] = y % 3;
    std::string d, cur;
    size_t k = 0;
    for (int i = 0; i < len;) {
      if (k < w.size() && w[k].first == i) {
        if (!cur.empty()) { d += cur + "\n"; cur.clear(); }
        std::string s;
        for (; i < w[k].second; ++i) s += ch[i];
        d += "\t" + s + tg[k] + "\n";
        ++k;
        continue;
      }
      if (mark[i] == 1 && !cur.empty()) { d += cur + "\n"; cur.clear(); }
      if (mark[i] == 2) cur += "&";
      cur += ch[i++];
    }
    if (!cur.empty()) d += cur + "\n";
    c.note("'%s', beam setting %d", esc(d).c_str(), b);
    std::istringstream in(d);
    Ann a = parse(linesOf(d), false);
    sentence(c, *ss[b], in, a, "'" + esc(d) + "'");
    if (nw == 0 && mk == 0) {      // nothing is annotated: the plain analysis
      std::string r1 = dumpAnalysis(static_cast<An&>(*ss[b]->an.impl()));
      Status q = ss[b]->an.analyze(sp(a.text));
      if (!q) c.fail("analysis", "'%s': %s", a.text.c_str(), msg(q).c_str());
      std::string r2 = dumpAnalysis(static_cast<An&>(*ss[b]->an.impl()));
      if (r1 != r2) c.fail("free", "'%s' without annotation is analysed differently: %s", a.text.c_str(), diffStr(r1, r2).c_str());
    }
  }
}
// sentences in a stream do not affect each other
void s_sequences(Ctx& c) {
  static const std::vector<std::string> P = {
      "ab\n", "a\nb\n", "a&b\n", "\tab\tp:V\n", "# one\nab\n", "# two\n\tab\tp:N\n", "\tab\tq:1\n", "x\tab\n", "a\n\tb\tp:N\nab\n", "# three\n\ta\n\tb\tnothing\n",
      "\t\tp:N\n", "# only\n", "bab&\n", "あ&ab\n", "a\xff\n", "# bad\n\xe3\x81\n", "aba\n# after\n"};
  int n = c.thorough() ? 3 : 2, b = c.choose(c.thorough() ? NB : 2);
  std::vector<int> sel;
  for (int i = 0; i < n; ++i) sel.push_back(c.choose((int)P.size()));
  bool lastEnd = c.flag(), again = c.flag();
  std::string d;
  for (int i = 0; i < n; ++i) d += P[sel[i]] + "\n";
  if (!lastEnd) d.resize(d.size() - 2);
  PM& m = model(c, 0);
  auto s = setup(c, m, b);
  input::PexStreamReader copy;
  if (again) {
    Status q = copy.initialize(s->rd);
    if (!q) c.fail("setup", "copy: %s", msg(q).c_str());
  }
  auto& rd = again ? copy : s->rd;
  std::istringstream in(d);
  for (int i = 0; i < n; ++i) {
    std::string what = "'" + esc(d) + "' sentence " + std::to_string(i);
    c.note("%s", what.c_str());
    c.count();
    std::string r[2], cm[2];
    auto fresh = setup(c, m, b);
    std::istringstream one(P[sel[i]]);
    for (int k = 0; k < 2; ++k) {
      auto& reader = k ? fresh->rd : rd;
      auto& an = k ? fresh->an : s->an;
      Status q = reader.readExample(k ? (std::istream*)&one : &in);
      if (!q) { r[k] = "error"; continue; }
      cm[k] = st(reader.comment());
      q = reader.analyzeWith(&an);
      r[k] = q ? dumpAnalysis(static_cast<An&>(*an.impl())) : "error in analysis";
    }
    if (r[0] != r[1]) c.fail("affected", "%s differs from the same sentence alone: %s", what.c_str(), diffStr(r[0], r[1]).c_str());
    if (cm[0] != cm[1]) c.fail("comment", "%s has the comment '%s', alone it is '%s'", what.c_str(), cm[0].c_str(), cm[1].c_str());
    Ann a = parse(linesOf(P[sel[i]]), false);
    bool utf = P[sel[i]].find('\xff') != std::string::npos || P[sel[i]].find("\x81\n") != std::string::npos;
    if ((a.bad || utf) != (r[0] == "error")) c.fail(a.bad ? "accepted" : "rejected", "%s: %s", what.c_str(), r[0].substr(0, 60).c_str());
    c.sig(r[0]);
  }
}
// annotation of a field which nodes do not carry
void s_datafield(Ctx& c) {
  static const std::vector<std::string> V = {"x", "y", "zz", ""};
  std::string v = V[c.choose(4)], d = std::string("\tab") + (c.flag() ? "\tp:N" : "") + "\tx:" + v + "\n";
  PM& m = model(c, 1);
  auto s = setup(c, m, c.choose(NB));
  c.note("'%s'", esc(d).c_str());
  c.count();
  std::istringstream in(d);
  Status q = s->rd.readExample(&in);
  if (!q) { c.sig("rejected"); return; }
  q = s->rd.analyzeWith(&s->an);
  if (!q) { c.sig("rejected"); return; }
  auto p = best(c, s->an);
  bool exists = v == "x" || v == "y";
  if (exists && (p.size() != 1 || p[0].f.at("x") != v)) c.fail("obey", "'%s' gives '%s'", esc(d).c_str(), describe(p).c_str());
}
// a corpus of annotated sentences for training
void s_corpus(Ctx& c) {
  static const std::vector<std::string> P = {"ab\n", "a\nb\n", "# c\n\tab\tp:V\n", "", "# only\n", "a&ba\n"};
  int n = c.choose(4), end = c.choose(3);
  std::string d;
  std::vector<std::string> want, com;
  for (int i = 0; i < n; ++i) {
    auto& s = P[c.choose((int)P.size())];
    d += s + "\n";
    Ann a = parse(linesOf(s), false);
    if (!a.text.empty()) { want.push_back(a.text); com.push_back(a.comment); }
  }
  int bad = c.choose(3);
  if (bad == 1) d += "x\tab\n\n";
  if (bad == 2) d += "\t\tp:N\n\n";
  if (end && !d.empty()) d.resize(d.size() - 1);
  if (end == 2 && d.size() && d.back() == '\n') d.resize(d.size() - 1);
  c.note("corpus '%s'", esc(d).c_str());
  c.count();
  std::string f = c.scratch() + "/partial", g = c.scratch() + "/full";
  { std::ofstream(f) << d; std::ofstream(g) << "a,N,*\nb,N,*\n\n"; }
  PM& m = model(c, 0);
  tr::TrainingArguments args;
  args.batchSize = 2;
  args.numThreads = 1;
  args.trainingConfig.beamSize = 3;
  args.trainingConfig.featureNumberExponent = 8;
  args.trainingConfig.inputFormat = tr::InputFormat::Csv;
  tr::TrainingEnv te(args, m.m.env.get());
  Status s = te.initOther();
  if (s) s = te.loadInput(sp(g));
  if (!s) c.fail("setup", "training: %s", msg(s).c_str());
  s = te.loadPartialExamples(sp(f));
  unlink(f.c_str());
  unlink(g.c_str());
  if (d.empty()) return;
  if (bad) { if (s) c.fail("accepted", "a malformed sentence is accepted"); c.sig("bad"); return; }
  if (!s) c.fail("rejected", "%s", msg(s).c_str());
  // the first pass has only completely annotated sentences
  for (int pass = 0; pass < 2; ++pass) {
    if (pass) te.resetInput();
    s = te.trainOneEpoch();
    if (!s) c.fail("train", "pass %d: %s", pass, msg(s).c_str());
  }
  te.resetInput();
  s = te.readOneBatch();
  if (!s) c.fail("train", "batch: %s", msg(s).c_str());
  te.prepareTrainers();
  std::multiset<std::string> got, w2;
  for (int i = 0; i < te.numTrainers(); ++i) {
    auto* t = te.trainer(i);
    if (!dynamic_cast<tr::OwningPartialTrainer*>(t)) continue;
    s = t->prepare();
    if (!s) c.fail("train", "%s", msg(s).c_str());
    auto* l = t->lattice();
    got.insert(std::to_string(l->createdBoundaryCount() - 3) + " # " + st(t->exampleInfo().comment));
  }
  for (size_t i = 0; i < want.size(); ++i) w2.insert(std::to_string(chars(want[i]).size()) + " # " + com[i]);
  auto str = [](const std::multiset<std::string>& x) { std::string r; for (auto& y : x) r += "[" + y + "]"; return r; };
  if (got != w2) c.fail("lost", "the corpus is trained as %s, not %s (characters # comment)", str(got).c_str(), str(w2).c_str());
  c.sig(str(got));
}
}  // namespace
int main(int argc, char** argv) {
  return mc::run(argc, argv, {
    {"raw", s_raw, "every sentence of up to 6 (thorough: 7) tokens over characters, line breaks, tabs, tags, no-break marks and comments, 2 beam settings"},
    {"marks", s_marks, "every text of up to 4 (thorough: 5) characters, every marking of its positions, up to two annotated words with 10 tag sets, 2 (thorough: 5) beam settings"},
    {"sequences", s_sequences, "every sequence of 2 (thorough: 3) of 17 sentences in one stream, against each sentence alone"},
    {"datafield", s_datafield, "tags of a field which is not a feature"},
    {"corpus", s_corpus, "training corpora of up to 3 of 6 annotated sentences with 3 ends and malformed sentences"},
  });
}
