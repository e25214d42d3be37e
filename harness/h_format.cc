// LIBS: v_mc v_jumandic v_jspec v_core v_util v_pathie
// P15: every output format of the real program, parsed or rebuilt from the
// lattice, the dictionary rows and docs/output.md, for every small text.
#include <google/protobuf/io/coded_stream.h>
#include <cmath>
#include "dump.h"
#include "jenv.h"
#include "juman.pb.h"
#include "jumandic/shared/jumandic_env.h"
#include "jumandic/shared/jumandic_ids.h"
#include "jumandic/shared/jumanpp_args.h"
#include "jumanpp.pb.h"
#include "lattice_dump.pb.h"
using mc::Ctx;
using namespace vt;
namespace jd = jumanpp::jumandic;
namespace {
using Feat = std::pair<std::string, std::pair<bool, std::string>>;
struct Word {
  std::string surf, pos, sub, cf, ct, base, read, canon;
  std::vector<Feat> feats;
  bool special = false;
  int norm = 0, ptr = 0;
};
struct NodeT { LatticeNodePtr ptr; int start, end; std::vector<Word> vars; };
std::string star(const std::string& s) { return s.empty() ? "*" : s; }
struct Ids { int p[4]; };
Ids idsOf(const Word& w) {
  Ids r{{0, 0, 0, 0}};
  for (u32 i = 0; i < jd::posInfoCount; ++i)
    if (st(jd::posInfo[i].part1) == star(w.pos) && st(jd::posInfo[i].part2) == star(w.sub)) { r.p[0] = jd::posInfo[i].id1; r.p[1] = jd::posInfo[i].id2; }
  for (u32 i = 0; i < jd::conjInfoCount; ++i)
    if (st(jd::conjInfo[i].part1) == star(w.ct) && st(jd::conjInfo[i].part2) == star(w.cf)) { r.p[2] = jd::conjInfo[i].id1; r.p[3] = jd::conjInfo[i].id2; }
  return r;
}
std::string normText(int v) {
  static const std::pair<int, const char*> M[] = {{4, "R"}, {2, "s"}, {16, "p"}, {512, "e"}, {8, "D"}, {64, "P"}, {256, "S"}, {128, "H"}, {32, "L"}};
  std::string r = "非標準表記:";
  for (auto& m : M) if (v & m.first) r += m.second;
  return r;
}
std::string featText(const Feat& f) { return f.second.first ? f.first + ":" + f.second.second : f.first; }

// ---- models
std::vector<JRow> rows(int kind) {
  auto r = jUnk();
  if (kind == 1) {
    for (JRow x : std::vector<JRow>{
             {"水", "名詞", "普通名詞", "*", "*", "水", "みず", "水/みず", "a:b c d:\"e\""},
             {"水", "名詞", "普通名詞", "*", "*", "水", "すい,", "水/すい", "f:x,y"},
             {"水", "名詞", "普通名詞", "*", "*", "水", "\"み\"", "*", "g,h"},
             {"水", "名詞", "普通名詞", "*", "*", "水", "み ず", "*", "NIL"},
             {"水", "名詞", "*", "*", "*", "水", "みず", "*", "\"q\""},
             {"水水", "動詞", "*", "基本形", "子音動詞カ行", "水,水", "みず\"", "a,b/c", "NIL"},
             {"水水", "動詞", "*", "未知形", "子音動詞カ行", "水", "みず", "*", "t:"},
             {"は", "助詞", "*", "*", "*", "は", "は", "*", "NIL"},
             {"は", "新品詞", "新細分類", "新活用形", "新活用型", "は", "は", "*", "NIL"},
             {",", "特殊", "読点", "*", "*", ",", ",", "*", "NIL"},
             {"\"", "特殊", "括弧始", "*", "*", "\"", "\"", "\"/\"", "NIL"},
             {" ", "特殊", "空白", "*", "*", " ", " ", "*", "元半角"},
             {"a", "名詞", "普通名詞", "*", "母音動詞", "a", "a", "*", "NIL"}})
      r.push_back(x);
    return r;
  }
  for (auto& x : jWords()) r.push_back(x);
  return r;
}
std::string modelFile(Ctx& c, int kind) {
  static std::string f[3];
  if (f[kind].empty()) {
    static Net net;
    JModel m;
    m.rows = rows(kind);
    m.salt = 3 + kind;
    if (kind == 2) {
      net.voc = {"</s>", "<unk>", "水", "だ", "は", "が", "書く", "東京"};
      net.maxent = 31;
      net.fill(4);
      m.net = &net;
      m.rnn.rnnFields = std::vector<std::string>{"surface"};
    }
    f[kind] = c.scratch() + "/m" + std::to_string(kind);
    Status s = m.write(f[kind]);
    if (!s) c.fail("setup", "%s", msg(s).c_str());
  }
  return f[kind];
}
enum Fm { Juman, Morph, Full, Segment, SegmentX, Subset, Latt, JPb, LPb, Dump, NF };
const char* FN[] = {"juman", "morph", "full-morph", "segment", "segment with a separator", "dic-subset", "lattice", "juman-pb", "lattice-pb", "lattice-dump"};
struct Setting { int beam, n, global, autoStep; };
const std::vector<Setting>& settings() {
  static const std::vector<Setting> s = {{5, 1, 6, 0}, {3, 3, 0, 0}, {1, 1, 2, 0}, {5, -1, 6, 0}, {4, 2, 3, 0}, {2, 5, 6, 1}, {2, 4, 0, 0}};
  return s;
}
jd::JumanppExec& exec(Ctx& c, int kind, int fm, int set) {
  static std::map<std::vector<int>, std::unique_ptr<jd::JumanppExec>> ex;
  auto& e = ex[{kind, fm, set}];
  if (e) return *e;
  jd::JumanppConf cf;
  cf.modelFile = modelFile(c, kind);
  auto& s = settings()[set];
  cf.beamSize = s.beam;
  cf.beamOutput = s.n;
  cf.globalBeam = s.global;
  if (!s.global) { cf.rightBeam = 0; cf.rightCheck = 0; }
  if (s.autoStep) cf.autoStep = s.autoStep;
  using T = jd::OutputType;
  static const T TT[] = {T::Juman, T::Morph, T::FullMorph, T::Segmentation, T::Segmentation, T::DicSubset, T::Lattice, T::JumanPb, T::LatticePb, T::FullLatticeDump};
  cf.outputType = TT[fm];
  if (fm == SegmentX) cf.segmentSeparator = std::string("＿|");
  e.reset(new jd::JumanppExec(cf));
  Status q = e->init();
  if (!q) c.fail("setup", "%s: %s", FN[fm], msg(q).c_str());
  return *e;
}
// ---- what the analyzer found
struct Access {
  const OutputManager& om;
  analysis::Lattice* l;
  StringField f[8];
  KVListField kv;
  NodeWalker nw;
  std::vector<std::string> ch;
  Access(Ctx& c, AnalyzerImpl* an, const std::string& text) : om(an->output()), l(an->lattice()) {
    static const char* N[] = {"surface", "pos", "subpos", "conjform", "conjtype", "baseform", "reading", "canonic"};
    for (int i = 0; i < 8; ++i) if (!om.stringField(sp(N[i]), &f[i])) c.fail("setup", "field %s", N[i]);
    if (!om.kvListField("features", &kv)) c.fail("setup", "features");
    for (char x : text) { if ((x & 0xc0) != 0x80) ch.emplace_back(); ch.back() += x; }
  }
  NodeT node(Ctx& c, LatticeNodePtr p) {
    auto ni = l->boundary(p.boundary)->starts()->nodeInfo().at(p.position);
    NodeT r{p, ni.start(), ni.end(), {}};
    if (!om.locate(ni.entryPtr(), &nw)) c.fail("lattice", "node is not found");
    while (nw.next()) {
      Word w;
      std::string* t[] = {&w.surf, &w.pos, &w.sub, &w.cf, &w.ct, &w.base, &w.read, &w.canon};
      for (int i = 0; i < 8; ++i) *t[i] = st(f[i][nw]);
      auto it = kv[nw];
      while (it.next()) w.feats.push_back({st(it.key()), {it.hasValue(), it.hasValue() ? st(it.value()) : ""}});
      w.special = nw.eptr().isSpecial();
      w.ptr = nw.eptr().rawValue();
      if (w.special) w.norm = om.valueOfUnkPlaceholder(nw.eptr(), jd::NormalizedPlaceholderIdx);
      r.vars.push_back(w);
    }
    return r;
  }
};
std::string rowText(const Word& w) {
  std::string r;
  for (auto& s : {w.surf, star(w.pos), star(w.sub), star(w.cf), star(w.ct), w.base, w.read, star(w.canon)}) r += s + "\x01";
  std::vector<std::string> fs;
  for (auto& f : w.feats) fs.push_back(featText(f));
  return r + (fs.empty() ? "NIL" : join(fs, " "));
}
// the words of nodes are the rows of the dictionary
void checkRows(Ctx& c, int kind, const NodeT& n, const std::string& text) {
  static std::map<int, std::set<std::string>> all;
  auto& s = all[kind];
  if (s.empty())
    for (auto& r : rows(kind)) {
      std::string k;
      for (int i = 0; i < 8; ++i) k += (i == 0 || i == 5 || i == 6 ? r[i] : star(r[i])) + "\x01";
      s.insert(k + r[8]);
    }
  for (auto& w : n.vars) {
    if (w.special) { if (w.surf != text) c.fail("lattice", "unknown word '%s' at '%s'", w.surf.c_str(), text.c_str()); continue; }
    std::string k = rowText(w), k2 = k;
    if (k.size() && k.back() == ':') k2 += "";
    if (!s.count(k)) c.fail("fields", "'%s' is not in the dictionary", k.c_str());
  }
}
std::string jesc(const std::string& s) { return s == "\t" ? "\\t" : s == " " ? "\\␣" : s; }
std::string jumanText(const std::vector<NodeT>& p, const std::string& cm) {
  std::string r = cm.empty() ? "" : "# " + cm + "\n";
  for (auto& n : p) {
    bool first = true;
    for (auto& w : n.vars) {
      Ids d = idsOf(w);
      if (!first) r += "@ ";
      first = false;
      r += jesc(w.surf) + " " + jesc(w.read) + " " + jesc(w.base);
      const std::string* s[] = {&w.pos, &w.sub, &w.ct, &w.cf};
      for (int i = 0; i < 4; ++i) r += " " + star(*s[i]) + " " + std::to_string(d.p[i]);
      std::vector<std::string> fs;
      if (!w.canon.empty()) fs.push_back("代表表記:" + w.canon);
      for (auto& f : w.feats) fs.push_back(featText(f));
      if (w.norm) fs.push_back(normText(w.norm));
      r += fs.empty() ? " NIL\n" : " \"" + join(fs, " ") + "\"\n";
    }
  }
  return r + "EOS\n";
}
std::string morphText(const std::vector<NodeT>& p, const std::string& cm, bool full) {
  std::string r;
  for (auto& n : p) {
    auto& w = n.vars.at(0);
    r += full ? w.surf + "_" + w.read + "_" + w.base + "_" + w.pos + "_" + star(w.sub) + "_" + star(w.ct) + "_" + star(w.cf) : w.surf + "_" + w.pos + ":" + star(w.sub);
    r += " ";
  }
  return r + (cm.empty() ? "" : "# " + cm) + "\n";
}
std::vector<std::vector<std::string>> readCsv(const std::string& s) {
  std::vector<std::vector<std::string>> r;
  std::vector<std::string> row(1);
  bool q = false;
  for (size_t i = 0; i < s.size(); ++i) {
    char x = s[i];
    if (q) { if (x != '"') row.back() += x; else if (i + 1 < s.size() && s[i + 1] == '"') { row.back() += x; ++i; } else q = false; }
    else if (x == '"' && row.back().empty()) q = true;
    else if (x == ',') row.emplace_back();
    else if (x == '\n') { r.push_back(row); row.assign(1, ""); }
    else row.back() += x;
  }
  return r;
}
std::string s1(const std::string& s) { std::string r; for (char x : s) r += x == '\n' ? "\\n" : x == 1 ? "," : std::string(1, x); return r; }
void same(Ctx& c, const char* f, const std::string& what, const std::string& got, const std::string& want) {
  if (got != want) c.fail(f, "%s: '%s' instead of '%s'", what.c_str(), s1(got).c_str(), s1(want).c_str());
}
// the network does not score dead ends: their scores are whatever was there
u32 bits(float f) { u32 r; memcpy(&r, &f, 4); return r; }
bool near(float a, float b) { return std::abs(a - b) <= 1e-3f + 1e-3f * std::abs(b); }
struct Path { std::vector<ConnectionPtr> nodes; std::vector<int> beams; float score; };
std::vector<Path> topPaths(analysis::Lattice* l, int n) {
  std::vector<Path> r;
  auto eos = l->boundary(l->createdBoundaryCount() - 1)->starts()->beamData();
  for (auto& e : eos) {
    if ((int)r.size() == n || EntryBeam::isFake(e)) break;
    Path p;
    p.score = e.totalScore;
    int beam = e.ptr.beam;
    for (auto* q = e.ptr.previous; q->boundary >= 2; q = q->previous) { p.nodes.push_back(*q); p.beams.push_back(beam); beam = q->beam; }
    std::reverse(p.nodes.begin(), p.nodes.end());
    std::reverse(p.beams.begin(), p.beams.end());
    r.push_back(p);
  }
  return r;
}
using NKey = std::pair<int, int>;
struct Top {
  std::vector<Path> paths;
  std::map<NKey, std::set<int>> ranks;                   // from 1
  std::map<NKey, std::set<NKey>> prev;
  std::map<NKey, std::vector<std::pair<ConnectionPtr, int>>> conns;   // rank order, beam
};
Top topOf(analysis::Lattice* l, int n) {
  Top t;
  t.paths = topPaths(l, n);
  for (size_t i = 0; i < t.paths.size(); ++i)
    for (size_t k = 0; k < t.paths[i].nodes.size(); ++k) {
      auto& cp = t.paths[i].nodes[k];
      NKey key{cp.boundary, cp.right};
      t.ranks[key].insert(i + 1);
      t.conns[key].push_back({cp, t.paths[i].beams[k]});
      t.prev[key];
      if (cp.previous->boundary >= 2) t.prev[key].insert({cp.previous->boundary, cp.previous->right});
    }
  return t;
}
void checkLattice(Ctx& c, Access& a, AnalyzerImpl* an, int n, const std::string& cm, const std::string& out, const std::string& what, const ScorerDef& sd) {
  auto lines = splitOn(out, "\n");
  if (lines.size() < 2 || lines.back() != "" || lines[lines.size() - 2] != "EOS") c.fail("lattice", "%s is not ended: '%s'", what.c_str(), s1(out).c_str());
  lines.resize(lines.size() - 2);
  if (a.l->createdBoundaryCount() <= 3) {
    same(c, "lattice", what, out, cm.empty() ? "EOS\n" : "# " + cm + "\nEOS\n");
    return;
  }
  Top t = topOf(a.l, n);
  if (lines.empty()) c.fail("lattice", "%s is empty", what.c_str());
  if (!cm.empty()) same(c, "lattice", what, lines[0], "# " + cm);
  else {
    if (lines[0].compare(0, 11, "# MA-SCORE\t")) c.fail("lattice", "%s begins with '%s'", what.c_str(), lines[0].c_str());
    auto sc = splitOn(lines[0].substr(11), " ");
    if (sc.back().empty()) sc.pop_back();
    if (sc.size() != t.paths.size()) c.fail("lattice", "%s: %zu scores for %zu paths: '%s'", what.c_str(), sc.size(), t.paths.size(), lines[0].c_str());
    for (size_t i = 0; i < sc.size(); ++i) {
      std::string pre = "rank" + std::to_string(i + 1) + ":";
      if (sc[i].compare(0, pre.size(), pre) || !near(std::stof(sc[i].substr(pre.size())), t.paths[i].score)) c.fail("lattice", "%s: '%s' for the score %g", what.c_str(), sc[i].c_str(), t.paths[i].score);
    }
  }
  std::map<NKey, int> id;
  for (auto& r : t.ranks) id.insert({r.first, (int)id.size() + 1});
  size_t li = 1;
  for (auto& r : t.ranks) {
    LatticeNodePtr np{(u16)r.first.first, (u16)r.first.second};
    NodeT nd = a.node(c, np);
    for (auto& w : nd.vars) {
      if (li >= lines.size()) c.fail("lattice", "%s: lines are missing", what.c_str());
      auto f = splitOn(lines[li++], "\t");
      std::string wh = what + " line '" + lines[li - 1] + "'";
      if (f.size() != 18) c.fail("lattice", "%s has %zu fields", wh.c_str(), f.size());
      std::vector<std::string> pv, rk;
      if (t.prev[r.first].empty() || r.first.first == 2) pv = {"0"};
      for (auto& p : t.prev[r.first]) pv.push_back(std::to_string(id.at(p)));
      for (int x : r.second) rk.push_back(std::to_string(x));
      Ids d = idsOf(w);
      auto tab = [](const std::string& s) { return s == "\t" ? "\\t" : s; };
      std::vector<std::string> want = {"-", std::to_string(id[r.first]), join(pv, ";"), std::to_string(nd.start), std::to_string(nd.end - 1), tab(w.surf),
                                       w.canon.empty() ? w.base + "/" + w.read : w.canon, tab(w.read), tab(w.base)};
      const std::string* s[] = {&w.pos, &w.sub, &w.ct, &w.cf};
      for (int i = 0; i < 4; ++i) { want.push_back(star(*s[i])); want.push_back(std::to_string(d.p[i])); }
      // an unescaped tab in the canonical form would have changed the fields
      if (want[6].find('\t') != std::string::npos) want[6] = f[6];
      for (int i = 0; i < 17; ++i) same(c, "lattice", wh + " field " + std::to_string(i), f[i], want[i]);
      std::vector<std::string> fs;
      for (auto& x : w.feats) fs.push_back(featText(x));
      if (w.norm) fs.push_back(normText(w.norm));
      std::string pre = fs.empty() ? "" : join(fs, "|") + "|";
      if (f[17].compare(0, pre.size(), pre)) c.fail("lattice", "%s does not have the features '%s'", wh.c_str(), pre.c_str());
      auto sc = splitOn(f[17].substr(pre.size()), "|");
      size_t nsc = sd.scoreWeights.size();
      if (sc.size() != nsc + 2) c.fail("lattice", "%s: %zu parts of the score", wh.c_str(), sc.size());
      static const char* LB[] = {"特徴量スコア:", "言語モデルスコア:"};
      bool some = false;
      for (auto& k : t.conns[r.first]) {
        auto scores = a.l->boundary(k.first.boundary)->scores()->forPtr(k.first);
        bool ok = true;
        float tot = 0;
        auto val = [&](const std::string& x, const std::string& label, float v) { return x.compare(0, label.size(), label) == 0 && near(std::stof(x.substr(label.size())), v); };
        for (size_t i = 0; i < nsc; ++i) { ok = ok && val(sc[i], LB[i], scores[i] * sd.scoreWeights[i]); tot += scores[i] * sd.scoreWeights[i]; }
        ok = ok && val(sc[nsc], "形態素解析スコア:", tot);
        some |= ok;
      }
      if (!some) c.fail("lattice", "%s: scores are of no connection of the node", wh.c_str());
      same(c, "lattice", wh, sc.back(), "ランク:" + join(rk, ";"));
    }
  }
  if (li != lines.size()) c.fail("lattice", "%s: additional line '%s'", what.c_str(), lines[li].c_str());
}
template <typename M>
void decode(Ctx& c, const std::string& out, M* m, const std::string& what) {
  google::protobuf::io::CodedInputStream in((const uint8_t*)out.data(), out.size());
  google::protobuf::uint64 n = 0;
  if (!in.ReadVarint64(&n)) c.fail("pb", "%s has no length", what.c_str());
  int at = in.CurrentPosition();
  if (at + n != out.size()) c.fail("pb", "%s: the length is %d, %d bytes follow", what.c_str(), (int)n, (int)out.size() - at);
  if (!m->ParseFromArray(out.data() + at, n)) c.fail("pb", "%s is not decoded", what.c_str());
}
template <typename P, typename S>
std::string posText(const P& p, const S& s) {
  return s.pos() + "/" + std::to_string(p.pos()) + " " + s.subpos() + "/" + std::to_string(p.subpos()) + " " + s.conj_type() + "/" + std::to_string(p.conj_type()) + " " + s.conj_form() + "/" + std::to_string(p.conj_form());
}
std::string posText(const Word& w) {
  Ids d = idsOf(w);
  const std::string* s[] = {&w.pos, &w.sub, &w.ct, &w.cf};
  std::vector<std::string> r;
  for (int i = 0; i < 4; ++i) r.push_back(star(*s[i]) + "/" + std::to_string(d.p[i]));
  return join(r, " ");
}
template <typename F>
std::string featsText(const F& fs) {
  std::vector<std::string> r;
  for (auto& f : fs) r.push_back(f.has_value() ? f.key() + ":" + f.value() : f.key());
  return join(r, " ");
}
std::string featsText(const Word& w, bool canon) {
  std::vector<std::string> r;
  if (canon && !w.canon.empty()) r.push_back("代表表記:" + w.canon);
  for (auto& f : w.feats) r.push_back(featText(f));
  return join(r, " ");
}
void checkJPb(Ctx& c, const std::vector<NodeT>& p, const std::string& cm, const std::string& out, const std::string& what) {
  jumanpp::JumanSentence m;
  decode(c, out, &m, what);
  same(c, "pb", what + " comment", m.comment(), cm);
  if (m.morphemes_size() != (int)p.size()) c.fail("pb", "%s: %d morphemes instead of %zu", what.c_str(), m.morphemes_size(), p.size());
  auto text = [](const jumanpp::JumanMorpheme& x) { return x.surface() + "|" + x.reading() + "|" + x.baseform() + "|" + posText(x.posinfo(), x.string_pos()) + "|" + featsText(x.features()); };
  for (size_t i = 0; i < p.size(); ++i) {
    auto& x = m.morphemes(i);
    if (x.variants_size() + 1 != (int)p[i].vars.size()) c.fail("pb", "%s: %d variants instead of %zu", what.c_str(), x.variants_size() + 1, p[i].vars.size());
    for (size_t k = 0; k < p[i].vars.size(); ++k) {
      auto& w = p[i].vars[k];
      same(c, "pb", what, text(k ? x.variants(k - 1) : x), w.surf + "|" + w.read + "|" + w.base + "|" + posText(w) + "|" + featsText(w, true));
    }
  }
}
void checkLPb(Ctx& c, Access& a, int n, const std::string& cm, const std::string& out, const std::string& what) {
  jumanpp::Lattice m;
  decode(c, out, &m, what);
  same(c, "pb", what + " comment", m.comment(), cm);
  Top t;
  if (a.l->createdBoundaryCount() > 3) t = topOf(a.l, n);
  if (m.scores_size() != (int)t.paths.size()) c.fail("pb", "%s: %d scores of %zu paths", what.c_str(), m.scores_size(), t.paths.size());
  for (int i = 0; i < m.scores_size(); ++i) if (m.scores(i) != t.paths[i].score) c.fail("pb", "%s: score %d is %g instead of %g", what.c_str(), i, m.scores(i), t.paths[i].score);
  int k = 0;
  std::map<NKey, u32> ids;
  std::set<u32> used;
  auto idText = [&](u32 id) { for (auto& x : ids) if (x.second == id) return std::to_string(x.first.first) + "." + std::to_string(x.first.second); return std::string("?"); };
  for (auto& r : t.ranks) {
    NodeT nd = a.node(c, LatticeNodePtr{(u16)r.first.first, (u16)r.first.second});
    for (auto& w : nd.vars) {
      if (k >= m.nodes_size()) c.fail("pb", "%s: nodes are missing", what.c_str());
      auto& x = m.nodes(k++);
      if (!ids.count(r.first)) { if (!used.insert(x.node_id()).second) c.fail("pb", "%s: id %u is used again", what.c_str(), x.node_id()); ids[r.first] = x.node_id(); }
      std::string got = std::to_string(x.node_id() == ids[r.first]) + " " + std::to_string(x.start_index()) + "-" + std::to_string(x.end_index()) + " " + x.surface() + "|" + x.canonical() + "|" + x.reading() + "|" + x.dicform() + "|" + posText(x.pos(), x.string_pos()) + "|" + featsText(x.features());
      std::string want = "1 " + std::to_string(nd.start) + "-" + std::to_string(nd.end) + " " + w.surf + "|" + (w.canon.empty() ? w.base + "/" + w.read : w.canon) + "|" + w.read + "|" + w.base + "|" + posText(w) + "|" + featsText(w, false);
      for (u32 p : x.prev_nodes()) got += " <" + idText(p);
      for (auto& p : t.prev[r.first]) want += " <" + std::to_string(p.first) + "." + std::to_string(p.second);
      for (u32 q : x.ranks()) got += " #" + std::to_string(q);
      for (int q : r.second) want += " #" + std::to_string(q);
      same(c, "pb", what, got, want);
      auto& cs = t.conns[r.first];
      if (x.cumulative_scores_size() != (int)cs.size() || x.score_details_size() != (int)cs.size()) c.fail("pb", "%s: scores of '%s'", what.c_str(), w.surf.c_str());
      for (size_t i = 0; i < cs.size(); ++i) {
        auto& e = a.l->boundary(r.first.first)->starts()->beamData().row(r.first.second).at(cs[i].second);
        auto sc = a.l->boundary(r.first.first)->scores()->forPtr(cs[i].first);
        auto& sd = x.score_details(i);
        bool ok = x.cumulative_scores(i) == e.totalScore && sd.linear() == sc.at(0) && sd.additional_size() == (int)sc.size() - 1;
        for (int q = 0; ok && q < sd.additional_size(); ++q) ok = sd.additional(q) == sc.at(q + 1);
        if (!ok) c.fail("pb", "%s: the scores of '%s' at rank %u are wrong", what.c_str(), w.surf.c_str(), x.ranks(i));
      }
    }
  }
  if (k != m.nodes_size()) c.fail("pb", "%s: additional nodes", what.c_str());
}
std::string valueText(const jumanpp::LatticeDumpNode& n, const std::vector<int>& order) {
  std::string r;
  for (int i : order) {
    auto& v = n.values(i);
    if (v.has_kvlist()) {
      std::vector<std::string> fs;
      for (auto& x : v.kvlist().values()) fs.push_back(x.value().empty() ? x.key() : x.key() + ":" + x.value());
      r += join(fs, " ") + "\x01";
    } else r += v.string() + "\x01";
  }
  return r;
}
void checkDump(Ctx& c, Access& a, AnalyzerImpl* an, const std::string& text, const std::string& cm, const std::string& out, const std::string& what) {
  jumanpp::LatticeDump m;
  decode(c, out, &m, what);
  same(c, "dump", what + " comment", m.comment(), cm);
  same(c, "dump", what + " surface", m.surface(), text);
  static const char* N[] = {"surface", "pos", "subpos", "conjform", "conjtype", "baseform", "reading", "canonic", "features"};
  std::vector<int> order;
  for (auto* x : N) for (int i = 0; i < m.field_names_size(); ++i) if (m.field_names(i) == x) order.push_back(i);
  if (order.size() != 9 || m.surface_idx() != order[0]) { std::string all; for (auto& x : m.field_names()) all += x + " "; c.fail("dump", "%s: field names %s, %d", what.c_str(), all.c_str(), m.surface_idx()); }
  u32 nb = a.l->createdBoundaryCount();
  if (nb <= 3) { if (m.boundaries_size()) c.fail("dump", "%s: boundaries of an empty text", what.c_str()); return; }
  if (m.boundaries_size() != (int)nb - 2) c.fail("dump", "%s: %d boundaries", what.c_str(), m.boundaries_size());
  std::map<NKey, std::set<int>> ranks;
  std::map<std::string, std::set<int>> pranks;
  auto pk = [](const ConnectionPtr& p) { return std::to_string(p.boundary) + "." + std::to_string(p.left) + "." + std::to_string(p.right) + "." + std::to_string(p.beam); };
  {
    auto eos = a.l->boundary(nb - 1)->starts()->beamData().row(0);
    int r = 0;
    for (auto& e : eos) {
      if (EntryBeam::isFake(e)) break;
      for (const ConnectionPtr* q = &e.ptr; q->boundary >= 2; q = q->previous) { ranks[{q->boundary, q->right}].insert(r); pranks[pk(*q)].insert(r); }
      ++r;
    }
  }
  for (u32 b = 2; b < nb; ++b) {
    auto starts = a.l->boundary(b)->starts();
    auto& mb = m.boundaries(b - 2);
    if (mb.nodes_size() != (int)starts->numEntries()) c.fail("dump", "%s: %d nodes at %u", what.c_str(), mb.nodes_size(), b);
    for (u32 i = 0; i < starts->numEntries(); ++i) {
      auto& mn = mb.nodes(i);
      bool eos = b + 1 == nb;
      NodeT nd;
      if (!eos) nd = a.node(c, LatticeNodePtr{(u16)b, (u16)i});
      std::string wh = what + " node " + std::to_string(b) + "." + std::to_string(i);
      std::string surf;
      for (int k = nd.start; !eos && k < nd.end; ++k) surf += a.ch.at(k);
      same(c, "dump", wh, mn.surface(), eos ? "EOS" : surf);
      if (mn.entry_ptr() != starts->nodeInfo().at(i).entryPtr().rawValue() || (!eos && mn.length() != nd.end - nd.start)) c.fail("dump", "%s: entry or length", wh.c_str());
      std::set<int> rk(mn.ranks().begin(), mn.ranks().end());
      if (rk != ranks[{(int)b, (int)i}] || rk.size() != (size_t)mn.ranks_size()) c.fail("dump", "%s: ranks", wh.c_str());
      if (!eos) {
        if (mn.variants_size() + 1 != (int)nd.vars.size()) c.fail("dump", "%s: %d variants instead of %zu", wh.c_str(), mn.variants_size() + 1, nd.vars.size());
        for (size_t k = 0; k < nd.vars.size(); ++k) {
          auto& w = nd.vars[k];
          std::string want;
          for (auto& s : {w.surf, w.pos, w.sub, w.cf, w.ct, w.base, w.read, w.canon, featsText(w, false)}) want += s + "\x01";
          auto& v = k ? mn.variants(k - 1) : mn;
          if (v.values_size() != m.field_names_size()) c.fail("dump", "%s: %d values", wh.c_str(), v.values_size());
          std::string got = valueText(v, order);
          // an empty value is written like no value
          for (auto* x : {&want, &got}) { std::string y; for (size_t q = 0; q < x->size(); ++q) if (!((*x)[q] == ':' && (q + 1 == x->size() || (*x)[q + 1] == ' ' || (*x)[q + 1] == 1))) y += (*x)[q]; *x = y; }
          same(c, "dump", wh, got, want);
        }
      }
      auto pats = starts->patternFeatureData().row(i);
      int np = 0;
      for (auto v : pats) { if (np >= mn.patterns_size() || mn.patterns(np) != v) c.fail("dump", "%s: pattern %d", wh.c_str(), np); ++np; }
      auto bd = starts->beamData().row(i);
      int nbm = 0;
      for (auto& e : bd) {
        if (EntryBeam::isFake(e)) break;
        if (nbm >= mn.beams_size()) c.fail("dump", "%s: beams are missing", wh.c_str());
        auto& x = mn.beams(nbm);
        bool ok = bits(x.cum_score()) == bits(e.totalScore) && x.nodes_size() == 3;
        const ConnectionPtr* q = &e.ptr;
        int beam = nbm;
        for (int k = 2; ok && k >= 0; --k) {
          ok = x.nodes(k).boundary() == q->boundary && x.nodes(k).node() == q->right && x.nodes(k).beam() == beam;
          beam = q->beam;
          if (k) q = q->previous;
        }
        auto sc = a.l->boundary(b)->scores()->forPtr(e.ptr);
        ok = ok && x.raw_scores_size() == (int)sc.size();
        for (int k = 0; ok && k < x.raw_scores_size(); ++k) ok = bits(x.raw_scores(k)) == bits(sc.at(k));
        if (!ok) {
          std::string d = "score " + std::to_string(x.cum_score()) + " of " + std::to_string(e.totalScore);
          for (int k = 0; k < x.raw_scores_size() && k < (int)sc.size(); ++k) d += ", " + std::to_string(x.raw_scores(k)) + " of " + std::to_string(sc.at(k));
          for (auto& y : x.nodes()) d += ", " + std::to_string(y.boundary()) + "." + std::to_string(y.node()) + "." + std::to_string(y.beam());
          c.fail("dump", "%s: beam element %d: %s", wh.c_str(), nbm, d.c_str());
        }
        std::set<int> pr(x.ranks().begin(), x.ranks().end());
        std::set<int> all = pranks[pk(e.ptr)];
        if (pr != all) c.fail("dump", "%s: ranks of beam element %d", wh.c_str(), nbm);
        float lin = 0;
        for (auto& f : x.features()) lin += f.weight();
        if (!near(lin, sc.at(0))) c.fail("dump", "%s: weights of features are %g together, the score is %g", wh.c_str(), lin, sc.at(0));
        ++nbm;
      }
      if (nbm != mn.beams_size()) c.fail("dump", "%s: additional beam elements", wh.c_str());
    }
  }
}
void one(Ctx& c, int kind, int fm, int set, const std::string& text, const std::string& cm) {
  auto& ex = exec(c, kind, fm, set);
  std::string what = std::string(FN[fm]) + " of '" + text + "'" + (cm.empty() ? "" : " with '" + cm + "'");
  c.note("%s, model %d, setting %d", what.c_str(), kind, set);
  c.count();
  Status s = ex.analyze(sp(text), sp(cm));
  if (!s) c.fail("analysis", "%s: %s", what.c_str(), msg(s).c_str());
  std::string out = st(ex.output());
  auto* an = ex.analyzerPtr()->impl();
  Access a(c, an, text);
  std::vector<NodeT> path;
  if (a.l->createdBoundaryCount() > 3) {
    auto t = topPaths(a.l, 1);
    if (t.empty()) c.fail("path", "%s: no path", what.c_str());
    int pos = 0;
    for (auto& cp : t[0].nodes) {
      NodeT n = a.node(c, cp.latticeNodePtr());
      if (n.start != pos) c.fail("path", "%s: hole", what.c_str());
      std::string surf;
      for (; pos < n.end; ++pos) surf += a.ch.at(pos);
      checkRows(c, kind, n, surf);
      path.push_back(n);
    }
    if (pos != (int)a.ch.size()) c.fail("path", "%s: not to the end", what.c_str());
  }
  auto& se = settings()[set];
  int beam = se.beam;
  if (se.autoStep) beam = an->autoBeamSizes();
  int n = se.n < 0 ? se.beam : se.n;
  switch (fm) {
    case Juman: same(c, "juman", what, out, jumanText(path, cm)); break;
    case Morph: case Full: same(c, "morph", what, out, morphText(path, cm, fm == Full)); break;
    case Segment: case SegmentX: {
      std::vector<std::string> s;
      for (auto& w : path) s.push_back(w.vars.at(0).surf);
      same(c, "segment", what, out, join(s, fm == Segment ? " " : "＿|") + "\n");
      same(c, "segment", what, join(s, ""), text);
      break;
    }
    case Subset: {
      std::string pre = "#### MRPH output ####\n" + morphText(path, cm, true) + "\n\n### SUBSET OF DICTIONARY\n";
      same(c, "subset", what, out.substr(0, pre.size()), pre);
      std::multiset<std::string> want, got;
      std::set<int> seen;
      for (u32 b = 2; b + 1 < a.l->createdBoundaryCount(); ++b)
        for (u32 i = 0; i < a.l->boundary(b)->starts()->numEntries(); ++i) {
          auto ep = a.l->boundary(b)->starts()->nodeInfo().at(i).entryPtr();
          if (!ep.isDic() || !seen.insert(ep.rawValue()).second) continue;
          for (auto& w : a.node(c, LatticeNodePtr{(u16)b, (u16)i}).vars) want.insert(rowText(w));
        }
      for (auto& r : readCsv(out.substr(pre.size()))) {
        if (r.size() != 12 || r[1] != "0" || r[2] != "0" || r[3] != "0") c.fail("subset", "%s: a row with %zu columns", what.c_str(), r.size());
        std::string k;
        for (int i : {0, 4, 5, 6, 7, 8, 9, 10}) k += (i == 0 || i == 8 || i == 9 ? r[i] : star(r[i])) + "\x01";
        got.insert(k + (r[11].empty() ? "NIL" : r[11]));
      }
      for (auto& x : want) if (got.count(x) != want.count(x)) c.fail("subset", "%s: '%s' is written %zu times", what.c_str(), s1(x).c_str(), got.count(x));
      for (auto& x : got) if (!want.count(x)) c.fail("subset", "%s: '%s' is not in the lattice", what.c_str(), s1(x).c_str());
      break;
    }
    case Latt: checkLattice(c, a, an, se.autoStep ? beam : n, cm, out, what, *ex.analyzerPtr()->scorer()); break;
    case JPb: checkJPb(c, path, cm, out, what); break;
    case LPb: checkLPb(c, a, n, cm, out, what); break;
    case Dump: checkDump(c, a, an, text, cm, out, what); break;
  }
  c.sig(out);
}
const std::vector<std::string>& alpha(int kind) {
  static const std::vector<std::string> A0 = {"水", "書き", "東京都", "は", " ", "コーヒー", "すご", "ーい", "a", "\t", ",", "鱧", "1", "_"};
  static const std::vector<std::string> A1 = {"水", "は", "\"", ",", " ", "a", "\t", "鱧"};
  return kind == 1 ? A1 : A0;
}
const std::vector<std::string>& comments() {
  static const std::vector<std::string> C = {"", "c \"1\"", "c", " ", "#", "0", "あ", "EOS", "a\tb,c_d ", std::string(400, 'x')};
  return C;
}
void s_texts(Ctx& c) {
  int kind = c.choose(2), fm = c.choose(NF);
  auto& A = alpha(kind);
  int len = c.choose((c.thorough() ? 4 : 3) + kind);
  std::string t;
  for (int i = 0; i < len; ++i) t += A[c.choose((int)A.size())];
  one(c, kind, fm, fm == Latt || fm == LPb ? 1 : 0, t, len < 2 ? comments()[c.choose((int)comments().size())] : "");
}
void s_settings(Ctx& c) {
  static const int F[] = {Latt, LPb, Dump, Juman, JPb};
  int kind = c.choose(3), fm = F[c.choose(5)], set = c.choose((int)settings().size());
  if (kind == 2 && !settings()[set].global) c.discard();
  auto& A = alpha(kind);
  int len = 1 + c.choose(c.thorough() ? 3 : 2);
  std::string t;
  for (int i = 0; i < len; ++i) t += A[c.choose((int)A.size())];
  one(c, kind, fm, set, t, c.flag() ? "c" : "");
}
}  // namespace
int main(int argc, char** argv) {
  return mc::run(argc, argv, {
    {"texts", s_texts, "every text of up to 2 of 14 (or 3 of 8; thorough: 3 and 4) pieces (with one of 10 comments if up to 1) over two dictionaries, all 10 formats"},
    {"settings", s_settings, "every text of up to 2 (thorough: 3) pieces over three models (one with a recurrent network), 7 settings of beams and number of paths, 5 formats"},
  });
}
