// P16: which dictionary rows become one candidate, and what walking it yields.
// LIBS: v_mc v_core
#include <algorithm>
#include "env.h"
using namespace vt;
using mc::Ctx;

namespace {
struct Row {
  std::string a, b, c, d, e;
};
std::string show(const Row& r) { return r.a + "," + r.b + "," + r.c + "," + r.d + "," + r.e; }

struct Roles {
  bool b = false, c = false;   // used in features
  int match = 0;               // 1: key of the list field d, 2: tuple of (b, e), 3: list of values of b; 4: b's length
  bool ifThen = false;         // the match feature copies e
  int loss = 0;                // 0 none, 1 a, 2 a b, 3 a b:0, 4 b, 5 a:0 b
  int tmpl = 0;                // 0 no template, 1 own surface, 2 surface of a word, first row, 3 the same, in the middle
  bool saved = false;
};

std::string showRoles(const Roles& r) {
  char q[200];
  snprintf(q, sizeof q, "features of b %d c %d, match %d%s, loss %d, template %d", r.b, r.c, r.match, r.ifThen ? " then e" : "", r.loss, r.tmpl);
  return q;
}

void spec(const Roles& r, dsl::ModelSpecBuilder& m, int tmplRow) {
  auto& a = m.field(1, "a").strings().trieIndex();
  auto& b = m.field(2, "b").strings().emptyValue("*");
  auto& c = m.field(3, "c").integers();
  auto& d = m.field(4, "d").kvLists();
  auto& e = m.field(5, "e").strings();
  m.unigram({a});
  if (r.b) m.unigram({a, b});
  if (r.c) m.unigram({c});
  if (r.match) {
    auto& f = m.feature("mm");
    if (r.match == 1) f.matchData(d, "k");
    if (r.match == 2) f.matchAnyRowOfCsv("x,p\ny,q", {b, e});
    if (r.match == 3) f.matchData(b, "y");
    if (r.match == 4) f.numCodepoints(b);
    if (r.match < 4 && r.ifThen) f.ifTrue({e}).ifFalse({a});
    m.unigram({f, a});
  }
  auto& ph = m.feature("ph").placeholder();
  m.unigram({ph});
  if (r.tmpl) m.unk("u", tmplRow).single(chars::CharacterClass::FAMILY_OTHERS).writeFeatureTo(ph).outputTo({a});
  if (r.loss == 1 || r.loss == 2 || r.loss == 3) m.train().field(a, 1.0f);
  if (r.loss == 5) m.train().field(a, 0.0f);
  if (r.loss == 2 || r.loss == 4 || r.loss == 5) m.train().field(b, 1.0f);
  if (r.loss == 3) m.train().field(b, 0.0f);
}

struct Got {
  std::vector<std::string> rows;
  bool operator<(const Got& o) const { return rows < o.rows; }
};

void run(Ctx& c, const Roles& r, std::vector<Row> rows) {
  Row T{"T", "t", "0", "", "tt"};
  int trow = 0;
  std::vector<Row> all = rows;
  if (r.tmpl) {
    if (r.tmpl > 1) T = rows[0], T.e = "tt";
    size_t at = r.tmpl == 3 ? (rows.size() + 1) / 2 : 0;
    all.insert(all.begin() + at, T);
    trow = (int)at + 1;
  }
  std::string csv;
  for (auto& x : all) csv += csvRow({x.a, x.b, x.c, x.d, x.e});
  c.note("%s: %s", showRoles(r).c_str(), csv.substr(0, 1200).c_str());
  Model m;
  Status q = m.build([&](dsl::ModelSpecBuilder& b) { spec(r, b, trow); }, sp(csv));
  if (!q) {
    // a field that no feature uses can not be used for loss
    if (r.loss && (r.loss == 2 || r.loss > 2) && !r.b) c.discard();
    c.fail("build", "valid model refused: %s", msg(q).c_str());
  }
  // which fields tell rows apart
  auto& ds = m.spec().features.dictionary;
  bool fb = r.b, fc = r.c, fe = r.ifThen && r.match && r.match < 4;
  for (auto& x : ds) {  // fields a feature reads are features themselves
    if (x.kind != spec::DicImportKind::ImportAsFeature) continue;
    if (x.name == "b") fb = true;
    if (x.name == "c") fc = true;
    if (x.name == "e") fe = true;
    if (x.name == "d" ) fe = fe;
  }
  bool fd = false;
  for (auto& x : ds) if (x.kind == spec::DicImportKind::ImportAsFeature && x.name == "d") fd = true;
  auto key = [&](const Row& x) {
    std::string k = x.a + "\x01";
    if (r.loss == 0) {
      if (fb) k += x.b + "\x01";
      if (fc) k += x.c + "\x01";
      if (fd) k += x.d + "\x01";
      if (fe) k += x.e + "\x01";
    } else if (r.loss == 2 || r.loss == 4 || r.loss == 5)
      k += x.b + "\x01";
    return k;
  };
  std::vector<std::string> keys;
  std::map<std::string, std::vector<Row>> groups;
  for (auto& x : rows) {
    auto& g = groups[key(x)];
    g.push_back(x);
  }
  auto canon = [&](const Row& x, const Row& first) {
    Row y = x;
    if (r.loss) {  // features are those of the first row (docs/spec.md, Node Aliasing)
      if (fb && !(r.loss == 2 || r.loss == 4 || r.loss == 5)) y.b = first.b;
      if (fc) y.c = first.c;
      if (fd) y.d = first.d;
      if (fe) y.e = first.e;
    }
    if (y.b == "*") y.b = "";
    return show(y);
  };
  std::map<std::string, std::vector<std::vector<std::string>>> want;  // surface -> groups
  std::set<std::string> surf;
  for (auto& p : groups) {
    std::vector<std::string> v;
    for (auto& x : p.second) v.push_back(canon(x, p.second[0]));
    std::sort(v.begin(), v.end());
    want[p.second[0].a].push_back(v);
    surf.insert(p.second[0].a);
  }
  for (auto& p : want) std::sort(p.second.begin(), p.second.end());
  auto cfg = acfg();
  cfg.pageSize = 1024 * 1024;
  auto an = m.analyzer(2, cfg);
  auto& om = an->output();
  StringField A, B, E;
  IntField C;
  KVListField D;
  q = om.stringField("a", &A);
  if (q) q = om.stringField("b", &B);
  if (q) q = om.stringField("e", &E);
  if (q) q = om.intField("c", &C);
  if (q) q = om.kvListField("d", &D);
  if (!q) c.fail("setup", "%s", msg(q).c_str());
  std::string sig;
  std::vector<float> w(64, 0.0f);
  HashedFeaturePerceptron hp{w};
  ScorerDef sd;
  sd.feature = &hp;
  sd.scoreWeights = {1.0f};
  q = an->initScorers(sd);
  if (!q) c.fail("setup", "%s", msg(q).c_str());
  for (auto& s : surf) {
    ExactBuf in(s);
    q = an->resetForInput(in.sp());
    if (q) q = an->prepareNodeSeeds();
    if (q) q = an->buildLattice();
    if (q) q = an->bootstrapAnalysis();
    if (q) q = an->computeScores(&sd);
    if (!q) c.fail("analysis", "%s: %s", s.c_str(), msg(q).c_str());
    auto* l = an->lattice();
    auto len = cps(s).size();
    std::vector<std::vector<std::string>> got;
    for (u32 bi = 2; bi + 1 < l->createdBoundaryCount(); ++bi) {
      auto* b = l->boundary(bi)->starts();
      for (u32 k = 0; k < b->numEntries(); ++k) {
        auto ni = b->nodeInfo().at(k);
        if (bi != 2 || (size_t)ni.end() != len || ni.entryPtr().isSpecial()) continue;
        NodeWalker nw = om.nodeWalker();
        if (!om.locate(LatticeNodePtr{(u16)bi, (u16)k}, &nw)) c.fail("locate", "node of %s can not be located", s.c_str());
        int rem = nw.remaining();
        std::vector<std::string> v;
        while (nw.next()) {
          if (v.size() > 5000) c.fail("endless", "node of %s has endless entries", s.c_str());
          Row x{st(A[nw]), st(B[nw]), std::to_string(C[nw]), "", st(E[nw])};
          auto kv = D[nw];
          std::vector<std::string> it;
          for (int i = 0; i < 10 && kv.next(); ++i) it.push_back(st(kv.key()) + (kv.hasValue() ? ":" + st(kv.value()) : ""));
          std::sort(it.begin(), it.end());
          x.d = join(it, " ");
          v.push_back(show(x));
        }
        if (rem != (int)v.size()) c.fail("remaining", "node of %s announces %d entries and yields %d", s.c_str(), rem, (int)v.size());
        std::sort(v.begin(), v.end());
        got.push_back(v);
        c.count();
        c.state();
      }
    }
    std::sort(got.begin(), got.end());
    auto text = [](const std::vector<std::vector<std::string>>& g) {
      std::string o;
      for (auto& x : g) o += "{" + join(x, "|") + "} ";
      return o.substr(0, 900);
    };
    sig += text(got);
    if (got != want[s]) {
      std::vector<std::string> fg, fw;
      for (auto& x : got) fg.insert(fg.end(), x.begin(), x.end());
      for (auto& x : want[s]) fw.insert(fw.end(), x.begin(), x.end());
      std::sort(fg.begin(), fg.end());
      std::sort(fw.begin(), fw.end());
      c.fail(fg == fw ? "grouping" : "entries", "candidates of %s are %s instead of %s", s.c_str(), text(got).c_str(), text(want[s]).c_str());
    }
  }
  c.sig(sig);
}

Roles roles(Ctx& c) {
  Roles r;
  r.b = c.flag();
  r.c = c.flag();
  r.match = c.choose(5);
  if (r.match && r.match < 4) r.ifThen = c.flag();
  r.loss = c.choose(5);
  if (r.loss == 4) r.loss = 5;  // the surface must be among the fields of training
  r.tmpl = c.thorough() ? c.choose(4) : c.flag() ? 3 : 0;
  return r;
}

const std::vector<Row>& menu() {
  static const std::vector<Row> m = {
      {"あ", "x", "1", "k:v", "p"}, {"あ", "x", "1", "k:v", "p"}, {"あ", "x", "1", "", "q"}, {"あ", "x", "2", "k:v", "p"}, {"あ", "y", "1", "k", "p"},
      {"あい", "x", "1", "k:v", "p"}, {"あい", "y", "2", "", "p"}, {"あ", "*", "1", "j:w", "p"}, {"い", "x", "1", "", ""}, {"あ", "あ", "2", "", "p"},
  };
  return m;
}

void s_pairs(Ctx& c) {
  Roles r = roles(c);
  size_t n = c.range(1, 2);
  std::vector<Row> v;
  for (size_t i = 0; i < n; ++i) v.push_back(c.pick(menu()));
  run(c, r, v);
}

void s_orders(Ctx& c) {
  static const std::vector<Roles> R = [] {
    std::vector<Roles> v(8);
    v[1].b = true;
    v[2].b = v[2].c = true;
    v[3].b = true; v[3].loss = 2;
    v[4].b = true; v[4].loss = 3;
    v[5].match = 1;
    v[6].b = true; v[6].tmpl = 3;
    v[7].b = true; v[7].loss = 5; v[7].tmpl = 2;
    return v;
  }();
  const Roles& r = c.pick(R);
  size_t n = c.thorough() ? c.range(3, 6) : c.range(3, 4);
  static const std::vector<Row> M = {{"あ", "x", "1", "k:v", "p"}, {"あ", "y", "1", "k:v", "q"}, {"あ", "x", "2", "", "p"}, {"あい", "x", "1", "", "r"}, {"い", "*", "1", "k", ""}};
  std::vector<Row> v;
  for (size_t i = 0; i < n; ++i) v.push_back(c.pick(M));
  run(c, r, v);
}

// many homographs
void s_many(Ctx& c) {
  static const std::vector<int> N = {1, 2, 3, 7, 8, 9, 63, 64, 65, 126, 127, 128, 129, 200, 255, 256, 257, 300, 1000};
  int n = c.pick(N);
  int kinds = c.range(1, 4);
  Roles r;
  r.b = true;
  r.loss = c.flag() ? 2 : 0;
  r.tmpl = c.choose(4);
  int order = c.choose(3);
  std::vector<Row> v;
  for (int i = 0; i < n; ++i) {
    int g = order == 0 ? i % kinds : order == 1 ? i * kinds / n : (i * 7 + i / 3) % kinds;
    v.push_back({i % 11 == 5 ? "い" : "あ", std::string(1, (char)('p' + g)), std::to_string(i % 3), i % 2 ? "k:v" : "", i % 5 == 4 ? "same" : "e" + std::to_string(i)});
  }
  run(c, r, v);
}

// all rows have different aliasing values
void s_wide(Ctx& c) {
  static const std::vector<int> N = {1, 2, 15, 16, 17, 40, 127, 128, 129, 300};
  int n = c.pick(N);
  int copies = c.range(1, 3);
  Roles r;
  r.b = true;
  r.c = c.flag();
  r.loss = c.flag() ? 2 : 0;
  std::vector<Row> v;
  for (int k = 0; k < copies; ++k)
    for (int i = 0; i < n; ++i) v.push_back({"あい", "b" + std::to_string(i), r.loss ? "1" : std::to_string(i / 2), "", "e" + std::to_string(k)});
  run(c, r, v);
}
}  // namespace

int main(int argc, char** argv) {
  return mc::run(argc, argv, {
    {"pairs", s_pairs, "every sequence of up to 2 of 10 rows x roles of the fields in features, loss and templates"},
    {"orders", s_orders, "every sequence of 3 and 4 (thorough: up to 6) of 5 rows over 8 assignments of roles"},
    {"many", s_many, "1 to 1000 homographs in 1 to 4 groups, 3 orders"},
    {"wide", s_wide, "1 to 300 groups of one surface with 1 to 3 rows each"},
  });
}
