// P33: every primitive feature of every lattice node has its documented value.
// LIBS: v_mc v_core
#include "env.h"
#include <algorithm>
#include <functional>
using namespace vt;
using mc::Ctx;
using CC = chars::CharacterClass;

namespace {
struct Rng { char32_t lo, hi; u32 c; };
const Rng RNG[] = {
#include "char_classes.inc"
};
u32 code(const std::string& s) {
  unsigned char c = s[0];
  if (c < 0x80) return c;
  if (c < 0xe0) return (c & 0x1f) << 6 | (s[1] & 0x3f);
  if (c < 0xf0) return (c & 0xf) << 12 | (s[1] & 0x3f) << 6 | (s[2] & 0x3f);
  return (c & 7) << 18 | (s[1] & 0x3f) << 12 | (s[2] & 0x3f) << 6 | (s[3] & 0x3f);
}
u32 clsOf(const std::string& ch) {
  char32_t c = code(ch);
  for (auto& r : RNG)
    if (c >= r.lo && c <= r.hi) return r.c;
  return 0x100;
}

// value of a pattern feature made of the given primitive values (the hash is part of the model format)
struct H {
  u64 s = 0x16f11fe89b0d677cULL;
  H mix(u64 d) const { u64 v = (s ^ d) * 0x6eed0e9da4d94a4fULL; return {v << 32 | v >> 32}; }
};
u64 pat(u64 index, const std::vector<u64>& vals) {
  H h = H{}.mix(index).mix(1).mix(0x7a11ed00000000ULL);
  for (auto v : vals) h = h.mix(v);
  return h.s;
}

struct Row { std::string f1, f2; int n; std::string l, kv; };
struct KvIt { std::string k, v; };
std::vector<std::string> items(const std::string& s) {
  std::vector<std::string> r;
  if (s == "*" || s.empty()) return r;
  for (auto& x : splitOn(s, " ")) r.push_back(x);
  return r;
}

const std::vector<std::string> AL = {"a", "あ", "漢"};
std::string vis(const std::string& in) { return "input [" + in + "]"; }

// which column each field is stored in
const int PERM[4][5] = {{1, 2, 3, 4, 5}, {2, 1, 5, 3, 4}, {5, 4, 3, 2, 1}, {3, 7, 1, 6, 4}};

enum F { fPh, fCp1, fCp2, fCpM1, fCpM2, fT0, fT1, fTM1, fNc1, fNc2, fNb1, fNb2, fN, fF1, fF2, fM1, fM2, fMcsv, fMl, fMkv, fBr, fBrCp, fBrL, fMany };

void s_prim(Ctx& c) {
  static const std::vector<std::string> LV = {"", "p", "p q", "q p", "*", "r p s", "pp", "\"p", "q \"p r"};
  static const std::vector<std::string> KV = {"", "k", "k:v", "j k:v", "j:k", "v:k k", "*"};
  auto& perm = PERM[c.choose(4)];
  bool outF2 = c.flag();
  static const std::vector<std::string> TLV = {"", "p q", "r p s", "\"p"}, TKV = {"", "k:v", "j k:v"};
  std::string sep = c.flag() ? " " : "、";  // the separator in the dictionary
  Row tmpl{"T", "t0", 7, c.pick(c.thorough() ? LV : TLV), c.pick(c.thorough() ? KV : TKV)};
  Row w{"a", "x", 3, c.pick(LV), c.pick(KV)};
  std::vector<Row> rows = {tmpl, w, {"あ", "y", 0, "q", "j"}, {"aあ", "ああ", 2147483647, "p", "k"}, {"漢a", "t0", 5, "", ""}, {"漢", "", 2, "p", ""}, {"a", "y", 3, "p", ""}};
  int maxCol = 0;
  for (int i = 0; i < 5; ++i) maxCol = std::max(maxCol, perm[i]);
  std::string csv;
  auto joined = [](const std::string& x, const std::string& z) { std::string o; for (char ch : x) if (ch == ' ') o += z; else o += ch; return o; };
  for (auto& r : rows) {
    std::vector<std::string> f(maxCol, "p");  // filler columns hold a value which would match
    f[perm[0] - 1] = r.f1; f[perm[1] - 1] = r.f2; f[perm[2] - 1] = std::to_string(r.n); f[perm[3] - 1] = joined(r.l, sep); f[perm[4] - 1] = joined(r.kv, sep);
    csv += csvRow(f);
  }
  Model m;
  auto fe = [](const dsl::FeatureBuilder& f) { return dsl::FieldExpressionBldr{f.name(), dsl::TransformType::Value, jumanpp::EMPTY_SP, 0}; };
  Status q = m.build([&](dsl::ModelSpecBuilder& b) {
    auto& f1 = b.field(perm[0], "f1").strings().trieIndex();
    auto& f2 = b.field(perm[1], "f2").strings();
    auto& n = b.field(perm[2], "n").integers();
    auto& l = b.field(perm[3], "l").stringLists().emptyValue("*").listSeparator(sp(sep));
    auto& kv = b.field(perm[4], "kv").kvLists().emptyValue("*").listSeparator(sp(sep));
    auto& ph = b.feature("ph").placeholder();
    auto& cp1 = b.feature("cp1").codepoint(1);
    auto& cp2 = b.feature("cp2").codepoint(2);
    auto& cpm1 = b.feature("cpm1").codepoint(-1);
    auto& cpm2 = b.feature("cpm2").codepoint(-2);
    auto& t0 = b.feature("t0").codepointType(0);
    auto& t1 = b.feature("t1").codepointType(1);
    auto& tm1 = b.feature("tm1").codepointType(-1);
    auto& nc1 = b.feature("nc1").numCodepoints(f1);
    auto& nc2 = b.feature("nc2").numCodepoints(f2);
    auto& nb1 = b.feature("nb1").length(f1);
    auto& nb2 = b.feature("nb2").length(f2);
    auto& m1 = b.feature("m1").matchData(f2, "x");
    auto& m2 = b.feature("m2").matchData(f2, "t0\nああ");
    auto& mc = b.feature("mcsv").matchAnyRowOfCsv("x,a\nt0,T\nああ,あ\ny,a", {f2, f1});
    auto& ml = b.feature("ml").matchData(l, "p");
    auto& mk = b.feature("mkv").matchData(kv, "k");
    auto& br = b.feature("br").matchData(f2, "x\nt0").ifTrue({f1, n}).ifFalse({f2});
    auto& brc = b.feature("brc").matchData(l, "q").ifTrue({fe(cp1), fe(t0)}).ifFalse({fe(cp1), f1, fe(nc1)});
    auto& brl = b.feature("brl").matchAnyRowOfCsv("y", {f2}).ifTrue({fe(ph)}).ifFalse({f1, fe(ph)});
    b.unigram({ph}); b.unigram({cp1}); b.unigram({cp2}); b.unigram({cpm1}); b.unigram({cpm2}); b.unigram({t0}); b.unigram({t1}); b.unigram({tm1});
    b.unigram({nc1}); b.unigram({nc2}); b.unigram({nb1}); b.unigram({nb2}); b.unigram({n}); b.unigram({f1}); b.unigram({f2});
    b.unigram({m1}); b.unigram({m2}); b.unigram({mc}); b.unigram({ml}); b.unigram({mk}); b.unigram({br}); b.unigram({brc}); b.unigram({brl});
    auto& u = b.unk("u", 1).chunking(CC::FAMILY_ANYTHING).writeFeatureTo(ph);
    if (outF2) u.outputTo({f1, f2}); else u.outputTo({f1});
  }, sp(csv));
  c.note("columns %d%d%d%d%d sep [%s] unk writes f2 %d, template lists [%s] [%s], word lists [%s] [%s]", perm[0], perm[1], perm[2], perm[3], perm[4], sep.c_str(), outF2, tmpl.l.c_str(), tmpl.kv.c_str(), w.l.c_str(), w.kv.c_str());
  if (!q) c.fail("setup", "%s", msg(q).c_str());
  auto an = m.analyzer();
  StringField of1, of2;
  q = an->output().stringField("f1", &of1);
  if (q) q = an->output().stringField("f2", &of2);
  if (!q) c.fail("setup", "%s", msg(q).c_str());
  auto& fs = m.spec().features;
  std::vector<int> pi;
  for (auto& g : fs.ngram) pi.push_back(g.references.at(0));
  std::map<std::pair<bool, std::string>, u64> strVal;  // string -> value of the copied field
  std::map<u64, std::pair<bool, std::string>> valStr;
  std::string seen;
  std::function<void(const std::string&, int)> run = [&](const std::string& in, int d) {
    if (d) {
      ExactBuf e(in);
      q = an->latt(e.sp());
      if (!q) c.fail("status", "%s: %s", vis(in).c_str(), msg(q).c_str());
      auto ch = cps(in);
      auto* l = an->lattice();
      NodeWalker nw = an->output().nodeWalker();
      for (u32 bi = 2; bi < l->createdBoundaryCount(); ++bi) {
        auto* b = l->boundary(bi)->starts();
        bool eos = bi + 1 == l->createdBoundaryCount();
        for (u32 k = 0; k < b->numEntries(); ++k) {
          c.count();
          auto ni = b->nodeInfo().at(k);
          auto pv = b->patternFeatureData().row(k);
          auto raw = b->entryData().row(k);
          int s = ni.start(), t = ni.end();
          std::string surf;
          for (int i = s; i < t; ++i) surf += ch[i];
          Row r;
          bool unk = false;
          if (!eos) {
            unk = ni.entryPtr().isSpecial();
            if (!an->output().locate(ni.entryPtr(), &nw) || !nw.next()) c.fail("locate", "%s: node not found", vis(in).c_str());
            std::string tag = st(of2[nw]);
            if (unk) {
              r = rows[0];
              r.f1 = surf;
              if (outF2) r.f2 = surf;
            } else {
              bool ok = false;
              for (auto& x : rows) if (x.f1 == st(of1[nw]) && x.f2 == tag) { r = x; ok = true; }
              if (!ok) c.fail("row", "%s: node %s/%s is not a row", vis(in).c_str(), st(of1[nw]).c_str(), tag.c_str());
            }
            if (r.f1 != surf) c.fail("row", "%s: node %d-%d has surface %s", vis(in).c_str(), s, t, r.f1.c_str());
          }
          bool word = false;
          for (auto& x : rows) if (&x != &rows[0] && x.f1.compare(0, surf.size(), surf) == 0) word = true;
          auto cp = [&](int p) -> u64 { return p < 0 || p >= (int)ch.size() ? ~u64{0} : code(ch[p]); };
          auto ct = [&](int p) -> u64 { return p < 0 || p >= (int)ch.size() ? 0 : clsOf(ch[p]); };
          auto chk = [&](F f, const std::vector<u64>& v, const char* name) {
            if (pv.at(pi[f]) != pat(pi[f], v)) c.fail(std::string("feature ") + name + (unk ? " of unknown words" : eos ? " of EOS" : ""), "%s: node %d-%d %s%s: feature %s is not %lld", vis(in).c_str(), s, t, eos ? "EOS" : (r.f1 + "/" + r.f2).c_str(), unk ? " (unknown)" : "", name, (long long)v[0]);
          };
          u64 phv = unk && !word ? 1 : 0;
          chk(fPh, {phv}, "placeholder");
          chk(fCp1, {cp(t)}, "codepoint 1");
          chk(fCp2, {cp(t + 1)}, "codepoint 2");
          chk(fCpM1, {cp(s - 1)}, "codepoint -1");
          chk(fCpM2, {cp(s - 2)}, "codepoint -2");
          u64 all = 0;
          for (int i = s; i < t; ++i) all |= ct(i);
          chk(fT0, {all}, "codepoint_type 0");
          chk(fT1, {ct(t)}, "codepoint_type 1");
          chk(fTM1, {ct(s - 1)}, "codepoint_type -1");
          if (eos) continue;  // dictionary based features of EOS are not specified
          chk(fNc1, {(u64)(t - s)}, "num_codepoints f1");
          chk(fNc2, {cps(r.f2).size()}, "num_codepoints f2");
          chk(fNb1, {surf.size()}, "num_bytes f1");
          chk(fNb2, {r.f2.size()}, "num_bytes f2");
          chk(fN, {(u64)r.n}, "n");
          bool mm2 = r.f2 == "t0" || r.f2 == "ああ";
          bool mx = r.f2 == "x";
          // conditions are computed at dictionary build time: unknown words have those of their template
          const Row& cr = unk ? rows[0] : r;
          mx = cr.f2 == "x";
          mm2 = cr.f2 == "t0" || cr.f2 == "ああ";
          chk(fM1, {mx}, "match f2 with x");
          chk(fM2, {mm2}, "match f2 with lines");
          bool csvm = false;
          for (auto x : {"xa", "t0T", "あああ", "ya"}) csvm |= cr.f2 + cr.f1 == x;
          chk(fMcsv, {csvm}, "match [f2,f1] with csv");
          bool lp = false, lq = false, kk = false;
          for (auto& x : items(cr.l)) { lp |= x == "p"; lq |= x == "q"; }
          for (auto& x : items(cr.kv)) kk |= splitOn(x, ":")[0] == "k";
          chk(fMl, {lp}, "match list");
          chk(fMkv, {kk}, "match kv list");
          // copied strings
          u64 v1 = (u32)raw.at(m.spec().features.primitive.at(m.spec().features.pattern.at(pi[fF1]).references.at(0)).references.at(0));
          u64 v2 = (u32)raw.at(m.spec().features.primitive.at(m.spec().features.pattern.at(pi[fF2]).references.at(0)).references.at(0));
          chk(fF1, {v1}, "f1");
          chk(fF2, {v2}, "f2");
          for (int z = 0; z < 2; ++z) {
            u64 v = z ? v2 : v1;
            if (z && !outF2 && unk) v = v2;
            auto key = std::make_pair(unk && (z == 0 || outF2), (z ? "2" : "1") + (z ? r.f2 : r.f1));
            auto it = strVal.emplace(key, v).first;
            if (it->second != v) c.fail("string value", "%s: %s has two different values", vis(in).c_str(), key.second.c_str());
            auto it2 = valStr.emplace(v + (u64(z) << 40), key).first;
            if (it2->second != key) c.fail("string value", "%s: [%s] and [%s] have the same value", vis(in).c_str(), key.second.c_str(), it2->second.second.c_str());
          }
          chk(fBr, mx || cr.f2 == "t0" ? std::vector<u64>{v1, (u64)r.n} : std::vector<u64>{v2}, "match f2 then [f1 n] else [f2]");
          chk(fBrCp, lq ? std::vector<u64>{cp(t), all} : std::vector<u64>{cp(t), v1, (u64)(t - s)}, "match list then/else");
          chk(fBrL, cr.f2 == "y" ? std::vector<u64>{phv} : std::vector<u64>{v1, phv}, "match csv then/else");
          seen += std::to_string(mx) + std::to_string(mm2) + std::to_string(csvm) + std::to_string(lp) + std::to_string(lq) + std::to_string(kk) + std::to_string(unk);
        }
      }
    }
    if (d < (c.thorough() ? 4 : 3)) for (auto& a : AL) run(in + a, d + 1);
  };
  run("", 0);
  c.sig(seen);
}

// more conditions than fit into one flag field
void s_many(Ctx& c) {
  static const int CNT[] = {1, 29, 30, 31, 32, 33, 61, 62, 63, 64, 65, 70};
  int n = c.pick(CNT);
  bool list = c.flag();
  static std::vector<std::string> names, vals;
  if (names.empty()) for (int i = 0; i < 80; ++i) { names.push_back("m" + std::to_string(i)); vals.push_back("v" + std::to_string(i)); }
  std::string csv;
  std::vector<std::string> words;
  for (int i = 0; i < n; ++i) csv += csvRow({std::string(1, 'a' + i % 26) + std::string(1, 'a' + i / 26), vals[i]});
  csv += csvRow({"zz", "none"});
  Model m;
  Status q = m.build([&](dsl::ModelSpecBuilder& b) {
    auto& f1 = b.field(1, "f1").strings().trieIndex();
    auto& f2 = list ? b.field(2, "f2").stringLists() : b.field(2, "f2").strings();
    b.unigram({f1});
    for (int i = 0; i < n; ++i) b.unigram({b.feature(names[i]).matchData(f2, vals[i])});
  }, sp(csv));
  c.note("%d conditions on a %s field", n, list ? "list" : "string");
  if (!q) c.fail("setup", "%s", msg(q).c_str());
  auto an = m.analyzer();
  auto& fs = m.spec().features;
  for (int w = 0; w <= n; ++w) {
    std::string in = w == n ? "zz" : std::string(1, 'a' + w % 26) + std::string(1, 'a' + w / 26);
    q = an->latt(sp(in));
    if (!q) c.fail("status", "%s", msg(q).c_str());
    auto* b = an->lattice()->boundary(2)->starts();
    if (b->numEntries() != 1) c.fail("nodes", "%d nodes", (int)b->numEntries());
    auto pv = b->patternFeatureData().row(0);
    for (int i = 0; i < n; ++i) {
      c.count();
      int p = fs.ngram.at(i + 1).references.at(0);
      if (pv.at(p) != pat(p, {(u64)(i == w)})) c.fail("many conditions", "%d conditions: condition %d of word %d is not %d", n, i, w, i == w);
    }
  }
  c.sig((uint64_t)n * 2 + list);
}
}  // namespace

int main(int argc, char** argv) {
  return mc::run(argc, argv, {
      {"prim", s_prim, "4 column orders x 9x7 lists of the template x 9x7 lists of a word x unk outputs x every text of <=3 (4) characters over 3; 23 features of every node"},
      {"many", s_many, "1 to 70 match conditions"},
  });
}
