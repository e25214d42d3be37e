// P05..P09: the set of lattice candidates, on the real analyzer, against independent generators.
// LIBS: v_mc v_core
#include "env.h"
#include <algorithm>
#include <functional>
using namespace vt;
using mc::Ctx;
using CC = chars::CharacterClass;

namespace {
struct Rng { char32_t lo, hi; u32 c; };
const Rng RNG[] = {
#include "char_classes.inc"
};
char32_t code(const std::string& s) {
  unsigned char c = s[0];
  if (c < 0x80) return c;
  if (c < 0xe0) return (c & 0x1f) << 6 | (s[1] & 0x3f);
  if (c < 0xf0) return (c & 0xf) << 12 | (s[1] & 0x3f) << 6 | (s[2] & 0x3f);
  return (c & 7) << 18 | (s[1] & 0x3f) << 12 | (s[2] & 0x3f) << 6 | (s[3] & 0x3f);
}
u32 clsOf(const std::string& ch) {
  static std::map<std::string, u32> cache;
  auto it = cache.find(ch);
  if (it != cache.end()) return it->second;
  char32_t c = code(ch);
  for (auto& r : RNG)
    if (c >= r.lo && c <= r.hi) return cache[ch] = r.c;
  return cache[ch] = 0x100;
}
u32 U(CC c) { return (u32)c; }

enum Kind { kChunk, kSingle, kNum, kOno, kNorm };
struct Rule { Kind k; CC c; bool low; };
struct Word { std::string surf, tag; };

struct Cand {
  int s, e;
  bool unk;
  std::vector<std::string> items;  // "surface/tag" of every merged row
  int ph;                          // placeholder value of unknown words
  bool operator<(const Cand& o) const { return std::tie(s, e, unk, items, ph) < std::tie(o.s, o.e, o.unk, o.items, o.ph); }
  bool operator==(const Cand& o) const { return std::tie(s, e, unk, items, ph) == std::tie(o.s, o.e, o.unk, o.items, o.ph); }
  std::string show() const { return std::to_string(s) + "-" + std::to_string(e) + (unk ? "U" : "D") + "[" + join(items, "|") + "]" + (unk ? std::to_string(ph) : ""); }
};
std::string show(std::vector<Cand> v) {
  std::string r;
  for (auto& c : v) r += c.show() + " ";
  return r;
}

struct Env {
  Model m;
  std::unique_ptr<An> an;
  StringField f1, f2;
  std::vector<Word> words;
  std::vector<Rule> rules;
  std::map<std::string, std::vector<std::string>> bySurf;  // surface -> distinct tags in order
  std::map<std::pair<std::string, std::string>, int> mult;

  Env(Ctx& c, std::vector<Word> w, const std::vector<Rule>& r, i32 maxInput = 4096) : rules(r) {
    if (w.empty()) w = {{"㍿", "zz"}};  // an index without any word does not exist in practice
    words = w;
    std::string csv;
    for (size_t i = 0; i < rules.size(); ++i) csv += "T" + std::to_string(i) + ",t" + std::to_string(i) + "\n";
    for (auto& x : w) {
      csv += csvRow({x.surf, x.tag});
      auto& v = bySurf[x.surf];
      if (!mult[{x.surf, x.tag}]++) v.push_back(x.tag);
    }
    Status q = m.build([&](dsl::ModelSpecBuilder& b) {
      auto& a = b.field(1, "f1").strings().trieIndex();
      auto& t = b.field(2, "f2").strings();
      auto& ph = b.feature("ph").placeholder();
      b.unigram({a, t});
      b.unigram({ph});
      for (size_t i = 0; i < rules.size(); ++i) {
        static const StringPiece NAMES[] = {"u0", "u1", "u2", "u3"};
        auto& u = b.unk(NAMES[i], (i32)i + 1);
        switch (rules[i].k) {
          case kChunk: u.chunking(rules[i].c); break;
          case kSingle: u.single(rules[i].c); break;
          case kNum: u.numeric(rules[i].c); break;
          case kOno: u.onomatopoeia(rules[i].c); break;
          case kNorm: u.normalize(); break;
        }
        u.outputTo({a}).writeFeatureTo(ph);
        if (rules[i].low) u.lowPriority();
      }
    }, sp(csv));
    if (!q) c.fail("setup", "%s", msg(q).c_str());
    auto cfg = acfg();
    cfg.maxInputBytes = maxInput;
    an = m.analyzer(1, cfg);
    q = an->output().stringField("f1", &f1);
    if (q) q = an->output().stringField("f2", &f2);
    if (!q) c.fail("setup", "%s", msg(q).c_str());
  }

  bool isWord(const std::string& s) const { return bySurf.count(s) != 0; }
  bool isPrefix(const std::string& s) const {
    auto it = bySurf.lower_bound(s);
    return it != bySurf.end() && it->first.compare(0, s.size(), s) == 0;
  }

  // candidates of the real analyzer
  bool get(Ctx& c, const std::string& in, std::vector<Cand>* out) {
    ExactBuf e(in);
    Status q = an->seeds(e.sp());
    out->clear();
    auto& om = an->output();
    NodeWalker w = om.nodeWalker();
    for (auto& s : an->lb().seeds()) {
      Cand x{s.codepointStart, s.codepointEnd, s.entryPtr.isSpecial(), {}, 0};
      if (!om.locate(s.entryPtr, &w)) c.fail("locate", "candidate cannot be located");
      for (int n = 0; w.next(); ++n) {
        if (n > 100) c.fail("endless", "candidate has endless items");
        x.items.push_back(st(f1[w]) + "/" + st(f2[w]));
      }
      if (x.unk) x.ph = om.valueOfUnkPlaceholder(s.entryPtr, 0);
      out->push_back(x);
    }
    std::sort(out->begin(), out->end());
    return q.isOk();
  }
};

std::vector<Cand> dicCands(const Env& e, const std::vector<std::string>& ch) {
  std::vector<Cand> r;
  for (size_t i = 0; i < ch.size(); ++i) {
    std::string s;
    for (size_t j = i; j < ch.size(); ++j) {
      s += ch[j];
      auto it = e.bySurf.find(s);
      if (it == e.bySurf.end()) continue;
      for (auto& t : it->second) {
        Cand x{(int)i, (int)j + 1, false, {}, 0};
        x.items.assign(e.mult.at({s, t}), s + "/" + t);
        r.push_back(x);
      }
    }
  }
  return r;
}

std::string cat(const std::vector<std::string>& ch, size_t i, size_t j) {
  std::string s;
  for (; i < j; ++i) s += ch[i];
  return s;
}

size_t longestNumber(const std::vector<std::string>& ch, size_t start) {
  const u32 num = U(CC::FIGURE) | U(CC::KANJI_FIGURE) | U(CC::FIGURE_DIGIT);
  const u32 beforeUnit = U(CC::FIGURE) | U(CC::KANJI_FIGURE) | U(CC::FIGURE_EXCEPTION);
  auto is = [&](size_t p, u32 m) { return p < ch.size() && (clsOf(ch[p]) & m); };
  auto word = [&](size_t p, const std::string& w) {
    size_t n = cps(w).size();
    return p + n <= ch.size() && cat(ch, p, p + n) == w ? n : 0;
  };
  auto unit = [&](size_t p) -> size_t {
    if (p == start || !is(p - 1, beforeUnit)) return 0;
    for (auto w : {"キロ", "メガ", "ギガ", "テラ", "ミリ"})
      if (size_t n = word(p, w)) return n;
    return 0;
  };
  size_t p = start;
  while (p < ch.size()) {
    if (is(p, num)) { ++p; continue; }
    size_t n = 0;
    if (is(p, U(CC::FIGURE_EXCEPTION))) {  // 数十, 数キロ
      size_t u = unit(p + 1);
      if (u) n = 1 + u;
      else if (is(p + 1, U(CC::FIGURE_DIGIT))) n = 1;
    }
    if (!n && p > start && is(p - 1, num))
      for (auto w : {"ぶんの", "分の"}) {
        size_t k = word(p, w);
        if (k && is(p + k, num)) n = k;
      }
    if (!n) n = unit(p);
    if (!n && p > start && is(p, U(CC::COMMA))) {
      size_t k = 0;
      while (is(p + 1 + k, U(CC::FIGURE))) ++k;
      if (k == 3) n = 1;
    }
    if (!n && p > start && is(p, U(CC::PERIOD) | U(CC::MIDDLE_DOT)) && is(p - 1, num) && is(p + 1, num)) n = 1;
    if (!n) break;
    p += n;
  }
  return p - start;
}

// unknown word candidates which must exist; `opt` ones may
void unkCands(const Env& e, const std::vector<std::string>& ch, const Rule& r, int ri, std::vector<Cand>* must, std::vector<Cand>* opt) {
  std::string tag = "t" + std::to_string(ri);
  int n = (int)ch.size();
  auto put = [&](std::vector<Cand>* to, int i, int j) {
    std::string s = cat(ch, i, j);
    to->push_back({i, j, true, {s + "/" + tag}, e.isPrefix(s) ? 0 : 1});
  };
  u32 rc = U(r.c);
  switch (r.k) {
    case kChunk:
      for (int i = 0; i < n; ++i)
        for (int j = i; j < n && (clsOf(ch[j]) & rc); ++j)
          if (!e.isWord(cat(ch, i, j + 1))) put(must, i, j + 1);
      break;
    case kSingle:
      for (int i = 0; i < n; ++i)
        if ((clsOf(ch[i]) & rc) && !e.isWord(ch[i])) put(must, i, i + 1);
      break;
    case kNum:
      for (int i = 0; i < n; ++i) {
        int l = (int)longestNumber(ch, i);
        if (!l) continue;
        std::string s = cat(ch, i, i + l);
        auto it = e.bySurf.find(s);
        if (it != e.bySurf.end() && std::find(it->second.begin(), it->second.end(), tag) != it->second.end()) continue;
        put(must, i, i + l);
      }
      break;
    case kOno:
      for (int i = 0; i < n; ++i)
        for (int h = 2; h <= 4; ++h) {
          if (i + 2 * h > n || cat(ch, i, i + h) != cat(ch, i + h, i + 2 * h)) continue;
          if (e.isWord(cat(ch, i, i + 2 * h))) continue;
          if (!(clsOf(ch[i]) & rc)) continue;
          bool all = true, first = true;
          for (int k = 0; k < h; ++k) {
            if (!(clsOf(ch[i + k]) & rc)) all = false;
            if (!(clsOf(ch[i + k]) & clsOf(ch[i]))) first = false;
          }
          if (!first) continue;
          put(all ? must : opt, i, i + 2 * h);
        }
      break;
    case kNorm: break;
  }
}

bool connected(const std::vector<Cand>& v, int n) {
  std::vector<char> ok(n + 1, 0);
  ok[0] = 1;
  for (int i = 0; i <= n; ++i)
    if (ok[i]) for (auto& c : v) if (c.s == i) ok[c.e] = 1;
  return ok[n];
}

std::string vis(const std::string& in) { return "input [" + in + "]"; }

// one input against the model (no normalization rule)
void one(Ctx& c, Env& e, const std::string& in) {
  std::vector<Cand> got, want, opt;
  bool ok = e.get(c, in, &got);
  auto ch = cps(in);
  want = dicCands(e, ch);
  for (size_t i = 0; i < e.rules.size(); ++i)
    if (!e.rules[i].low) unkCands(e, ch, e.rules[i], (int)i, &want, &opt);
  auto all = want;
  all.insert(all.end(), opt.begin(), opt.end());
  bool con = connected(want, (int)ch.size());
  if (con != connected(all, (int)ch.size())) return;  // depends on unspecified candidates
  if (!con) {
    for (size_t i = 0; i < e.rules.size(); ++i)
      if (e.rules[i].low) unkCands(e, ch, e.rules[i], (int)i, &want, &opt);
    con = connected(want, (int)ch.size());
    all = want;
    all.insert(all.end(), opt.begin(), opt.end());
    if (con != connected(all, (int)ch.size())) return;
  }
  c.count();
  for (auto& o : opt) {
    auto it = std::find(got.begin(), got.end(), o);
    if (it != got.end()) got.erase(it);
  }
  std::sort(want.begin(), want.end());
  if (got != want) c.fail("candidates", "%s: candidates %s instead of %s", vis(in).c_str(), show(got).c_str(), show(want).c_str());
  if (ok != con) c.fail("status", "%s: analyzer says %s, but the candidates %s the input", vis(in).c_str(), ok ? "ok" : "not ok", con ? "cover" : "do not cover");
  c.sig(show(got));
}

template <typename F>
void allStrings(const std::vector<std::string>& al, int maxLen, F f) {
  std::function<void(const std::string&, int)> rec = [&](const std::string& s, int d) {
    if (d) f(s);
    if (d < maxLen) for (auto& a : al) rec(s + a, d + 1);
  };
  rec("", 0);
}

std::vector<Word> subset(Ctx& c, const std::vector<Word>& pool, int maxN) {
  std::vector<Word> r;
  int n = c.range(0, maxN), lo = 0;
  for (int i = 0; i < n; ++i) {
    if (lo >= (int)pool.size()) c.discard();
    int x = c.range(lo, (int)pool.size() - 1);
    r.push_back(pool[x]);
    lo = x + 1;
  }
  return r;
}
std::string descr(const std::vector<Word>& w) {
  std::string r;
  for (auto& x : w) r += x.surf + "/" + x.tag + " ";
  return r;
}

// two characters of each class
const std::vector<std::string> reps = {" ", "　", "、", "。", "漢", "々", "1", "９", "．", "・", "·", ",", "，", "a", "Ж", "!", "★", "ア", "ヷ", "ッ", "あ", "ん", "っ", "一", "〇", "/", "／", ":", "：",
                                              "㍻", "ー", "〜", "ｱ", "ｰ", "(", "「", "数", "何", "十", "億", "ぁ", "ァ", "😀", "\xe2\x80\x8b", "é"};

// ---- P05
// words of characters of every class
void s_dic_classes(Ctx& c) {
  int first = c.choose((int)reps.size()), par = c.choose(c.thorough() ? 3 : 2), n = (int)reps.size();
  std::vector<Word> w;
  for (int i = 0; i < n; ++i) {
    if ((i + par) % 2) w.push_back({reps[i], "x"});
    for (int j = 0; j < n; ++j) {
      if ((i + j + par) % 3 == 0) w.push_back({reps[i] + reps[j], "x"});
      if (i == first && (i * j + par) % 2) w.push_back({reps[i] + reps[j] + reps[(j * 7 + par) % n], "y"});
    }
  }
  Env e(c, w, {{kSingle, CC::FAMILY_ANYTHING, true}});
  c.note("first character %s, dictionary %d", reps[first].c_str(), par);
  one(c, e, reps[first]);
  for (auto& x : reps) {
    one(c, e, reps[first] + x);
    for (int y = c.thorough() ? 0 : par; y < n; y += c.thorough() ? 1 : 3) one(c, e, reps[first] + x + reps[y]);
  }
}
void s_dic(Ctx& c) {
  static const std::vector<Word> pool = {
      {"a", "x"}, {"あ", "x"}, {"い", "x"}, {"😀", "x"}, {"aa", "x"}, {"aあ", "x"}, {"あa", "x"}, {"ああ", "x"}, {"あい", "x"},
      {"いあ", "x"}, {"😀あ", "x"}, {"a😀", "x"}, {"ああい", "x"}, {"あいa", "x"}, {"aaa", "x"}, {"いああa", "x"}, {"あ", "y"}, {"あ", "x"}, {"ああ", "y"}, {"\xc3\xa9", "x"}};
  static const std::vector<std::string> al = {"a", "あ", "い", "😀"};
  auto w = subset(c, pool, c.thorough() ? 4 : 3);
  int ruleSet = c.choose(2);
  std::vector<Rule> rs;
  if (ruleSet) rs.push_back({kSingle, CC::FAMILY_ANYTHING, true});
  Env e(c, w, rs);
  c.note("dictionary %s", descr(w).c_str());
  allStrings(al, c.thorough() ? 5 : 4, [&](const std::string& in) { one(c, e, in); });
}

// long inputs, up to the configured limit
void s_dic_long(Ctx& c) {
  static const std::vector<std::string> unit = {"a", "あ", "aあ", "あい", "😀", "ああい", "aaab"};
  auto u = c.pick(unit);
  int reps = c.range(0, 4);
  static const int R[] = {1, 17, 255, 256, 700};
  Env e(c, {{"a", "x"}, {"あ", "x"}, {"ああ", "x"}, {"いああ", "x"}, {u, "z"}, {u + u + u, "z"}}, {{kSingle, CC::FAMILY_ANYTHING, true}, {kNum, CC::FAMILY_DIGITS, false}}, 100000);
  std::string in;
  for (int i = 0; i < R[reps]; ++i) in += u;
  c.note("%d x [%s]", R[reps], u.c_str());
  one(c, e, in);
  one(c, e, in + "b");
}

// ---- P06
void s_class(Ctx& c) {
  static const std::vector<std::string> al = {"ア", "あ", "ー", "漢", "一"};
  static const std::vector<Word> pool = {{"ア", "x"}, {"アー", "x"}, {"アアー", "x"}, {"あ", "x"}, {"漢", "x"}, {"ー", "x"}, {"漢一", "x"}, {"一漢一", "x"}, {"アああ", "x"}, {"アー", "t0"}};
  static const CC cl[] = {CC::KATAKANA, CC::FAMILY_KANA, CC::KANJI, CC::FAMILY_KANJI, CC::KANJI_FIGURE, CC::CHOON, CC::FAMILY_ANYTHING, CC::KANJI | CC::HIRAGANA};
  auto w = subset(c, pool, 2);
  Rule r1{c.flag() ? kChunk : kSingle, c.pick(cl), false};
  std::vector<Rule> rs = {r1};
  int more = c.choose(4);
  if (more == 1) rs.push_back({kChunk, CC::KATAKANA, false});
  if (more == 2) rs.push_back({kSingle, CC::FAMILY_ANYTHING, true});
  if (more == 3) { rs[0].low = true; rs.push_back({kChunk, CC::FAMILY_KANA, true}); }
  Env e(c, w, rs);
  c.note("dictionary %s rules %d/%x more %d", descr(w).c_str(), r1.k, U(r1.c), more);
  allStrings(al, c.thorough() ? 5 : 4, [&](const std::string& in) { one(c, e, in); });
}

// every character class against every rule class: 2 representatives per class
void s_class_all(Ctx& c) {
  int bit = c.choose(22);
  CC cl = bit < 21 ? (CC)(1u << bit) : CC::FAMILY_PUNC_SYMBOL;
  bool chunk = c.flag();
  Env e(c, {{"漢", "x"}}, {{chunk ? kChunk : kSingle, cl, false}, {kSingle, CC::FAMILY_ANYTHING, true}});
  for (auto& a : reps) {
    one(c, e, a);
    for (auto& b : reps) {
      one(c, e, a + b);
      one(c, e, a + b + a);
    }
  }
}

// every pair of rules of all kinds, on texts which other kinds would react to
void s_kinds(Ctx& c) {
  static const Rule rs[] = {{kChunk, CC::HIRAGANA, false}, {kSingle, CC::FAMILY_ANYTHING, false}, {kNum, CC::FAMILY_DIGITS, false}, {kOno, CC::FAMILY_KANA, false}, {kChunk, CC::FAMILY_ANYTHING, false},
                            {kOno, CC::KATAKANA, false}, {kSingle, CC::HIRAGANA, false}};
  static const std::vector<std::string> al = {"い", "ー", "1", "ア"};
  static const std::vector<std::vector<Word>> dics = {{{"いい", "x"}, {"い1", "x"}, {"ア", "x"}}, {{"い", "x"}, {"1", "x"}, {"いいい", "x"}, {"アア", "x"}, {"アい1", "x"}, {"1い", "x"}}};
  std::vector<Rule> r;
  int n = c.range(1, 2);
  for (int i = 0; i < n; ++i) {
    r.push_back(rs[c.choose(7)]);
    r.back().low = c.flag();
  }
  if (c.flag()) r.push_back({kSingle, CC::FAMILY_ANYTHING, true});
  Env e(c, dics[c.choose(2)], r);
  std::string d;
  for (auto& x : r) d += std::to_string((int)x.k) + (x.low ? "low " : " ");
  c.note("rules %s, words %s", d.c_str(), descr(e.words).c_str());
  allStrings(al, c.thorough() ? 5 : 4, [&](const std::string& s) { one(c, e, s); });
}
// ---- P07
const std::vector<std::string> NUMTOK = {"1", "２", "一", "十", "数", "，", "．", "・", "キロ", "分の", "ぶんの", "あ", "何", "ミ", ",", "リ"};
void s_numeric(Ctx& c) {
  static const std::vector<std::vector<Word>> dics = {{}, {{"十", "t0"}, {"２２", "x"}, {"1", "y"}, {"数十", "t0"}, {"1キロあ", "x"}, {"２．1", "t0"}, {"１", "x"}, {"１", "t0"}}};
  int d = c.choose(2);
  int depth = c.thorough() ? 5 : 4;
  std::string pre;  // the first two tokens are choices, the rest is enumerated inside
  for (int i = 0; i < 2; ++i) pre += c.pick(NUMTOK);
  Env e(c, dics[d], {{kNum, CC::FAMILY_DIGITS, false}, {kSingle, CC::FAMILY_ANYTHING, true}});
  c.note("prefix %s dictionary %d", pre.c_str(), d);
  one(c, e, pre);
  allStrings(NUMTOK, depth - 2, [&](const std::string& s) { one(c, e, pre + s); });
}

// digit groups with commas and points: longer strings over fewer symbols
void s_numeric_long(Ctx& c) {
  static const std::vector<std::vector<std::string>> als = {{"1", "，"}, {"1", "．"}, {"1", "，", "．"}, {"1", "十", "，"}, {"数", "十", "ミリ"}, {"1", "分の", "数", "十"}};
  auto& al = als[c.choose((int)als.size())];
  int depth = (al.size() == 2 ? 12 : al.size() == 3 ? 8 : 6) + (c.thorough() ? 2 : 0);
  std::string pre;
  for (int i = 0; i < 3; ++i) pre += al[c.choose((int)al.size())];
  Env e(c, {}, {{kNum, CC::FAMILY_DIGITS, false}, {kSingle, CC::FAMILY_ANYTHING, true}});
  c.note("prefix %s", pre.c_str());
  allStrings(al, depth - 3, [&](const std::string& s) { one(c, e, pre + s); });
}

// numbers about as long as the longest recognized one: no dangling part at the cut
void s_numeric_limit(Ctx& c) {
  static const std::vector<std::string> mid = {"", "．", "，", "分の", "ぶんの", "数", "キロ", "何"};
  int before = c.range(58, 70);
  auto m = c.pick(mid);
  std::string tail = c.flag() ? "1" : "十";
  int after = c.range(0, 4);
  std::string in;
  for (int i = 0; i < before; ++i) in += "1";
  in += m;
  for (int i = 0; i < after; ++i) in += tail;
  Env e(c, {}, {{kNum, CC::FAMILY_DIGITS, false}, {kSingle, CC::FAMILY_ANYTHING, true}});
  c.note("%d digits, %s, %d x %s", before, m.c_str(), after, tail.c_str());
  std::vector<Cand> got;
  e.get(c, in, &got);
  auto ch = cps(in);
  c.count();
  for (auto& x : got) {
    if (!x.unk || x.items[0].find("/t0") == std::string::npos) continue;
    int full = (int)longestNumber(ch, x.s);
    int len = x.e - x.s;
    if (len > full) c.fail("limit", "[%s] proposed, longest number has %d characters", x.items[0].c_str(), full);
    if (len == full) continue;
    // where exactly a too long number is cut is not specified, but never long before the limit and never right after an inner part
    if (len < 60) c.fail("limit", "[%s] proposed instead of the number of %d characters", x.items[0].c_str(), full);
    for (auto w : {"．", "，", "分の", "ぶんの", "数", "何"}) {
      size_t n = cps(w).size();
      if ((size_t)len >= n && cat(ch, x.e - n, x.e) == w) c.fail("dangling", "[%s] is proposed as a number", x.items[0].c_str());
    }
  }
  c.sig(show(got));
}

// ---- P08
void s_onomat(Ctx& c) {
  static const std::vector<std::vector<std::string>> als = {{"い", "う", "ア"}, {"い", "ー", "ア"}, {"ｱ", "ﾞ", "い"}, {"い", "う", "え"}, {"漢", "い", "ぁ"}, {"ア", "ッ", "ー"}, {"ー", "漢", "ア"}};
  static const CC cl[] = {CC::FAMILY_KANA, CC::HIRAGANA, CC::KATAKANA | CC::HIRAGANA, CC::FAMILY_KANJI};
  auto& al = als[c.choose((int)als.size())];
  auto k = c.pick(cl);
  int d = c.choose(4);
  auto &A = al[0], &B = al[1], &C = al[2];
  std::vector<Word> w;
  if (d == 1) w = {{A + B, "x"}, {A + A + B, "x"}, {A + B + B, "x"}};
  if (d == 2) w = {{A + B + A + B, "x"}, {B + B, "x"}, {A + C + A, "x"}};
  if (d == 3) w = {{A, "x"}, {A + B + A, "x"}, {A + B + C + A + B + C + A, "x"}, {C + C + C + C + C, "x"}, {B + A + A, "x"}};
  int depth = c.thorough() ? 9 : 8;
  std::string pre;
  for (int i = 0; i < 2; ++i) pre += al[c.choose(3)];
  Env e(c, w, {{kOno, k, false}, {kSingle, CC::FAMILY_ANYTHING, true}});
  c.note("alphabet %d class %x dictionary %d prefix %s", (int)(&al - &als[0]), U(k), d, pre.c_str());
  one(c, e, pre);
  allStrings(al, depth - 2, [&](const std::string& s) { one(c, e, pre + s); });
}

// four distinct characters
void s_onomat4(Ctx& c) {
  static const std::vector<std::string> al = {"い", "う", "え", "お"};
  std::string half = c.str(al, 2, 4);
  static const std::vector<std::string> ctx = {"", "い", "漢", "おう", "ア"};
  auto pre = c.pick(ctx), post = c.pick(ctx);
  int d = c.choose(5);
  auto h = cps(half);
  std::vector<Word> w;
  if (d == 1) w = {{half + half, "x"}};
  if (d == 2) w = {{h[0], "x"}, {h[0] + h[0], "x"}, {h[0] + h.back(), "x"}};
  if (d == 3) w = {{half + half + h[0], "x"}};
  if (d == 4) w = {{half + h[0], "x"}, {half + half + "漢", "x"}};
  Env e(c, w, {{kOno, CC::FAMILY_KANA, false}, {kSingle, CC::FAMILY_ANYTHING, true}});
  std::string in = pre + half + half + post;
  c.note("%s dictionary %d", in.c_str(), d);
  one(c, e, in);
}

// ---- P09
struct NormOp { bool del; std::string rep; u32 fl; };
enum : u32 { ORI = 1, SMALL = 2, REP = 4, DEL = 8, PROL = 0x10, LAST = 0x20, DPROL = 0x40, DHATSU = 0x80, DSMALL = 0x100, EROW = 0x200 };
#include "norm_tables.inc"

std::vector<std::vector<NormOp>> normOps(const std::vector<std::string>& ch) {
  const u32 dbl = U(CC::KATAKANA) | U(CC::HIRAGANA) | U(CC::HANKAKU_KANA) | U(CC::SMALL_KANA) | U(CC::KANJI) | U(CC::CHOON);
  const u32 kana = U(CC::HIRAGANA) | U(CC::KATAKANA);
  const u32 stop = U(CC::SPACE) | U(CC::IDEOGRAPHIC_PUNC) | U(CC::FIGURE) | U(CC::PERIOD) | U(CC::MIDDLE_DOT) | U(CC::ALPH) | U(CC::SYMBOL) | U(CC::BRACKET) | U(CC::SLASH) | U(CC::COLON) | U(CC::COMMA);
  std::vector<std::vector<NormOp>> r(ch.size());
  bool prevDel = false;
  for (size_t p = 0; p < ch.size(); ++p) {
    bool del = false;
    u32 k = clsOf(ch[p]);
    if (p > 0 && (k & dbl)) {
      auto& prev = ch[p - 1];
      u32 pk = clsOf(prev);
      bool choon = k & U(CC::CHOON);
      auto a = PROLONG.find(prev);
      auto b = PROLONG_E.find(prev);
      if (choon && a != PROLONG.end()) {
        r[p].push_back({false, a->second, REP | PROL});
        if (b != PROLONG_E.end()) r[p].push_back({false, b->second, REP | PROL | EROW});
      } else if (!choon || a == PROLONG.end()) {
        auto s = SMALL2BIG.find(ch[p]);
        if (s != SMALL2BIG.end()) r[p].push_back({false, s->second, REP | SMALL});
      }
      u32 fl = 0;
      if (choon && (prevDel || (pk & (U(CC::KANJI) | kana)))) fl = DEL | DPROL;
      else if (ch[p] == "っ" || ch[p] == "ッ") {
        bool last = p + 1 == ch.size();
        if (prevDel || last || (clsOf(ch[p + 1]) & stop) || ch[p + 1] == ch[p] || (clsOf(ch[p + 1]) & pk & k & kana)) fl = DEL | DHATSU;
      }
      if (!fl) {
        auto s = SMALL_AFTER.find(prev);
        static const std::set<std::string> low = {"ぁ", "ぃ", "ぅ", "ぇ", "ぉ"};
        if ((s != SMALL_AFTER.end() && s->second == ch[p]) || (prevDel && low.count(ch[p]) && prev == ch[p])) fl = DEL | DSMALL;
      }
      if (fl) { r[p].push_back({true, "", fl}); del = true; }
    }
    prevDel = del;
  }
  return r;
}

void oneNorm(Ctx& c, Env& e, const std::string& in, int normIdx) {
  auto ch = cps(in);
  auto ops = normOps(ch);
  // (start, end, surface, tag) -> possible flags
  std::map<std::tuple<int, int, std::string, std::string>, std::set<u32>> want;
  for (size_t s = 0; s < ch.size(); ++s) {
    std::function<void(size_t, const std::string&, u32)> rec = [&](size_t p, const std::string& t, u32 fl) {
      if (p >= ch.size()) return;
      auto step = [&](const std::string& t2, u32 f2, bool del) {
        if (!e.isPrefix(t2)) return;
        auto it = e.bySurf.find(t2);
        if (it != e.bySurf.end() && f2 != ORI)
          for (auto& tag : it->second) want[std::make_tuple((int)s, (int)p + 1, t2, tag)].insert(f2 | (del ? (u32)LAST : 0u));
        rec(p + 1, t2, f2);
      };
      step(t + ch[p], fl, false);
      for (auto& o : ops[p]) step(o.del ? t : t + o.rep, fl | o.fl, o.del);
    };
    if (!e.isPrefix(ch[s])) continue;
    rec(s + 1, ch[s], ORI);
  }
  std::vector<Cand> got;
  e.get(c, in, &got);
  c.count();
  // dictionary words and the other rule first
  std::vector<Cand> rest = dicCands(e, ch), norm;
  // normalized candidates show the text as surface and keep the tag of the entry
  std::multiset<std::tuple<int, int, std::string>> wantN, gotN;
  std::map<std::tuple<int, int, std::string>, std::set<u32>> flags;
  for (auto& w : want) {
    auto k = std::make_tuple(std::get<0>(w.first), std::get<1>(w.first), std::get<3>(w.first));
    int m = e.mult.at({std::get<2>(w.first), std::get<3>(w.first)});
    for (int i = 0; i < m; ++i) wantN.insert(k);
    flags[k].insert(w.second.begin(), w.second.end());
  }
  std::vector<Cand> dg;
  for (auto& x : got) {
    if (!x.unk) { dg.push_back(x); continue; }
    for (auto& it : x.items) {
      auto p = it.rfind('/');
      std::string tag = it.substr(p + 1);
      if (tag[0] == 't') continue;  // catch-all rule
      auto k = std::make_tuple(x.s, x.e, tag);
      gotN.insert(k);
      if (it.substr(0, p) != cat(ch, x.s, x.e)) c.fail("surface", "%s: candidate shows surface %s for %d-%d", vis(in).c_str(), it.c_str(), x.s, x.e);
      auto fl = flags.find(k);
      if (fl != flags.end() && !fl->second.count((u32)x.ph)) c.fail("flags", "%s: candidate %s has operations %x, possible ones %x...", vis(in).c_str(), x.show().c_str(), x.ph, *fl->second.begin());
    }
  }
  std::sort(rest.begin(), rest.end());
  if (dg != rest) c.fail("candidates", "%s: dictionary candidates %s instead of %s", vis(in).c_str(), show(dg).c_str(), show(rest).c_str());
  if (gotN != wantN) {
    std::string g, w;
    for (auto& x : gotN) g += std::to_string(std::get<0>(x)) + "-" + std::to_string(std::get<1>(x)) + std::get<2>(x) + " ";
    for (auto& x : wantN) w += std::to_string(std::get<0>(x)) + "-" + std::to_string(std::get<1>(x)) + std::get<2>(x) + " ";
    c.fail("normalized", "%s: normalized candidates %s instead of %s", vis(in).c_str(), g.c_str(), w.c_str());
  }
  c.sig(show(got));
}

void s_norm(Ctx& c) {
  static const std::vector<std::vector<std::string>> als = {
      {"か", "あ", "ー", "ぁ", "っ"}, {"え", "い", "ー", "ぇ", "〜"}, {"漢", "ー", "っ", "。", "ッ"}, {"け", "ー", "ぇ", "え", "ケ"}, {"ア", "ー", "ッ", "ァ", "ヶ"}, {"よ", "ぅ", "ぉ", "ー", "ょ"}};
  int ai = c.choose((int)als.size());
  auto& al = als[ai];
  std::vector<Word> pool;
  // words over the alphabet plus the letters the rules produce
  std::vector<std::string> let = {al[0], "あ", "い", "え", "う"};
  for (auto& x : al) if (std::find(let.begin(), let.end(), x) == let.end()) let.push_back(x);
  pool.push_back({al[0], "x"});
  for (auto& x : let) pool.push_back({al[0] + x, "x"});
  pool.push_back({al[0] + "い" + al[0], "x"});
  pool.push_back({al[0] + al[0], "y"});
  pool.push_back({al[0] + "あ" + al[0], "x"});
  pool.push_back({al[0], "y"});
  pool.push_back({al[0], "x"});
  auto w = subset(c, pool, 2);
  for (size_t i = 0; i < w.size(); ++i) w[i].tag += std::to_string(i);
  if (w.size() == 2 && w[0].surf == w[1].surf) w[1].tag = w[0].tag;  // equal rows
  Env e(c, w, {{kNorm, CC::FAMILY_OTHERS, false}, {kSingle, CC::FAMILY_ANYTHING, true}});
  c.note("alphabet %d dictionary %s", ai, descr(w).c_str());
  allStrings(al, w.size() < 2 ? (c.thorough() ? 6 : 5) : (c.thorough() ? 5 : 4), [&](const std::string& in) { oneNorm(c, e, in, 0); });
}

// every character pair of the replacement tables and every neighbour class
void s_norm_tables(Ctx& c) {
  static const std::vector<std::string> hira = [] {
    std::vector<std::string> r;
    for (char32_t x = 0x3041; x <= 0x3096; ++x) r.push_back({(char)(0xe0 | x >> 12), (char)(0x80 | (x >> 6 & 0x3f)), (char)(0x80 | (x & 0x3f))});
    for (auto s : {"ア", "ケ", "ヶ", "ッ", "漢", "ー", "〜", "～", "a", "1", "。", "ｱ", "々"}) r.push_back(s);
    return r;
  }();
  auto first = c.pick(hira);
  static const std::vector<std::string> nx = {"ー", "〜", "～", "∼", "ｰ", "っ", "ッ", "ぁ", "ぃ", "ぅ", "ぇ", "ぉ", "ゎ", "ヶ", "ケ", "ゃ", "ァ"};
  std::vector<Word> w = {{first, "x"}};
  for (auto v : {"あ", "い", "う", "え", "お", "わ", "ケ", "ヶ"}) w.push_back({first + v, std::string("v") + v});
  Env e(c, w, {{kNorm, CC::FAMILY_OTHERS, false}, {kSingle, CC::FAMILY_ANYTHING, true}});
  c.note("first %s", first.c_str());
  static const std::vector<std::string> third = {"", "ー", "っ", "ぁ", "ぇ", "か", "ア", "漢", "a", "1", "。", " ", "「", "・", "/", ":", ",", "．"};
  for (auto& x : nx)
    for (auto& y : third) {
      oneNorm(c, e, first + x + y, 0);
      oneNorm(c, e, first + x + x + y, 0);
    }
}
}  // namespace

int main(int argc, char** argv) {
  std::string prop = getenv("VERIF_PROP") ? getenv("VERIF_PROP") : "";
  std::vector<mc::Scenario> v;
  auto add = [&](const char* p, mc::Scenario s) { if (prop.empty() || prop == p) v.push_back(s); };
  add("P05", {"dic", s_dic, "every dictionary of <=3 (4) of 20 words x every input of <=4 (5) characters over 4 (1-, 3- and 4-byte ones)"});
  add("P05", {"dic_classes", s_dic_classes, "every text of <=3 characters over 45 (of every class; quick: every third character at the end) x 2 (3) dictionaries of 800 words over the same characters"});
  add("P05", {"dic_long", s_dic_long, "periodic inputs up to 2800 characters"});
  add("P06", {"class", s_class, "8 classes x chunking/single x 4 rule combinations x every dictionary of <=2 of 10 words x every input of <=4 (5) characters over 5"});
  add("P06", {"class_all", s_class_all, "every character class x rule kind x every text c1, c1c2, c1c2c1 over 45 representatives"});
  add("P06", {"kinds", s_kinds, "every sequence of 1-2 of 7 rules of all kinds x priorities x 2 dictionaries x every text of <=4 (5) characters over 4"});
  add("P07", {"numeric", s_numeric, "every sequence of <=4 (5) of 16 tokens x 2 dictionaries, one analyzer reused for all of them"});
  add("P07", {"numeric_long", s_numeric_long, "every sequence of 6 to 12 (14) tokens over 6 reduced alphabets"});
  add("P07", {"numeric_limit", s_numeric_limit, "numbers of 58 to 77 characters x 8 connecting parts at every position around the length limit"});
  add("P08", {"onomat", s_onomat, "7 alphabets of 3 x every text of <=8 (9) characters x 4 rule classes x 4 dictionaries"});
  add("P08", {"onomat4", s_onomat4, "every repeated half of 2-4 over 4 letters x contexts x dictionaries"});
  add("P09", {"norm", s_norm, "6 alphabets of 5 x every text of <=5 (6) for dictionaries of <=1 of ~15 words, <=4 (5) for those of 2"});
  add("P09", {"norm_tables", s_norm_tables, "every hiragana and representatives x every modified second character x every kind of neighbour"});
  return mc::run(argc, argv, v);
}
