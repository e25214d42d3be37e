// P24: specification texts against a reference reader of the documented
// language and the same specification built through the API.
// LIBS: v_mc v_core v_util v_pathie
#include <unistd.h>
#include <algorithm>
#include <cctype>
#include <cmath>
#include <functional>
#include <fstream>
#include "env.h"
#include "specdump.h"
#include "core/spec/spec_parser.h"
#include "core/spec/spec_serialization.h"
using namespace vt;
using mc::Ctx;
using CC = chars::CharacterClass;

namespace {
using Tok = std::string;
using Toks = std::vector<Tok>;

struct Fld { int col = 0; std::string name; char type = 0; bool trie = false, hasEmpty = false; std::string empty, lsep = " ", kvsep = ":", storage; int align = 0; };
struct Feat { std::string name; char kind = 0; int off = 0; std::vector<std::string> lhs, yes, no; std::string data; };
struct Unk { std::string name; int row = 0; char kind = 0; u32 cls = 0; std::vector<std::string> ph, out; };
using Ngram = std::vector<std::vector<std::string>>;
struct Gold { std::string kv, key, target; };
struct Ast {
  std::vector<Fld> f;
  std::vector<Feat> feat;
  std::vector<Unk> unk;
  std::vector<Ngram> ng;
  std::vector<std::pair<std::string, float>> loss;
  std::vector<Gold> gold;
  const Fld* fld(const std::string& n) const { for (auto& x : f) if (x.name == n) return &x; return nullptr; }
  const Feat* feature(const std::string& n) const { for (auto& x : feat) if (x.name == n) return &x; return nullptr; }
};

const std::map<std::string, CC>& classes() {
  static const std::map<std::string, CC> m = {
#define C(x) {#x, CC::x},
      C(SPACE) C(IDEOGRAPHIC_PUNC) C(KANJI) C(FIGURE) C(PERIOD) C(MIDDLE_DOT) C(COMMA) C(ALPH) C(SYMBOL) C(KATAKANA) C(HIRAGANA) C(KANJI_FIGURE) C(SLASH) C(COLON) C(ERA) C(CHOON) C(HANKAKU_KANA) C(BRACKET) C(FIGURE_EXCEPTION) C(FIGURE_DIGIT) C(SMALL_KANA) C(FAMILY_FIGURE) C(FAMILY_PUNC) C(FAMILY_ALPH_PUNC) C(FAMILY_NUM_PERIOD) C(FAMILY_PUNC_SYMBOL) C(FAMILY_SPACE) C(FAMILY_SYMBOL) C(FAMILY_ALPH) C(FAMILY_KANJI) C(FAMILY_KANA) C(FAMILY_DOUBLE) C(FAMILY_BRACKET) C(FAMILY_DIGITS) C(FAMILY_EXCEPTION) C(FAMILY_PROLONGABLE) C(FAMILY_FULL_KANA) C(FAMILY_OTHERS) C(FAMILY_ANYTHING)
#undef C
  };
  return m;
}
std::string upper(std::string s) { for (auto& c : s) c = (char)toupper((unsigned char)c); return s; }
std::string lower(std::string s) { for (auto& c : s) c = (char)tolower((unsigned char)c); return s; }

// ---- reference reader of the language of docs/spec.md ----
struct Bad { std::string why; };
struct Reader {
  const Toks& t;
  size_t p = 0;
  Ast a;
  explicit Reader(const Toks& t) : t(t) {}
  bool end() const { return p >= t.size(); }
  bool is(const char* k) const { return !end() && lower(t[p]) == k; }
  bool eat(const char* k) { if (!is(k)) return false; ++p; return true; }
  void need(const char* k) { if (!eat(k)) throw Bad{std::string("no ") + k}; }
  std::string ident() {
    if (end() || t[p].empty() || !(isalpha((unsigned char)t[p][0]) || t[p][0] == '_')) throw Bad{"no name"};
    for (char c : t[p]) if (!(isalnum((unsigned char)c) || c == '_')) throw Bad{"no name"};
    return t[p++];
  }
  int number(bool neg = false) {
    if (end()) throw Bad{"no number"};
    std::string s = t[p];
    size_t i = neg && s[0] == '-' ? 1 : 0;
    if (s.size() == i || s.size() - i > 5) throw Bad{"no number"};
    for (size_t k = i; k < s.size(); ++k) if (!isdigit((unsigned char)s[k])) throw Bad{"no number"};
    ++p;
    return atoi(s.c_str());
  }
  float real() {
    if (end()) throw Bad{"no number"};
    const std::string& s = t[p];
    size_t i = s[0] == '-' || s[0] == '+' ? 1 : 0, n = i;
    while (n < s.size() && isdigit((unsigned char)s[n])) ++n;
    if (n == i) throw Bad{"no number"};
    if (n < s.size()) {
      if (s[n] != '.') throw Bad{"no number"};
      size_t m = ++n;
      while (n < s.size() && isdigit((unsigned char)s[n])) ++n;
      if (m == n || n < s.size()) throw Bad{"no number"};
    }
    ++p;
    float v = strtof(s.c_str(), nullptr);
    if (std::isinf(v)) throw Bad{"number too large"};
    return v;
  }
  std::string quoted() {
    if (end() || t[p].size() < 2 || t[p][0] != '"') throw Bad{"no string"};
    std::string s = t[p++], r;
    for (size_t i = 1; i + 1 < s.size(); ++i) { r += s[i]; if (s[i] == '"') ++i; }
    return r;
  }
  std::string fieldName() { auto n = ident(); if (!a.fld(n)) throw Bad{"unknown field " + n}; return n; }
  std::string refName() { auto n = ident(); if (!a.fld(n) && !a.feature(n)) throw Bad{"unknown reference " + n}; return n; }
  std::vector<std::string> list(bool refs) {
    std::vector<std::string> r;
    need("[");
    do r.push_back(refs ? refName() : fieldName()); while (eat(","));
    need("]");
    return r;
  }
  u32 cls() {
    u32 r = 0;
    do {
      auto n = ident();
      auto it = classes().find(upper(n));
      if (it == classes().end()) throw Bad{"unknown class " + n};
      r |= (u32)it->second;
    } while (eat("|"));
    return r;
  }
  void field() {
    Fld f;
    f.col = number();
    f.name = ident();
    if (a.fld(f.name)) throw Bad{"repeated field"};
    if (eat("string")) f.type = 's';
    else if (eat("string_list")) f.type = 'l';
    else if (eat("kv_list")) f.type = 'k';
    else if (eat("int")) f.type = 'i';
    else throw Bad{"no type"};
    a.f.push_back(f);
    auto& x = a.f.back();
    for (;;) {
      if (eat("trie_index")) x.trie = true;
      else if (eat("empty")) x.empty = quoted(), x.hasEmpty = true;
      else if (eat("list_sep")) x.lsep = quoted();
      else if (eat("kv_sep")) x.kvsep = quoted();
      else if (eat("align")) x.align = number();
      else if (eat("storage")) { auto n = ident(); if (!a.fld(n)) throw Bad{"unknown storage"}; x.storage = n; }
      else break;
    }
  }
  void feature() {
    Feat f;
    f.name = ident();
    eat("=");
    if (eat("placeholder")) f.kind = 'p';
    else if (eat("codepoint")) f.kind = 'c', f.off = number(true);
    else if (eat("codepoint_type")) f.kind = 't', f.off = number(true);
    else if (eat("num_codepoints")) f.kind = 'n', f.lhs = {fieldName()};
    else if (eat("num_bytes")) f.kind = 'b', f.lhs = {fieldName()};
    else if (eat("match")) {
      f.kind = 'm';
      if (is("[")) f.lhs = list(false); else f.lhs = {fieldName()};
      need("with");
      f.data = quoted();
      if (eat("then")) {
        f.yes = list(true);
        need("else");
        f.no = list(true);
      }
    } else throw Bad{"no definition"};
    a.feat.push_back(f);
  }
  void unk() {
    Unk u;
    u.name = ident();
    need("template row");
    u.row = number(true);
    eat(":");
    if (eat("single")) u.kind = 's', u.cls = cls();
    else if (eat("chunking")) u.kind = 'c', u.cls = cls();
    else if (eat("onomatopeia")) u.kind = 'o', u.cls = cls();
    else if (eat("numeric")) u.kind = 'n', u.cls = cls();
    else if (eat("normalize")) u.kind = 'm';
    else throw Bad{"no handler"};
    for (;;) {
      if (eat("feature to")) u.ph.push_back(refName());
      else if (eat("surface to")) { auto l = list(false); u.out.insert(u.out.end(), l.begin(), l.end()); }
      else break;
    }
    a.unk.push_back(u);
  }
  void run() {
    while (!end()) {
      if (eat("field")) field();
      else if (eat("feature")) feature();
      else if (eat("unk")) unk();
      else if (eat("ngram")) {
        Ngram n;
        do n.push_back(list(true)); while (n.size() < 3 && is("["));
        a.ng.push_back(n);
      } else if (eat("train")) {
        eat("loss");
        do {
          auto n = fieldName();
          eat(":");
          float w = real();
          a.loss.push_back({n, w});
        } while (eat(","));
        while (eat("unk_gold_if")) {
          Gold g;
          g.kv = fieldName();
          need("[");
          g.key = quoted();
          need("]");
          need("==");
          g.target = fieldName();
          a.gold.push_back(g);
        }
      } else throw Bad{"no statement"};
    }
  }
};

// documented rules about meaning; empty = none is broken
std::string broken(const Ast& a) {
  int trie = 0;
  std::set<int> cols;
  for (auto& f : a.f) {
    if (f.col < 1) return "column number";
    if (!cols.insert(f.col).second) return "repeated column";
    if (f.trie) { ++trie; if (f.type != 's') return "index of another type"; }
  }
  if (trie != 1) return "number of index fields";
  std::set<std::string> names;
  for (auto& f : a.f) names.insert(f.name);
  for (auto& f : a.feat) {
    if (a.fld(f.name)) return "feature with the name of a field";
    if (!names.insert(f.name).second) return "repeated feature name";
    if (f.kind == 'c' && f.off == 0) return "codepoint 0";
  }
  std::set<std::string> un;
  std::set<std::string> used;  // fields used for features
  for (auto& u : a.unk) {
    if (!un.insert(u.name).second) return "repeated handler name";
    if (u.row < 0 || (u.row == 0 && u.kind != 'm')) return "template row";
    for (auto& p : u.ph) { auto x = a.feature(p); if (!x || x->kind != 'p') return "feature to something else than a placeholder"; }
    for (auto& o : u.out) { if (a.fld(o)->type != 's') return "surface to another type"; used.insert(o); }
  }
  for (auto& n : a.ng)
    for (auto& l : n)
      for (auto& r : l) {
        auto f = a.fld(r);
        if (!f) continue;
        if (f->type != 's' && f->type != 'i') return "ngram of a list";
        used.insert(r);
      }
  for (auto& f : a.feat) {
    for (auto& r : f.yes) used.insert(r);
    for (auto& r : f.no) used.insert(r);
    for (auto& r : f.lhs) used.insert(r);
  }
  for (auto& l : a.loss) {
    if (a.fld(l.first)->type != 's') return "loss of another type";
    if (l.second != 0 && !used.count(l.first)) return "loss of an unused field";
  }
  for (auto& g : a.gold) if (a.fld(g.kv)->type != 'k') return "unk_gold_if of another type";
  return "";
}

// ---- the same specification through the API ----
Status viaApi(const Ast& a, spec::AnalysisSpec* out) {
  dsl::ModelSpecBuilder b;
  std::map<std::string, dsl::FieldBuilder*> fb;
  std::map<std::string, dsl::FeatureBuilder*> xb;
  for (auto& f : a.f) {
    auto& x = b.field(f.col, f.name);
    fb[f.name] = &x;
    if (f.type == 's') x.strings();
    if (f.type == 'l') x.stringLists();
    if (f.type == 'k') x.kvLists();
    if (f.type == 'i') x.integers();
    if (f.trie) x.trieIndex();
    if (f.hasEmpty) x.emptyValue(f.empty);
    if (f.lsep != " ") x.listSeparator(f.lsep);
    if (f.kvsep != ":") x.kvSeparator(f.kvsep);
    if (f.align) x.align(f.align);
    if (f.storage.size()) x.stringStorage(*fb[f.storage]);
  }
  auto ref = [&](const std::string& n) { return fb.count(n) ? dsl::FeatureRef{*fb[n]} : dsl::FeatureRef{*xb[n]}; };
  auto refs = [&](const std::vector<std::string>& v) { std::vector<dsl::FeatureRef> r; for (auto& n : v) r.push_back(ref(n)); return r; };
  auto flds = [&](const std::vector<std::string>& v) { std::vector<dsl::FieldReference> r; for (auto& n : v) r.push_back(*fb[n]); return r; };
  auto exprs = [&](const std::vector<std::string>& v) {
    std::vector<dsl::FieldExpressionBldr> r;
    for (auto& n : v) {
      dsl::FieldExpressionBldr e;
      e.fieldName = n;
      e.type = dsl::TransformType::Value;
      r.push_back(e);
    }
    return r;
  };
  for (auto& f : a.feat) {
    auto& x = b.feature(f.name);
    xb[f.name] = &x;
    switch (f.kind) {
      case 'p': x.placeholder(); break;
      case 'c': x.codepoint(f.off); break;
      case 't': x.codepointType(f.off); break;
      case 'n': x.numCodepoints(*fb[f.lhs[0]]); break;
      case 'b': x.length(*fb[f.lhs[0]]); break;
      case 'm':
        if (f.lhs.size() == 1 && f.data.find(',') == std::string::npos) x.matchData(*fb[f.lhs[0]], f.data);
        else x.matchAnyRowOfCsv(f.data, flds(f.lhs));
        if (f.yes.size()) x.ifTrue(exprs(f.yes)).ifFalse(exprs(f.no));
        break;
    }
  }
  for (auto& u : a.unk) {
    auto& x = b.unk(u.name, u.row);
    auto c = (CC)u.cls;
    switch (u.kind) {
      case 's': x.single(c); break;
      case 'c': x.chunking(c); break;
      case 'o': x.onomatopoeia(c); break;
      case 'n': x.numeric(c); break;
      case 'm': x.normalize(); break;
    }
    for (auto& p : u.ph) x.writeFeatureTo(ref(p));
    if (u.out.size()) x.outputTo(flds(u.out));
  }
  for (auto& n : a.ng) {
    if (n.size() == 1) b.unigram(refs(n[0]));
    if (n.size() == 2) b.bigram(refs(n[0]), refs(n[1]));
    if (n.size() == 3) b.trigram(refs(n[0]), refs(n[1]), refs(n[2]));
  }
  for (auto& l : a.loss) b.train().field(*fb[l.first], l.second);
  for (auto& g : a.gold) b.train().allowGoldUnkWith(*fb[g.target], *fb[g.kv], g.key);
  return b.build(out);
}

// ---- what the compiled specification means, in terms of names ----
std::string meaning(const spec::AnalysisSpec& s, std::string* err) {
  std::string r;
  auto& d = s.dictionary;
  std::map<int, std::string> byDic;
  for (auto& f : d.fields) {
    if (f.position == 0) continue;
    byDic[f.dicIndex] = f.name;
    r += "field " + std::to_string(f.position) + " " + f.name + " " + std::to_string((int)f.fieldType) + (f.isTrieKey ? " index" : "") + " [" + f.emptyString + "][" + f.listSeparator + "][" + f.kvSeparator + "] with";
    for (auto& g : d.fields)
      if (f.stringStorage != spec::InvalidInt && g.stringStorage == f.stringStorage) r += " " + g.name;
    if (f.stringStorage != spec::InvalidInt) r += " align " + std::to_string(f.alignment);
    r += "\n";
  }
  if (d.indexColumn < 0 || d.indexColumn >= (int)d.fields.size() || !d.fields[d.indexColumn].isTrieKey) *err = "index column";
  auto& fs = s.features;
  auto prim = [&](int i) { if (i < 0 || i >= (int)fs.primitive.size()) { *err = "primitive index"; return std::string("?"); } return fs.primitive[i].name; };
  for (auto& n : fs.ngram) {
    r += "ngram";
    for (auto p : n.references) {
      r += " [";
      if (p < 0 || p >= (int)fs.pattern.size()) { *err = "pattern index"; continue; }
      for (auto x : fs.pattern[p].references) r += " " + prim(x);
      r += " ]";
    }
    r += "\n";
  }
  std::vector<std::string> fl;
  std::set<std::pair<int, int>> bits;
  for (size_t i = 0; i < fs.primitive.size(); ++i) {
    auto& p = fs.primitive[i];
    auto& c = fs.computation.at(i);
    std::string x = p.name;
    if (p.index != (int)i || c.index != (int)i) *err = "index of " + p.name;
    using K = spec::PrimitiveFeatureKind;
    switch (p.kind) {
      case K::Copy: x += " copy " + byDic[p.references.at(0)]; break;
      case K::Provided: x += " placeholder"; if (p.references.at(0) < 0 || p.references[0] >= fs.numPlaceholders) *err = "placeholder"; break;
      case K::Codepoint: x += " codepoint " + std::to_string(p.references.at(0)); break;
      case K::CodepointType: x += " codepoint_type " + std::to_string(p.references.at(0)); break;
      case K::ByteLength: x += " num_bytes " + byDic[p.references.at(0)]; break;
      case K::CodepointSize: x += " num_codepoints " + byDic[p.references.at(0)]; break;
      case K::SurfaceCodepointSize: x += " num_codepoints " + d.fields.at(d.indexColumn).name; break;
      case K::SingleBit: {
        x += " match";
        if (!bits.insert({p.references.at(0), p.references.at(1)}).second) *err = "two match features in one bit";
        if (p.references[1] < 0 || p.references[1] > 31 || byDic.count(p.references[0])) *err = "bit of a match feature";
        int n = 0;
        for (auto& im : fs.dictionary)
          if (im.name == p.name) {
            ++n;
            if (im.target != p.references[0] || im.shift != p.references[1]) *err = "target of a match feature";
            for (auto q : im.references) x += " " + d.fields.at(q).name;
            x += im.kind == spec::DicImportKind::MatchListKey ? " key" : " row";
            for (auto& q : im.data) x += " <" + q + ">";
          }
        if (n != 1) *err = "imports of a match feature";
        break;
      }
      default: *err = "kind of feature";
    }
    if (c.trueBranch.size()) { x += " then"; for (auto q : c.trueBranch) x += " " + prim(q); }
    if (c.falseBranch.size()) { x += " else"; for (auto q : c.falseBranch) x += " " + prim(q); }
    fl.push_back(x);
  }
  std::sort(fl.begin(), fl.end());
  for (auto& x : fl) r += x + "\n";
  for (auto& u : s.unkCreators) {
    r += "unk " + u.name + " " + std::to_string((int)u.type) + " " + std::to_string(u.patternRow) + " class " + std::to_string(u.type == spec::UnkMakerType::Normalize ? 0u : (u32)u.charClass) + " to";
    for (auto& f : u.features) {
      std::string nm = "?";
      for (auto& p : fs.primitive) if (p.kind == spec::PrimitiveFeatureKind::Provided && p.references[0] == f.targetPlaceholder) nm = p.name;
      r += " " + nm + ":" + std::to_string((int)f.featureType);
    }
    r += " surface";
    for (auto f : u.replaceFields) r += " " + byDic[f];
    r += "\n";
  }
  for (auto& t : s.training.fields) {
    char b[40];
    snprintf(b, sizeof b, "%a", t.weight);
    r += "loss " + d.fields.at(t.fieldIdx).name + " " + b + (s.training.surfaceIdx == t.number ? " surface" : "") + " read " + byDic[t.dicIdx] + "\n";
  }
  for (auto& g : s.training.allowedUnk) r += "gold " + d.fields.at(g.sourceField).name + " " + g.sourceKey + " " + d.fields.at(g.targetField).name + "\n";
  return r;
}

std::string meaning(const Ast& a) {
  std::string r;
  std::map<std::string, std::vector<std::string>> stor;
  for (auto& f : a.f) if (f.type != 'i') stor[f.storage.size() ? f.storage : f.name].push_back(f.name);
  std::map<std::string, int> al;
  for (auto& f : a.f) if (f.type != 'i') al.emplace(f.storage.size() ? f.storage : f.name, f.align);
  for (auto& f : a.f) {
    int ty = f.type == 's' ? (int)spec::FieldType::String : f.type == 'i' ? (int)spec::FieldType::Int : f.type == 'l' ? (int)spec::FieldType::StringList : (int)spec::FieldType::StringKVList;
    r += "field " + std::to_string(f.col) + " " + f.name + " " + std::to_string(ty) + (f.trie ? " index" : "") + " [" + f.empty + "][" + f.lsep + "][" + f.kvsep + "] with";
    auto k = f.storage.size() ? f.storage : f.name;
    if (f.type != 'i') {
      for (auto& n : stor[k]) r += " " + n;
      r += " align " + std::to_string(al[k]);
    }
    r += "\n";
  }
  auto ng = a.ng;
  std::stable_sort(ng.begin(), ng.end(), [](const Ngram& x, const Ngram& y) { return x.size() < y.size(); });
  for (auto& n : ng) {
    r += "ngram";
    for (size_t i = n.size(); i-- > 0;) {  // the current word first
      r += " [";
      for (auto& x : n[i]) r += " " + x;
      r += " ]";
    }
    r += "\n";
  }
  // what is used
  std::set<std::string> used;
  for (auto& n : a.ng) for (auto& l : n) used.insert(l.begin(), l.end());
  for (auto& u : a.unk) { used.insert(u.ph.begin(), u.ph.end()); used.insert(u.out.begin(), u.out.end()); }
  for (auto& f : a.feat) {
    used.insert(f.yes.begin(), f.yes.end());
    used.insert(f.no.begin(), f.no.end());
    for (auto& q : f.lhs) { char t = a.fld(q)->type; if (t == 's' || t == 'i') used.insert(q); }
  }
  std::vector<std::string> fl;
  for (auto& n : used) {
    auto f = a.feature(n);
    std::string x = n;
    if (!f) { fl.push_back(n + " copy " + n); continue; }
    switch (f->kind) {
      case 'p': x += " placeholder"; break;
      case 'c': x += " codepoint " + std::to_string(f->off); break;
      case 't': x += " codepoint_type " + std::to_string(f->off); break;
      case 'b': x += " num_bytes " + f->lhs[0]; break;
      case 'n': x += " num_codepoints " + f->lhs[0]; break;
      case 'm': {
        x += " match";
        for (auto& q : f->lhs) x += " " + q;
        x += a.fld(f->lhs[0])->type == 's' ? " row" : " key";
        auto lines = splitOn(f->data, "\n");
        if (!lines.empty() && lines.back().empty()) lines.pop_back();
        for (auto& q : lines) x += " <" + q + ">";
        if (f->yes.size()) x += " then " + join(f->yes, " ") + " else " + join(f->no, " ");
        break;
      }
    }
    fl.push_back(x);
  }
  std::sort(fl.begin(), fl.end());
  for (auto& x : fl) r += x + "\n";
  for (auto& u : a.unk) {
    using K = spec::UnkMakerType;
    K k = u.kind == 's' ? K::Single : u.kind == 'c' ? K::Chunking : u.kind == 'o' ? K::Onomatopoeia : u.kind == 'n' ? K::Numeric : K::Normalize;
    r += "unk " + u.name + " " + std::to_string((int)k) + " " + std::to_string(u.row) + " class " + std::to_string(u.cls) + " to";
    for (auto& p : u.ph) r += " " + p + ":" + std::to_string((int)(u.kind == 'm' ? spec::UnkFeatureType::NormalizedActions : spec::UnkFeatureType::NotPrefixOfDic));
    r += " surface";
    for (auto& o : u.out) r += " " + o;
    r += "\n";
  }
  int last = -1;
  for (size_t i = 0; i < a.loss.size(); ++i) if (a.fld(a.loss[i].first)->trie) last = (int)i;
  for (size_t i = 0; i < a.loss.size(); ++i) {
    char b[40];
    snprintf(b, sizeof b, "%a", a.loss[i].second);
    r += "loss " + a.loss[i].first + " " + b + ((int)i == last ? " surface" : "") + " read " + a.loss[i].first + "\n";
  }
  for (auto& g : a.gold) r += "gold " + g.kv + " " + g.key + " " + g.target + "\n";
  return r;
}

std::string diff(const std::string& x, const std::string& y) {
  auto a = splitOn(x, "\n"), b = splitOn(y, "\n");
  for (size_t i = 0; i < std::max(a.size(), b.size()); ++i) {
    std::string p = i < a.size() ? a[i] : "(end)", q = i < b.size() ? b[i] : "(end)";
    if (p != q) return "[" + p.substr(0, 300) + "] and [" + q.substr(0, 300) + "]";
  }
  return "same";
}

Status fromText(Ctx& c, const std::string& text, spec::AnalysisSpec* out) {
  std::string f = c.scratch() + "/s.spec";
  { std::ofstream o(f, std::ios::binary | std::ios::trunc); o << text; }
  return spec::parseFromFile(f, out);
}

// Known defects of src/core/spec (known_findings.jsonl): inputs which trigger
// one, together with its symptom. The scenario "known" reports one example of
// each; the others pass over them and judge everything else.
bool innerQuote(const Toks& t) {
  for (auto& x : t) if (x.size() > 3 && x[0] == '"' && x.find("\"\"", 1) != std::string::npos) return true;
  return false;
}
bool hugeNumber(const Toks& t) {
  for (auto& x : t) if (x.size() > 38 && x.find_first_not_of("0123456789.-") == std::string::npos) return true;
  return false;
}
std::string known(Ctx& c, const Ast& a, const Toks& t, const std::string& text, const Status& q) {
  if (innerQuote(t)) return "doubled quotes in a string";
  if (q) return "";
  std::string e = msg(q);
  for (auto& f : a.feat) {
    for (auto* l : {&f.yes, &f.no})
      for (auto& n : *l)
        if (a.feature(n) && e.find("could not find field: " + n) != std::string::npos) return "feature in a then or else list";
    if (f.kind == 'm' && f.lhs.size() == 1 && f.data.find('\n') != std::string::npos && f.data.find(',') == std::string::npos) {
      auto* x = a.fld(f.lhs[0]);
      if (x && (x->type == 'l' || x->type == 'k') && e.find("was not a String, but") != std::string::npos) return "several values for a list field";
    }
  }
  for (auto& u : a.unk)
    if (u.cls == (u32)CC::FAMILY_OTHERS && u.kind != 'm' && e.find("invalid/unsupported character class: ") != std::string::npos) return "class family_others";
  size_t nl = text.rfind('\n');
  std::string last = nl == std::string::npos ? text : text.substr(nl + 1);
  spec::AnalysisSpec s;
  if (last.find('#') != std::string::npos && fromText(c, text + "\n", &s)) return "comment without a line end";
  return "";
}
bool knownFault(const std::string& why) { return why == "repeated feature name" || why == "repeated handler name" || why == "loss of another type"; }
bool reportKnown = false;
bool skip(Ctx& c, const std::string& k, const std::string& text) {
  if (k.empty()) return false;
  if (reportKnown) c.fail(k, "%s", text.c_str());
  c.sig("known " + k);
  return true;
}

// may: neither acceptance nor refusal is prescribed
void judge(Ctx& c, const Toks& t, const std::string& text, bool may = false) {
  c.note("%s", text.substr(0, 3000).c_str());
  c.count();
  Reader rd(t);
  std::string why;
  bool syntax = true;
  try { rd.run(); } catch (Bad& b) { syntax = false; why = b.why; }
  auto& a = rd.a;
  if (syntax) why = broken(a);
  bool bad = !why.empty();
  spec::AnalysisSpec st, sa;
  Status q = Status::Ok();
  try {
    q = text.empty() ? Status(StatusCode::InvalidParameter, "empty") : fromText(c, text, &st);
  } catch (std::out_of_range&) {
    if (!hugeNumber(t)) throw;
    skip(c, "number larger than any float", text);
    return;
  }
  if (bad) {
    if (q && skip(c, innerQuote(t) ? known(c, a, t, text, q) : knownFault(why) ? why : std::string(), text)) return;
    if (q) c.fail("malformed accepted: " + why, "a specification with a fault (%s) is accepted", why.c_str());
    if (syntax) {
      Status w = viaApi(a, &sa);
      if (w && skip(c, knownFault(why) ? why : std::string(), text)) return;
      if (w) c.fail("malformed accepted by the API: " + why, "a specification with a fault (%s) is accepted by the API", why.c_str());
    }
    c.sig(why);
    return;
  }
  Status w = viaApi(a, &sa);
  if (w.isOk() != q.isOk()) {
    if (may && !q) return;
    if (skip(c, known(c, a, t, text, q), text)) return;
    c.fail(q ? "text accepted, API refuses" : "text refused, API accepts", "text: %s; API: %s", msg(q).c_str(), msg(w).c_str());
  }
  if (!q) { c.sig("refused " + msg(w).substr(0, 30)); return; }
  std::string dt = dumpSpec(st, true), da = dumpSpec(sa, true);
  if (dt != da && skip(c, known(c, a, t, text, q), text)) return;
  if (dt != da) c.fail("text and API differ", "compiled from text and through the API: %s", diff(dt, da).c_str());
  std::string err, m = meaning(st, &err), want = meaning(a);
  if (err.size()) c.fail("inconsistent", "compiled specification has a wrong %s", err.c_str());
  if (m != want) c.fail("meaning", "compiled and written: %s", diff(m, want).c_str());
  util::CodedBuffer buf;
  spec::saveSpec(st, &buf);
  ExactBuf eb(vt::st(buf.contents()));
  spec::AnalysisSpec back;
  if (!spec::loadSpec(eb.sp(), &back)) c.fail("saved", "a saved specification can not be loaded");
  std::string x = dumpSpec(back), y = dumpSpec(st);
  if (x != y) c.fail("saved", "saved and loaded specification differs: %s", diff(x, y).c_str());
  c.sig(m);
  c.state();
}

// ---- texts ----
Toks toks(const std::string& s) {  // "feature to" etc. are written feature~to
  Toks r;
  std::string cur;
  auto flush = [&] { if (cur.size()) { for (auto& ch : cur) if (ch == '~') ch = ' '; r.push_back(cur); } cur.clear(); };
  for (size_t i = 0; i < s.size(); ++i) {
    if (s[i] == '"') {
      flush();
      size_t j = i + 1;
      for (; j < s.size(); ++j) {
        if (s[j] != '"') continue;
        if (j + 1 < s.size() && s[j + 1] == '"') { ++j; continue; }
        break;
      }
      r.push_back(s.substr(i, j - i + 1));
      i = j;
    } else if (isspace((unsigned char)s[i])) flush();
    else cur += s[i];
  }
  flush();
  return r;
}
std::string text(const Toks& t, const std::string& sep = " ") { return join(t, sep) + "\n"; }

const char* const BASES[] = {
    "field 1 a string trie_index field 2 b string field 3 l kv_list "
    "feature ph = placeholder feature cp codepoint -1 feature m = match [ a , b ] with \"x,y\" then [ b ] else [ a , b ] "
    "unk u template~row 1 : chunking KANJI | hiragana feature~to ph surface~to [ a ] "
    "ngram [ a , cp ] ngram [ m ] [ b ] ngram [ a ] [ ph ] [ m , b ] "
    "train loss a 1 , b 0.5 unk_gold_if l [ \"k\" ] == b",
    "field 2 b string align 3 field 5 n int field 1 a string trie_index storage b empty \"*\" field 4 l string_list list_sep \";\" field 3 k kv_list kv_sep \"=\" list_sep \"^\" "
    "feature x = num_codepoints a feature y = num_bytes b feature t = codepoint_type 0 feature m match l with \"q\" feature mm = match k with \"a\" "
    "unk v template~row 2 normalize unk w template~row 3 : single family_anything surface~to [ a , b ] "
    "ngram [ x , n ] ngram [ y ] [ t , m ] ngram [ mm , b ] train a : 1 , b : -2.25",
};

// token damage
void s_damage(Ctx& c) {
  static const std::vector<Toks> B = [] { std::vector<Toks> v; for (auto b : BASES) v.push_back(toks(b)); return v; }();
  static const Toks V = toks("field feature unk ngram train unk_gold_if string string_list kv_list int trie_index empty list_sep kv_sep align storage placeholder codepoint codepoint_type num_codepoints num_bytes match with then else template~row feature~to surface~to single chunking onomatopeia numeric normalize loss "
                             "a b l ph m cp zz u v n k kanji 0 1 2 -1 0.5 1. 99999 100000 [ ] , | : = == \"x\" \"\" \"x,y\" \"\"\"\" \"a b\"");
  Toks t = c.pick(B);
  int n = c.thorough() ? c.range(1, 2) : 1;
  size_t from = 0;
  for (int i = 0; i < n; ++i) {
    size_t at = from + c.choose((u32)(t.size() - from));
    u32 op = c.choose(n == 2 ? 3u : 3u + (u32)V.size() * 2);
    if (op == 0) t.erase(t.begin() + at);
    else if (op == 1) t.insert(t.begin() + at, t[at]);
    else if (op == 2) { if (at + 1 >= t.size() || t[at] == t[at + 1]) c.discard(); std::swap(t[at], t[at + 1]); }
    else if (op - 3 < V.size()) { if (t[at] == V[op - 3]) c.discard(); t[at] = V[op - 3]; }
    else t.insert(t.begin() + at, V[op - 3 - V.size()]);
    from = std::min(at, t.size() - 1);
  }
  // a keyword may be glued to the rest of a word: unk_gold_if = unk + name
  for (size_t i = 0; i + 1 < t.size(); ++i)
    if (t[i] == "unk_gold_if" && t[i + 1] == "template row") c.discard();
  judge(c, t, text(t));
}

// every prefix of a text, at every byte
void s_cut(Ctx& c) {
  static const std::vector<Toks> B = [] { std::vector<Toks> v; for (auto b : BASES) v.push_back(toks(b)); return v; }();
  const Toks& t = c.pick(B);
  size_t n = c.choose((u32)t.size() + 1);
  bool tail = c.flag();
  Toks p = tail ? Toks(t.begin() + n, t.end()) : Toks(t.begin(), t.begin() + n);
  static const std::vector<std::string> E = {"", "\n", " ", "#x", "# comment \"\n", "\r\n", "\n\n#\n"};
  const std::string& e = c.pick(E);
  std::string s = join(p, " ") + (e.size() && e[0] == '#' ? " " : "") + e;
  if (p.empty() && s.empty()) c.discard();
  judge(c, p, s, p.empty());
}

// white space, comments and letter case
void s_layout(Ctx& c) {
  static const std::vector<Toks> B = [] { std::vector<Toks> v; for (auto b : BASES) v.push_back(toks(b)); return v; }();
  const Toks& t = c.pick(B);
  static const std::vector<std::string> S = {" ", "\n", "\t", "  ", "\r\n", "\n\n", " \t\n ", " # comment\n", "#\n", " # field 1 \"x\n\t", " #a\n#b\n", "\n # [\r\n "};
  static const std::vector<std::string> K = {"field", "feature", "unk", "ngram", "train", "string", "string_list", "kv_list", "int", "trie_index", "empty", "list_sep", "kv_sep", "align", "storage", "placeholder", "codepoint", "codepoint_type", "num_codepoints", "num_bytes", "match", "with", "then", "else", "template row", "feature to", "surface to", "single", "chunking", "onomatopeia", "numeric", "normalize", "loss", "unk_gold_if"};
  int mode = c.choose(4);
  std::string s;
  bool may = false;
  if (mode < 2) {  // one gap
    size_t at = c.choose((u32)t.size() + 1);
    size_t k = c.choose((u32)S.size());
    if (k == 10) may = true;  // two comments in a row inside a statement
    for (size_t i = 0; i < t.size(); ++i) {
      if (i || at == 0) s += i == at ? S[k] : mode ? "\n" : " ";
      s += t[i];
    }
    s += at == t.size() ? S[k] : "\n";
  } else if (mode == 2) {  // all gaps; case
    size_t k = c.choose((u32)S.size());
    if (k == 10) may = true;
    int cs = c.choose(3);
    for (size_t i = 0; i < t.size(); ++i) {
      std::string x = t[i];
      bool kw = std::find(K.begin(), K.end(), x) != K.end() && !(i && (t[i - 1] == "," || t[i - 1] == "["));
      if (kw && cs == 1) x = upper(x);
      if (kw && cs == 2) x[0] = (char)toupper(x[0]);
      s += x + S[k];
    }
  } else {  // no space around punctuation
    auto punct = [](const std::string& x) { return x == "[" || x == "]" || x == "," || x == "|" || x == ":" || x == "=" || x == "==" || x[0] == '"'; };
    size_t at = c.choose((u32)t.size());
    for (size_t i = 0; i < t.size(); ++i) {
      bool glue = i && (punct(t[i]) || punct(t[i - 1])) && !(t[i][0] == '"' && t[i - 1][0] == '"') && (at == 0 || at == i);
      s += (i && !glue ? " " : "") + t[i];
    }
    s += "\n";
  }
  judge(c, t, s, may);
}

// strings in quotes
void s_strings(Ctx& c) {
  static const std::vector<std::string> A = {"x", "\"", ",", "\n", " ", "#", "あ", "\\", "\r"};
  int where = c.choose(6);
  auto v = c.str(A, 0, where >= 4 ? 3 : c.thorough() ? 5 : 4);
  std::string q = "\"";
  for (char ch : v) { if (ch == '"') q += '"'; q += ch; }
  q += "\"";
  // rows which end with a carriage return are not specified
  if (where >= 4 && v.find('\r') != std::string::npos) c.discard();
  Toks t = toks("field 1 a string trie_index");
  auto add = [&](const std::string& s) { auto x = toks(s); t.insert(t.end(), x.begin(), x.end()); };
  if (where == 0) { t.push_back("empty"); t.push_back(q); }
  add("field 2 l string_list");
  if (where == 1) { t.push_back("list_sep"); t.push_back(q); }
  add("field 3 k kv_list");
  if (where == 2) { t.push_back("kv_sep"); t.push_back(q); }
  if (where >= 4) {
    add(where == 4 ? "feature m = match a with" : "feature m = match l with");
    t.push_back(q);
    add("ngram [ m ]");
  }
  add("ngram [ a ]");
  if (where == 3) { add("train a 1 unk_gold_if k ["); t.push_back(q); add("] == a"); }
  // comma separated values for a list, empty rows and separators: not documented
  bool may = (where == 5 && v.find(',') != std::string::npos) || (where >= 4 && (v.empty() || v[0] == '\n' || v.find("\n\n") != std::string::npos)) || ((where == 1 || where == 2) && v.empty());
  if (may) c.discard();
  judge(c, t, text(t));
}

// two or three quoted strings in one text: each keeps its own contents
void s_texts(Ctx& c) {
  static const std::vector<std::string> A = {"x", "y", "\"", ","};
  auto quote = [](const std::string& v) {
    std::string q = "\"";
    for (char ch : v) { if (ch == '"') q += '"'; q += ch; }
    return q + "\"";
  };
  Toks t = toks("field 1 a string trie_index");
  auto add = [&](const std::string& s) { auto x = toks(s); t.insert(t.end(), x.begin(), x.end()); };
  // the places in the order in which they are in the text
  int mask = c.choose(c.thorough() ? 64 : 32);
  int n = 0;
  for (int i = 0; i < 6; ++i) n += mask >> i & 1;
  if (n < 2 || n > 3) c.discard();
  std::vector<std::string> v(6);
  for (int i = 0; i < 6; ++i)
    if (mask >> i & 1) v[i] = c.str(A, 1, n == 2 ? 3 : c.thorough() ? 2 : 1);
  if (mask & 1) { t.push_back("empty"); t.push_back(quote(v[0])); }
  add("field 2 l string_list");
  if (mask & 2) { t.push_back("list_sep"); t.push_back(quote(v[1])); }
  add("field 3 k kv_list");
  if (mask & 4) { t.push_back("kv_sep"); t.push_back(quote(v[2])); }
  static const char* M[] = {"feature m = match a with", "feature o = match a with"};
  for (int i = 0; i < 2; ++i)
    if (mask & 8 << i) { add(M[i]); t.push_back(quote(v[3 + i])); }
  add("ngram [ a ]");
  if (mask & 8) add("ngram [ m ]");
  if (mask & 16) add("ngram [ o ]");
  if (mask & 32) { add("train a 1 unk_gold_if k ["); t.push_back(quote(v[5])); add("] == a"); }
  judge(c, t, text(t));
}

// combinations of field definitions
void s_fields(Ctx& c) {
  static const std::vector<std::string> TY = {"string", "int", "string_list", "kv_list"};
  static const std::vector<std::string> FL = {"", "trie_index", "empty \"-\"", "align 1", "align 4", "storage a", "storage b", "list_sep \",\"", "kv_sep \"->\"", "align 0", "storage c"};
  std::string s;
  const char* names[] = {"a", "b", "c"};
  int n = c.range(1, c.thorough() ? 3 : 2);
  for (int i = 0; i < n; ++i) {
    static const std::vector<std::string> COL = {"1", "2", "0", "00001", "99999"};
    std::string col = i == 0 ? c.pick(COL) : std::to_string(i + 1);
    std::string f = std::string("field ") + col + " " + names[i] + " " + c.pick(TY);
    std::string f1 = c.pick(FL), f2 = i == 0 || c.thorough() ? c.pick(FL) : std::string();
    s += f + " " + f1 + " " + f2 + " ";
  }
  bool ng = c.flag();
  if (ng) s += "ngram [ " + std::string(names[n - 1]) + " ]";
  Toks t = toks(s);
  judge(c, t, text(t));
}

// features and their uses
void s_features(Ctx& c) {
  static const std::vector<std::string> DEF = {"placeholder", "codepoint 0", "codepoint 1", "codepoint -2", "codepoint_type 0", "codepoint_type 3", "num_codepoints a", "num_codepoints b", "num_codepoints n", "num_codepoints l", "num_bytes a", "num_bytes b", "num_bytes k",
                                               "match a with \"x\"", "match [ a ] with \"x\"", "match l with \"x\"", "match k with \"x\ny\"", "match n with \"1\"", "match [ a , b ] with \"x,y\nz,w\"", "match [ b , l ] with \"x,y\"", "match a with \"x\" then [ b ] else [ n , a ]", "match [ b ] with \"x\ny\" then [ a , b ] else [ b ]",
                                               "match k with \"x\" then [ n ] else [ b ]", "match b with \"x\" then [ f ] else [ a ]", "match l with \"x\" then [ a ] else [ f , b ]", "match b with \"x\" then [ k ] else [ a ]"};
  static const std::vector<std::string> USE = {"", "ngram [ f ]", "ngram [ g ]", "ngram [ g , f ]", "ngram [ f ] [ g ]", "ngram [ a ] [ g ] [ f , a ]", "unk u template~row 1 : single kanji feature~to f", "unk u template~row 1 : normalize feature~to g surface~to [ b ]"};
  std::string s = "field 1 a string trie_index field 2 b string field 3 n int field 4 l string_list field 5 k kv_list ";
  s += "feature f = " + c.pick(DEF) + " ";
  static const std::vector<std::string> N = {"g", "f", "a"};
  s += "feature " + c.pick(N) + " = " + c.pick(DEF) + " ";
  s += "ngram [ a ] " + c.pick(USE) + " " + (c.thorough() ? c.pick(USE) : std::string());
  Toks t = toks(s);
  // lengths of lists or numbers, conditions on numbers: not documented in detail
  judge(c, t, text(t));
}

// ngrams
void s_ngrams(Ctx& c) {
  static const std::vector<std::string> L = {"[ a ]", "[ b ]", "[ a , b ]", "[ b , a ]", "[ f ]", "[ m , n ]"};
  std::string s = "field 1 a string trie_index field 2 b string field 3 n int feature f = codepoint 1 feature m = match b with \"x\" then [ a ] else [ n ] ";
  int n = c.range(1, c.thorough() ? 3 : 2);
  for (int i = 0; i < n; ++i) {
    s += "ngram ";
    int k = c.range(1, 3);
    for (int j = 0; j < k; ++j) s += c.pick(L) + " ";
  }
  Toks t = toks(s);
  judge(c, t, text(t));
}

// unknown words and training
void s_handlers(Ctx& c) {
  static const std::vector<std::string> H = {"single kanji", "chunking KATAKANA | ALPH | figure", "onomatopeia family_kana", "numeric family_digits", "normalize", "single family_others", "single nothing"};
  static const std::vector<std::string> ROW = {"1", "0", "-1", "2", "99999"};
  static const std::vector<std::string> OUT = {"", "feature~to p", "feature~to q", "feature~to p feature~to q", "surface~to [ a ]", "surface~to [ b , a ]", "surface~to [ a ] surface~to [ c ]", "feature~to p surface~to [ b ]", "surface~to [ b ] feature~to p", "feature~to z", "feature~to a", "surface~to [ n ]"};
  static const std::vector<std::string> TR = {"", "train a 1", "train loss b 1", "train loss a 1 , b 0.25", "train a : 0 , c : 1", "train a 1 , c 0", "train a 1 , n 1", "train a 1 , l 0", "train a 1 unk_gold_if k [ \"x\" ] == b", "train a 1 unk_gold_if b [ \"x\" ] == a", "train a 1 , b 1 unk_gold_if k [ \"x\" ] == b unk_gold_if k [ \"y\" ] == a", "train a 1 train b 1", "train a 340282350000000000000000000000000000001", "train a 99999999999999999999999999999999999999999999"};
  std::string s = "field 1 a string trie_index field 2 b string field 3 n int field 4 l string_list field 5 k kv_list field 6 c string feature p = placeholder feature q placeholder feature z = codepoint 1 ";
  s += "unk u template~row " + (c.thorough() ? c.pick(ROW) : ROW[c.choose(3)]) + " : " + c.pick(H) + " " + c.pick(OUT) + " ";
  if (c.flag()) s += "unk " + std::string(c.flag() ? "u" : "v") + " template~row 2 normalize " + (c.thorough() ? c.pick(OUT) : OUT[c.choose(4)]) + " ";
  bool nb = c.flag();
  s += std::string("ngram [ a , n ] ") + (nb ? "ngram [ b ] [ p ] " : "") + c.pick(TR);
  Toks t = toks(s);
  bool may = s.find("row 0") != std::string::npos || s.find("row~0") != std::string::npos;
  judge(c, t, text(t), may);
}

// many match features
void s_bits(Ctx& c) {
  static const std::vector<int> N = {1, 2, 30, 31, 32, 33, 34, 62, 63, 64, 65, 70, 100};
  int n = c.pick(N), order = c.choose(3), then = c.choose(3);
  std::string s = "field 1 a string trie_index field 2 b string field 3 n int ";
  for (int i = 0; i < n; ++i) {
    s += "feature f" + std::to_string(i) + " = match b with \"x" + std::to_string(i) + "\" ";
    if (then == 1 || (then == 2 && i % 3 == 1)) s += "then [ a ] else [ n , b ] ";
  }
  for (int i = 0; i < n; ++i) {
    int k = order == 0 ? i : order == 1 ? n - 1 - i : (i * 2 < n ? i * 2 : (n - 1 - i) * 2 + 1);
    s += "ngram [ f" + std::to_string(k) + " ] ";
  }
  Toks t = toks(s);
  judge(c, t, text(t));
}

// conditions from files
void s_files(Ctx& c) {
  static const std::vector<std::string> D = {"x", "x\n", "x\ny\n", "x,y\n", "x,y\nz,w", "あ,い\n", "", "a\"b\n"};
  const std::string& d = c.pick(D);
  static const std::vector<std::string> LHS = {"a", "[ a ]", "[ a , b ]", "l", "k"};
  const std::string& lhs = c.pick(LHS);
  int kind = c.choose(4);  // file present, absent, in a folder, directory
  bool list = lhs == "l" || lhs == "k";
  if (d.empty() || (list && d.find(',') != std::string::npos)) c.discard();
  std::string dir = c.scratch();
  std::string name = kind == 2 ? "sub/c.csv" : "c.csv";
  (void)!system(("mkdir -p '" + dir + "/sub'; rm -f '" + dir + "/c.csv' '" + dir + "/sub/c.csv'").c_str());
  if (kind != 1 && kind != 3) { std::ofstream o(dir + "/" + name, std::ios::binary); o << d; }
  std::string pre = "field 1 a string trie_index field 2 b string field 3 l string_list field 4 k kv_list feature m = match " + lhs + " with ";
  std::string post = " then [ a ] else [ b ] ngram [ m ] ngram [ b ]";
  std::string txt = join(toks(pre), " ") + " file \"" + (kind == 3 ? "sub" : name) + "\" " + join(toks(post), " ") + "\n";
  std::string q = "\"";
  for (char ch : d) { if (ch == '"') q += '"'; q += ch; }
  q += "\"";
  Toks t = toks(pre);
  t.push_back(q);
  for (auto& x : toks(post)) t.push_back(x);
  if (kind == 1 || kind == 3) {
    c.note("%s", txt.c_str());
    c.count();
    spec::AnalysisSpec s;
    if (fromText(c, txt, &s)) c.fail("missing file", "a specification with an unreadable file is accepted");
    return;
  }
  judge(c, t, txt);
}
// one example of each known defect
void s_known(Ctx& c) {
  static const std::vector<std::string> E = {
      "field 1 a string trie_index field 2 b string empty \"x\"\"\" ngram [ a ]",
      "field 1 a string trie_index field 2 b string feature f = codepoint 1 feature m = match a with \"x\" then [ f ] else [ b ] ngram [ m ]",
      "field 1 a string trie_index field 2 l string_list feature m = match l with \"x\ny\" ngram [ a ] ngram [ m ]",
      "field 1 a string trie_index unk u template~row 1 : single family_others ngram [ a ]",
      "field 1 a string trie_index ngram [ a ]",
      "field 1 a string trie_index ngram [ a ] train a 99999999999999999999999999999999999999999999",
      "field 1 a string trie_index feature f = placeholder feature f = placeholder ngram [ a ]",
      "field 1 a string trie_index unk u template~row 1 : single kanji unk u template~row 2 : single kanji ngram [ a ]",
      "field 1 a string trie_index field 2 n int ngram [ a , n ] train a 1 , n 1",
  };
  int i = c.choose((int)E.size());
  Toks t = toks(E[i]);
  reportKnown = true;
  judge(c, t, i == 4 ? join(t, " ") + " # end" : text(t));
}
}  // namespace

int main(int argc, char** argv) {
  return mc::run(argc, argv, {
    {"damage", s_damage, "every deletion, duplication, swap, replacement and insertion (70 words) of a token of two specifications (thorough: also two deletions, duplications or swaps)"},
    {"cut", s_cut, "every beginning and end of two specifications x 7 ends of the text"},
    {"layout", s_layout, "every gap of two specifications x 12 white spaces and comments; letter case; no space"},
    {"strings", s_strings, "every string of up to 4 (thorough: 5) of 9 characters in 6 places"},
    {"texts", s_texts, "2-3 strings of up to 3 of 4 characters in 5 (thorough: 6) places of one text"},
    {"fields", s_fields, "every 1-2 (thorough: 3) fields of 4 types with 1-2 (thorough: 2) of 10 flags"},
    {"features", s_features, "every pair of 26 features with 3 names in 8 (thorough: 64) uses"},
    {"ngrams", s_ngrams, "every 1-2 (thorough: 3) ngrams of order 1-3 over 6 lists"},
    {"handlers", s_handlers, "7 handlers x 3 (thorough: 5) rows x 12 outputs, a second handler with 4 (12) outputs, 14 training losses"},
    {"bits", s_bits, "1 to 100 conditional features in 3 orders"},
    {"files", s_files, "8 files x 5 fields x 4 places"},
    {"known", s_known, "9 specifications, one for each known defect of the specification compiler and parser"},
  });
}
