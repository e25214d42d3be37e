// P04 (and P16 at dictionary level): the built dictionary holds exactly the rows of its source.
// LIBS: v_mc v_core
#include "env.h"
#include <algorithm>
using namespace vt;
using mc::Ctx;

namespace {
struct Fld {
  int col;
  std::string name;
  char type;  // s l k i
  bool feature = false;
  std::string empty, lsep = " ", kvsep = ":";
  int align = 0;
  std::string storage;
};
struct Schema {
  std::string name;
  std::vector<Fld> f;   // f[trie] is the index field
  size_t trie = 0;
  int ncols = 0;
  bool unk = false;           // row 1 is an unknown word template
  std::vector<std::string> loss;  // training fields with weight 1 (empty: no training)
};

void makeSpec(const Schema& s, dsl::ModelSpecBuilder& b) {
  std::vector<dsl::FieldBuilder*> fb;
  for (size_t i = 0; i < s.f.size(); ++i) {
    auto& f = s.f[i];
    auto& x = b.field(f.col, f.name);
    if (f.type == 's') x.strings();
    if (f.type == 'l') x.stringLists();
    if (f.type == 'k') x.kvLists();
    if (f.type == 'i') x.integers();
    if (i == s.trie) x.trieIndex();
    if (!f.empty.empty()) x.emptyValue(f.empty);
    if (f.type == 'l' || f.type == 'k') x.listSeparator(f.lsep);
    if (f.type == 'k') x.kvSeparator(f.kvsep);
    if (f.align) x.align(f.align);
    fb.push_back(&x);
  }
  for (size_t i = 0; i < s.f.size(); ++i)
    if (!s.f[i].storage.empty())
      for (size_t j = 0; j < s.f.size(); ++j)
        if (s.f[j].name == s.f[i].storage) fb[i]->stringStorage(*fb[j]);
  std::vector<dsl::FeatureRef> refs;
  for (size_t i = 0; i < s.f.size(); ++i)
    if (s.f[i].feature) refs.push_back(dsl::FeatureRef{*fb[i]});
  b.unigram(refs);
  if (s.unk) {
    auto& ph = b.feature("ph").placeholder();
    b.unk("u", 1).single(chars::CharacterClass::FAMILY_OTHERS).writeFeatureTo(ph).outputTo({*fb[s.trie]});
    b.unigram({ph});
  }
  if (!s.loss.empty())
    for (auto& l : s.loss)
      for (size_t j = 0; j < s.f.size(); ++j)
        if (s.f[j].name == l) b.train().field(*fb[j], 1.0f);
}

std::vector<Schema> schemas() {
  std::vector<Schema> r;
  r.push_back({"all data", {{1, "a", 's', true}, {2, "b", 's'}, {3, "c", 'l'}, {4, "d", 'k'}, {5, "e", 'i'}}, 0, 5});
  r.push_back({"features", {{1, "a", 's', true}, {2, "b", 's', true}, {3, "c", 'l'}, {4, "d", 'k'}, {5, "e", 'i', true}}, 0, 5});
  r.push_back({"permuted columns, extra column",
               {{5, "e", 'i'}, {3, "d", 'k'}, {6, "b", 's', true}, {2, "a", 's', true}, {1, "c", 'l'}}, 3, 7});
  r.push_back({"empty values, separators",
               {{1, "a", 's', true}, {2, "b", 's', false, "*"}, {3, "c", 'l', false, "*", ";"}, {4, "d", 'k', false, "*", ";", "="}, {5, "e", 'i'}}, 0, 5});
  r.push_back({"shared storage",
               {{1, "a", 's', true}, {2, "b", 's', true, "*", " ", ":", 0, "a"}, {3, "c", 'l', false, "", " ", ":", 0, "a"}, {4, "d", 'k', false, "", " ", ":", 0, "b2"}, {5, "e", 'i'},
                {6, "b2", 's'}}, 0, 6});
  r.push_back({"aligned",
               {{1, "a", 's', true, "", " ", ":", 2}, {2, "b", 's', true, "", " ", ":", 5}, {3, "c", 'l', false, "", " ", ":", 3}, {4, "d", 'k', false, "", " ", ":", 1}, {5, "e", 'i'}}, 0, 5});
  r.push_back({"aligned shared, long separators",
               {{1, "a", 's', true, "", " ", ":", 4}, {2, "b", 's', false, "", " ", ":", 0, "a"}, {3, "c", 'l', false, "", "、", ":", 0, "a"}, {4, "d", 'k', false, "", "、", "->", 0, "a"}, {5, "e", 'i', true}}, 0, 5});
  {
    Schema s{"unk template", {{1, "a", 's', true}, {2, "b", 's'}, {3, "c", 'l'}, {4, "d", 'k'}, {5, "e", 'i'}}, 0, 5};
    s.unk = true;
    r.push_back(s);
  }
  {
    Schema s{"training loss", {{1, "a", 's', true}, {2, "b", 's', true}, {3, "c", 'l'}, {4, "d", 'k'}, {5, "e", 'i'}}, 0, 5};
    s.loss = {"a", "b"};
    r.push_back(s);
  }
  r.push_back({"only feature fields", {{1, "a", 's', true}, {2, "b", 's', true}, {5, "e", 'i', true}}, 0, 5});
  return r;
}
const std::vector<Schema>& SC() { static auto x = schemas(); return x; }

using Row = std::map<std::string, std::string>;  // field name -> source value

std::string text(const Schema& s, const std::vector<Row>& rows) {
  std::vector<std::vector<std::string>> t;
  for (auto& r : rows) {
    std::vector<std::string> v(s.ncols, "zz");
    for (auto& f : s.f) v[f.col - 1] = r.at(f.name);
    t.push_back(v);
  }
  return csvText(t);
}

std::string canonItems(std::vector<std::string> v) {
  std::sort(v.begin(), v.end());
  return join(v, "\x01");
}

// value of a field as it must read back
std::string expectVal(const Fld& f, const std::string& src) {
  if (f.type == 'i') {
    size_t z = src.find_first_not_of('0');
    return src.empty() || z == std::string::npos ? "0" : src.substr(z);
  }
  if (!f.empty.empty() && src == f.empty) return "";
  if (f.type == 's') return src;
  std::vector<std::string> it;
  for (auto& x : splitOn(src, f.lsep)) {
    if (x.empty()) continue;
    if (f.type == 'l') { it.push_back(x); continue; }
    size_t p = x.find(f.kvsep);
    it.push_back(p == std::string::npos ? x + "\x02" : x.substr(0, p) + "\x02" + x.substr(p + f.kvsep.size()));
  }
  return canonItems(it);
}

struct Readers {
  const Schema& s;
  OutputManager om;
  std::vector<StringField> sf;
  std::vector<StringListField> lf;
  std::vector<KVListField> kf;
  std::vector<IntField> nf;
  Readers(Ctx& c, const Schema& s, const dic::DictionaryHolder* h)
      : s(s), om{nullptr, h, nullptr}, sf(s.f.size()), lf(s.f.size()), kf(s.f.size()), nf(s.f.size()) {
    for (size_t i = 0; i < s.f.size(); ++i) {
      Status q = Status::Ok();
      switch (s.f[i].type) {
        case 's': q = om.stringField(s.f[i].name, &sf[i]); break;
        case 'l': q = om.stringListField(s.f[i].name, &lf[i]); break;
        case 'k': q = om.kvListField(s.f[i].name, &kf[i]); break;
        default: q = om.intField(s.f[i].name, &nf[i]);
      }
      if (!q) c.fail("field_lookup", "field %s: %s", s.f[i].name.c_str(), msg(q).c_str());
    }
  }
  Row read(Ctx& c, const NodeWalker& w) {
    Row r;
    for (size_t i = 0; i < s.f.size(); ++i) {
      auto& n = s.f[i].name;
      switch (s.f[i].type) {
        case 's': r[n] = st(sf[i][w]); break;
        case 'i': r[n] = std::to_string(nf[i][w]); break;
        case 'l': {
          std::vector<std::string> it;
          auto x = lf[i][w];
          StringPiece v;
          for (int k = 0;; ++k) {
            bool has = x.hasNext(), ok = x.next(&v);
            if (has != ok) c.fail("has_next", "list field %s: hasNext() tells %d, next() %d", n.c_str(), has, ok);
            if (!ok) break;
            if (k > 1000) c.fail("endless_list", "list field %s does not end", n.c_str());
            if (v.size()) it.push_back(st(v));
          }
          r[n] = canonItems(it);
          break;
        }
        case 'k': {
          std::vector<std::string> it;
          auto x = kf[i][w];
          for (int k = 0;; ++k) {
            bool has = x.hasNext(), ok = x.next();
            if (has != ok) c.fail("has_next", "list field %s: hasNext() tells %d, next() %d", n.c_str(), has, ok);
            if (!ok) break;
            if (k > 1000) c.fail("endless_list", "list field %s does not end", n.c_str());
            std::string kk = st(x.key()), vv = x.hasValue() ? st(x.value()) : std::string();
            if (kk.empty() && vv.empty() && !x.hasValue()) continue;
            it.push_back(kk + "\x02" + vv);
          }
          r[n] = canonItems(it);
          break;
        }
      }
    }
    return r;
  }
};

std::string show(const Row& r) {
  std::string o;
  for (auto& p : r) {
    o += p.first + "=[";
    for (char ch : p.second) o += ch == 1 ? std::string("|") : ch == 2 ? std::string("=>") : std::string(1, ch);
    o += "] ";
  }
  return o.size() > 700 ? o.substr(0, 700) + "..." : o;
}
std::string show(const std::vector<Row>& r) {
  std::string o;
  for (auto& x : r) o += "{" + show(x) + "} ";
  return o;
}

void dump(Ctx& c, Readers& rd, const dic::DoubleArrayTraversal& t, const dic::DictionaryEntries& de,
          const std::string& key, std::vector<Row>* out, const std::vector<unsigned char>& bytes) {
  for (unsigned char b : bytes) {
    auto t2 = t;
    char ch = (char)b;
    auto s = t2.step(StringPiece{&ch, &ch + 1});
    if (s == dic::TraverseStatus::NoNode) continue;
    std::string k2 = key + ch;
    if (k2.size() > 200) c.fail("endless_trie", "the index has keys longer than any surface");
    if (s == dic::TraverseStatus::Ok) {
      auto e = de.entryTraversal(t2);
      int cnt = e.count(), seen = 0;
      while (e.readOnePtr()) {
        ++seen;
        NodeWalker w = rd.om.nodeWalker();
        if (!rd.om.locate(e.currentPtr(), &w)) c.fail("locate", "cannot locate an entry of %s", k2.c_str());
        int rem = w.remaining(), got = 0;
        while (w.next()) {
          if (++got > 10000) c.fail("endless_entry", "walking an entry of %s does not end", k2.c_str());
          Row r = rd.read(c, w);
          r["\x7fkey"] = k2;
          out->push_back(r);
        }
        if (got != rem) c.fail("remaining", "entry of %s announces %d items, yields %d", k2.c_str(), rem, got);
      }
      if (cnt != seen) c.fail("entry_count", "%s announces %d entries, yields %d", k2.c_str(), cnt, seen);
    }
    dump(c, rd, t2, de, k2, out, bytes);
  }
}

const std::vector<unsigned char>& allBytes() {
  static std::vector<unsigned char> v = [] { std::vector<unsigned char> r; for (int i = 1; i < 256; ++i) r.push_back((unsigned char)i); return r; }();
  return v;
}

// the rows the index must hold
std::vector<Row> expected(const Schema& s, const std::vector<Row>& rows) {
  std::vector<Row> r;
  std::map<std::string, size_t> firstOf;
  for (size_t i = 0; i < rows.size(); ++i) {
    if (s.unk && i == 0) continue;
    Row e;
    for (auto& f : s.f) e[f.name] = expectVal(f, rows[i].at(f.name));
    if (!s.loss.empty()) {
      // documented: rows equal on the loss fields are one node; feature fields come from its first row
      std::string g;
      for (auto& l : s.loss) g += e[l] + "\x03";
      auto it = firstOf.emplace(g, r.size());
      if (!it.second)
        for (auto& f : s.f) if (f.feature) e[f.name] = r[it.first->second][f.name];
    }
    e["\x7fkey"] = e[s.f[s.trie].name];
    r.push_back(e);
  }
  return r;
}

void compare(Ctx& c, const Schema& s, const std::vector<Row>& rows, Model& m, const std::vector<unsigned char>& bytes) {
  Readers rd(c, s, &m.holder);
  std::vector<Row> got;
  auto de = m.holder.entries();
  dump(c, rd, de.doubleArrayTraversal(), de, "", &got, bytes);
  auto want = expected(s, rows);
  c.count(want.size());
  std::string g = show(got);
  c.sig(g);
  auto gs = got, ws = want;
  std::sort(gs.begin(), gs.end());
  std::sort(ws.begin(), ws.end());
  if (gs != ws) c.fail("rows", "dictionary holds %s instead of %s", show(got).c_str(), show(want).c_str());
  if (m.builder.result().entryCount != (i32)want.size())
    c.fail("entryCount", "dictionary reports %d entries, source has %d", (int)m.builder.result().entryCount, (int)want.size());
  if (s.unk) {
    auto& u = m.spec().unkCreators.at(0);
    NodeWalker w = rd.om.nodeWalker();
    if (u.patternPtr < 0 || !rd.om.locate(EntryPtr{u.patternPtr}, &w) || !w.next()) c.fail("template", "template row is not stored");
    Row r = rd.read(c, w), e;
    for (auto& f : s.f) e[f.name] = expectVal(f, rows[0].at(f.name));
    if (r != e) c.fail("template", "template row reads %s instead of %s", show(r).c_str(), show(e).c_str());
  }
}

void run(Ctx& c, const Schema& s, const std::vector<Row>& rows, const std::vector<unsigned char>& bytes = allBytes()) {
  std::string csv = text(s, rows);
  c.note("%s: %s", s.name.c_str(), csv.substr(0, 1500).c_str());
  Model m;
  Status q = m.specOnly([&](dsl::ModelSpecBuilder& b) { makeSpec(s, b); });
  if (!q) c.fail("spec", "%s", msg(q).c_str());
  {
    ExactBuf e(csv);
    q = m.dicOnly(e.sp());
  }
  if (!q) c.fail("build", "valid dictionary refused: %s", msg(q).c_str());
  compare(c, s, rows, m, bytes);
}

const std::vector<std::string> STR = {"", "x", "*", "あ", "a\"b", "p,q", " ", "l\nm", "xyzzy-long-value", "あい;う、え", "k:v", "0"};
const std::vector<std::string> LST = {"", "x", "*", "x y", "y x", "x x", "あ い う", "x;y", "あ、い", " x", "x ", "a:b c", "\"q\"", "x  y"};
const std::vector<std::string> KV = {"", "k:v", "k", "*", "k:", "k:v k2:v2", "k2:v k", "k:v k:w", "k:v:w", "k->v、m->n", "k=v;m=n;o", "a:b  c", "m n:o p", "v:k k:v"};
const std::vector<std::string> INTS = {"", "0", "1", "127", "128", "16384", "2147483647", "007"};

const std::vector<std::string>& valsOf(char t) { return t == 's' ? STR : t == 'l' ? LST : t == 'k' ? KV : INTS; }

Row base(const Schema& s, const std::string& surf) {
  Row r;
  for (auto& f : s.f) r[f.name] = f.type == 's' ? "x" : f.type == 'l' ? "x" : f.type == 'k' ? "k:v" : "1";
  r[s.f[s.trie].name] = surf;
  return r;
}

// every pair of field values in one row, between two ordinary rows
void s_values(Ctx& c) {
  auto& s = c.pick(SC());
  auto& f1 = s.f[c.choose((int)s.f.size())];
  auto& f2 = s.f[c.choose((int)s.f.size())];
  if (f1.col >= f2.col) c.discard();
  auto& t = s.f[s.trie];
  std::vector<Row> rows;
  if (s.unk) rows.push_back(base(s, "T"));
  int nb = c.choose(c.thorough() ? 6 : 3);  // neighbours: before, after
  if (nb == 1 || nb >= 4) rows.push_back(base(s, "か"));
  Row r = base(s, "う");
  r[f1.name] = c.pick(valsOf(f1.type));
  r[f2.name] = c.pick(valsOf(f2.type));
  if (r[t.name].empty()) c.discard();
  rows.push_back(r);
  if (nb == 1 || nb == 3 || nb == 5) rows.push_back(base(s, "うか"));
  if (nb == 2 || nb == 4) rows.push_back(base(s, "う"));
  run(c, s, rows, allBytes());
}

// two rows after one another: nothing of the first row (or of the memory it was parsed into) may get into the second
void s_follow(Ctx& c) {
  static const std::vector<std::string> fs = {"x", "a\"b", "b\"a", "\"ab", "p,q", "q,p", "l\nm", ""};
  static const std::vector<std::string> fl = {"x", "a\" b", "b\" a", "x \"y", "y \"x", "x,y", "y,x", "x y", ""};
  static const std::vector<std::string> fk = {"k:v", "k:\"v", "v:\"k", "k\":v", "k:v \"l", "l:v \"k", "k,v", "v,k", ""};
  static const std::vector<std::string> fi = {"1", "7", "10", ""};
  auto& s = c.pick(SC());
  auto& f = s.f[c.choose((int)s.f.size())];
  auto& vals = f.type == 's' ? fs : f.type == 'l' ? fl : f.type == 'k' ? fk : fi;
  auto& t = s.f[s.trie];
  std::vector<Row> rows;
  if (s.unk) rows.push_back(base(s, "T"));
  const char* keys[] = {"う", "え", "う"};
  int n = c.thorough() ? 3 : 2;
  bool quotedOther = c.flag();  // an escaped field in front of it moves it within the memory
  for (int i = 0; i < n; ++i) {
    Row r = base(s, keys[i]);
    if (quotedOther)
      for (auto& o : s.f) if (&o != &f && &o != &t && o.type == 's') r[o.name] = i ? "h\"" : "ij\"";
    r[f.name] = c.pick(vals);
    if (r[t.name].empty()) c.discard();
    rows.push_back(r);
  }
  run(c, s, rows, allBytes());
}

// several rows, homographs, equal rows
void s_rows(Ctx& c) {
  auto& s = c.pick(SC());
  int n = c.range(1, c.thorough() ? 4 : 3);
  static const std::vector<std::string> surf = {"う", "うか", "x"};
  static const std::vector<std::string> b = {"x", ""};
  static const std::vector<std::string> l = {"x y", "y"};
  static const std::vector<std::string> k = {"k:v", "k"};
  std::vector<Row> rows;
  for (int i = 0; i < n; ++i) {
    Row r;
    for (auto& f : s.f) r[f.name] = "1";
    r[s.f[s.trie].name] = c.pick(surf);
    int v = c.choose(4);
    for (auto& f : s.f) {
      if (&f == &s.f[s.trie]) continue;
      if (f.type == 's') r[f.name] = b[v & 1];
      if (f.type == 'l') r[f.name] = l[v >> 1];
      if (f.type == 'k') r[f.name] = k[(v >> 1) ^ (v & 1)];
      if (f.type == 'i') r[f.name] = v >> 1 ? "1" : "5";
    }
    rows.push_back(r);
  }
  if (s.unk && rows.size() < 2) c.discard();
  static const std::vector<unsigned char> bytes = [] {
    std::set<unsigned char> x;
    for (auto& q : surf) for (unsigned char ch : q) x.insert(ch);
    x.insert('a');
    return std::vector<unsigned char>(x.begin(), x.end());
  }();
  run(c, s, rows, bytes);
}

// all small sets of surfaces: the index holds them and nothing else
void s_index(Ctx& c) {
  static const Schema s{"index", {{1, "a", 's', true}, {2, "b", 's'}}, 0, 2};
  static const std::vector<std::string> keys = [] {
    std::vector<std::string> r, al = {"a", "あ", "い", "\xc2\x80", "\xf0\x9f\x98\x80"};
    for (auto& x : al) r.push_back(x);
    for (auto& x : al) for (auto& y : al) r.push_back(x + y);
    for (auto& x : al) for (auto& y : al) if (x == "a" || y == "い") { r.push_back(x + y + "a"); r.push_back(x + y + "い"); }
    return r;
  }();
  int n = c.range(1, c.thorough() ? 4 : 3);
  std::vector<int> ix;
  std::vector<Row> rows;
  for (int i = 0; i < n; ++i) {
    int lo = ix.empty() ? 0 : ix.back() + 1;
    if (lo >= (int)keys.size()) c.discard();
    ix.push_back(c.range(lo, (int)keys.size() - 1));
    rows.push_back({{"a", keys[ix.back()]}, {"b", std::to_string(ix.back())}});
  }
  static const std::vector<unsigned char> bytes = [] {
    std::set<unsigned char> x;
    for (auto& q : keys) for (unsigned char ch : q) x.insert(ch);
    return std::vector<unsigned char>(x.begin(), x.end());
  }();
  run(c, s, rows, bytes);
}

// many entries, long values
void s_large(Ctx& c) {
  auto& s = c.pick(SC());
  int kind = c.choose(6);
  std::vector<Row> rows;
  if (s.unk) rows.push_back(base(s, "T"));
  auto& t = s.f[s.trie];
  bool mayRefuse = false;
  if (kind == 0) {         // all words over 3 characters up to length 6
    static const char* al[] = {"a", "い", "b"};
    std::vector<std::string> lv = {""};
    for (int d = 0; d < 6; ++d) {
      std::vector<std::string> nx;
      for (auto& x : lv) for (auto y : al) { nx.push_back(x + y); rows.push_back(base(s, x + y)); }
      lv = nx;
    }
    for (size_t i = 0; i < rows.size(); ++i)
      for (auto& f : s.f) if (f.type == 'i') rows[i][f.name] = std::to_string(i);
  } else if (kind == 1) {  // 3000 homographs
    for (int i = 0; i < 3000; ++i) {
      Row r = base(s, "う");
      for (auto& f : s.f) {
        if (&f == &t) continue;
        if (f.type == 's') r[f.name] = "v" + std::to_string(i % 700);
        if (f.type == 'i') r[f.name] = std::to_string(i);
        if (f.type == 'l') r[f.name] = "w" + std::to_string(i % 300) + f.lsep + "z" + std::to_string(i % 7);
        if (f.type == 'k') r[f.name] = "k" + std::to_string(i % 300) + f.kvsep + std::to_string(i % 7) + f.lsep + "z";
      }
      rows.push_back(r);
    }
  } else {                 // one very long value in each field type
    char ty = "slki"[kind - 2];
    static const size_t lens[] = {127, 128, 16383, 16384, 70000, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, (1 << 20) + 70000};
    size_t len = c.pick(lens);
    int fi = -1;
    for (size_t i = 0; i < s.f.size(); ++i) if (s.f[i].type == ty && i != s.trie) fi = (int)i;
    if (fi < 0) c.discard();
    rows.push_back(base(s, "う"));
    Row r = base(s, "か");
    std::string v(len, 'q');
    if (ty == 'i') v = std::string(std::min<size_t>(len, 200), '0') + "7";
    if (ty == 'k') v = c.flag() ? "key" + s.f[fi].kvsep + v : v + s.f[fi].kvsep + "val";
    r[s.f[fi].name] = v;
    rows.push_back(r);
    mayRefuse = len > 60000;
  }
  std::string csv = text(s, rows);
  c.note("%s: kind %d, %d bytes", s.name.c_str(), kind, (int)csv.size());
  Model m;
  Status q = m.specOnly([&](dsl::ModelSpecBuilder& b) { makeSpec(s, b); });
  if (!q) c.fail("spec", "%s", msg(q).c_str());
  {
    ExactBuf e(csv);
    q = m.dicOnly(e.sp());
  }
  c.sig(q ? 1 : 0);
  if (!q && mayRefuse) return;
  if (!q) c.fail("build", "valid dictionary refused: %s", msg(q).c_str());
  compare(c, s, rows, m, allBytes());
}

// rows that cannot be represented
void s_refused(Ctx& c) {
  auto& s = c.pick(SC());
  int kind = c.choose(4);
  std::vector<Row> rows = {base(s, "う"), base(s, "か"), base(s, "き")};
  int bad = c.choose(3);
  std::string csv;
  if (kind == 0) {  // too few columns
    int maxCol = 0;
    for (auto& f : s.f) maxCol = std::max(maxCol, f.col);
    int keep = c.range(1, maxCol - 1);
    for (int i = 0; i < 3; ++i) {
      std::vector<std::string> v(s.ncols, "zz");
      for (auto& f : s.f) v[f.col - 1] = rows[i][f.name];
      if (i == bad) v.resize(keep);
      csv += csvRow(v);
    }
  } else {
    static const std::vector<std::string> badInt = {"x", "1x", "x1", "-", "1 ", " 1", "2147483648", "4294967295", "4294967296",
                                                    "99999999999999999999999", "1.5", "0x10", "d", "1\n"};
    std::string fi;
    for (auto& f : s.f) if (f.type == 'i') fi = f.name;
    if (fi.empty()) c.discard();
    rows[bad][fi] = c.pick(badInt);
    if (kind >= 2) {
      if (kind == 3) c.discard();
      // the bad value stands at the very end of the text
      csv = text(s, rows);
      while (!csv.empty() && csv.back() == '\n') csv.pop_back();
    } else csv = text(s, rows);
  }
  c.note("%s: %s", s.name.c_str(), csv.c_str());
  Model m;
  Status q = m.specOnly([&](dsl::ModelSpecBuilder& b) { makeSpec(s, b); });
  if (!q) c.fail("spec", "%s", msg(q).c_str());
  ExactBuf e(csv);
  q = m.dicOnly(e.sp());
  c.sig(msg(q));
  if (q) c.fail("accepted", "dictionary row which cannot be represented was accepted");
}

// rows which are not well-formed CSV: nothing may be dropped silently
void s_malformed(Ctx& c) {
  auto& s = c.pick(SC());
  static const std::vector<std::string> surf = {"う", "か", "き", "く"};
  int n = c.range(1, 4), bad = c.choose(n);
  int col = c.choose(s.ncols);
  static const std::vector<std::string> wrong = {"\"", "\"a", "a\"", "a\"b", "a\"b\"", "\"a\"b", "\"a\" ", " \"a\"", "\"a\"b\"", "\"a\"\"", "\"\"\"", "\"a\nb"};
  std::string w = c.pick(wrong);
  bool ctl = c.flag();  // the same rows with the damaged field quoted properly: must be accepted when the field takes it
  std::string csv;
  for (int i = 0; i < n; ++i) {
    Row r = base(s, surf[i]);
    std::vector<std::string> v(s.ncols, "zz");
    for (auto& f : s.f) v[f.col - 1] = r[f.name];
    if (i != bad) { csv += csvRow(v); continue; }
    for (int k = 0; k < s.ncols; ++k) {
      if (k) csv += ',';
      std::string one = csvRow({v[k]});
      one.pop_back();
      csv += k == col && !ctl ? w : one;
    }
    csv += "\n";
  }
  bool cut = c.flag();
  if (cut) csv.pop_back();
  c.note("%s: %s", s.name.c_str(), csv.c_str());
  Model m;
  Status q = m.specOnly([&](dsl::ModelSpecBuilder& b) { makeSpec(s, b); });
  if (!q) c.fail("spec", "%s", msg(q).c_str());
  ExactBuf e(csv);
  q = m.dicOnly(e.sp());
  c.sig(msg(q));
  if (ctl) {
    if (!q) c.fail("build", "valid dictionary refused: %s", msg(q).c_str());
    return;
  }
  // a lone unclosed quote may also swallow later rows, which is malformed too
  if (q) c.fail("malformed", "dictionary with a malformed row was accepted (row %d of %d, %s)", bad + 1, n, w.c_str());
}

// an integer at the end of the text must be read inside it
void s_int_end(Ctx& c) {
  static const Schema s{"int last", {{1, "a", 's', true}, {2, "e", 'i'}}, 0, 2};
  std::string v = c.pick(INTS);
  std::string csv = "う," + v;
  int nl = c.choose(3);
  csv += nl == 0 ? "" : nl == 1 ? "\n" : "\r\n";
  if (c.flag()) csv = "か,5\n" + csv;
  std::vector<Row> rows;
  if (csv.find("か") == 0) rows.push_back({{"a", "か"}, {"e", "5"}});
  rows.push_back({{"a", "う"}, {"e", v}});
  c.note("%s", csv.c_str());
  Model m;
  Status q = m.specOnly([&](dsl::ModelSpecBuilder& b) { makeSpec(s, b); });
  if (!q) c.fail("spec", "%s", msg(q).c_str());
  ExactBuf e(csv);
  q = m.dicOnly(e.sp());
  if (!q) c.fail("build", "valid dictionary refused: %s", msg(q).c_str());
  compare(c, s, rows, m, allBytes());
}
}  // namespace

int main(int argc, char** argv) {
  return mc::run(argc, argv,
                 {{"values", s_values, "10 schemas x every pair of fields x every pair of values (12 strings, 14 lists, 14 key-value lists, 8 integers) x neighbours"},
                  {"follow", s_follow, "10 schemas x every field x every sequence of 2 (3) of its <=9 values (quotes, separators, newlines in them) in consecutive rows"},
                  {"rows", s_rows, "10 schemas x every sequence of <=3 (4) rows over 3 surfaces x 4 value combinations"},
                  {"index", s_index, "every set of <=3 (4) of 48 surfaces (multi-byte, nested prefixes), whole index walked"},
                  {"large", s_large, "10 schemas x {1092 words, 3000 homographs, values of length up to 1 MB + 70000}"},
                  {"refused", s_refused, "10 schemas x missing columns / 14 malformed integers x row position"},
                  {"malformed", s_malformed, "10 schemas x 12 malformed quotings x every column x every row of <=4"},
                  {"int_end", s_int_end, "integer fields at the very end of the text"}});
}
