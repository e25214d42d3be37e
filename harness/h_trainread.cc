// LIBS: v_mc v_train v_core v_util
// P32: annotated sentences in both formats against an independent reader of
// the formats; written corpora are read back; batches lose no sentence.
#include "core/dic/field_reader.h"
#include "core/training/full_example.h"
#include "core/training/trainer.h"
#include "core/training/training_env.h"
#include "tenv.h"
using mc::Ctx;
using namespace vt;
namespace tr = jumanpp::core::training;
namespace {
// fields of a specification: a is the surface
enum Kind { AB, BA, SHARED, NK };
const char* KN[] = {"surface first", "surface second", "shared storage, other empty value"};
struct TM {
  TrainModel m;
  input::TrainFieldsIndex idx;
  std::vector<std::string> names;         // in the order of the columns of a corpus
  std::vector<std::string> emptyVal;
  int surf;
};
const std::vector<std::string> SURF = {"a", "b", "ab", "あ", "#", ",", "\"", " ", "_", "x y", "a\"b", "# a", "EOS", "q\"\"r"};
TM& model(Ctx& c, int kind) {
  static TM tms[NK];
  TM& t = tms[kind];
  if (t.m.env) return t;
  std::string csv;
  int i = 0;
  static const std::string P[] = {"N", "x,y", "V", "\"", "a_b", "p q", "*", ""};
  csv += csvRow({"T", "T0", "T1"});
  for (auto& s : SURF) { csv += csvRow({s, P[i % 8], P[(i + 3) % 5]}); ++i; }
  Status s = t.m.make(c.scratch() + "/m", [&](dsl::ModelSpecBuilder& b) {
    auto& a = b.field(1, "a").strings().trieIndex();
    if (kind == SHARED) {
      auto& p = b.field(2, "p").strings().stringStorage(a).emptyValue("*");
      auto& r = b.field(3, "r").strings().stringStorage(a);
      b.unigram({a}); b.unigram({p}); b.unigram({r});
      b.train().field(a, 1.0f).field(p, 1.0f).field(r, 0.5f);
      t.names = {"a", "p", "r"};
      t.emptyVal = {"", "*", ""};
      t.surf = 0;
    } else {
      auto& p = b.field(2, "p").strings();
      b.unigram({a}); b.unigram({p});
      t.surf = kind == BA;
      t.emptyVal = {"", ""};
      if (kind == AB) { b.train().field(a, 1.0f).field(p, 1.0f); t.names = {"a", "p"}; }
      else { b.train().field(p, 1.0f).field(a, 1.0f); t.names = {"p", "a"}; }
    }
    b.unk("any", 1).single(chars::CharacterClass::FAMILY_ANYTHING).outputTo({a});
  }, csv);
  if (!s) c.fail("setup", "%s: %s", KN[kind], msg(s).c_str());
  s = t.idx.initialize(*t.m.env->coreHolder());
  if (!s) c.fail("setup", "%s: %s", KN[kind], msg(s).c_str());
  return t;
}

// ---- independent reader of the formats
struct Word { std::vector<std::string> f; };
struct Ex { std::vector<Word> words; std::string comment; bool hasComment = false; };
struct Row { std::string raw; std::vector<std::string> f; bool bad = false; };
// RFC 4180 with one line of fields; returns the position after the line
size_t rfcRow(const std::string& d, size_t p, char sep, Row* r) {
  size_t b = p;
  r->f.assign(1, "");
  r->bad = false;
  auto eolAt = [&](size_t q) -> size_t { return q < d.size() && d[q] == '\n' ? 1 : q + 1 < d.size() && d[q] == '\r' && d[q + 1] == '\n' ? 2 : 0; };
  for (;;) {
    if (p < d.size() && d[p] == '"') {
      ++p;
      for (;;) {
        if (p >= d.size()) { r->bad = true; return b; }
        if (d[p] == '"') {
          if (p + 1 < d.size() && d[p + 1] == '"') { r->f.back() += '"'; p += 2; continue; }
          ++p;
          break;
        }
        r->f.back() += d[p++];
      }
      if (p < d.size() && d[p] != sep && !eolAt(p)) { r->bad = true; return b; }
    } else {
      while (p < d.size() && d[p] != sep && !eolAt(p)) {
        if (d[p] == '"') { r->bad = true; return b; }
        r->f.back() += d[p++];
      }
    }
    if (p >= d.size()) { r->raw = d.substr(b); return p; }
    if (d[p] == sep) { ++p; r->f.emplace_back(); continue; }
    r->raw = d.substr(b, p - b);
    return p + eolAt(p);
  }
}
struct Parse {
  std::vector<Ex> ex;
  bool error = false;      // a malformed line follows these sentences
  bool may = false;        // .. it may also be taken for something else: nothing is demanded after it
};
Parse refCsv(const std::string& d, const TM& t) {
  Parse r;
  Ex cur;
  size_t p = 0;
  while (p < d.size()) {
    if (d.compare(p, 2, "# ") == 0 && d.find('"', p) < d.find('\n', p)) { r.may = true; return r; }
    Row row;
    size_t q = rfcRow(d, p, ',', &row);
    if (row.bad) { r.error = true; return r; }
    if (row.f.size() == 1 && (row.f[0].empty() || row.f[0] == "EOS")) {
      if (row.raw[0] == '"') { r.may = true; return r; }
      if (!cur.words.empty()) r.ex.push_back(cur);
      else if (cur.hasComment) { r.may = true; return r; }     // a comment of no sentence
      cur = Ex();
    } else if (row.raw.compare(0, 2, "# ") == 0) {
      cur.comment = row.raw.substr(2);
      cur.hasComment = true;
    } else {
      if (row.f.size() < t.names.size() || row.f[t.surf].empty()) { r.error = true; return r; }
      cur.words.push_back({row.f});
    }
    p = q;
  }
  if (!cur.words.empty()) r.ex.push_back(cur);
  return r;
}
Parse refMorph(const std::string& d, const TM& t) {
  Parse r;
  size_t p = 0;
  while (p < d.size()) {
    Row row;
    size_t q = rfcRow(d, p, ' ', &row);
    if (row.bad) { r.error = true; return r; }
    Ex cur;
    for (size_t i = 0; i < row.f.size(); ++i) {
      auto& tok = row.f[i];
      if (tok == "#") {
        cur.hasComment = true;
        for (size_t j = i + 1; j < row.f.size(); ++j) cur.comment += (j > i + 1 ? " " : "") + row.f[j];
        break;
      }
      if (tok.empty()) { r.may = true; return r; }
      Row w;
      size_t e = rfcRow(tok, 0, '_', &w);
      if (!w.bad && e < tok.size()) { r.error = true; return r; }      // a line break inside of a word
      if (!w.bad && w.raw.size() != tok.size()) { r.may = true; return r; }
      if (w.bad || w.f.size() < t.names.size() || w.f[t.surf].empty()) { r.error = true; return r; }
      cur.words.push_back({w.f});
    }
    if (!cur.words.empty()) r.ex.push_back(cur);
    p = q;
  }
  return r;
}
std::string stripComment(const std::string& s) {
  std::string r = s.compare(0, 2, "# ") == 0 ? s.substr(2) : s;
  if (!r.empty() && r.back() == '\r') r.pop_back();
  return r;
}
// a value of a field as the reader gave it
void checkValue(Ctx& c, const TM& t, const char* what, int col, i32 v, const std::string& want) {
  auto* f = t.m.env->coreHolder()->dic().fields().byName(sp(t.names[col]));
  bool empty = !t.emptyVal[col].empty() ? want == t.emptyVal[col] || want.empty() : want.empty();
  if (empty) {
    if (v != 0) c.fail("value", "%s: the empty value '%s' of %s is read as %d", what, want.c_str(), t.names[col].c_str(), v);
    return;
  }
  static std::map<const void*, std::map<std::string, i32>> all;
  auto& known = all[f];
  if (known.empty()) {
    dic::impl::StringStorageTraversal tr{f->strings};
    StringPiece x;
    while (tr.next(&x)) known[st(x)] = tr.position();
  }
  auto it = known.find(want);
  if (it == known.end()) {
    if (v >= 0) c.fail("value", "%s: %s '%s' is not in the dictionary, but is read as entry %d", what, t.names[col].c_str(), want.c_str(), v);
  } else if (v != it->second) {
    StringPiece x;
    std::string got = v >= 0 && f->strings.readAt(v, &x) ? st(x) : "an unknown string";
    c.fail("value", "%s: %s '%s' is read as %s (%d)", what, t.names[col].c_str(), want.c_str(), got.c_str(), v);
  }
}
size_t cps(const std::string& s) {
  size_t n = 0;
  for (unsigned char x : s) n += (x & 0xc0) != 0x80;
  return n;
}
void checkExample(Ctx& c, const TM& t, tr::FullyAnnotatedExample& e, const Ex& x, int no) {
  char what[60];
  std::string surf;
  for (auto& w : x.words) surf += w.f[t.surf];
  snprintf(what, sizeof what, "sentence %d", no);
  if (st(e.surface()) != surf) c.fail("surface", "%s reads as '%s', not '%s'", what, st(e.surface()).c_str(), surf.c_str());
  if (e.numNodes() != (int)x.words.size()) c.fail("words", "%s has %d words, not %zu", what, e.numNodes(), x.words.size());
  int pos = 0;
  for (int i = 0; i < e.numNodes(); ++i) {
    auto n = e.nodeAt(i);
    auto& w = x.words[i];
    snprintf(what, sizeof what, "sentence %d, word %d", no, i);
    if (n.data.size() != t.names.size()) c.fail("words", "%s has %zu values", what, (size_t)n.data.size());
    if (n.position != pos || n.length != (int)cps(w.f[t.surf])) c.fail("span", "%s is at %d+%d, not %d+%zu", what, n.position, n.length, pos, cps(w.f[t.surf]));
    pos += n.length;
    int unk = -1, nunk = 0;
    for (size_t k = 0; k < t.names.size(); ++k) {
      checkValue(c, t, what, k, n.data.at(k), w.f[k]);
      if (n.data.at(k) < 0) { unk = k; ++nunk; }
    }
    if (n.data.at(t.surf) < 0) { unk = t.surf; nunk = 1; }
    if (nunk == 1 && st(n.surface) != w.f[unk]) c.fail("unknown", "%s: unknown %s '%s' is kept as '%s'", what, t.names[unk].c_str(), w.f[unk].c_str(), st(n.surface).c_str());
  }
  if (stripComment(st(e.comment())) != stripComment(x.comment)) c.fail("comment", "sentence %d has comment '%s', not '%s'", no, st(e.comment()).c_str(), x.comment.c_str());
}
std::string esc(const std::string& s) {
  std::string r;
  for (char x : s) r += x == '\n' ? "\\n" : x == '\r' ? "\\r" : std::string(1, x);
  return r;
}
// reads everything, as training does, and compares
void compare(Ctx& c, TM& t, const std::string& d, const Parse& want, bool morph) {
  c.count();
  ExactBuf buf(d);
  tr::FullExampleReader rd;
  rd.setTrainingIo(&t.idx);
  Status s = morph ? rd.initDoubleCsv(buf.sp()) : rd.initCsv(buf.sp());
  if (!s) c.fail("setup", "init: %s", msg(s).c_str());
  size_t n = 0;
  tr::FullyAnnotatedExample last;
  // a batch holds many sentences at the same time: they must stay as they are
  std::vector<tr::FullyAnnotatedExample> kept(want.ex.size());
  bool err = false;
  std::string m;
  for (size_t step = 0;; ++step) {
    if (step > d.size() + 4) c.fail("end", "reading does not end");
    auto& e = n < kept.size() ? kept[n] : last;
    e.reset();
    s = rd.readFullExample(&e);
    if (!s) { err = true; m = msg(s); break; }
    if (rd.finished()) break;
    if (!e.numNodes()) continue;
    if (n >= want.ex.size()) {
      if (want.may) return;
      c.fail("extra", "sentence %zu '%s' was not written%s", n, st(e.surface()).c_str(), want.error ? " (a malformed line was)" : "");
    }
    checkExample(c, t, e, want.ex[n], n);
    ++n;
  }
  for (size_t i = 0; n > 1 && i < n; ++i) checkExample(c, t, kept[i], want.ex[i], i);
  if (n < want.ex.size()) c.fail("lost", "%zu of %zu sentences are read%s%s", n, want.ex.size(), err ? ": " : "", m.c_str());
  if (want.may) { c.sig("may"); return; }
  if (err && !want.error) c.fail("rejected", "error after %zu sentences: %s", n, m.c_str());
  if (!err && want.error) c.fail("accepted", "a malformed line after %zu sentences is not reported", n);
  c.sig(std::to_string(n) + " " + std::to_string(want.ex.empty() ? 0 : want.ex[0].words.size()) + (err ? m.substr(0, 20) : ""));
}
void raw(Ctx& c, bool morph) {
  static const std::vector<std::string> CSV = {"a", "u", ",", "\n", "\"", "# ", "EOS", "\r\n"};
  static const std::vector<std::string> MORPH = {"a", "u", "_", "\n", "\"", "#", " ", "\r\n"};
  auto& A = morph ? MORPH : CSV;
  TM& t = model(c, c.choose(2));
  int len = c.thorough() ? 7 : 6, tail = 4;
  std::vector<std::string> pre;
  int n = c.choose(len + 1);
  std::string head;
  for (int i = 0; i < n - tail; ++i) head += A[c.choose((int)A.size())];
  int k = std::min(n, tail), total = 1;
  for (int i = 0; i < k; ++i) total *= A.size();
  for (int x = 0; x < total; ++x) {
    std::string d = head;
    for (int i = 0, y = x; i < k; ++i, y /= A.size()) d += A[y % A.size()];
    c.note("%s, %s corpus '%s'", t.surf ? "surface second" : "surface first", morph ? "morph" : "csv", esc(d).c_str());
    compare(c, t, d, morph ? refMorph(d, t) : refCsv(d, t), morph);
  }
}
void s_csv(Ctx& c) { raw(c, false); }
void s_morph(Ctx& c) { raw(c, true); }

// values for which the formats have escapes
const std::vector<std::string> VAL = {"N", "x,y", "zz", "\"", "a\"\"", "*", "あ", "q q", "-", "p_q"};
std::string quote(const std::string& s, const std::string& special, bool always) {
  if (!always && s.find_first_of(special) == std::string::npos && !s.empty()) return s;
  std::string r = "\"";
  for (char x : s) { if (x == '"') r += '"'; r += x; }
  return r + "\"";
}
void s_written(Ctx& c) {
  int kind = c.choose(NK);
  TM& t = model(c, kind);
  bool morph = c.flag(), quoted = c.flag();
  int ns = 1 + c.choose(2), term = c.choose(4);
  static const std::vector<std::string> SV = {"a", "ab", "あ", "uu", "\"", "x y", "ん\"ん", ",", "ab\"\"c"};
  Parse want;
  std::string d;
  for (int i = 0; i < ns; ++i) {
    Ex e;
    int nw = 1 + c.choose(i == 0 ? 2 : 1);
    e.comment = std::vector<std::string>{"", "c 1"}[i == 0 ? c.choose(2) : 0];
    e.hasComment = !e.comment.empty();
    std::string line;
    for (int j = 0; j < nw; ++j) {
      Word w;
      for (size_t k = 0; k < t.names.size(); ++k)
        w.f.push_back((int)k == t.surf ? SV[i + j == 0 ? c.choose((int)SV.size()) : (c.choose(c.thorough() ? 3 : 1) * 3 + 1) % SV.size()] : k + 1 == t.names.size() && k > 1 ? VAL[c.choose(2) * 5] : VAL[i + j == 0 ? c.choose((int)VAL.size()) : c.choose(c.thorough() ? 3 : 2) * 3]);
      if (morph) {
        std::string x;
        for (size_t k = 0; k < w.f.size(); ++k) x += (k ? "_" : "") + quote(w.f[k], "_\"", false);
        line += (j ? " " : "") + quote(x, " \"\n", quoted);
      } else {
        for (size_t k = 0; k < w.f.size(); ++k) line += (k ? "," : "") + quote(w.f[k], ",\"\n", quoted);
        line += "\n";
      }
      e.words.push_back(w);
    }
    if (morph) {
      if (e.hasComment) line += " # " + e.comment;
      line += term & 1 ? "\r\n" : "\n";
    } else {
      if (e.hasComment) line = "# " + e.comment + "\n" + line;
      line += term & 1 ? "EOS\n" : "\n";
    }
    d += line;
    want.ex.push_back(e);
  }
  if (term & 2) {      // the last sentence has no terminator
    if (morph) d.resize(d.size() - (term & 1 ? 2 : 1));
    else d.resize(d.size() - (term & 1 ? 5 : 2));
  }
  c.note("%s, %s corpus '%s'", KN[kind], morph ? "morph" : "csv", esc(d).c_str());
  compare(c, t, d, want, morph);
}
// the batches of the trainer
void s_batches(Ctx& c) {
  int ns = c.choose(c.thorough() ? 7 : 5), batch = 1 + c.choose(3), passes = 1 + c.choose(2);
  bool morph = c.flag();
  int term = c.choose(3), gap = c.choose(2), bad = c.choose(4);
  TM& t = model(c, AB);
  std::string d;
  std::vector<std::string> want;
  for (int i = 0; i < ns; ++i) {
    std::string w = i % 3 == 2 ? "uu" : i % 3 ? "ab" : "a";
    if (morph) { d += w + "_N b_x" + "\n"; }
    else { if (gap && i) d += i & 1 ? "\n" : "EOS\n"; d += w + ",N\nb,x\n\n"; }
    want.push_back(w + "b");
  }
  if (morph && gap) c.discard();
  int lost = 0;
  if (bad == 1) { d += morph ? "a_\"N b_x\na_N\n" : "a,\"N\n\na,N\n\n"; }
  if (bad == 2) { d += morph ? "a_N b\na_N\n" : "a,N\nb\n\na,N\n\n"; }
  if (bad == 3) d += morph ? "_N b_x\n" : ",N\nb,x\n\n";    // a word without surface
  if (term == 1 && !d.empty()) d.pop_back();
  if (term == 2 && !d.empty()) { d.pop_back(); if (!morph) d.pop_back(); }
  c.note("%s corpus '%s', batches of %d, %d passes", morph ? "morph" : "csv", esc(d).c_str(), batch, passes);
  std::string f = c.scratch() + "/corpus";
  FILE* o = fopen(f.c_str(), "wb");
  fwrite(d.data(), 1, d.size(), o);
  fclose(o);
  tr::TrainingArguments args;
  args.batchSize = batch;
  args.numThreads = 1;
  args.trainingConfig.beamSize = 3;
  args.trainingConfig.featureNumberExponent = 6;
  args.trainingConfig.inputFormat = morph ? tr::InputFormat::Morph : tr::InputFormat::Csv;
  tr::TrainingEnv te(args, t.m.env.get());
  Status s = te.initOther();
  if (!s) c.fail("setup", "training: %s", msg(s).c_str());
  s = te.loadInput(sp(f));
  if (!s && d.empty()) { unlink(f.c_str()); return; }
  if (!s) c.fail("setup", "input: %s", msg(s).c_str());
  for (int p = 0; p < passes; ++p) {
    if (p) te.resetInput();
    std::vector<std::string> got;
    bool err = false;
    for (int step = 0;; ++step) {
      if (step > ns + 8) c.fail("end", "the batches do not end");
      s = te.readOneBatch();
      if (!s) { err = true; break; }
      te.prepareTrainers();
      if (te.numTrainers() <= 0) break;
      c.count();
      if (te.numTrainers() > batch) c.fail("batch", "a batch of %d holds %d sentences", batch, te.numTrainers());
      std::map<i64, std::string> byLine;
      for (int i = 0; i < te.numTrainers(); ++i) {
        auto* tn = dynamic_cast<tr::OwningFullTrainer*>(te.trainer(i));
        if (!tn) c.fail("batch", "a batch holds something else");
        auto& e = const_cast<tr::FullyAnnotatedExample&>(tn->trainer().example());
        if (!e.numNodes()) continue;
        if (!byLine.emplace(e.exampleInfo().line, st(e.surface())).second) c.fail("line", "two sentences of one line %lld", (long long)e.exampleInfo().line);
        Status q = tn->prepare();
        if (!q) c.fail("prepare", "sentence '%s' is rejected: %s", st(e.surface()).c_str(), msg(q).c_str());
      }
      for (auto& x : byLine) got.push_back(x.second);
    }
    if (bad && !err) c.fail("accepted", "pass %d: a malformed line is not reported", p);
    if (!bad && err) c.fail("rejected", "pass %d: %s", p, msg(s).c_str());
    // sentences of the batch with the error are not delivered
    if (err && got.size() < want.size() && want.size() - got.size() <= (size_t)batch) want.resize(got.size());
    if (got != want) c.fail("lost", "pass %d: %s are trained, not %s", p, join(got, " ").c_str(), join(want, " ").c_str());
    c.sig(std::to_string(got.size()) + std::to_string(err));
    if (err) break;
  }
  // the whole loop
  {
    te.resetInput();
    s = te.trainOneEpoch();
    c.sig(msg(s).substr(0, 30));
    if (bad && s) c.fail("epoch", "training does not report the malformed line");
    if (!s && !bad) c.fail("epoch", "training fails: %s", msg(s).c_str());
  }
  unlink(f.c_str());
}
}  // namespace
int main(int argc, char** argv) {
  return mc::run(argc, argv, {
    {"csv", s_csv, "every CSV corpus of up to 6 (thorough: 7) tokens over word characters, separator, line ends, quote, comment and EOS"},
    {"morph", s_morph, "every corpus in the morphological format of up to 6 (thorough: 7) tokens over word characters, separators, line ends, quote and comment"},
    {"written", s_written, "one or two written sentences of one or two words with 9 surfaces and 9 values, in 3 specifications, both formats, 4 ends"},
    {"batches", s_batches, "corpora of up to 4 (thorough: 6) sentences in batches of 1..3, read once or twice, with and without a final line end, with a malformed line"},
  });
}
