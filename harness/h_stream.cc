// LIBS: v_mc v_jumandic v_jspec v_core v_util v_pathie
// P25: the main program (its real main function, called in this process) on
// every small stream of lines and every small list of input files; its output
// is compared with the concatenation of what the analyzer gives for each
// sentence alone.
#include <sys/stat.h>
#include <fstream>
#include <iostream>
#include <sstream>
#define main jumanpp_main
#include "jumandic/main/jumanpp.cc"
#undef main
#include "jenv.h"
#include "mc.h"
using mc::Ctx;
using namespace vt;
namespace jd = jumanpp::jumandic;
namespace {
struct Endless {};
// keeps what is written; more than the limit means the program does not end
struct Sink : std::streambuf {
  std::string data;
  size_t limit = 1 << 20;
  int overflow(int c) override { add((char)c); return c; }
  std::streamsize xsputn(const char* p, std::streamsize n) override { for (std::streamsize i = 0; i < n; ++i) add(p[i]); return n; }
  void add(char c) { if (data.size() > limit) throw Endless{}; data += c; }
};
struct RunRes { int code; std::string out, err; };
RunRes runMain(Ctx& c, std::vector<std::string> args, const std::string& in) {
  args.insert(args.begin(), "jumanpp");
  std::vector<const char*> av;
  for (auto& a : args) av.push_back(a.c_str());
  Sink so, se;
  std::stringbuf si(in, std::ios::in);
  auto* o = std::cout.rdbuf(&so);
  auto* e = std::cerr.rdbuf(&se);
  auto* i = std::cin.rdbuf(&si);
  std::cin.clear();
  std::cout.clear();
  std::cerr.clear();
  std::cout.exceptions(std::ios::badbit);
  std::cerr.exceptions(std::ios::badbit);
  RunRes r{-1, "", ""};
  bool endless = false;
  try { r.code = jumanpp_main((int)av.size(), av.data()); }
  catch (Endless&) { endless = true; }
  std::cout.exceptions(std::ios::goodbit);
  std::cerr.exceptions(std::ios::goodbit);
  std::cout.rdbuf(o);
  std::cerr.rdbuf(e);
  std::cin.rdbuf(i);
  if (endless) c.fail("endless", "the program does not stop: %s", se.data.substr(0, 100).c_str());
  r.out = so.data;
  r.err = se.data;
  return r;
}
struct Fmt { const char* name; std::vector<std::string> args; jd::OutputType type; int n; };
const std::vector<Fmt>& formats() {
  using T = jd::OutputType;
  static const std::vector<Fmt> f = {
      {"juman", {}, T::Juman, 1}, {"segment", {"--segment"}, T::Segmentation, 1}, {"lattice", {"-L", "2"}, T::Lattice, 2},
      {"morph", {"-M"}, T::Morph, 1}, {"full-morph", {"-F"}, T::FullMorph, 1}, {"dic-subset", {"--dic-subset"}, T::DicSubset, 1},
      {"juman-pb", {"--format=juman-pb"}, T::JumanPb, 1}, {"lattice-pb", {"--format=lattice-pb"}, T::LatticePb, 1},
      {"lattice-dump", {"--format=lattice-dump"}, T::FullLatticeDump, 1}};
  return f;
}
const std::string& modelFile(Ctx& c) {
  static std::string f;
  if (f.empty()) {
    f = c.scratch() + "/stream-model";
    JModel m;
    Status s = m.write(f);
    if (!s) c.fail("setup", "%s", msg(s).c_str());
    setenv("HOME", c.scratch().c_str(), 1);
  }
  return f;
}
// a sentence of the stream
struct Sent {
  std::string text, comment;
  bool pex = false;
  bool tooLong = false;   // rejected before analysis
  bool dangling = false;  // no text follows the comment
};
// what one sentence alone gives
std::string block(Ctx& c, const Fmt& f, const Sent& s) {
  static std::map<std::string, std::unique_ptr<jd::JumanppExec>> ex;
  static std::map<std::string, std::string> memo;
  std::string key = std::string(f.name) + (s.pex ? "|p|" : "|r|") + (s.tooLong ? "L" : s.text + "|" + s.comment);
  auto it = memo.find(key);
  if (it != memo.end()) return it->second;
  auto& e = ex[f.name];
  if (!e) {
    jd::JumanppConf cf;
    cf.modelFile = modelFile(c);
    cf.outputType = f.type;
    cf.beamOutput = f.n;
    e.reset(new jd::JumanppExec(cf));
    Status q = e->init();
    if (!q) c.fail("setup", "exec: %s", msg(q).c_str());
  }
  std::string r;
  bool bad = s.tooLong;
  if (!bad && s.pex) {
    jumanpp::core::input::PexStreamReader rd;
    std::istringstream in(s.text);
    Status q = rd.initialize(e->core());
    if (!q) c.fail("setup", "reader: %s", msg(q).c_str());
    q = rd.readExample(&in);
    if (q) q = rd.analyzeWith(e->analyzerPtr());
    if (q) q = e->format()->format(*e->analyzerPtr(), rd.comment());
    bad = !q;
    if (q) r = st(e->output());
  } else if (!bad) {
    Status q = e->analyze(sp(s.text), sp(s.comment));
    bad = !q;
    if (q) r = st(e->output());
  }
  if (bad) r = st(e->emptyResult());
  if (r.empty()) c.fail("noblock", "%s: no output for '%s'", f.name, s.text.substr(0, 30).c_str());
  if (!bad && (f.type == jd::OutputType::Juman || f.type == jd::OutputType::Lattice)) {
    std::string want = s.comment.empty() ? "" : "# " + s.comment + "\n";
    std::string first = r.substr(0, r.find('\n') + 1);
    if (!want.empty() && first != want) c.fail("comment", "'%s' gives '%s'", s.comment.c_str(), first.c_str());
    if (want.empty() && first.compare(0, 2, "# ") == 0 && s.text.find("#") == std::string::npos && f.type == jd::OutputType::Juman) c.fail("comment", "'%s' without comment gives '%s'", s.text.c_str(), first.c_str());
  }
  if (bad && r.find("EOS\n") == std::string::npos && (f.type == jd::OutputType::Juman || f.type == jd::OutputType::Lattice)) c.fail("noblock", "the error block of %s is not ended", f.name);
  return memo[key] = r;
}
std::vector<std::string> linesOf(const std::string& s) {
  auto r = splitOn(s, "\n");
  if (!r.empty() && r.back().empty()) r.pop_back();
  return r;
}
void addRaw(std::vector<Sent>& out, const std::string& data) {
  std::string cm;
  bool has = false;
  for (auto& l : linesOf(data)) {
    if (l.size() > 2 && l.compare(0, 2, "# ") == 0) { cm = l.substr(2); has = true; continue; }
    Sent s;
    s.text = l;
    s.comment = cm;
    s.tooLong = l.size() > 65535 || cm.size() > 1022;
    out.push_back(s);
    cm.clear();
    has = false;
  }
  if (has) { Sent s; s.comment = cm; s.tooLong = cm.size() > 1022; s.dangling = true; out.push_back(s); }
}
void addPex(std::vector<Sent>& out, const std::string& data) {
  std::string cur;
  bool text = false;
  for (auto& l : linesOf(data)) {
    if (!l.empty()) { cur += l + "\n"; text |= l.size() <= 2 || l.compare(0, 2, "# "); continue; }
    Sent s; s.pex = true; s.text = cur;
    out.push_back(s);
    cur.clear();
    text = false;
  }
  if (!cur.empty()) { Sent s; s.pex = true; s.text = cur; s.dangling = !text; out.push_back(s); }
}
std::string esc(const std::string& s) {
  std::string r;
  for (char x : s) r += x == '\n' ? "\\n" : x == '\t' ? "\\t" : std::string(1, x);
  return r.size() > 200 ? r.substr(0, 150) + "..." + std::to_string(r.size()) : r;
}
void compare(Ctx& c, const Fmt& f, const std::vector<Sent>& ss, const RunRes& r, const std::string& what) {
  std::vector<int> dang;
  for (size_t i = 0; i < ss.size(); ++i) if (ss[i].dangling) dang.push_back(i);
  std::string first;
  for (int m = 0; m < (1 << dang.size()); ++m) {
    std::string want;
    for (size_t i = 0, k = 0; i < ss.size(); ++i) {
      if (ss[i].dangling && (m >> k++ & 1)) continue;
      want += block(c, f, ss[i]);
    }
    if (want == r.out) { c.sig(r.out); return; }
    if (!m) first = want;
  }
  size_t p = 0;
  while (p < first.size() && p < r.out.size() && first[p] == r.out[p]) ++p;
  size_t b = p > 30 ? p - 30 : 0;
  c.fail("output", "%s (%s): expected %zu bytes, got %zu; at %zu '%s' instead of '%s'", what.c_str(), f.name, first.size(), r.out.size(), p,
         esc(r.out.substr(b, 100)).c_str(), esc(first.substr(b, 100)).c_str());
}
void one(Ctx& c, const Fmt& f, bool pex, const std::string& data, int src) {
  std::string what = "'" + esc(data) + "'" + (src == 1 ? " in a file" : src == 2 ? " written to a file" : "");
  c.note("%s, %s%s", what.c_str(), f.name, pex ? ", partial" : "");
  c.count();
  std::vector<std::string> a = {"--model=" + modelFile(c)};
  a.insert(a.end(), f.args.begin(), f.args.end());
  if (pex) a.push_back("--partial-input");
  std::string in = c.scratch() + "/in", out = c.scratch() + "/out";
  if (src == 1) { std::ofstream(in, std::ios::binary) << data; a.push_back(in); }
  if (src == 2) a.push_back("--output=" + out);
  RunRes r = runMain(c, a, src == 1 ? std::string("stdin must not be read\n") : data);
  if (src == 2) {
    if (!r.out.empty()) c.fail("output", "%s: '%s' is written to stdout", what.c_str(), r.out.c_str());
    std::ifstream i(out, std::ios::binary);
    std::stringstream b; b << i.rdbuf();
    r.out = b.str();
    unlink(out.c_str());
  }
  std::vector<Sent> ss;
  pex ? addPex(ss, data) : addRaw(ss, data);
  compare(c, f, ss, r, what);
}
const std::vector<std::string>& lines() {
  static const std::vector<std::string> l = {"", "水", "書くは", "# c", "# dd", "a\xff", "#", "# ", std::string(4100, 'a'), "# " + std::string(1025, 'c'), std::string(65540, 'a'), "# \xff", "\r"};
  return l;
}
void s_lines(Ctx& c) {
  auto& L = lines();
  int n = c.choose(c.thorough() ? 5 : 4);
  std::string d;
  for (int i = 0; i < n; ++i) d += L[n > 3 ? c.choose(11) : c.choose((int)L.size())] + "\n";
  if (n && c.flag()) d.resize(d.size() - 1);
  one(c, formats()[0], false, d, c.choose(2));
}
void s_formats(Ctx& c) {
  auto& L = lines();
  const Fmt& f = formats()[c.choose((int)formats().size())];
  int n = c.choose(c.thorough() ? 4 : 3);
  std::string d;
  for (int i = 0; i < n; ++i) d += L[c.choose((int)L.size())] + "\n";
  one(c, f, false, d, c.choose(3));
}
void s_partial(Ctx& c) {
  static const std::vector<std::string> P = {"水\n", "\t水\tpos:名詞\n", "書&く\n", "\t\n", "x\ty\n", "# c\n水\n", "a\xff\n", "", "# d\n", "\t水\tnone:1\n", "水\n書く\n"};
  const Fmt& f = formats()[c.choose(c.thorough() ? 4 : 3)];
  int n = c.choose(4);
  std::string d;
  for (int i = 0; i < n; ++i) d += P[c.choose((int)P.size())] + "\n";
  int cut = n ? c.choose(3) : 0;
  for (int i = 0; i < cut && !d.empty() && d.back() == '\n'; ++i) d.resize(d.size() - 1);
  one(c, f, true, d, c.choose(2));
}
// every list of input files
void s_files(Ctx& c) {
  static const std::vector<std::string> F = {"<missing>", "<directory>", "", "水\n", "書く", "# c\n", "# d\n水\n", "a\xff\n", "\n", "水\n\n", "書く\n# e"};
  const Fmt& f = formats()[c.choose(c.thorough() ? 3 : 2)];
  int n = 1 + c.choose(3);
  std::vector<std::string> a = {"--model=" + modelFile(c)};
  a.insert(a.end(), f.args.begin(), f.args.end());
  std::vector<Sent> ss;
  std::string what;
  bool bad0 = false;
  for (int i = 0; i < n; ++i) {
    int k = c.choose((int)F.size());
    std::string fn = c.scratch() + "/f" + std::to_string(i);
    unlink(fn.c_str());
    rmdir(fn.c_str());
    what += "[" + esc(F[k]) + "]";
    if (k == 1) mkdir(fn.c_str(), 0755);
    if (k >= 2) { std::ofstream(fn, std::ios::binary) << F[k]; addRaw(ss, F[k]); }
    if (k < 2 && i == 0) bad0 = true;
    a.push_back(fn);
  }
  c.note("files %s, %s", what.c_str(), f.name);
  c.count();
  RunRes r = runMain(c, a, "stdin must not be read\n");
  for (int i = 0; i < n; ++i) { std::string fn = c.scratch() + "/f" + std::to_string(i); unlink(fn.c_str()); rmdir(fn.c_str()); }
  if (bad0 && r.code != 0 && r.out.empty()) { c.sig("refused"); return; }
  compare(c, f, ss, r, what);
}
}  // namespace
int main(int argc, char** argv) {
  return mc::run(argc, argv, {
    {"lines", s_lines, "every stream of up to 3 (thorough: 4) of 13 lines (texts, comments, invalid UTF-8, too long ones), with and without final newline, from stdin and from a file"},
    {"formats", s_formats, "every stream of up to 2 (thorough: 3) of the same lines in 9 output formats, from stdin, from a file and written to a file"},
    {"partial", s_partial, "every stream of up to 3 of 11 partially annotated sentences, 3 ends, 3 (thorough: 4) formats"},
    {"files", s_files, "every list of up to 3 input files of 11 kinds (missing, directory, empty, ...), 2 (thorough: 3) formats"},
  });
}
