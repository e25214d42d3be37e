// P34: the model development tools, run as processes on small inputs: every
// file operation of every command fails, is cut short or is the last one;
// inputs are missing or damaged; options are invalid.
// LIBS: v_mc v_train v_cg v_jumandic
#include <fcntl.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <fstream>
#include <sstream>
#include "core/codegen/feature_codegen.h"
#include "core/spec/spec_parser.h"
#include "jenv.h"
using namespace vt;
// models contain the time: the tools are run at the same one
extern "C" int clock_gettime(clockid_t c, struct timespec* t) {
  if (c == CLOCK_REALTIME) { t->tv_sec = 1500000000; t->tv_nsec = 0; return 0; }
  return (int)syscall(SYS_clock_gettime, c, t);
}
namespace {
std::string binDir() {
  if (auto v = getenv("VERIF_BIN")) return v;
  char b[4096];
  auto n = readlink("/proc/self/exe", b, sizeof b);
  std::string r(b, n > 0 ? n : 0);
  return r.substr(0, r.rfind('/'));
}
void put(const std::string& f, const std::string& d) {
  std::ofstream o(f, std::ios::binary | std::ios::trunc);
  o.write(d.data(), d.size());
}
bool get(const std::string& f, std::string* d) {
  std::ifstream i(f, std::ios::binary);
  if (!i) return false;
  std::ostringstream s;
  s << i.rdbuf();
  *d = s.str();
  return true;
}
using Args = std::vector<std::string>;
using Files = std::map<std::string, std::string>;
struct Result { int sig = 0, code = 0; std::string text, ops; };
// runs a tool in dir/w
Result run(const std::string& dir, const Args& a, int n, const char* kind) {
  std::string w = dir + "/w", txt = dir + "/text", log = dir + "/log";
  unlink(log.c_str());
  pid_t p = fork();
  if (p == 0) {
    int fd = open(txt.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), z = open("/dev/null", O_RDONLY);
    dup2(z, 0);
    dup2(fd, 1);
    dup2(fd, 2);
    close(fd);
    close(z);
    setenv("VERIF_FAULT_DIR", (w + "/").c_str(), 1);
    setenv("VERIF_FAULT_N", std::to_string(n).c_str(), 1);
    setenv("VERIF_FAULT_KIND", kind, 1);
    setenv("VERIF_FAULT_LOG", log.c_str(), 1);
    setenv("ASAN_OPTIONS", "detect_leaks=0:exitcode=99:max_allocation_size_mb=500:hard_rss_limit_mb=1000", 1);
    if (chdir(w.c_str())) _exit(98);
    std::string exe = binDir() + "/" + a[0];
    std::vector<char*> v;
    for (auto& s : a) v.push_back((char*)s.c_str());
    v.push_back(nullptr);
    signal(SIGALRM, SIG_DFL);
    alarm(30);
    execv(exe.c_str(), v.data());
    _exit(98);
  }
  int st = 0;
  waitpid(p, &st, 0);
  Result r;
  if (WIFSIGNALED(st)) r.sig = WTERMSIG(st); else r.code = WEXITSTATUS(st);
  get(txt, &r.text);
  get(log, &r.ops);
  return r;
}
// parts of a model file, empty when it is not a model
std::string modelOf(const std::string& f, bool shape = false) {
  struct stat s;
  if (stat(f.c_str(), &s) || !s.st_size) return "";
  model::FilesystemModel m;
  model::ModelInfo i;
  if (!m.open(sp(f)) || !m.load(&i)) return "";
  std::string r = "model";
  for (auto& p : i.parts) {
    r += "|" + std::to_string((int)p.kind) + st(p.comment);
    for (auto& d : p.data) r += ":" + std::to_string(d.size()) + ":" + (shape ? "" : st(d));
  }
  return r;
}
const char* SPEC =
    "field 1 surface string trie_index\nfield 2 pos string\nfield 3 k kv_list\n"
    "unk any template row 1: single family_anything surface to [surface]\n"
    "ngram [surface]\nngram [pos]\nngram [surface, pos] [surface]\ntrain loss surface 1, pos 1\n";
const char* DIC = "UNK,U,\na,N,\nab,V,\nb,N,k:v\n";
const char* CORPUS = "a_N b_N\nab_V a_N\n";
const char* PARTIAL = "\ta\n\tb\n\nab&a\n\n";
const Net& net() {
  static Net n;
  if (n.voc.empty()) {
    n.voc = {"</s>", "<unk>", "a", "b", "ab"};
    n.fill(3);
  }
  return n;
}
struct Cmd {
  const char* name;
  Args args;
  std::vector<std::string> in, out;
  bool model;
  bool threads = false;  // the weights depend on the schedule
};
const std::vector<Cmd>& cmds() {
  static const std::vector<Cmd> c{
      {"index", {"v_tool", "index", "--spec=SPEC", "--dict-file=DIC", "--output=OUT", "--comment=c"}, {"SPEC", "DIC"}, {"OUT"}, true},
      {"train", {"v_tool", "train", "--model-input=SEED", "--corpus=CORPUS", "--output=OUT", "--size=10"}, {"SEED", "CORPUS"}, {"OUT"}, true},
      {"train partial", {"v_tool", "train", "--model-input=SEED", "--corpus=CORPUS", "--partial-corpus=PART", "--output=OUT", "--size=10", "--max-epochs=2", "--beam=2"},
       {"SEED", "CORPUS", "PART"}, {"OUT"}, true, true},
      {"static-features", {"v_tool", "static-features", "--spec=SPEC", "--output=gen/OUT", "--class-name=Foo"}, {"SPEC"}, {"gen/OUT.h", "gen/OUT.cc"}, false},
      {"jumanpp_train", {"v_jtrain", "--model-input=SEED", "--corpus=CORPUS", "--model-output=OUT", "--size=10", "--max-epochs=2", "--corpus-comment=x"},
       {"SEED", "CORPUS"}, {"OUT"}, true},
      {"jumanpp_train partial", {"v_jtrain", "--model-input=SEED", "--corpus=CORPUS", "--partial-corpus=PART", "--model-output=OUT", "--size=10", "--batch=2"},
       {"SEED", "CORPUS", "PART"}, {"OUT"}, true, true},
      {"jumanpp_train embed", {"v_jtrain", "--model-input=MODEL", "--rnn-model=RNN", "--rnn-fields=surface", "--rnn-nce-bias=5", "--model-output=OUT"},
       {"MODEL", "RNN", "RNN.nnet"}, {"OUT"}, true},
      {"jumandic bootstrap", {"v_boot", "JDIC", "OUT", "--dic-version=7"}, {"JDIC"}, {"OUT"}, true},
      {"train csv", {"v_tool", "train", "--model-input=SEED", "--corpus=CCORPUS", "--csv-corpus-format", "--output=OUT", "--size=10"}, {"SEED", "CCORPUS"}, {"OUT"}, true},
  };
  return c;
}
void prepare(mc::Ctx& c, const Files& f) {
  std::string d = c.scratch();
  for (auto& x : {"/w", "/w/gen"}) mkdir((d + x).c_str(), 0700);
  for (auto& x : f) put(d + "/w/" + x.first, x.second);
}
void clear(mc::Ctx& c, const Cmd& k) {
  std::string d = c.scratch() + "/w/";
  for (auto& o : k.out) unlink((d + o).c_str());
}
std::string text(mc::Ctx& c, const Cmd& k) {
  std::string r;
  for (auto& o : k.out) {
    std::string f = c.scratch() + "/w/" + o, d;
    if (k.model) d = modelOf(f, k.threads); else if (get(f, &d)) d = "file " + d;
    r += d;
  }
  return r;
}
// all inputs; what the tools make of them is made by the tools
const Files& inputs(mc::Ctx& c) {
  static Files f;
  if (!f.empty()) return f;
  Files g{{"SPEC", SPEC}, {"DIC", DIC}, {"CORPUS", CORPUS}, {"PART", PARTIAL}, {"RNN", net().dict()}, {"RNN.nnet", net().file()},
          {"CCORPUS", "a,N,\nb,N,\n\nab,V,\n\n"}};
  auto rows = jUnk();
  for (auto& r : jWords()) rows.push_back(r);
  g["JDIC"] = jCsv(rows);
  prepare(c, g);
  std::string w = c.scratch() + "/w/";
  for (int i = 0; i < 2; ++i) {
    auto& k = cmds()[i];
    auto r = run(c.scratch(), k.args, -1, "fail");
    std::string d;
    if (r.code || r.sig || !get(w + "OUT", &d)) c.fail("prepare", "%s ends with %d/%d: %s", k.name, r.code, r.sig, r.text.c_str());
    g[i ? "MODEL" : "SEED"] = d;
    unlink((w + "OUT").c_str());
    prepare(c, g);
  }
  return f = g;
}
struct Good { std::string text, ops; };
// another, larger output of an earlier run
std::string older(mc::Ctx& c, const Cmd& k) { return k.model ? inputs(c).at("MODEL") + std::string(9000, 'x') : "old\n"; }
const Good& good(mc::Ctx& c, int i, bool old) {
  static std::map<int, Good> m;
  auto& g = m[i * 2 + old];
  if (!g.text.empty()) return g;
  auto& k = cmds()[i];
  auto& in = inputs(c);
  prepare(c, in);
  clear(c, k);
  if (old) for (auto& o : k.out) put(c.scratch() + "/w/" + o, older(c, k));
  auto r = run(c.scratch(), k.args, -1, "fail");
  if (r.code || r.sig) c.fail("fails", "%s ends with %d/%d without faults: %s", k.name, r.code, r.sig, r.text.c_str());
  g.text = text(c, k);
  g.ops = r.ops;
  if (g.text.empty()) c.fail("nothing", "%s succeeds without a result", k.name);
  if (g.ops.size() < 5) c.fail("harness", "operations of %s are not seen: %s", k.name, r.ops.c_str());
  return g;
}
void ended(mc::Ctx& c, const char* name, const Result& r) {
  if (r.code == 98) c.fail("harness", "%s is not there", name);
  if (r.sig == SIGALRM) c.fail("hang", "%s does not end", name);
  if (r.sig) c.fail("crash", "%s ends with signal %d: %s", name, r.sig, r.text.c_str());
  if (r.code == 99) c.fail("asan", "%s: %s", name, r.text.c_str());
}
// -------------------------------------------------- failing file operations
void faults(mc::Ctx& c) {
  int i = c.choose((int)cmds().size());
  bool old = c.flag();
  auto& k = cmds()[i];
  auto& g = good(c, i, old);
  int n = c.choose((int)g.ops.size());
  static const char* kinds[] = {"fail", "short", "kill"};
  const char* kind = kinds[c.choose(3)];
  char op = g.ops[n];
  if (*kind == 's' && op != 'w') c.discard();
  c.note("%s, operation %d of %s (%c) %s%s", k.name, n, g.ops.c_str(), op, kind, old ? ", older output" : "");
  auto& in = inputs(c);
  prepare(c, in);
  clear(c, k);
  std::string before;
  if (old) {
    for (auto& o : k.out) put(c.scratch() + "/w/" + o, older(c, k));
    before = text(c, k);
  }
  auto r = run(c.scratch(), k.args, n, kind);
  c.count();
  c.transition(r.ops.size());
  ended(c, k.name, r);
  if (r.ops.compare(0, n + 1, g.ops, 0, n + 1)) c.fail("order", "operations differ: %s, then %s", g.ops.c_str(), r.ops.c_str());
  std::string t = text(c, k);
  if (*kind == 'k') {
    if (r.code != 77) c.fail("harness", "%s survives", k.name);
  } else if (r.code == 0) {
    if (t != g.text) c.fail("success", "%s ends with success, the result is not complete; it says %s", k.name, r.text.c_str());
  } else {
    if (r.text.empty()) c.fail("silent", "%s fails without a message", k.name);
  }
  if (k.model && !t.empty() && t != g.text && t != before) c.fail("partial", "%s leaves a model which is not complete", k.name);
  for (auto& x : k.in) {
    std::string d;
    if (!get(c.scratch() + "/w/" + x, &d) || d != in.at(x)) c.fail("input", "%s changes its input %s", k.name, x.c_str());
  }
  c.sig(std::string(k.name) + kind + op + std::to_string(r.code == 0) + std::to_string(t == g.text));
}
// -------------------------------------------------- missing, damaged inputs
const std::vector<std::string>& damage(const std::string& f) {
  static const std::vector<std::string> d{"missing", "directory", "empty", "garbage", "cut"};
  static std::map<std::string, std::vector<std::string>> m;
  auto& r = m[f];
  if (r.empty()) {
    r = d;
    auto add = [&](std::initializer_list<const char*> l) { for (auto x : l) r.push_back(x); };
    if (f == "SPEC") add({"field 1 surface string trie_index\nngram [nothing]\n", "field 1 surface string\n", "field 1 surface string trie_index\nfield 1 surface string\n",
                          "field 1 surface string trie_index\nngram [surface]\nnonsense\n", "field x surface string trie_index\nngram [surface]\n"});
    if (f == "DIC") add({"UNK,U,\na\n", "UNK,U,\na,\"N\n", "UNK,U,\na,N,:v\nb,\"\"x,\n"});
    if (f == "CORPUS") add({"a_N b\n", "a_N b_N\n_N\n"});
    if (f == "PART") add({"\ta\tnothing:x\n\n", "\ta\tpos:\n\tb\tpos\n\n", "\ta\tpos:N:V\tpos\n\n"});
    if (f == "JDIC") add({"a,0,0,0,b\n"});
  }
  return r;
}
void damaged(mc::Ctx& c) {
  auto& k = cmds()[c.choose((int)cmds().size())];
  auto& name = k.in[c.choose((int)k.in.size())];
  auto& how = damage(name)[c.choose((int)damage(name).size())];
  bool old = c.flag();
  c.note("%s, %s: %s%s", k.name, name.c_str(), how.c_str(), old ? ", older output" : "");
  auto in = inputs(c);
  const std::string full = in.at(name);
  in.erase(name);
  prepare(c, in);
  clear(c, k);
  if (old) for (auto& o : k.out) put(c.scratch() + "/w/" + o, older(c, k));
  std::string f = c.scratch() + "/w/" + name, before = text(c, k);
  unlink(f.c_str());
  bool must = true;
  bool lines = name == "CORPUS" || name == "CCORPUS" || name == "PART" || name == "RNN" || name == "DIC" || name == "JDIC";
  if (how == "missing") {
  } else if (how == "directory") mkdir(f.c_str(), 0700);
  else if (how == "empty") { put(f, ""); must = !lines && name != "SPEC"; }
  else if (how == "garbage") {
    std::string s;
    for (int i = 0; i < 5000; ++i) s += (char)(i * 131 + i / 7);
    put(f, s);
    must = name != "PART";
  } else if (how == "cut") {
    put(f, full.substr(0, full.size() / 2));
    must = !lines && name != "SPEC";
  } else put(f, how);
  auto r = run(c.scratch(), k.args, -1, "fail");
  if (how == "directory") rmdir(f.c_str()); else unlink(f.c_str());
  c.count();
  ended(c, k.name, r);
  std::string t = text(c, k);
  if (r.code) {
    if (r.text.empty()) c.fail("silent", "%s fails without a message", k.name);
    if (k.model && !t.empty() && t != before) c.fail("partial", "%s fails and leaves a model", k.name);
  } else if (must) c.fail("accepted", "%s ends with success", k.name);
  else if (t.empty()) c.fail("nothing", "%s succeeds without a result", k.name);
  c.sig(std::string(k.name) + name + how + std::to_string(r.code));
}
// -------------------------------------------------- options
void options(mc::Ctx& c) {
  auto& k = cmds()[c.choose((int)cmds().size())];
  struct O { const char *opt, *val; };
  static const std::vector<O> all{{"--nothing", ""}, {"--nothing=1", ""}, {"-Q", ""}, {"extra", ""}, {"--size", "=32"}, {"--size", "=40"}, {"--size", "=64"}, {"--size", "=4294967296"}, {"--size", "=x"},
                                  {"--size", "=-1"}, {"--max-epochs", "=y"}, {"--training-mode", "=none"}, {"--scw-c", "=z"}, {"--beam", "="},
                                  {"--output", "=no/such/OUT"}, {"--output", "=gen"}, {"--output", "=/"}, {"remove", "0"}, {"remove", "1"}, {"remove", "2"}, {"remove", "3"}};
  auto& o = all[c.choose((int)all.size())];
  c.note("%s %s%s", k.name, o.opt, o.val);
  std::string opt = o.opt, val = o.val;
  Args a = k.args;
  bool train = k.args[0] == "v_jtrain" || k.args[1] == "train", boot = k.args[0] == "v_boot";
  if (opt == "--size" || opt == "--max-epochs" || opt == "--training-mode" || opt == "--scw-c" || opt == "--beam") {
    if (!train) c.discard();
    for (auto it = a.begin(); it != a.end(); ) if (it->compare(0, opt.size() + 1, opt + "=") == 0) it = a.erase(it); else ++it;
    a.push_back(opt + val);
  } else if (opt == "--output") {
    bool sub = val == "=no/such/OUT";
    if (!k.model && sub) c.discard();   // makes the directory
    if (!k.model && val == "=gen") c.discard();
    if (boot) a[2] = val.substr(1);
    else for (auto& x : a) for (auto p : {"--output", "--model-output"}) if (x.compare(0, strlen(p) + 1, std::string(p) + "=") == 0) x = p + val;
    if (!k.model) c.discard();
  } else if (opt == "remove") {
    // required: the command, its inputs and its output
    Args req;
    for (auto& x : a) {
      if (&x == &a[0]) continue;
      for (auto p : {"--spec", "--dict-file", "--output", "--model-output", "--model-input", "--corpus="}) if (x.compare(0, strlen(p), p) == 0) req.push_back(x);
      if (x[0] != '-') req.push_back(x);
    }
    unsigned i = atoi(o.val);
    if (i >= req.size()) c.discard();
    if (!k.model && req[i].compare(0, 8, "--output") == 0) c.discard();
    for (auto it = a.begin(); it != a.end(); ++it) if (*it == req[i]) { a.erase(it); break; }
  } else a.push_back(opt);
  auto& in = inputs(c);
  prepare(c, in);
  clear(c, k);
  auto r = run(c.scratch(), a, -1, "fail");
  c.count();
  ended(c, k.name, r);
  if (r.code == 0) c.fail("accepted", "%s %s%s ends with success: %s", k.name, o.opt, o.val, r.text.c_str());
  if (r.text.empty()) c.fail("silent", "%s fails without a message", k.name);
  if (!text(c, k).empty()) c.fail("output", "%s fails and makes an output", k.name);
  c.sig(std::string(k.name) + opt + val);
}
// unusual values: the end of the tool and its result agree
void unusual(mc::Ctx& c) {
  auto& k = cmds()[c.choose((int)cmds().size())];
  if (k.args[0] != "v_jtrain" && k.args[1] != "train") c.discard();
  static const std::vector<std::string> all{"--batch=0", "--batch=50", "--beam=0", "--beam=40", "--threads=0", "--threads=9", "--max-epochs=0", "--max-batch-iters=0", "--size=0", "--size=1", "--size=20",
                                            "--epsilon=-1", "--epsilon=inf", "--scw-c=0", "--scw-c=-1", "--scw-phi=0", "--seed=0", "--gb-left-min=0", "--gb-left-min=3", "--gb-left-max=3", "--gb-right-min=2",
                                            "--gb-rcheck-max=2", "--scw-dump-dir=nowhere", "--scw-dump-dir=gen", "--rnn-model="};
  int i = c.choose((int)all.size()), j = c.range(i, (int)all.size() - 1);
  auto x = all[i], y = all[j];
  if (x.substr(0, x.find('=')) == y.substr(0, y.find('='))) c.discard();
  c.note("%s %s %s", k.name, x.c_str(), y.c_str());
  Args a = k.args;
  for (auto o : {&x, &y}) {
    std::string n = o->substr(0, o->find('=') + 1);
    for (auto it = a.begin(); it != a.end(); ) if (it->compare(0, n.size(), n) == 0) it = a.erase(it); else ++it;
    a.push_back(*o);
  }
  auto& in = inputs(c);
  prepare(c, in);
  clear(c, k);
  auto r = run(c.scratch(), a, -1, "fail");
  c.count();
  ended(c, k.name, r);
  std::string t = text(c, k);
  if (r.code == 0 && t.empty()) c.fail("nothing", "%s succeeds without a result: %s", k.name, r.text.c_str());
  if (r.code && r.text.empty()) c.fail("silent", "%s fails without a message", k.name);
  if (r.code && !t.empty()) c.fail("output", "%s fails and makes an output", k.name);
  c.sig(std::string(k.name) + std::to_string(r.code) + t);
}
// -------------------------------------------------- results
void results(mc::Ctx& c) {
  auto& in = inputs(c);
  int what = c.choose(4);
  prepare(c, in);
  std::string w = c.scratch() + "/w/";
  auto tool = [&](const Args& a, const char* out) {
    unlink((w + out).c_str());
    auto r = run(c.scratch(), a, -1, "fail");
    ended(c, a[0].c_str(), r);
    if (r.code) c.fail("fails", "%s: %s", a[0].c_str(), r.text.c_str());
    c.count();
  };
  if (what == 0) {  // the dictionary is the one of the builder, with the comment
    tool(cmds()[0].args, "OUT");
    spec::AnalysisSpec s;
    dic::DictionaryBuilder b;
    model::ModelInfo mi;
    mi.parts.emplace_back();
    std::string d = DIC, t = SPEC;
    auto q = spec::parseFromFile(sp(w + "SPEC"), &s);
    if (q) q = b.importSpec(&s);
    if (q) q = b.importCsv("DIC", sp(d));
    if (q) q = b.fillModelPart(&mi.parts.back(), "c");
    if (!q) c.fail("harness", "%s", msg(q).c_str());
    {
      model::ModelSaver sv;
      unlink((w + "REF").c_str());
      std::string f = w + "REF";
      q = sv.open(sp(f));
      if (q) q = sv.save(mi);
      if (!q) c.fail("harness", "%s", msg(q).c_str());
    }
    if (modelOf(w + "OUT") != modelOf(w + "REF")) c.fail("index", "the indexed dictionary is another one");
    unlink((w + "REF").c_str());
  } else if (what == 1) {  // both training tools make the same of the same
    static const std::vector<Args> opts{{}, {"--size=8"}, {"--beam=1"}, {"--max-epochs=3", "--epsilon=0"}, {"--seed=5"}, {"--training-mode=violation"},
                                        {"--training-mode=falloff"}, {"--scw-c=0.5"}, {"--scw-phi=2"}, {"--gb-left-min=1", "--gb-left-max=2"},
                                        {"--max-batch-iters=3"}, {"--threads=2"}, {"--gb-left-min=1", "--gb-left-max=2", "--gb-right-min=1", "--gb-right-max=2", "--gb-rcheck-min=1", "--gb-rcheck-max=1"}, {"--gb-first-full"}};
    int i = c.choose((int)opts.size()), j = c.range(i, (int)opts.size() - 1);
    auto &x = opts[i], &y = opts[j];
    for (auto& p : x) for (auto& q : y) if (p.substr(0, p.find('=')) == q.substr(0, q.find('='))) c.discard();
    Args a{"v_tool", "train", "--model-input=SEED", "--corpus=CORPUS", "--output=OUT"}, b{"v_jtrain", "--model-input=SEED", "--corpus=CORPUS", "--model-output=OUT"};
    std::string n;
    for (auto l : {&x, &y}) for (auto& o : *l) { a.push_back(o); b.push_back(o); n += " " + o; }
    c.note("train%s", n.c_str());
    tool(a, "OUT");
    auto p = modelOf(w + "OUT");
    tool(b, "OUT");
    auto q = modelOf(w + "OUT");
    if (p.empty() || q.empty()) c.fail("nothing", "no model");
    if (p != q) c.fail("tools", "the models of both tools differ with%s", n.c_str());
    c.sig(p);
  } else if (what == 2) {  // code
    tool(cmds()[3].args, "gen/OUT.cc");
    spec::AnalysisSpec s;
    auto q = spec::parseFromFile(sp(w + "SPEC"), &s);
    mkdir((w + "ref").c_str(), 0700);
    features::codegen::FeatureCodegenConfig cfg;
    cfg.className = "Foo";
    cfg.baseDirectory = w + "ref";
    cfg.filename = "OUT";
    features::codegen::StaticFeatureCodegen cg{cfg, s};
    if (q) q = cg.generateAndWrite();
    if (!q) c.fail("harness", "%s", msg(q).c_str());
    for (auto e : {".h", ".cc"}) {
      std::string x, y;
      if (!get(w + "gen/OUT" + e, &x) || !get(w + "ref/OUT" + e, &y) || x != y) c.fail("code", "OUT%s is another one", e);
      unlink((w + "ref/OUT" + e).c_str());
    }
    rmdir((w + "ref").c_str());
  } else {  // the same directory again and again
    auto& k = cmds()[c.choose((int)cmds().size())];
    auto& l = cmds()[c.choose((int)cmds().size())];
    c.note("%s, then %s twice", k.name, l.name);
    tool(k.args, k.out.back().c_str());
    auto keep = [&](const Cmd& m) {
      auto r = run(c.scratch(), m.args, -1, "fail");
      ended(c, m.name, r);
      if (r.code) c.fail("fails", "%s over an older output: %s", m.name, r.text.c_str());
      c.count();
      return text(c, m);
    };
    auto p = keep(l), q = keep(l);
    if (p != q) c.fail("again", "%s makes something else when its output exists", l.name);
    clear(c, l);
    if (keep(l) != p) c.fail("again", "%s makes something else when no output exists", l.name);
    c.sig(p);
  }
  c.sig((uint64_t)what);
}
}  // namespace
int main(int argc, char** argv) {
  return mc::run(argc, argv, {
      {"faults", faults, "every command x every file operation fails, is cut short or is the last x with or without an older output: success only with the complete result"},
      {"damaged", damaged, "every command x every input missing, a directory, empty, garbage, cut or malformed: an error, no crash, no model"},
      {"options", options, "every command x invalid, missing options and outputs: an error"},
      {"unusual", unusual, "training commands x pairs of unusual values (zero, large, negative): end without a crash, success exactly with a model"},
      {"results", results, "results of the tools against the library, each other (pairs of options) and themselves over older outputs"},
  });
}
