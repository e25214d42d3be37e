// LIBS: v_mc v_jumandic v_jspec v_core v_util v_pathie
// P27: the real option parser on every small command line x configuration
// file, against the list of options; what the settings do to the analyzer.
#include <sys/stat.h>
#include <unistd.h>
#include <cmath>
#include <fstream>
#include "jenv.h"
#include "util/logging.hpp"
#include "jumandic/shared/jumandic_env.h"
#include "jumandic/shared/jumanpp_args.h"
using mc::Ctx;
using namespace vt;
namespace jd = jumanpp::jumandic;
namespace {
using T = jd::OutputType;
// what an option does: key -> value; several keys of one option are joined
struct Opt {
  std::vector<std::string> args;
  std::map<std::string, std::string> sets;
  bool bad = false;
};
using Set = std::map<std::string, std::string>;
std::string num(double v) { char b[40]; snprintf(b, sizeof b, "%g", v); return b; }
std::string ot(T t) { return std::to_string((int)t); }
const std::vector<Opt>& menu() {
  static const std::vector<Opt> m = {
      {{"--beam", "3"}, {{"beam", "3"}}},
      {{"--beam=20"}, {{"beam", "20"}}},
      {{"--global-beam", "0"}, {{"global", "0"}}},
      {{"--global-beam=7"}, {{"global", "7"}}},
      {{"--right-beam=2"}, {{"right", "2"}}},
      {{"--right-beam", "9"}, {{"right", "9"}}},
      {{"--right-check=4"}, {{"check", "4"}}},
      {{"--right-check", "0"}, {{"check", "0"}}},
      {{"--auto-nbest", "2:3:4"}, {{"auto", "2:3:4"}}},
      {{"--auto-nbest=11:5:30"}, {{"auto", "11:5:30"}}},
      {{"-L", "10"}, {{"type", ot(T::Lattice)}, {"n", "10"}}},
      {{"-s4"}, {{"type", ot(T::Lattice)}, {"n", "4"}}},
      {{"-j"}, {{"type", ot(T::Juman)}}},
      {{"-M"}, {{"type", ot(T::Morph)}}},
      {{"--full-morph"}, {{"type", ot(T::FullMorph)}}},
      {{"--segment"}, {{"type", ot(T::Segmentation)}}},
      {{"--dic-subset"}, {{"type", ot(T::DicSubset)}}},
      {{"--format=morph"}, {{"type", ot(T::Morph)}}},
      {{"--format", "lattice-pb"}, {{"type", ot(T::LatticePb)}}},
      {{"-v"}, {{"type", ot(T::Version)}}},
      {{"--model-info"}, {{"type", ot(T::ModelInfo)}}},
      {{"--segment-separator=|"}, {{"sep", "|"}}},
      {{"--segment-separator", "--"}, {{"sep", "--"}}},
      {{"-o", "a"}, {{"out", "a"}}},
      {{"--output=b"}, {{"out", "b"}}},
      {{"--model=m1"}, {{"model", "m1"}}},
      {{"--model", "m2"}, {{"model", "m2"}}},
      {{"--rnn-model=r1"}, {{"rnnmodel", "r1"}}},
      {{"--graphviz-dir=g"}, {{"graph", "g"}}},
      {{"--log-level=1"}, {{"log", "1"}}},
      {{"--partial-input"}, {{"partial", "1"}}},
      {{"in1"}, {{"+in", "in1"}}},
      {{"in2"}, {{"+in", "in2"}}},
      {{"--rnn-nce-bias=-4"}, {{"r.nce", "-4"}}},
      {{"--rnn-nce-bias", "-9"}, {{"r.nce", "-9"}}},
      {{"--rnn-unk-constant=-2.5"}, {{"r.unkc", "-2.5"}}},
      {{"--rnn-unk-length=-0.5"}, {{"r.unkl", "-0.5"}}},
      {{"--feature-weight-perceptron=0.5"}, {{"r.pw", "0.5"}}},
      {{"--feature-weight-rnn=0"}, {{"r.rw", "0"}}},
      {{"--feature-weight-rnn=1"}, {{"r.rw", "1"}}},
      {{"--rnn-unk=<u>"}, {{"r.unk", "<u>"}}},
      {{"--rnn-eos=<e>"}, {{"r.eos", "<e>"}}},
      {{"--rnn-fields=surface,pos"}, {{"r.fields", "surface,pos"}}},
      {{"--rnn-separator=+"}, {{"r.sep", "+"}}},
      // rejected
      {{"--nosuch"}, {}, true},
      {{"--nosuch=3"}, {}, true},
      {{"-Z"}, {}, true},
      {{"-jZ"}, {}, true},
      {{"--beam=x"}, {}, true},
      {{"--beam=3x"}, {}, true},
      {{"--beam=1.5"}, {}, true},
      {{"--beam="}, {}, true},
      {{"--global-beam", "a"}, {}, true},
      {{"--beam=99999999999"}, {}, true},
      {{"--format=nosuch"}, {}, true},
      {{"--auto-nbest=3"}, {}, true},
      {{"--auto-nbest=1:2"}, {}, true},
      {{"--auto-nbest=1:2:x"}, {}, true},
      {{"--auto-nbest=99999999999:1:2"}, {}, true},
      {{"--rnn-unk-constant=z"}, {}, true},
      {{"--morph=1"}, {}, true},
      {{"-L=x"}, {}, true},
      {{"--log-level=no"}, {}, true},
  };
  return m;
}
const Set& defaults() {
  static const Set d = {{"beam", "5"}, {"global", "6"}, {"right", "5"}, {"check", "1"}, {"n", "1"}, {"type", ot(T::Juman)}, {"sep", " "}, {"out", "-"}, {"model", ""},
                        {"rnnmodel", ""}, {"graph", ""}, {"log", "0"}, {"partial", "0"}, {"+in", ""}, {"step", "0"}, {"r.nce", "-9"}, {"r.unkc", "-6"}, {"r.unkl", "-1.5"},
                        {"r.pw", "1"}, {"r.rw", "1"}, {"r.unk", "<unk>"}, {"r.eos", "</s>"}, {"r.fields", ""}, {"r.sep", "_"}, {"r.given", ""}};
  return d;
}
std::string fl(const jumanpp::util::Cfg<float>& f) { return num(f.value()); }
Set actual(const jd::JumanppConf& f) {
  auto& r = f.rnnConfig;
  std::string ins;
  for (auto& x : f.inputFiles.value()) ins += "[" + x + "]";
  Set s = {{"beam", std::to_string(f.beamSize.value())}, {"global", std::to_string(f.globalBeam.value())}, {"right", std::to_string(f.rightBeam.value())},
           {"check", std::to_string(f.rightCheck.value())}, {"n", std::to_string(f.beamOutput.value())}, {"type", ot(f.outputType.value())},
           {"sep", f.segmentSeparator.value()}, {"out", f.outputFile.value()}, {"model", f.modelFile.value()}, {"rnnmodel", f.rnnModelFile.value()},
           {"graph", f.graphvizDir.value()}, {"log", std::to_string(f.logLevel.value())}, {"partial", f.inputType.value() == jd::InputType::Raw ? "0" : "1"},
           {"+in", ins}, {"step", std::to_string(f.autoStep.value())}, {"r.nce", fl(r.nceBias)}, {"r.unkc", fl(r.unkConstantTerm)},
           {"r.unkl", fl(r.unkLengthPenalty)}, {"r.pw", fl(r.perceptronWeight)}, {"r.rw", fl(r.rnnWeight)}, {"r.unk", r.unkSymbol.value()}, {"r.eos", r.eosSymbol.value()},
           {"r.fields", join(r.rnnFields.value(), ",")}, {"r.sep", r.fieldSeparator.value()}};
  // a value which is given replaces the one of the model even if it is the default
  std::string g;
  if (r.nceBias.defined()) g += "nce ";
  if (r.unkConstantTerm.defined()) g += "unkc ";
  if (r.unkLengthPenalty.defined()) g += "unkl ";
  if (r.perceptronWeight.defined()) g += "pw ";
  if (r.rnnWeight.defined()) g += "rw ";
  if (r.unkSymbol.defined()) g += "unk ";
  if (r.eosSymbol.defined()) g += "eos ";
  if (r.rnnFields.defined()) g += "fields ";
  if (r.fieldSeparator.defined()) g += "sep ";
  s["r.given"] = g;
  return s;
}
// the values which one source sets; types: all output types it asks for
Set source(const std::vector<const Opt*>& os, std::set<std::string>* types) {
  Set s;
  for (auto* o : os)
    for (auto& kv : o->sets) {
      if (kv.first == "+in") s["+in"] += "[" + kv.second + "]";
      else s[kv.first] = kv.second;
      if (kv.first == "type") types->insert(kv.second);
    }
  if (s.count("auto")) {
    auto p = splitOn(s["auto"], ":");
    s["beam"] = p[0];
    s["step"] = p[1];
    s["global"] = p[2];
    s.erase("auto");
  }
  return s;
}
void setHome(Ctx& c, const std::string* data) {
  std::string d = c.scratch() + "/home";
  for (auto* x : {"", "/.config", "/.config/jumanpp"}) mkdir((d + x).c_str(), 0755);
  std::string f = d + "/.config/jumanpp/jumandic.config";
  if (data) { std::ofstream o(f, std::ios::binary); o << *data; }
  else unlink(f.c_str());
  setenv("HOME", d.c_str(), 1);
}
std::string fileWith(Ctx& c, const std::string& data) {
  std::string f = c.scratch() + "/conf";
  std::ofstream o(f, std::ios::binary);
  o << data;
  return f;
}
Status parse(std::vector<std::string> args, jd::JumanppConf* r) {
  args.insert(args.begin(), "jumanpp");
  std::vector<const char*> av;
  for (auto& a : args) av.push_back(a.c_str());
  return jd::parseArgs((int)av.size(), av.data(), r);
}
std::string show(const std::vector<const Opt*>& os, const char* sep) {
  std::string r;
  for (auto* o : os) for (auto& a : o->args) r += (r.empty() ? "" : sep) + a;
  return r;
}
void combine(Ctx& c, const std::vector<const Opt*>& file, const std::vector<const Opt*>& cli, bool home, const char* sep) {
  std::string data = show(file, sep) + (*sep == '\n' ? "\n" : "");
  c.note("file '%s', command line '%s'%s", data.c_str(), show(cli, " ").c_str(), home ? ", in the home directory" : "");
  c.count();
  std::vector<std::string> args;
  if (home) setHome(c, file.empty() ? nullptr : &data);
  else {
    setHome(c, nullptr);
    if (!file.empty()) args.push_back("--config=" + fileWith(c, data));
  }
  bool bad = false;
  for (auto* o : cli) { for (auto& a : o->args) args.push_back(a); bad |= o->bad; }
  for (auto* o : file) bad |= o->bad;
  jd::JumanppConf r;
  Status s = parse(args, &r);
  jumanpp::util::logging::CurrentLogLevel = static_cast<jumanpp::util::logging::Level>(0);
  c.sig(std::string(s ? "ok" : "bad"));
  // a value which is replaced by a later one is not looked at
  auto overridden = [](const std::vector<const Opt*>& os) {
    for (size_t i = 0; i < os.size(); ++i)
      if (os[i]->bad && os[i]->args[0].compare(0, 12, "--auto-nbest") == 0)
        for (size_t k = i + 1; k < os.size(); ++k) if (os[k]->args[0].compare(0, 12, "--auto-nbest") == 0) return true;
    return false;
  };
  if (overridden(cli) || overridden(file)) return;
  if (bad) {
    if (s) c.fail("accepted", "file '%s', command line '%s' is accepted", data.c_str(), show(cli, " ").c_str());
    return;
  }
  if (!s) c.fail("rejected", "file '%s', command line '%s': %s", data.c_str(), show(cli, " ").c_str(), msg(s).substr(0, 100).c_str());
  Set want = defaults();
  std::set<std::string> ft, ct;
  for (auto& kv : source(file, &ft)) { want[kv.first] = kv.second; if (kv.first[0] == 'r' && kv.first[1] == '.') want["r.given"] += kv.first + ";"; }
  for (auto& kv : source(cli, &ct)) { want[kv.first] = kv.second; if (kv.first[0] == 'r' && kv.first[1] == '.') want["r.given"] += kv.first + ";"; }
  std::string g;
  for (auto* k : {"nce", "unkc", "unkl", "pw", "rw", "unk", "eos", "fields", "sep"}) if (want["r.given"].find(std::string("r.") + k + ";") != std::string::npos) g += std::string(k) + " ";
  want["r.given"] = g;
  // there are at least as many paths as are shown
  if (want["step"] == "0" && std::stoi(want["beam"]) < std::stoi(want["n"])) want["beam"] = want["n"];
  Set got = actual(r);
  auto& types = ct.empty() ? ft : ct;
  if (types.size() > 1 && types.count(got["type"])) want["type"] = got["type"];
  for (auto& kv : want)
    if (got[kv.first] != kv.second) c.fail(kv.first.c_str(), "file '%s', command line '%s': %s is '%s' instead of '%s'", data.c_str(), show(cli, " ").c_str(), kv.first.c_str(), got[kv.first].c_str(), kv.second.c_str());
  std::string all;
  for (auto& kv : got) all += kv.second + ";";
  c.sig(all);
}
bool fileOk(const Opt& o) { for (auto& a : o.args) if (a.find(' ') != std::string::npos) return false; return true; }
void s_combine(Ctx& c) {
  auto& m = menu();
  std::vector<const Opt*> f, l;
  int shape = c.choose(c.thorough() ? 4 : 2);
  int nf = shape == 0 ? 1 : shape == 1 ? 0 : shape == 2 ? 2 : 1, nl = shape == 0 ? 1 : shape == 1 ? 2 : shape == 2 ? 1 : 2;
  for (int i = 0; i < nf; ++i) { f.push_back(&m[c.choose((int)m.size())]); if (!fileOk(*f.back())) c.discard(); if (f.size() > 1 && f[0]->bad) c.discard(); }
  for (int i = 0; i < nl; ++i) { l.push_back(&m[c.choose((int)m.size())]); if (l.size() > 1 && l[0]->bad && l[1]->bad) c.discard(); }
  combine(c, f, l, nf && c.flag(), nf > 1 && c.flag() ? "\n" : " ");
}
// related options of three settings in all sequences
void s_related(Ctx& c) {
  static const int G[][6] = {{0, 1, 10, 11, 8, 9}, {2, 3, 8, 9, 0, 10}, {12, 13, 15, 10, 17, 19}, {31, 32, 23, 24, 25, 26}, {34, 33, 38, 39, 37, 35}};
  auto& m = menu();
  int g = c.choose(5), nf = c.choose(3), nl = c.choose(c.thorough() ? 4 : 3);
  std::vector<const Opt*> f, l;
  for (int i = 0; i < nf; ++i) f.push_back(&m[G[g][c.choose(6)]]);
  for (int i = 0; i < nl; ++i) l.push_back(&m[G[g][c.choose(6)]]);
  combine(c, f, l, c.flag(), "\n");
}
// white space between the options of a file
void s_blank(Ctx& c) {
  static const char* W[] = {"", " ", "\n", "\t", "\r\n", " \n\n "};
  auto& m = menu();
  std::string lead = W[c.choose(6)], mid = W[1 + c.choose(5)], tail = W[c.choose(6)];
  int n = c.choose(3);
  static const int P[] = {0, 13, 23};
  std::vector<const Opt*> os;
  for (int i = 0; i < n; ++i) os.push_back(&m[P[c.choose(3)]]);
  std::string data = lead;
  for (int i = 0; i < n; ++i) { if (i) data += mid; data += join(os[i]->args, mid); }
  data += tail;
  bool home = c.flag();
  c.note("file '%s'", data.c_str());
  c.count();
  std::vector<std::string> args;
  if (home) setHome(c, &data);
  else { setHome(c, nullptr); args.push_back("--config"); args.push_back(fileWith(c, data)); }
  jd::JumanppConf r;
  Status s = parse(args, &r);
  jumanpp::util::logging::CurrentLogLevel = static_cast<jumanpp::util::logging::Level>(0);
  if (data.empty() && !s) return;   // an empty file may be refused
  if (!s) c.fail("rejected", "file '%s': %s", data.c_str(), msg(s).c_str());
  Set want = defaults(), got = actual(r);
  std::set<std::string> ty;
  for (auto& kv : source(os, &ty)) want[kv.first] = kv.second;
  for (auto& kv : want) if (got[kv.first] != kv.second) c.fail(kv.first.c_str(), "file '%s': %s is '%s' instead of '%s'", data.c_str(), kv.first.c_str(), got[kv.first].c_str(), kv.second.c_str());
  c.sig(data);
}
// numbers
void s_numbers(Ctx& c) {
  static const std::vector<std::string> A = {"0", "1", "9", "-", "+", "x", " ", ".", ":"};
  static const char* O[] = {"--beam=", "--auto-nbest=", "--rnn-unk-length="};
  int o = c.choose(3);
  static const std::vector<std::string> B = {"0", "1", "9", "-", "x", ":"};
  std::string v = o == 1 ? c.str(B, 0, c.thorough() ? 7 : 5) : c.str(A, 0, c.thorough() ? 5 : 4);
  c.note("%s%s", O[o], v.c_str());
  c.count();
  setHome(c, nullptr);
  jd::JumanppConf r;
  Status s = parse({O[o] + v}, &r);
  bool digits = !v.empty() && v.find_first_not_of("019") == std::string::npos;
  size_t i = v.size() && (v[0] == '-' || v[0] == '+') ? 1 : 0;
  bool integer = v.size() > i && v.find_first_not_of("019", i) == std::string::npos;
  if (o == 0) {
    if (digits && std::stoi(v) > 0) {
      if (!s || r.beamSize.value() != std::stoi(v)) c.fail("number", "'%s' is read as %d", v.c_str(), s ? r.beamSize.value() : -999);
    } else if (!integer && v.find(' ') == std::string::npos) { if (s) c.fail("number", "--beam='%s' is accepted as %d", v.c_str(), r.beamSize.value()); }
    else if (s && v.find(' ') == std::string::npos && std::stoi(v) <= 0) c.fail("number", "a beam of '%s' is accepted", v.c_str());
  } else if (o == 1) {
    auto p = splitOn(v, ":");
    bool ok = p.size() == 3;
    for (auto& x : p) ok = ok && !x.empty() && x.find_first_not_of("019") == std::string::npos;
    if (!ok && s) c.fail("auto", "--auto-nbest='%s' is accepted", v.c_str());
    if (ok) {
      int a = std::stoi(p[0]), b = std::stoi(p[1]), d = std::stoi(p[2]);
      if (!s && a > 0 && b > 0 && d > 0) c.fail("auto", "--auto-nbest='%s': %s", v.c_str(), msg(s).c_str());
      if (s && (r.beamSize.value() != std::max(a, 1) || r.autoStep.value() != b || r.globalBeam.value() != d) && (a > 0 || r.beamSize.value() != a)) c.fail("auto", "--auto-nbest='%s' is %d:%d:%d", v.c_str(), r.beamSize.value(), r.autoStep.value(), r.globalBeam.value());
    }
  } else {
    size_t dot = v.find('.');
    std::string d = v.substr(i);
    if (dot != std::string::npos && dot >= i) d = v.substr(i, dot - i) + v.substr(dot + 1);
    bool ok = !d.empty() && d.find_first_not_of("019") == std::string::npos;
    if (ok) { if (!s || std::abs(r.rnnConfig.unkLengthPenalty.value() - std::stof(v)) > 1e-3f) c.fail("number", "'%s' is read as %g", v.c_str(), s ? r.rnnConfig.unkLengthPenalty.value() : NAN); }
    else if (s && v.find(' ') == std::string::npos && v.find('x') == std::string::npos) c.fail("number", "'%s' is accepted as %g", v.c_str(), r.rnnConfig.unkLengthPenalty.value());
  }
  c.sig(std::string(s ? "1" : "0") + v);
}
// ---- what settings do
const std::string& modelFile(Ctx& c, int kind) {
  static std::string f[3];
  if (f[kind].empty()) {
    static Net net;
    JModel m;
    if (kind) {
      net.voc = {"</s>", "<unk>", "水", "だ", "は", "<u>"};
      net.maxent = 31;
      net.fill(4);
      m.net = &net;
      m.rnn.rnnFields = std::vector<std::string>{"surface"};
      if (kind == 2) {
        m.rnn.perceptronWeight = 0.75f;
        m.rnn.rnnWeight = 0.25f;
        m.rnn.unkConstantTerm = -3.0f;
        m.rnn.nceBias = -5.0f;
      }
    }
    f[kind] = c.scratch() + "/cm" + std::to_string(kind);
    Status s = m.write(f[kind]);
    if (!s) c.fail("setup", "%s", msg(s).c_str());
  }
  return f[kind];
}
void s_model(Ctx& c) {
  static const int R[] = {33, 34, 35, 36, 37, 38, 39};
  auto& m = menu();
  int kind = 1 + c.choose(2);
  std::vector<const Opt*> os;
  int n = c.choose(c.thorough() ? 4 : 3);
  for (int i = 0; i < n; ++i) os.push_back(&m[R[c.choose(7)]]);
  std::string mf = modelFile(c, kind);
  setHome(c, nullptr);
  c.note("model %d, '%s'", kind, show(os, " ").c_str());
  c.count();
  std::vector<std::string> args = {"--model=" + mf};
  for (auto* o : os) for (auto& a : o->args) args.push_back(a);
  jd::JumanppConf cf;
  Status s = parse(args, &cf);
  if (!s) c.fail("rejected", "%s", msg(s).c_str());
  jd::JumanppExec ex(cf);
  s = ex.init();
  if (!s) c.fail("init", "%s", msg(s).c_str());
  Set want = {{"r.pw", kind == 2 ? "0.75" : "1"}, {"r.rw", kind == 2 ? "0.25" : "1"}, {"r.unkc", kind == 2 ? "-3" : "-6"}, {"r.unkl", "-1.5"}, {"r.nce", kind == 2 ? "-5" : "-9"}};
  std::set<std::string> ty;
  auto given = source(os, &ty);
  for (auto& kv : given) want[kv.first] = kv.second;
  auto* sd = ex.analyzerPtr()->scorer();
  bool off = want["r.rw"] == "0";
  if (off) {
    if (!sd->others.empty() || sd->scoreWeights.size() != 1) c.fail("off", "'%s': the network is used", show(os, " ").c_str());
  } else {
    if (sd->others.size() != 1 || sd->scoreWeights.size() != 2) c.fail("on", "'%s': the network is not used", show(os, " ").c_str());
    auto* fac = dynamic_cast<const RnnScorerGbeamFactory*>(sd->others[0]);
    auto& rc = fac->config();
    Set got = {{"r.rw", num(sd->scoreWeights[1])}, {"r.unkc", fl(rc.unkConstantTerm)}, {"r.unkl", fl(rc.unkLengthPenalty)}, {"r.nce", fl(rc.nceBias)}};
    if (!given.count("r.nce") && kind == 1) want["r.nce"] = got["r.nce"];   // that of the network
    for (auto& kv : got) if (kv.second != want[kv.first]) c.fail(kv.first.c_str(), "model %d with '%s': %s is %s instead of %s", kind, show(os, " ").c_str(), kv.first.c_str(), kv.second.c_str(), want[kv.first].c_str());
  }
  if (num(sd->scoreWeights[0]) != want["r.pw"]) c.fail("r.pw", "model %d with '%s': the weight of features is %g instead of %s", kind, show(os, " ").c_str(), sd->scoreWeights[0], want["r.pw"].c_str());
  c.sig(num(sd->scoreWeights[0]) + (off ? "" : num(sd->scoreWeights[1])));
}
void s_beams(Ctx& c) {
  static const int V[] = {-2, -1, 0, 1, 2, 40};
  static const char* O[] = {"--beam=", "--global-beam=", "--right-beam=", "--right-check=", "-L"};
  std::vector<std::string> args = {"--model=" + modelFile(c, c.choose(2))};
  setHome(c, nullptr);
  int n = 1 + c.choose(2);
  std::map<int, int> val = {{0, 5}, {1, 6}, {2, 5}, {3, 1}, {4, 1}};
  bool neg = false, latt = false, autob = c.flag();
  if (autob) args.push_back("--auto-nbest=1:2:3");
  for (int i = 0; i < n; ++i) {
    int o = c.choose(5), v = V[c.choose(6)];
    val[o] = v;
    neg |= v <= 0;
    latt |= o == 4;
    args.push_back(O[o] + std::to_string(v));
  }
  std::string all = join(args, " ");
  c.note("%s", all.c_str());
  c.count();
  jd::JumanppConf cf;
  Status s = parse(args, &cf);
  if (!s) { if (!neg) c.fail("rejected", "%s: %s", all.c_str(), msg(s).c_str()); return; }
  jd::JumanppExec ex(cf);
  s = ex.init();
  if (!s) { if (!neg) c.fail("init", "%s: %s", all.c_str(), msg(s).c_str()); return; }
  auto* an = ex.analyzerPtr()->impl();
  if (val[1] > 0 && !autob) {
    if (an->cfg().globalBeamSize != val[1] || an->cfg().rightGbeamSize != val[2] || an->cfg().rightGbeamCheck != val[3]) c.fail("beam", "%s: the beams of the analyzer are %d, %d, %d", all.c_str(), an->cfg().globalBeamSize, an->cfg().rightGbeamSize, an->cfg().rightGbeamCheck);
  }
  if (autob && (an->cfg().autoBeamBase < 1 || an->cfg().autoBeamStep != 2 || an->cfg().autoBeamMax != 3)) c.fail("auto", "%s: %d:%d:%d", all.c_str(), an->cfg().autoBeamBase, an->cfg().autoBeamStep, an->cfg().autoBeamMax);
  for (auto* t : {"", "水", "水は東京都"}) {
    s = ex.analyze(sp(std::string(t)), StringPiece{});
    if (!s) { if (!neg) c.fail("analysis", "%s: %s", all.c_str(), msg(s).c_str()); continue; }
    auto* l = an->lattice();
    u32 nb = l->createdBoundaryCount();
    if (nb <= 3) continue;
    size_t b = l->boundary(nb - 1)->starts()->beamData().row(0).size();
    int want = autob ? std::min(1 + (int)(nb - 3) / 2, 3) : std::max(val[0], val[4]);
    if (!neg && (int)b != want) c.fail("beam", "%s: the beam of '%s' has %zu places instead of %d", all.c_str(), t, b, want);
    c.sig(st(ex.output()));
  }
}
}  // namespace
int main(int argc, char** argv) {
  return mc::run(argc, argv, {
    {"combine", s_combine, "one option in a file x one on the command line, and two on the command line, of 63 (thorough: three in all), file given or in the home directory"},
    {"related", s_related, "up to 2 options of a group of 6 in a file x up to 2 (thorough: 3) on the command line, 5 groups"},
    {"blank", s_blank, "every white space of 6 around and between up to 2 of 3 options in a file"},
    {"numbers", s_numbers, "every value of up to 4 (thorough: 5) of 9 characters of two numeric options and up to 5 (thorough: 7) of 6 characters of --auto-nbest"},
    {"model", s_model, "up to 2 (thorough: 3) of 7 options of the language model over two models"},
    {"beams", s_beams, "up to 2 of 5 options of beams x 6 values, with and without automatic beams, over two models: settings of the analyzer and analysis of three texts"},
  });
}
