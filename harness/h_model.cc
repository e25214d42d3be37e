// LIBS: v_mc v_vss v_jumandic v_core v_util
// LDFLAGS: -Wl,--wrap=mmap,--wrap=munmap,--wrap=msync,--wrap=write,--wrap=open,--wrap=close,--wrap=rename,--wrap=fsync,--wrap=fdatasync,--wrap=ftruncate,--wrap=lseek
// P17: model files.  Every truncation, damage of the header and the section
// table, and every crash state of a save (process killed between or inside
// writes; power lost with any subset of unsynced pages) is loaded by the real
// loader.  File mappings of the loader are replaced with exact heap blocks, so
// that ASan sees every access outside the file.
#include <fcntl.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include "core/impl/model_format_ser.h"
#include "core/spec/spec_ser.h"
#include "dump.h"
#include "jenv.h"
#include "specdump.h"
#include "static_specs.h"
using mc::Ctx;
using namespace vt;

namespace fsx {
// what the process did to files: content as the kernel sees it and as it is on disk
struct Page { std::string cur, dur; };
bool exact = true, recording = false;
std::map<void*, size_t> blocks;                        // loader mappings
struct Map { std::string path; size_t off, len; };
std::map<void*, Map> maps;
std::map<int, std::string> fds;
struct Disk { std::string data; };                     // durable content by path
std::map<std::string, Disk> disk;
std::string target;
struct State { std::string cur, dur; bool exists; std::string what; };
std::vector<State> log;
std::string slurp(const std::string& p, bool* ok = nullptr);
}  // namespace fsx
extern "C" {
void* __real_mmap(void*, size_t, int, int, int, off_t);
int __real_munmap(void*, size_t);
int __real_msync(void*, size_t, int);
ssize_t __real_write(int, const void*, size_t);
int __real_open(const char*, int, ...);
int __real_close(int);
int __real_rename(const char*, const char*);
int __real_fsync(int);
int __real_fdatasync(int);
int __real_ftruncate(int, off_t);
off_t __real_lseek(int, off_t, int);
}
namespace fsx {
std::string slurp(const std::string& p, bool* ok) {
  std::string r;
  int fd = __real_open(p.c_str(), O_RDONLY);
  if (ok) *ok = fd >= 0;
  if (fd < 0) return r;
  struct stat s;
  fstat(fd, &s);
  r.resize(s.st_size);
  size_t n = 0;
  while (n < r.size()) {
    ssize_t k = pread(fd, &r[n], r.size() - n, n);
    if (k <= 0) break;
    n += k;
  }
  r.resize(n);
  __real_close(fd);
  return r;
}
void snap(const char* what) {
  if (!recording) return;
  State s;
  s.cur = slurp(target, &s.exists);
  s.dur = disk[target].data;
  s.what = what;
  if (log.empty() || log.back().cur != s.cur || log.back().dur != s.dur || log.back().exists != s.exists) log.push_back(s);
}
void sync(const std::string& path, size_t off, size_t len) {
  if (!recording) return;
  std::string c = slurp(path);
  auto& d = disk[path].data;
  if (off >= c.size()) return;
  size_t b = off / 4096 * 4096, e = std::min(c.size(), (off + len + 4095) / 4096 * 4096);
  if (d.size() < c.size()) d.resize(c.size());
  memcpy(&d[b], &c[b], e - b);
}
}  // namespace fsx
extern "C" {
void* __wrap_mmap(void* a, size_t len, int prot, int flags, int fd, off_t off) {
  if (fd < 0) return __real_mmap(a, len, prot, flags, fd, off);
  if (fsx::exact && !(prot & PROT_WRITE)) {
    struct stat s;
    if (!len || fstat(fd, &s) || off >= s.st_size) { errno = EINVAL; return MAP_FAILED; }
    size_t n = std::min(len, (size_t)(s.st_size - off));
    void* p = nullptr;
    if (posix_memalign(&p, 4096, n)) return MAP_FAILED;
    if (pread(fd, p, n, off) != (ssize_t)n) { free(p); return MAP_FAILED; }
    fsx::blocks[p] = n;
    return p;
  }
  fsx::snap("mmap");
  void* p = __real_mmap(a, len, prot, flags, fd, off);
  if (fsx::recording && p != MAP_FAILED && (prot & PROT_WRITE)) fsx::maps[p] = {fsx::fds[fd], (size_t)off, len};
  return p;
}
int __wrap_munmap(void* a, size_t len) {
  auto it = fsx::blocks.find(a);
  if (it != fsx::blocks.end()) { free(a); fsx::blocks.erase(it); return 0; }
  fsx::snap("munmap");
  if (fsx::recording) fsx::maps.erase(a);
  return __real_munmap(a, len);
}
int __wrap_msync(void* a, size_t len, int fl) {
  fsx::snap("before msync");
  int r = __real_msync(a, len, fl);
  if (fsx::recording && !r) {
    for (auto& m : fsx::maps) {
      char* b = (char*)m.first;
      if ((char*)a >= b && (char*)a < b + m.second.len) fsx::sync(m.second.path, m.second.off + ((char*)a - b), len);
    }
    fsx::snap("msync");
  }
  return r;
}
ssize_t __wrap_write(int fd, const void* p, size_t n) { fsx::snap("before write"); auto r = __real_write(fd, p, n); fsx::snap("write"); return r; }
int __wrap_open(const char* p, int fl, ...) {
  va_list ap;
  va_start(ap, fl);
  int mode = (fl & O_CREAT) ? va_arg(ap, int) : 0;
  va_end(ap);
  int r = __real_open(p, fl, mode);
  if (fsx::recording && r >= 0) { fsx::fds[r] = p; fsx::snap("open"); }
  return r;
}
int __wrap_close(int fd) { fsx::snap("close"); if (fsx::recording) fsx::fds.erase(fd); return __real_close(fd); }
int __wrap_rename(const char* a, const char* b) {
  fsx::snap("before rename");
  int r = __real_rename(a, b);
  if (fsx::recording && !r) { fsx::disk[b] = fsx::disk[a]; fsx::snap("rename"); }
  return r;
}
int __wrap_fsync(int fd) { int r = __real_fsync(fd); if (fsx::recording && fsx::fds.count(fd)) { fsx::sync(fsx::fds[fd], 0, size_t(1) << 40); fsx::snap("fsync"); } return r; }
int __wrap_fdatasync(int fd) { return __wrap_fsync(fd); }
int __wrap_ftruncate(int fd, off_t n) { fsx::snap("before ftruncate"); int r = __real_ftruncate(fd, n); fsx::snap("ftruncate"); return r; }
off_t __wrap_lseek(int fd, off_t o, int w) { return __real_lseek(fd, o, w); }
}

namespace {
struct Part { int kind; std::string comment; std::vector<std::string> data; };
typedef std::vector<Part> Parts;
bool operator==(const Part& a, const Part& b) { return a.kind == b.kind && a.comment == b.comment && a.data == b.data; }
Parts partsOf(const model::ModelInfo& mi) {
  Parts r;
  for (auto& p : mi.parts) {
    r.push_back({(int)p.kind, p.comment, {}});
    for (auto& d : p.data) r.back().data.push_back(st(d));
  }
  return r;
}
model::ModelInfo infoOf(const Parts& ps) {
  model::ModelInfo mi;
  for (auto& p : ps) {
    mi.parts.emplace_back();
    mi.parts.back().kind = (model::ModelPartKind)p.kind;
    mi.parts.back().comment = p.comment;
    for (auto& d : p.data) mi.parts.back().data.push_back(sp(d));
  }
  return mi;
}
// dictionary parts of small specifications
const Parts& dicParts(Ctx& c, int which) {
  static std::map<int, Parts> cache;
  auto it = cache.find(which);
  if (it != cache.end()) return it->second;
  Model m;
  Status s = m.specOnly([which](dsl::ModelSpecBuilder& b) {
    auto& a = b.field(1, "a").strings().trieIndex();
    auto& p = b.field(2, "p").strings();
    b.unigram({a});
    if (which >= 1) { b.unigram({a, p}); b.bigram({p}, {p}); }
    if (which >= 2) {
      b.field(3, "l").stringLists();
      auto& kv = b.field(4, "k").kvLists();
      auto& len = b.feature("len").length(a);
      auto& ml = b.feature("ml").matchData(p, "n");
      b.unigram({len}); b.unigram({ml});
      b.trigram({p}, {p}, {p});
      auto& ph = b.feature("ph").placeholder();
      b.unigram({ph});
      b.unk("u", 1).chunking(chars::CharacterClass::ALPH).writeFeatureTo(ph).outputTo({a});
      b.unk("n", 2).numeric(chars::CharacterClass::FIGURE).outputTo({a, p});
      b.train().field(a, 1.0f).field(p, 0.5f).allowGoldUnkWith(p, kv, "t");
    }
  });
  if (!s) c.fail("setup", "spec: %s", msg(s).c_str());
  std::string csv = which == 0 ? "a,n\n" : "a,n,x y,t:n z\nb,n,y,q:r\nab,v,,\nか,v,あ い,t:v\n";
  s = m.dicOnly(sp(csv));
  if (!s) c.fail("setup", "dictionary: %s", msg(s).c_str());
  model::ModelInfo mi;
  mi.parts.emplace_back();
  s = m.builder.fillModelPart(&mi.parts.back(), which == 0 ? StringPiece("") : StringPiece("dictionary 辞書"));
  if (!s) c.fail("setup", "part: %s", msg(s).c_str());
  return cache[which] = partsOf(mi);
}
Part perceptron(int bits, int salt, const std::string& comment) {
  util::serialization::Saver sv;
  PerceptronInfo pi{bits};
  sv.save(pi);
  std::string w((size_t)4 << bits, 0);
  for (size_t i = 0; i < w.size() / 4; ++i) { float f = Net::val(salt * 7919 + i); memcpy(&w[i * 4], &f, 4); }
  return {(int)model::ModelPartKind::Perceprton, comment, {st(sv.result()), w}};
}
// complete models
const int NM = 4;
const Parts& modelOf(Ctx& c, int which) {
  static std::map<int, Parts> cache;
  auto it = cache.find(which);
  if (it != cache.end()) return it->second;
  Parts r;
  if (which < 3) {
    r = dicParts(c, which);
    if (which) r.push_back(perceptron(which == 1 ? 3 : 11, which, "linear"));
  } else {
    JModel jm;
    Net net;
    net.voc = {"</s>", "<unk>", "水", "だ"};
    net.maxent = 97;
    net.fill(5);
    jm.net = &net;
    jm.bits = 11;
    jm.rnn.rnnFields = std::vector<std::string>{"baseform"};
    std::string f = c.scratch() + "/jm";
    Status s = jm.write(f);
    if (!s) c.fail("setup", "model: %s", msg(s).c_str());
    model::FilesystemModel fm;
    model::ModelInfo mi;
    s = fm.open(sp(f));
    if (s) s = fm.load(&mi);
    if (!s) c.fail("setup", "model: %s", msg(s).c_str());
    r = partsOf(mi);
    unlink(f.c_str());
  }
  return cache[which] = r;
}
void put(const std::string& f, const std::string& d) {
  int fd = __real_open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  size_t n = 0;
  while (n < d.size()) { ssize_t k = __real_write(fd, d.data() + n, d.size() - n); if (k <= 0) break; n += k; }
  __real_close(fd);
}
Status save(const std::string& f, const Parts& p) {
  model::ModelInfo mi = infoOf(p);
  model::ModelSaver sv;
  JPP_RETURN_IF_ERROR(sv.open(sp(f)));
  return sv.save(mi);
}
const std::string& bytesOf(Ctx& c, int which) {
  static std::map<int, std::string> cache;
  auto it = cache.find(which);
  if (it != cache.end()) return it->second;
  std::string f = c.scratch() + "/b";
  unlink(f.c_str());
  Status s = save(f, modelOf(c, which));
  if (!s) c.fail("save", "save: %s", msg(s).c_str());
  std::string r = fsx::slurp(f);
  unlink(f.c_str());
  return cache[which] = r;
}
// loads a file; empty and ok=false when rejected
struct Load { bool ok = false; Parts parts; std::string err, spec; };
Load load(Ctx& c, const std::string& f) {
  Load r;
  c.count();
  {
    // the loader as the command line tools use it
    JumanppEnv env;
    Status s = env.loadModel(sp(f));
    if (!s) { r.err = msg(s); return r; }
    model::ModelInfo mi = env.modelInfoCopy();
    for (auto& p : mi.parts)
      for (auto& d : p.data) {
        if (d.begin() > d.end()) c.fail("outside", "a section of the loaded model has negative size");
        bool in = d.size() == 0;
        for (auto& b : fsx::blocks) in |= d.begin() >= (const char*)b.first && d.end() <= (const char*)b.first + b.second;
        if (!in && !fsx::blocks.empty()) c.fail("outside", "a section of the loaded model (%zu bytes) lies outside of the file", d.size());
      }
    r.parts = partsOf(mi);
    r.ok = true;
    util::serialization::Saver sv;
    sv.save(env.coreHolder()->spec());
    r.spec = st(sv.result());
  }
  return r;
}
std::string describe(const Parts& p) {
  std::string r;
  for (auto& x : p) { r += " " + std::to_string(x.kind) + "<" + x.comment.substr(0, 10) + ">"; for (auto& d : x.data) r += " " + std::to_string(d.size()); }
  return r;
}
// the extent of a file which holds sections: after that there is only padding
struct Hdr { model::ModelInfoRaw raw; size_t table, tableEnd; u64 dataEnd; };
Hdr header(Ctx& c, const std::string& b) {
  Hdr h;
  util::CodedBufferParser p{StringPiece{b.data() + 8, b.data() + 4096}};
  u64 n = 0;
  if (!p.readVarint64(&n)) c.fail("setup", "header");
  h.table = 8 + p.numReadBytes();
  h.tableEnd = h.table + n;
  util::serialization::Loader l{StringPiece{b.data() + h.table, b.data() + h.tableEnd}};
  if (!l.load(&h.raw)) c.fail("setup", "header table");
  h.dataEnd = h.tableEnd;
  for (auto& q : h.raw.parts) for (auto& d : q.data) h.dataEnd = std::max(h.dataEnd, d.offset + d.size);
  return h;
}
std::string specBytes(Ctx& c, int which) {
  static std::map<int, std::string> cache;
  if (!cache.count(which)) {
    std::string f = c.scratch() + "/s";
    put(f, bytesOf(c, which));
    Load l = load(c, f);
    if (!l.ok) c.fail("load", "saved model is rejected: %s", l.err.c_str());
    unlink(f.c_str());
    cache[which] = l.spec;
  }
  return cache[which];
}

void s_roundtrip(Ctx& c) {
  Parts p = dicParts(c, c.choose(3));
  int lin = c.choose(5);
  static const int BITS[] = {0, 1, 4, 10, 13};
  static const std::string CM[] = {"", "x", "線形 モデル", std::string(300, 'y'), std::string("a\0b\n", 4)};
  int cm = c.choose(5);
  if (lin) p.push_back(perceptron(BITS[lin], lin, CM[cm]));
  p[0].comment = CM[c.choose(5)];
  int old = c.choose(5);
  std::string f = c.scratch() + "/r";
  unlink(f.c_str());
  if (old == 1) put(f, "jp2Mdl!");
  if (old == 2) put(f, std::string(200000, '\xff'));
  if (old == 3) put(f, bytesOf(c, 2));
  if (old == 4) put(f, bytesOf(c, 3));
  c.note("parts%s, over %s", describe(p).c_str(), old == 0 ? "nothing" : old == 1 ? "a bare magic" : old == 2 ? "200 kB of 0xff" : old == 3 ? "another model" : "a bigger model");
  Status s = save(f, p);
  if (!s) c.fail("save", "save: %s", msg(s).c_str());
  Load l = load(c, f);
  unlink(f.c_str());
  if (!l.ok) c.fail("load", "saved model is rejected: %s", l.err.c_str());
  if (!(l.parts == p)) c.fail("load", "loaded parts%s differ from the saved ones%s", describe(l.parts).c_str(), describe(p).c_str());
  c.sig(describe(p) + std::to_string(old));
}
// the section table does not fit into the header any more: such models are refused by the saver, not by the loader
void s_header(Ctx& c) {
  Parts p = dicParts(c, c.choose(2));
  int how = c.choose(3);
  if (how) p.push_back(perceptron(1, 1, "w"));
  int len = c.range(c.thorough() ? 2000 : 3600, c.thorough() ? 4400 : 4100);
  std::string f = c.scratch() + "/h";
  unlink(f.c_str());
  (how == 2 ? p[1] : p[0]).comment = std::string(len, 'c');
  bool over = c.flag();
  if (over) put(f, bytesOf(c, 2));
  c.note("parts%s, comment of %d bytes, over %s", describe(p).c_str(), len, over ? "another model" : "nothing");
  Status s = save(f, p);
  Load l = load(c, f);
  bool ex;
  fsx::slurp(f, &ex);
  if (s && !l.ok) c.fail("load", "saved model is rejected: %s", l.err.c_str());
  if (s && !(l.parts == p)) c.fail("load", "loaded parts%s differ from the saved ones%s", describe(l.parts).c_str(), describe(p).c_str());
  if (!s && l.ok && (!over || !(l.parts == modelOf(c, 2)))) c.fail("load", "a model which was not saved (%s) is loaded", msg(s).c_str());
  unlink(f.c_str());
  if (!s && len < 3600) c.fail("save", "save: %s", msg(s).c_str());
  c.sig(len * 8 + how * 2 + bool(s));
}
// a loaded model analyses as the one which was saved
void s_same(Ctx& c) {
  static const std::string DIC[] = {
      "T,t0,7,r q,k:v\na,x,1,p,k\nb,y,2,q,j\nab,z,3,p q,k:v\na,y,1,,\nあ,x,1,q,\n",
      "T,x,7,p,\naa,x,1,p,k\nb,x,2,q,j\nba,z,3,p q,k:v\nba,x,1,,\nba,y,3,p,j\nああ,x,1,q,k\nあ,z,2,p,j\n1,y,1,p,\naあ,t0,1,,\n"};
  int s = c.choose(9), d = c.choose(2), bits = 4 + 6 * c.choose(2);
  Model m;
  Status q = m.build([&](dsl::ModelSpecBuilder& b) {
    switch (s) {
      case 0: return vss::S1::fillSpec(b);
      case 1: return vss::S2::fillSpec(b);
      case 2: return vss::S3::fillSpec(b);
      case 3: return vss::S4::fillSpec(b);
      case 4: return vss::S5::fillSpec(b);
      case 5: return vss::S6::fillSpec(b);
      case 6: return vss::S7::fillSpec(b);
      default: break;
    }
    // fields of every kind with shared storage, separators, empty values, alignment; training description
    auto& f1 = b.field(1, "f1").strings().trieIndex().emptyValue("T");
    auto& f2 = b.field(2, "f2").strings().emptyValue("-");
    if (s == 8) f2.align(4); else f2.stringStorage(f1);
    auto& l = b.field(4, "l").stringLists().listSeparator(s == 7 ? " " : "/").emptyValue("*");
    auto& k = b.field(5, "k").kvLists().kvSeparator(":").listSeparator("|");
    auto& n = b.field(3, "n").integers();
    auto& ml = b.feature("ml").matchData(l, "p");
    auto& ph = b.feature("ph").placeholder();
    b.unigram({f1, n}); b.bigram({f2}, {ml}); b.trigram({f2}, {ph}, {f1});
    b.unk("any", 1).single(chars::CharacterClass::FAMILY_ANYTHING).writeFeatureTo(ph).outputTo({f1});
    if (s == 8) b.unk("al", 1).chunking(chars::CharacterClass::ALPH).outputTo({f1, f2}).lowPriority();
    b.train().field(f1, 1.0f).field(f2, 0.25f);
    if (s == 8) b.train().allowGoldUnkWith(f2, k, "v");
  }, sp(DIC[d]));
  if (!q) c.fail("setup", "specification %d: %s", s, msg(q).c_str());
  auto w = intWeights(bits, 7, s);
  model::ModelInfo mi;
  mi.parts.emplace_back();
  q = m.builder.fillModelPart(&mi.parts.back(), "dic");
  if (!q) c.fail("setup", "part: %s", msg(q).c_str());
  Parts p = partsOf(mi);
  Part lin = perceptron(bits, 1, "w");
  memcpy(&lin.data[1][0], w.data(), w.size() * 4);
  p.push_back(lin);
  std::string f = c.scratch() + "/e";
  unlink(f.c_str());
  q = save(f, p);
  if (!q) c.fail("save", "save: %s", msg(q).c_str());
  JumanppEnv env;
  q = env.loadModel(sp(f));
  if (!q) c.fail("load", "saved model is rejected: %s", msg(q).c_str());
  unlink(f.c_str());
  c.note("specification %d, dictionary %d, %d bits", s, d, bits);
  std::string a = dumpSpec(m.spec()), b = dumpSpec(env.coreHolder()->spec());
  if (a != b) c.fail("spec", "the loaded specification differs: %s", diffStr(a, b).c_str());
  q = env.initFeatures(nullptr);
  if (!q) c.fail("load", "initFeatures: %s", msg(q).c_str());
  HashedFeaturePerceptron hp(w);
  ScorerDef sd;
  sd.feature = &hp;
  sd.scoreWeights.push_back(1.0f);
  auto a1 = m.analyzer(3);
  An a2(env.coreHolder(), ScoringConfig{3, 1}, acfg());
  q = a1->initScorers(sd);
  if (q) q = a2.initScorers(*env.scorers());
  if (!q) c.fail("setup", "scorers: %s", msg(q).c_str());
  static const std::vector<std::string> AL = {"a", "b", "あ", "1"};
  int n = c.thorough() ? 4 : 3, cnt = 1;
  for (int i = 0; i < n; ++i) cnt *= 4;
  for (int k = 0; k < cnt; ++k) {
    std::string in;
    for (int i = 0, x = k; i < n; ++i, x /= 4) in += AL[x % 4];
    Status q1 = a1->full(sp(in), &sd), q2 = a2.full(sp(in), env.scorers());
    c.count();
    if (bool(q1) != bool(q2)) c.fail("analysis", "'%s': %s, with the loaded model %s", in.c_str(), msg(q1).c_str(), msg(q2).c_str());
    if (!q1) continue;
    std::string r1 = dumpAnalysis(*a1), r2 = dumpAnalysis(a2);
    if (r1 != r2) c.fail("analysis", "'%s' differs with the loaded model: %s", in.c_str(), diffStr(r1, r2).c_str());
    c.sig(r1);
  }
}
void s_truncate(Ctx& c) {
  int m = c.choose(c.thorough() ? NM : 3);
  const std::string& b = bytesOf(c, m);
  Hdr h = header(c, b);
  std::vector<size_t> cuts;
  if (c.thorough()) {
    cuts.resize(b.size() + 1);
    for (size_t i = 0; i < cuts.size(); ++i) cuts[i] = i;
  } else {
    std::set<size_t> s;
    for (size_t i = 0; i <= h.tableEnd + 8; ++i) s.insert(i);
    auto near = [&](size_t x) { for (long d = -3; d <= 3; ++d) if ((long)x + d >= 0 && x + d <= b.size()) s.insert(x + d); };
    for (size_t i = 0; i <= b.size(); i += 1024) near(i);
    for (auto& p : h.raw.parts) for (auto& d : p.data) { near(d.offset); near(d.offset + d.size); near(d.offset + d.size / 2); }
    near(b.size());
    auto& d0 = h.raw.parts[0].data[0];
    for (size_t i = d0.offset; i < d0.offset + d0.size; ++i) s.insert(i);
    cuts.assign(s.begin(), s.end());
  }
  int blk = c.choose((int)((cuts.size() + 15) / 16));
  std::string f = c.scratch() + "/t";
  for (size_t i = blk * 16; i < std::min(cuts.size(), (size_t)blk * 16 + 16); ++i) {
    c.note("model %d of %zu bytes cut to %zu", m, b.size(), cuts[i]);
    put(f, b.substr(0, cuts[i]));
    Load l = load(c, f);
    if (l.ok && cuts[i] < h.dataEnd) c.fail("truncated", "model %d cut to %zu of %zu bytes is loaded", m, cuts[i], b.size());
    if (l.ok && !(l.parts == modelOf(c, m))) c.fail("truncated-differs", "model %d cut to %zu bytes is loaded as%s", m, cuts[i], describe(l.parts).c_str());
    if (!l.ok && cuts[i] == b.size()) c.fail("load", "complete model is rejected: %s", l.err.c_str());
    c.sig(l.err.substr(0, 30));
  }
  unlink(f.c_str());
}
// any single byte of the header: rejected, or loaded without touching anything outside
void s_damage(Ctx& c) {
  int m = c.choose(3);
  const std::string& b = bytesOf(c, m);
  Hdr h = header(c, b);
  size_t pos = c.choose((int)h.tableEnd);
  std::string f = c.scratch() + "/d";
  for (int v = 1; v < 256; v += c.thorough() || m == 1 || pos < 8 ? 1 : 14) {
    std::string d = b;
    d[pos] ^= v;
    c.note("model %d, header byte %zu ^ %02x", m, pos, v);
    put(f, d);
    Load l = load(c, f);
    if (pos < 7 && l.ok) c.fail("magic", "a damaged magic is accepted");
    if (l.ok) {
      // whatever was accepted must be what the table says
      Hdr h2 = header(c, d);
      Parts want;
      for (auto& p : h2.raw.parts) {
        want.push_back({(int)p.kind, p.comment, {}});
        for (auto& x : p.data) {
          if (x.offset > d.size() || x.size > d.size() - x.offset) c.fail("outside", "section at %llu of %llu bytes is accepted", (unsigned long long)x.offset, (unsigned long long)x.size);
          want.back().data.push_back(d.substr(x.offset, x.size));
        }
      }
      if (!(l.parts == want)) c.fail("table", "loaded sections differ from the table");
    }
    c.sig(l.ok ? "ok " + describe(l.parts) : l.err.substr(0, 40));
  }
  unlink(f.c_str());
}
std::string withHeader(const std::string& b, const model::ModelInfoRaw& raw, u64 hs, bool own) {
  util::serialization::Saver sv;
  sv.save(raw);
  std::string t = st(sv.result());
  util::CodedBuffer cb;
  cb.writeVarint(own ? t.size() : hs);
  std::string head = b.substr(0, 8) + st(cb.contents()) + t;
  head.resize(4096);
  return head + b.substr(4096);
}
// structural damage of the section table: everything inconsistent is rejected
void s_table(Ctx& c) {
  int m = 1 + c.choose(c.thorough() ? 3 : 2);
  const std::string& b = bytesOf(c, m);
  Hdr h = header(c, b);
  auto raw = h.raw;
  u64 hs = 0;
  bool own = true, mustFail = true;
  std::string what;
  std::vector<u64> BAD = {b.size() + 1, b.size() + 4096, u64(1) << 31, u64(1) << 32, u64(1) << 62, u64(1) << 63, ~u64(0), ~u64(0) - 4095, ~u64(0) - 8191, u64(0) - b.size()};
  switch (c.choose(7)) {
    case 0: {  // header size
      own = false;
      u64 t = h.tableEnd - h.table;
      std::vector<u64> V = {0, 1, t / 2, t - 1, t + 1, 4080, 4086, 4087, 4088, 4096, b.size(), u64(1) << 31, u64(1) << 32, u64(1) << 63, ~u64(0), ~u64(0) - 1, ~u64(0) - 9, ~u64(0) - 4096};
      hs = V[c.choose((int)V.size())];
      what = "header size " + std::to_string(hs);
      break;
    }
    case 1: case 2: {  // block extents
      int p = c.choose((int)raw.parts.size()), d = c.choose((int)raw.parts[p].data.size());
      auto& x = raw.parts[p].data[d];
      bool off = c.flag();
      u64 v = BAD[c.choose((int)BAD.size())];
      if (off) x.offset = v; else x.size = v;
      if (c.flag()) (off ? x.size : x.offset) = c.flag() ? 0 : u64(0) - v;
      if (x.offset <= b.size() && x.size <= b.size() - x.offset) mustFail = false;
      what = "section " + std::to_string(p) + "." + std::to_string(d) + " at " + std::to_string(x.offset) + " of " + std::to_string(x.size);
      break;
    }
    case 3: {  // a part is missing or repeated
      int p = c.choose((int)raw.parts.size());
      if (c.flag()) {
        mustFail = p == 0;
        raw.parts.erase(raw.parts.begin() + p);
        what = "part missing " + std::to_string(p);
      } else {
        mustFail = p == 0;
        raw.parts.push_back(raw.parts[p]);
        what = "part repeated " + std::to_string(p);
      }
      break;
    }
    case 4: {  // a block is missing, repeated or exchanged
      int p = c.choose((int)raw.parts.size());
      auto& d = raw.parts[p].data;
      int i = c.choose((int)d.size());
      if (raw.parts[p].kind == model::ModelPartKind::Rnn) c.discard();
      if (c.flag()) { d.erase(d.begin() + i); what = "block missing "; }
      else { d.insert(d.begin() + i, d[i]); what = "block repeated "; }
      what += std::to_string(p) + "." + std::to_string(i);
      break;
    }
    case 5: {  // dictionary metadata is empty, or cut, or followed by something
      auto& x = raw.parts[0].data[0];
      int n = c.choose(3);
      if (n == 0) x.size = 0;
      if (n == 1) x.size = c.choose((int)x.size);
      if (n == 2) x.size += 1;
      what = "metadata of " + std::to_string(x.size) + " bytes";
      break;
    }
    case 6: {  // linear part
      size_t k = 1;
      if (raw.parts.size() < 2) c.discard();
      auto& x = raw.parts[k].data[c.choose(2)];
      bool first = &x == &raw.parts[k].data[0];
      if (first) x.size = c.flag() ? 0 : 5;
      else { static const double F[] = {0, 0.5, 2}; x.size = (u64)(x.size * F[c.choose(3)]); if (x.offset + x.size > b.size()) { x.offset = 4096; x.size = std::min(x.size, b.size() - 4096 - 8); } }
      what = "linear part block of " + std::to_string(x.size);
      break;
    }
  }
  c.note("model %d: %s", m, what.c_str());
  std::string f = c.scratch() + "/x";
  put(f, withHeader(b, raw, hs, own));
  Load l = load(c, f);
  unlink(f.c_str());
  if (mustFail && l.ok) c.fail("accepted", "model %d with %s is accepted", m, what.c_str());
  c.sig(l.ok ? "ok" : l.err.substr(0, 60));
}
// serialized specification and dictionary description: no damage of one byte crashes the loader
void s_meta(Ctx& c) {
  int m = c.choose(3);
  const std::string& b = bytesOf(c, m);
  Hdr h = header(c, b);
  auto& d0 = h.raw.parts[0].data[0];
  size_t pos = d0.offset + c.choose((int)d0.size);
  std::string f = c.scratch() + "/y";
  static const int V[] = {1, 2, 4, 8, 16, 32, 64, 128, 255, 127};
  for (int v = 0; v < (c.thorough() ? 255 : 10); ++v) {
    std::string d = b;
    d[pos] ^= c.thorough() ? v + 1 : V[v];
    c.note("model %d, metadata byte %zu ^ %02x", m, pos - d0.offset, (unsigned char)(d[pos] ^ b[pos]));
    put(f, d);
    Load l = load(c, f);
    c.sig(l.ok ? "ok" : l.err.substr(0, 40));
  }
  unlink(f.c_str());
}
// interrupted saves
void s_crash(Ctx& c) {
  int newM = c.choose(c.thorough() ? NM : 3), oldM = c.choose(6);   // 4 old models, nothing, garbage
  if (!c.thorough() && oldM == 3) c.discard();
  std::string f = c.scratch() + "/c";
  static int lastNew = -1, lastOld = -1;
  static std::vector<fsx::State> states;
  static bool ok;
  if (newM != lastNew || oldM != lastOld) {
    unlink(f.c_str());
    std::string ob = oldM < 4 ? bytesOf(c, oldM) : oldM == 4 ? "" : std::string(10000, 'x');
    modelOf(c, newM);
    if (oldM != 4) put(f, ob);
    fsx::log.clear();
    fsx::disk.clear();
    fsx::maps.clear();
    fsx::fds.clear();
    fsx::target = f;
    fsx::disk[f].data = ob;
    fsx::recording = true;
    fsx::snap("start");
    Status s = save(f, modelOf(c, newM));
    fsx::snap("end");
    fsx::recording = false;
    ok = bool(s);
    states = fsx::log;
    lastNew = newM;
    lastOld = oldM;
  }
  const Parts& np = modelOf(c, newM);
  const Parts* op = oldM < 4 ? &modelOf(c, oldM) : nullptr;
  if (!ok) c.fail("save", "save fails");
  auto verdict = [&](const std::string& content, const std::string& how) {
    c.note("model %d over %d: %s", newM, oldM, how.c_str());
    put(f + "l", content);
    Load l = load(c, f + "l");
    unlink((f + "l").c_str());
    if (l.ok && !(l.parts == np) && !(op && l.parts == *op)) c.fail("mixture", "model %d saved over %s: %s leaves a file which is loaded as%s", newM, oldM < 4 ? ("model " + std::to_string(oldM)).c_str() : oldM == 4 ? "nothing" : "garbage", how.c_str(), describe(l.parts).c_str());
    c.state();
    c.sig(l.ok ? l.parts == np ? "new" : "old" : l.err.substr(0, 20));
    return l.ok;
  };
  int si = c.choose((int)states.size());
  auto& s1 = states[si];
  std::string at = std::string(s1.what) + " (" + std::to_string(si) + ")";
  if (si + 1 == (int)states.size()) {
    if (!verdict(s1.cur, "complete save")) c.fail("load", "complete save is rejected");
  }
  if (s1.exists) verdict(s1.cur, "killed at " + at);
  // killed inside of the writes which lead to this state: a prefix of the changed bytes
  if (si > 0 && s1.exists) {
    std::string base = states[si - 1].cur;
    size_t n = s1.cur.size();
    base.resize(std::max(n, base.size()));
    if (base.size() == n) {
      std::vector<size_t> ch;
      for (size_t i = 0; i < n; ++i) if (base[i] != s1.cur[i]) ch.push_back(i);
      size_t step = ch.size() > 600 ? 64 : 1;
      for (size_t k = 1; k < ch.size(); k += step) {
        std::string t = s1.cur.substr(0, ch[k]) + base.substr(ch[k]);
        verdict(t, "killed while writing byte " + std::to_string(ch[k]) + " before " + at);
      }
    }
  }
  // power lost: any subset of the unsynced pages reached the disk
  std::string dur = s1.dur;
  dur.resize(std::max(dur.size(), s1.cur.size()));
  std::vector<size_t> dirty;
  for (size_t p = 0; p * 4096 < s1.cur.size(); ++p)
    if (s1.cur.compare(p * 4096, 4096, dur, p * 4096, 4096)) dirty.push_back(p);
  size_t lim = c.thorough() ? 12 : 8;
  // many pages: all subsets of the first and last ones, the rest together
  std::vector<std::vector<size_t>> groups;
  for (size_t i = 0; i < dirty.size(); ++i) {
    if (dirty.size() > lim && i >= lim / 2 && i < dirty.size() - lim / 2) {
      if (i == lim / 2) groups.emplace_back();
      groups.back().push_back(dirty[i]);
    } else groups.push_back({dirty[i]});
  }
  for (size_t mask = 0; mask < (size_t(1) << groups.size()); ++mask) {
    std::string t = dur;
    for (size_t g = 0; g < groups.size(); ++g)
      if (mask >> g & 1) for (auto p : groups[g]) t.replace(p * 4096, 4096, s1.cur, p * 4096, 4096);
    char b[80];
    snprintf(b, sizeof b, "power loss with pages %zx of %zu unsynced ones at ", mask, groups.size());
    verdict(t, b + at);
    c.transition();
  }
}
}  // namespace
int main(int argc, char** argv) {
  return mc::run(argc, argv, {
    {"roundtrip", s_roundtrip, "3 dictionaries x 5 linear parts x comments, saved over 5 earlier contents and loaded back"},
    {"header", s_header, "2 dictionaries with 0-1 linear parts and comments of every length around the capacity of the header (3600 to 4100; thorough 2000 to 4400 bytes)"},
    {"same", s_same, "9 specifications x 2 dictionaries x 2 weight tables: the loaded specification and the analysis of every text of 3 (thorough: 4) characters over 4 are those of the saved model"},
    {"truncate", s_truncate, "model files cut at every byte of the header and the metadata and around every section and kilobyte boundary (thorough: every byte)"},
    {"damage", s_damage, "every byte of the header of 3 models x all 255 other values (quick: of two models 19 values)"},
    {"table", s_table, "inconsistent header sizes, section extents, missing, repeated and resized sections"},
    {"meta", s_meta, "every byte of the serialized specification x 10 (thorough: 255) changes"},
    {"crash", s_crash, "every crash state of saving 3 models over 5 earlier contents: between and inside writes, and every subset of unsynced pages"},
  });
}
