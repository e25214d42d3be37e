#include "mc.h"
#include <dirent.h>
#include <errno.h>
#include <exception>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <map>
#include <unordered_set>

namespace mc {

constexpr uint64_t kSplit = 600;
constexpr size_t kClaims = 1 << 22;

struct Shared {
  std::atomic<uint64_t> execs;   // executions finished (heartbeat)
  uint64_t evals, states, trans, discards;
  int len;
  int pick[kMaxChoices];
  int ar[kMaxChoices];
  uint64_t unit;                 // index of current work unit (DFS order)
  int unitLen;
  bool claimedNow;
  bool done;
  char note[2048];
};

static double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

static double cpuOf(pid_t p) {
  char fn[64], buf[1024];
  snprintf(fn, sizeof fn, "/proc/%d/stat", (int)p);
  int fd = open(fn, O_RDONLY);
  if (fd < 0) return 0;
  ssize_t n = read(fd, buf, sizeof buf - 1);
  close(fd);
  if (n <= 0) return 0;
  buf[n] = 0;
  char* q = strrchr(buf, ')');
  unsigned long ut = 0, st = 0;
  if (q) sscanf(q + 2, "%*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &ut, &st);
  return double(ut + st) / sysconf(_SC_CLK_TCK);
}

struct Engine {
  uint8_t* claims = nullptr;     // shared
  int workerId = 0;
};

int Ctx::choose(int n) {
  if (n <= 0) { fprintf(stderr, "choose(%d)\n", n); abort(); }
  size_t i = pick_.size();
  int v = i < pre_.size() ? pre_[i] : 0;
  if (v >= n) {  // only possible for a stale replay file / nondeterminism
    fprintf(stderr, "nondeterministic scenario: choice %zu is %d of %d\n", i, v, n);
    _exit(97);
  }
  if (i >= kMaxChoices) { fprintf(stderr, "too many choices\n"); _exit(98); }
  pick_.push_back(v);
  ar_.push_back(n);
  if (sh_) {
    sh_->pick[i] = v;
    sh_->ar[i] = n;
    sh_->len = (int)i + 1;
  }
  if (!claimed_ && !replay_) {
    prod_ *= (uint64_t)n;
    if (prod_ >= kSplit) {
      // pick_ is a complete work-unit prefix
      claimed_ = true;
      bool sameUnit = sh_->unitLen > 0 && i + 1 == (size_t)sh_->unitLen && sh_->claimedNow;
      if (sameUnit) {
        // still inside the unit this worker owns (prefix not advanced)
      } else {
        Engine* e = (Engine*)eng_;
        uint64_t u = sh_->unit++;
        sh_->unitLen = (int)i + 1;
        if (u >= kClaims) { fprintf(stderr, "too many work units\n"); _exit(96); }
        uint8_t exp = 0;
        bool mine = __atomic_compare_exchange_n(&e->claims[u], &exp, (uint8_t)(e->workerId + 1),
                                                false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
        sh_->claimedNow = mine;
        if (!mine) throw Skip{};
      }
    }
  }
  return v;
}

void Ctx::sig(uint64_t v) {
  hasSig_ = true;
  sigAcc_ ^= v + 0x9e3779b97f4a7c15ULL + (sigAcc_ << 6) + (sigAcc_ >> 2);
}

static std::string vfmt(const char* fmt, va_list ap) {
  char buf[8192];
  vsnprintf(buf, sizeof buf, fmt, ap);
  return buf;
}

void Ctx::fail(const std::string& key, const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  std::string s = vfmt(fmt, ap);
  va_end(ap);
  throw Violation{key, s};
}

void Ctx::note(const char* fmt, ...) {
  char buf[2048];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  note_ = buf;
  if (sh_) memcpy(sh_->note, buf, sizeof buf);
}

static std::string jesc(const std::string& s) {
  std::string r = "\"";
  size_t i = 0;
  while (i < s.size()) {
    unsigned char c = s[i];
    // keep valid utf-8 sequences, escape everything else
    int n = c < 0x80 ? 1 : (c >> 5) == 6 ? 2 : (c >> 4) == 14 ? 3 : (c >> 3) == 30 ? 4 : 0;
    bool ok = n > 0 && i + n <= s.size();
    for (int k = 1; ok && k < n; ++k) ok = ((unsigned char)s[i + k] & 0xC0) == 0x80;
    if (ok && n > 1) {
      // avoid surrogates / overlongs: be conservative, validate code point
      uint32_t cp = n == 2 ? c & 31 : n == 3 ? c & 15 : c & 7;
      for (int k = 1; k < n; ++k) cp = (cp << 6) | ((unsigned char)s[i + k] & 63);
      if ((n == 2 && cp < 0x80) || (n == 3 && cp < 0x800) || (n == 4 && (cp < 0x10000 || cp > 0x10ffff)) ||
          (cp >= 0xd800 && cp < 0xe000)) ok = false;
    }
    if (!ok) {
      char b[16];
      snprintf(b, sizeof b, "<%02x>", c);
      r += b;
      ++i;
      continue;
    }
    if (n == 1) {
      if (c == '"' || c == '\\') { r += '\\'; r += c; }
      else if (c == '\n') r += "\\n";
      else if (c == '\t') r += "\\t";
      else if (c < 0x20 || c == 0x7f) { char b[16]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
      else r += c;
    } else r.append(s, i, n);
    i += n;
  }
  return r + "\"";
}

struct Found {
  std::string scenario, key, text, note;
  std::vector<int> picks;
};

struct Options {
  bool thorough = false;
  std::string out, replayFile, replayDir = ".", only;
  double deadline = 0;  // seconds for the whole harness; 0 none
  double hangCpu = 60;
  int maxFound = 24;
};

static std::string gScratchBase;

static void writeAll(int fd, const std::string& s) {
  size_t o = 0;
  while (o < s.size()) {
    ssize_t n = write(fd, s.data() + o, s.size() - o);
    if (n <= 0) break;
    o += n;
  }
}

// one execution; returns false when skipped
enum class Res { Ok, Skip, Discard, Viol };

static Res execute(const Scenario& sc, Ctx& c, Violation* v) {
  try {
    sc.fn(c);
    return Res::Ok;
  } catch (Skip&) {
    return Res::Skip;
  } catch (Discard&) {
    return Res::Discard;
  } catch (Violation& x) {
    *v = x;
    return Res::Viol;
  } catch (std::exception& e) {
    *v = Violation{"exception", std::string("exception escaped from the code under test: ") + e.what()};
    return Res::Viol;
  } catch (...) {
    *v = Violation{"exception", "unknown exception escaped from the code under test"};
    return Res::Viol;
  }
}

static bool advance(std::vector<int>& p, std::vector<int>& a) {
  while (!p.empty()) {
    if (p.back() + 1 < a.back()) {
      p.back()++;
      return true;
    }
    p.pop_back();
    a.pop_back();
  }
  return false;
}

static void worker(const Scenario& sc, const Options& opt, Engine eng, Shared* sh, bool resume,
                   const std::string& file, double deadline) {
  // result lines: V <json>, S <sample>, and the signature set at the end
  int fd = open(file.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
  std::unordered_set<uint64_t> sigs;
  std::vector<int> p, a;
  if (resume) {
    p.assign(sh->pick, sh->pick + sh->len);
    a.assign(sh->ar, sh->ar + sh->len);
    size_t old = p.size();
    (void)old;
    if (!advance(p, a)) { sh->done = true; _exit(0); }
    if ((int)p.size() <= sh->unitLen) sh->claimedNow = false, sh->unitLen = 0;
  }
  int found = 0, samples = 0;
  uint64_t nextSample = 1;
  for (;;) {
    Ctx c;
    c.pre_ = p;
    c.thorough_ = opt.thorough;
    c.sh_ = sh;
    c.eng_ = &eng;
    c.scratch_ = gScratchBase + "/w" + std::to_string(eng.workerId);
    sh->len = 0;
    sh->note[0] = 0;
    Violation v;
    Res r = execute(sc, c, &v);
    if (r != Res::Skip && !c.claimed_) {
      // short path: a unit of its own
      uint64_t u = sh->unit++;
      sh->unitLen = 0;
      sh->claimedNow = false;
      if (u >= kClaims) _exit(96);
      uint8_t exp = 0;
      if (!__atomic_compare_exchange_n(&eng.claims[u], &exp, (uint8_t)(eng.workerId + 1), false,
                                       __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST))
        r = Res::Skip;
    }
    if (r == Res::Ok || r == Res::Viol) {
      sh->evals += 1 + c.inner_;
      sh->states += c.states_;
      sh->trans += c.trans_;
      if (c.hasSig_ && sigs.size() < 4000000) sigs.insert(c.sigAcc_);
      if (r == Res::Ok && samples < 6 && sh->evals >= nextSample && !c.note_.empty()) {
        writeAll(fd, "S " + jesc(c.note_) + "\n");
        ++samples;
        nextSample = nextSample * 7 + 3;
      }
    } else if (r == Res::Discard) {
      sh->discards++;
    }
    if (r == Res::Viol) {
      std::string l = "V " + jesc(v.key) + "\x01" + jesc(v.text) + "\x01" + jesc(c.note_) + "\x01";
      for (int x : c.pick_) l += std::to_string(x) + " ";
      for (char& ch : l) if (ch == '\n') ch = ' ';
      writeAll(fd, l + "\n");
      if (++found >= opt.maxFound) { writeAll(fd, "T\n"); break; }
    }
    sh->execs.fetch_add(1);
    p = c.pick_;
    a = c.ar_;
    if (!advance(p, a)) break;
    // did we leave the unit?
    if ((int)p.size() <= sh->unitLen) {
      sh->claimedNow = false;
      sh->unitLen = 0;
    }
    if (deadline > 0 && now() > deadline) { writeAll(fd, "T\n"); break; }
  }
  // signatures, binary, in a side file
  std::string sf = file + ".sig";
  FILE* f = fopen(sf.c_str(), "ab");
  for (uint64_t s : sigs) fwrite(&s, 8, 1, f);
  fclose(f);
  sh->done = true;
  _exit(0);
}

static std::string readFile(const std::string& fn) {
  std::string r;
  FILE* f = fopen(fn.c_str(), "rb");
  if (!f) return r;
  char b[65536];
  size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n);
  fclose(f);
  return r;
}

static void rmTree(const std::string& d) {
  DIR* dir = opendir(d.c_str());
  if (!dir) return;
  while (dirent* e = readdir(dir)) {
    std::string n = e->d_name;
    if (n == "." || n == "..") continue;
    std::string p = d + "/" + n;
    struct stat st;
    if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rmTree(p);
    else unlink(p.c_str());
  }
  closedir(dir);
  rmdir(d.c_str());
}

struct ScRes {
  uint64_t evals = 0, execs = 0, states = 0, trans = 0, discards = 0, distinct = 0;
  bool exhaustive = true;
  double wall = 0;
  std::vector<std::string> samples;
  std::vector<Found> found;
};

static std::string unq(std::string s) { return s; }

static ScRes explore(const Scenario& sc, const Options& opt, double deadline, int idx) {
  ScRes R;
  double t0 = now();
  int W = sc.workers;
  Engine eng;
  eng.claims = (uint8_t*)mmap(nullptr, kClaims, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared) * W, PROT_READ | PROT_WRITE,
                             MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::vector<pid_t> pids(W, 0);
  std::vector<uint64_t> lastExec(W, 0);
  std::vector<double> lastCpu(W, 0), lastWall(W, now());
  std::vector<std::string> files(W), errs(W);
  int crashes = 0;
  std::vector<char> hangKilled(W, 0);
  auto spawn = [&](int w, bool resume) {
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
      setpgid(0, 0);
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      int ef = open(errs[w].c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
      dup2(ef, 2);
      dup2(ef, 1);
      Engine e = eng;
      e.workerId = w;
      std::string scr = gScratchBase + "/w" + std::to_string(w);
      mkdir(scr.c_str(), 0755);
      worker(sc, opt, e, &sh[w], resume, files[w], deadline);
    }
    pids[w] = p;
    lastExec[w] = sh[w].execs.load();
    lastCpu[w] = 0;
    lastWall[w] = now();
  };
  for (int w = 0; w < W; ++w) {
    files[w] = gScratchBase + "/res" + std::to_string(idx) + "_" + std::to_string(w);
    errs[w] = gScratchBase + "/err" + std::to_string(idx) + "_" + std::to_string(w);
    spawn(w, false);
  }
  int alive = W;
  while (alive > 0) {
    int st;
    pid_t p = waitpid(-1, &st, WNOHANG);
    if (p > 0) {
      int w = -1;
      for (int i = 0; i < W; ++i) if (pids[i] == p) w = i;
      if (w < 0) continue;
      --alive;
      pids[w] = 0;
      bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh[w].done;
      if (!ok) {
        if (WIFEXITED(st) && WEXITSTATUS(st) >= 96 && WEXITSTATUS(st) <= 98) {
          fprintf(stderr, "harness error (exit %d): %s\n", WEXITSTATUS(st), readFile(errs[w]).c_str());
          exit(3);
        }
        Found f;
        f.scenario = sc.name;
        bool hang = hangKilled[w];
        hangKilled[w] = false;
        if (!hang && WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
          fprintf(stderr, "a worker was killed from outside (out of memory?)\n");
          exit(4);
        }
        f.key = hang ? "hang" : "crash";
        std::string e = readFile(errs[w]);
        std::string head;
        size_t pos = e.find("ERROR: ");
        if (pos == std::string::npos) pos = 0;
        head = e.substr(pos, 1500);
        char b[128];
        if (WIFSIGNALED(st)) snprintf(b, sizeof b, "killed by signal %d", WTERMSIG(st));
        else snprintf(b, sizeof b, "process ended with exit code %d", WEXITSTATUS(st));
        f.text = hang ? "execution does not terminate (CPU/wall limit)" : std::string(b) + ": " + head;
        sh[w].note[2047] = 0;
        f.note = sh[w].note;
        f.picks.assign(sh[w].pick, sh[w].pick + sh[w].len);
        R.found.push_back(f);
        ++crashes;
        sh[w].evals++;
        if (crashes < 12) {
          spawn(w, true);
          ++alive;
        } else {
          R.exhaustive = false;
        }
      }
      continue;
    }
    usleep(2000);
    static int tick = 0;
    if (++tick % 250 == 0) {
      for (int w = 0; w < W; ++w) {
        if (!pids[w]) continue;
        uint64_t e = sh[w].execs.load();
        double cpu = cpuOf(pids[w]);
        if (e != lastExec[w]) {
          lastExec[w] = e;
          lastCpu[w] = cpu;
          lastWall[w] = now();
        } else if (cpu - lastCpu[w] > opt.hangCpu || now() - lastWall[w] > 6 * opt.hangCpu) {
          if (getenv("MC_HANG_TRACE")) {
            fprintf(stderr, "hang: worker %d execs %llu cpu %.2f since %.2f wall %.2f\n", w, (unsigned long long)e, cpu, lastCpu[w], now() - lastWall[w]);
            char cmd[200];
            snprintf(cmd, sizeof cmd, "gdb -p %d -batch -ex bt 2>/dev/null | grep '^#' | head -30", (int)pids[w]);
            (void)!system(cmd);
          }
          hangKilled[w] = true;
          kill(-pids[w], SIGKILL);
          kill(pids[w], SIGKILL);
        }
      }
    }
  }
  std::unordered_set<uint64_t> sigs;
  for (int w = 0; w < W; ++w) {
    R.evals += sh[w].evals;
    R.execs += sh[w].execs.load();
    R.states += sh[w].states;
    R.trans += sh[w].trans;
    R.discards += sh[w].discards;
    std::string d = readFile(files[w]);
    size_t i = 0;
    while (i < d.size()) {
      size_t j = d.find('\n', i);
      std::string l = d.substr(i, j - i);
      i = j + 1;
      if (l[0] == 'T') R.exhaustive = false;
      if (l[0] == 'S' && R.samples.size() < 4) R.samples.push_back(l.substr(2));
      if (l[0] == 'V') {
        Found f;
        f.scenario = sc.name;
        std::vector<std::string> parts;
        size_t a = 2;
        for (;;) {
          size_t b = l.find('\x01', a);
          parts.push_back(l.substr(a, b == std::string::npos ? b : b - a));
          if (b == std::string::npos) break;
          a = b + 1;
        }
        f.key = "\x02" + parts[0];  // already json
        f.text = parts[1];
        f.note = parts[2];
        const char* q = parts[3].c_str();
        char* e;
        for (;;) {
          long x = strtol(q, &e, 10);
          if (e == q) break;
          f.picks.push_back((int)x);
          q = e;
        }
        R.found.push_back(f);
      }
    }
    std::string s = readFile(files[w] + ".sig");
    for (size_t k = 0; k + 8 <= s.size(); k += 8) {
      uint64_t v;
      memcpy(&v, s.data() + k, 8);
      sigs.insert(v);
    }
  }
  R.distinct = sigs.size();
  munmap(eng.claims, kClaims);
  munmap(sh, sizeof(Shared) * W);
  R.wall = now() - t0;
  return R;
}

int run(int argc, char** argv, const std::vector<Scenario>& scs) {
  Options opt;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&]() { return std::string(argv[++i]); };
    if (a == "--tier") opt.thorough = next() == "thorough";
    else if (a == "--out") opt.out = next();
    else if (a == "--replay") opt.replayFile = next();
    else if (a == "--replay-dir") opt.replayDir = next();
    else if (a == "--only") opt.only = next();
    else if (a == "--deadline") opt.deadline = atof(next().c_str());
    else if (a == "--hang-cpu") opt.hangCpu = atof(next().c_str());
  }
  char tmpl[] = "/tmp/mcXXXXXX";
  gScratchBase = mkdtemp(tmpl);
  if (!opt.replayFile.empty()) {
    std::string d = readFile(opt.replayFile);
    char nm[256];
    int thor = 0;
    size_t p = d.find("scenario ");
    size_t q = d.find("\nchoices ");
    if (p == std::string::npos || q == std::string::npos) { fprintf(stderr, "bad replay file\n"); return 3; }
    sscanf(d.c_str() + p, "scenario %255s tier %d", nm, &thor);
    std::vector<int> ch;
    const char* s = d.c_str() + q + 9;
    char* e;
    for (;;) {
      while (*s == ' ') ++s;
      if (*s == '\n' || !*s) break;
      long x = strtol(s, &e, 10);
      if (e == s) break;
      ch.push_back((int)x);
      s = e;
    }
    for (auto& sc : scs) {
      if (sc.name != nm) continue;
      Ctx c;
      c.replay_ = true;
      c.pre_ = ch;
      c.thorough_ = thor != 0;
      c.scratch_ = gScratchBase + "/w0";
      mkdir(c.scratch_.c_str(), 0755);
      Violation v;
      Res r = execute(sc, c, &v);
      printf("case: %s\n", c.note_.c_str());
      rmTree(gScratchBase);
      if (r == Res::Viol) {
        printf("violation reproduced: [%s] %s\n", v.key.c_str(), v.text.c_str());
        return 1;
      }
      printf("no violation\n");
      return 0;
    }
    fprintf(stderr, "no scenario %s\n", nm);
    return 3;
  }
  double t0 = now();
  double deadline = opt.deadline > 0 ? t0 + opt.deadline : 0;
  std::string js = "{\"scenarios\":[";
  std::string fs;
  int nf = 0;
  bool first = true;
  int idx = 0;
  for (auto& sc : scs) {
    if (!opt.only.empty() && sc.name.find(opt.only) == std::string::npos) continue;
    if (sc.thoroughOnly && !opt.thorough) continue;
    ScRes r = explore(sc, opt, deadline, idx++);
    char b[1024];
    snprintf(b, sizeof b,
             "%s{\"name\":%s,\"what\":%s,\"evaluations\":%llu,\"executions\":%llu,\"discarded\":%llu,\"distinct\":%llu,"
             "\"states\":%llu,\"transitions\":%llu,\"exhaustive\":%s,\"wall_s\":%.2f,\"samples\":[",
             first ? "" : ",", jesc(sc.name).c_str(), jesc(sc.what).substr(0, 700).c_str(),
             (unsigned long long)r.evals, (unsigned long long)r.execs, (unsigned long long)r.discards,
             (unsigned long long)r.distinct, (unsigned long long)r.states, (unsigned long long)r.trans,
             r.exhaustive ? "true" : "false", r.wall);
    js += b;
    for (size_t i = 0; i < r.samples.size(); ++i) js += (i ? "," : "") + r.samples[i];
    js += "]}";
    first = false;
    fprintf(stderr, "%-28s evals=%llu execs=%llu distinct=%llu discarded=%llu %s %.1fs found=%zu\n", sc.name.c_str(),
            (unsigned long long)r.evals, (unsigned long long)r.execs, (unsigned long long)r.distinct,
            (unsigned long long)r.discards, r.exhaustive ? "exhaustive" : "NOT-exhaustive", r.wall, r.found.size());
    std::map<std::string, int> perKey;
    for (auto& f : r.found) {
      if (perKey[f.key]++ >= 8) continue;
      std::string rf = opt.replayDir + "/" + sc.name + "_" + std::to_string(nf) + ".replay";
      std::string k = f.key[0] == '\x02' ? f.key.substr(1) : jesc(f.key);
      std::string t = f.key[0] == '\x02' ? f.text : jesc(f.text);
      std::string n = f.key[0] == '\x02' ? f.note : jesc(f.note);
      std::string body = "scenario " + sc.name + " tier " + (opt.thorough ? "1" : "0") + "\nchoices ";
      for (int x : f.picks) body += std::to_string(x) + " ";
      body += "\nkey " + k + "\nwhat " + t + "\ncase " + n + "\n";
      FILE* o = fopen(rf.c_str(), "wb");
      if (o) { fwrite(body.data(), 1, body.size(), o); fclose(o); }
      fs += std::string(nf ? "," : "") + "{\"scenario\":" + jesc(sc.name) + ",\"key\":" + k + ",\"text\":" + t +
            ",\"case\":" + n + ",\"replay\":" + jesc(rf) + "}";
      ++nf;
    }
  }
  js += "],\"found\":[" + fs + "],\"wall_s\":" + std::to_string(now() - t0) + "}\n";
  if (!opt.out.empty()) {
    FILE* o = fopen(opt.out.c_str(), "wb");
    fwrite(js.data(), 1, js.size(), o);
    fclose(o);
  } else {
    fputs(js.c_str(), stdout);
  }
  rmTree(gScratchBase);
  return nf ? 1 : 0;
}

}  // namespace mc
