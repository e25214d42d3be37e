// Stateless bounded model checker: exhaustive DFS over choice sequences.
//
// A scenario is a function of a Ctx.  Every source of nondeterminism of the
// scenario (input symbols, operation sequence, configuration, truncation point,
// fault, scheduling decision) is drawn through Ctx::choose(n); the explorer
// re-runs the scenario for every choice sequence of the resulting finite tree.
// Work is split over forked workers: every shortest prefix whose arity product
// reaches kSplit is a work unit claimed in shared memory.  The vector of the
// execution in progress lives in shared memory too, so a crash (ASan report,
// signal, abort), or a hang of the code under test is attributed to an exact
// choice sequence, which is written to a replay file; the worker is then
// restarted right behind it.
#ifndef VERIF_MC_H
#define VERIF_MC_H

#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

namespace mc {

struct Violation {
  std::string key;   // stable identification of the failing case class
  std::string text;  // description
};
struct Skip {};      // execution belongs to another worker
struct Discard {};   // choice sequence denotes no valid case

constexpr int kMaxChoices = 4096;

struct Shared;  // per worker shared state

class Ctx {
 public:
  // --- choice points
  int choose(int n);
  bool flag() { return choose(2) != 0; }
  template <typename C>
  auto& pick(C& c) { return c[choose((int)c.size())]; }
  template <typename T, size_t N>
  T& pick(T (&c)[N]) { return c[choose((int)N)]; }
  int range(int lo, int hi) { return lo + choose(hi - lo + 1); }
  // string of at most maxLen symbols
  std::string str(const std::vector<std::string>& alpha, int minLen, int maxLen) {
    int n = range(minLen, maxLen);
    std::string r;
    for (int i = 0; i < n; ++i) r += alpha[choose((int)alpha.size())];
    return r;
  }
  // --- verdicts
  [[noreturn]] void fail(const std::string& key, const char* fmt, ...)
      __attribute__((format(printf, 3, 4)));
  void check(bool cond, const std::string& key, const char* msg) {
    if (!cond) fail(key, "%s", msg);
  }
  [[noreturn]] void discard() { throw Discard{}; }
  // --- measurements
  // signature of the observed behaviour; distinct ones are counted
  void sig(uint64_t v);
  void sig(const std::string& s) { sig(hash(s.data(), s.size())); }
  void sig(const void* p, size_t n) { sig(hash(p, n)); }
  // extra evaluations done inside one execution
  void count(uint64_t n = 1) { inner_ += n; }
  void state(uint64_t n = 1) { states_ += n; }
  void transition(uint64_t n = 1) { trans_ += n; }
  // human readable description of the case being run (kept for reports)
  void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
  bool thorough() const { return thorough_; }
  const std::string& scratch() const { return scratch_; }

  static uint64_t hash(const void* p, size_t n) {
    const unsigned char* c = (const unsigned char*)p;
    uint64_t h = 1469598103934665603ULL;
    for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ULL; }
    h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ULL; h ^= h >> 32;
    return h;
  }

  // internals
  std::vector<int> pre_, pick_, ar_;
  bool replay_ = false, thorough_ = false, claimed_ = false, wantNote_ = false;
  uint64_t prod_ = 1;
  uint64_t inner_ = 0, states_ = 0, trans_ = 0;
  uint64_t sigAcc_ = 0; bool hasSig_ = false;
  std::string note_, scratch_;
  Shared* sh_ = nullptr;
  void* eng_ = nullptr;
};

struct Scenario {
  std::string name;
  std::function<void(Ctx&)> fn;
  std::string what;     // bounds, in words
  bool thoroughOnly = false;
  int workers = 8;
};

int run(int argc, char** argv, const std::vector<Scenario>& scs);

}  // namespace mc

#endif
