// LIBS: v_mc v_train v_core v_util
// P19: the real training executor under every interleaving.
#include <stdexcept>
#include "csched.h"
#include "core/training/training_executor.h"
using mc::Ctx;
using namespace jumanpp;
using namespace jumanpp::core;
using namespace jumanpp::core::training;
namespace {
enum Out { Fine, PrepareFails, ComputeFails, Throws, NumOut };
const char* ON[] = {"ok", "prepare fails", "compute fails", "throws"};
struct Mock final : public ITrainer {
  int id;
  Out out;
  bool slow = false;
  int prepared = 0, computed = 0;
  const analysis::ScorerDef* seen = nullptr;
  float res = 0;
  std::vector<ScoredFeature> diff;
  Mock(int i, Out o) : id(i), out(o) {}
  Status prepare() override {
    ++prepared;
    diff.clear();
    if (slow) sched::point();
    if (out == PrepareFails) return JPPS_INVALID_PARAMETER << "prepare of " << id;
    if (out == Throws) throw std::runtime_error("thrown by " + std::to_string(id));
    return Status::Ok();
  }
  Status compute(const analysis::ScorerDef* s) override {
    ++computed;
    seen = s;
    if (slow) sched::point();
    if (out == ComputeFails) return JPPS_INVALID_STATE << "compute of " << id;
    res = 1.0f + id;
    diff.push_back({(u32)id, res});
    return Status::Ok();
  }
  float loss() const override { return res; }
  util::ArraySlice<ScoredFeature> featureDiff() const override { return diff; }
  ExampleInfo exampleInfo() const override {
    static const char c[] = "0123456789";
    return ExampleInfo{StringPiece("file"), StringPiece(c + id, c + id + 1), (i64)(100 + id)};
  }
  const analysis::OutputManager& outputMgr() const override { abort(); }
  void markGold(std::function<void(analysis::LatticeNodePtr)>) const override {}
  analysis::Lattice* lattice() const override { return nullptr; }
  void setGlobalBeam(const GlobalBeamTrainConfig&) override {}
};
enum Step { Submit, Poll, WaitR };
const char* SN[] = {"submit", "poll", "wait"};

struct Prog {
  int threads = 1;
  std::vector<Out> out;       // outcome of each example, cyclic
  std::vector<int> steps;     // Step
  bool epoch = false;         // the loop of TrainingEnv::trainOneBatch instead
  int total = 0;              // its number of examples
  int abandon = -1;           // stop after this number of results
  int rounds = 1;
  int preempt = -1;
  int stall = -1;             // the collector pauses before this result, for a long time
  int slow = -1;              // examples which are preempted while processed
};

int pause = 30000;
void runProg(Ctx& c, const Prog& p) {
  std::string what = std::to_string(p.threads) + " threads;";
  if (p.epoch) what += " " + std::to_string(p.rounds) + " batches of " + std::to_string(p.total) + (p.abandon >= 0 ? " abandoned after " + std::to_string(p.abandon) + " results" : "") + (p.stall >= 0 ? ", a long pause before result " + std::to_string(p.stall) : "");
  for (int s : p.steps) what += std::string(" ") + SN[s];
  for (auto o : p.out) what += std::string(", ") + ON[o];
  c.note("%s", what.c_str());
  sched::Options so;
  so.preemptions = p.preempt;
  static std::vector<std::unique_ptr<Mock>> ms;
  static std::vector<int> expected;   // times each example was accepted
  static std::string problem, hist;
  static bool ended;
  ms.clear(); expected.clear(); problem.clear(); hist.clear();
  ended = false;
  int n = p.epoch ? p.total : (int)p.steps.size();
  for (int i = 0; i < n; ++i) ms.emplace_back(new Mock(i, p.out[i % p.out.size()]));
  if (p.slow >= 0) for (auto& m : ms) m->slow = m->id % 2 == p.slow;
  expected.assign(n, 0);
  std::vector<int> handed(n);
  analysis::ScorerDef sd;
  auto bad = [&](const std::string& s) { if (problem.empty()) problem = s; };
  auto take = [&](TrainingExecutionResult& r) {
    auto* m = static_cast<Mock*>(r.trainer);
    if (!m) { bad("a result without an example"); return false; }
    int id = m->id;
    hist += " got " + std::to_string(id);
    handed[id]++;
    if (handed[id] > expected[id]) bad("example " + std::to_string(id) + " was handed back more often than submitted");
    if (m->prepared != expected[id] || m->computed != (m->out == PrepareFails || m->out == Throws ? 0 : expected[id]))
      bad("example " + std::to_string(id) + " was processed " + std::to_string(m->prepared) + "/" + std::to_string(m->computed) + " times for " + std::to_string(expected[id]) + " submissions");
    if (m->computed && m->seen != &sd) bad("example " + std::to_string(id) + " was computed with another scorer");
    bool ok = (bool)r.processStatus;
    if (ok != (m->out == Fine)) bad("example " + std::to_string(id) + " (" + ON[m->out] + ") came back with status " + (ok ? "ok" : "error"));
    if (!ok) {
      std::string t(r.processStatus.message().char_begin(), r.processStatus.message().size());
      std::string line = "line " + std::to_string(100 + id);
      if (t.find(line) == std::string::npos) bad("the error of example " + std::to_string(id) + " does not name " + line + ": " + t);
    } else if (m->loss() != 1.0f + id || m->featureDiff().size() != 1) bad("example " + std::to_string(id) + " was handed back without its results");
    return true;
  };
  auto res = sched::run(c, so, [&] {
    {
      TrainingExecutor ex;
      if (!ex.initialize(&sd, (u32)p.threads)) { bad("initialize failed"); return; }
      if (p.epoch) {
        int got = 0;
        bool stop = false;
        for (int round = 0; round < p.rounds && !stop; ++round) {
          int sub = 0;
          for (int done = 0; done < p.total && !stop; ++done) {
            while (sub < p.total) {
              expected[sub]++;
              if (ex.submitNext(ms[sub].get())) { hist += " sub " + std::to_string(sub); ++sub; }
              else { expected[sub]--; break; }
            }
            if (p.abandon == got) { stop = true; break; }
            if (p.stall == got) sched::stall(pause);
            auto r = ex.waitOne();
            ++got;
            take(r);
            if (!problem.empty()) stop = true;
          }
        }
        if (p.stall == got) sched::stall(pause);
        if (!stop && ex.nowReady() != 0) bad("results are left after the batch");
      } else {
        int sub = 0, out = 0;
        for (int s : p.steps) {
          if (s == Submit) {
            expected[sub]++;
            if (ex.submitNext(ms[sub].get())) { hist += " sub"; ++sub; ++out; }
            else { expected[sub]--; hist += " full"; }
          } else if (s == Poll) {
            TrainingExecutionResult r;
            if (ex.resultWithoutWait(&r)) { if (take(r)) --out; } else hist += " none";
          } else if (out > 0) {
            auto r = ex.waitOne();
            if (take(r)) --out;
          }
        }
      }
      hist += " end";
    }
    ended = true;
    if (sched::live() != 0) bad("threads live on after the executor was destroyed");
  });
  if (res.end == sched::End::Race) c.fail("race", "%s: %s", what.c_str(), res.text.c_str());
  if (!problem.empty()) c.fail("result", "%s: %s (%s)", what.c_str(), problem.c_str(), hist.c_str());
  if (res.end != sched::End::Done) c.fail(ended || hist.find("end") != std::string::npos ? "shutdown" : "stuck", "%s: %s (%s)", what.c_str(), res.text.c_str(), hist.c_str());
  for (int i = 0; i < n; ++i) {
    if (ms[i]->prepared > expected[i]) c.fail("twice", "%s: example %d was processed %d times for %d submissions (%s)", what.c_str(), i, ms[i]->prepared, expected[i], hist.c_str());
    if (p.epoch && p.abandon < 0 && (ms[i]->prepared != p.rounds || handed[i] != p.rounds)) c.fail("lost", "%s: example %d was processed %d times, handed back %d times", what.c_str(), i, ms[i]->prepared, handed[i]);
  }
  uint64_t h = 14695981039346656037ull;
  for (char ch : hist) h = (h ^ (unsigned char)ch) * 1099511628211ull;
  c.sig(h);
  c.state(sched::gSteps);
}

void s_batch(Ctx& c) {
  Prog p;
  p.epoch = true;
  p.threads = c.range(1, c.thorough() ? 3 : 2);
  p.total = c.range(0, p.threads == 1 ? 4 : 3);
  p.rounds = c.range(1, 2);
  int all = p.total * p.rounds;
  p.slow = c.range(-1, p.total > 1 ? 1 : 0);
  int o = c.choose(NumOut);
  p.out = {Fine, (Out)o};
  if (c.thorough()) p.preempt = p.threads == 1 ? (all <= 3 ? -1 : 4) : all <= 2 ? 4 : 3;
  else p.preempt = p.threads == 1 ? (all <= 2 ? 3 : all <= 4 ? 2 : 1) : all <= 2 ? 2 : 1;
  runProg(c, p);
}
void s_abandon(Ctx& c) {
  Prog p;
  p.epoch = true;
  p.threads = c.range(1, c.thorough() ? 3 : 2);
  p.total = c.range(1, p.threads == 1 ? 6 : 4);
  p.abandon = c.range(0, p.total - 1);
  p.slow = c.range(-1, p.total > 1 ? 1 : 0);
  p.out = {(Out)c.choose(2)};
  p.preempt = p.threads == 1 ? (c.thorough() ? 4 : 2) : c.thorough() ? 3 : p.total <= 2 ? 2 : 1;
  runProg(c, p);
}
void s_programs(Ctx& c) {
  Prog p;
  p.threads = c.range(1, 2);
  int len = c.range(0, c.thorough() ? 6 : 5);
  for (int i = 0; i < len; ++i) p.steps.push_back(c.choose(3));
  p.slow = len ? c.range(-1, 0) : -1;
  p.out = {Fine, PrepareFails};
  p.preempt = p.threads == 1 ? (len <= 3 ? 3 : c.thorough() ? 3 : 2) : c.thorough() ? 2 : 1;
  runProg(c, p);
}
// more submissions than fit anywhere, nobody collects
void s_jam(Ctx& c) {
  Prog p;
  p.threads = c.range(1, c.thorough() ? 3 : 2);
  int len = c.range(0, 7 * p.threads);
  for (int i = 0; i < len; ++i) p.steps.push_back(Submit);
  int polls = c.range(0, 1);
  for (int i = 0; i < polls; ++i) p.steps.push_back(Poll);
  p.slow = c.range(-1, 1);
  p.out = {Fine};
  p.preempt = p.threads == 1 ? (c.thorough() ? 3 : 2) : c.thorough() ? 2 : 1;
  runProg(c, p);
}
// a collector which is much slower than the threads: they retry for as long as it takes
void s_slow(Ctx& c) {
  pause = c.thorough() ? 200000 : 30000;
  Prog p;
  p.epoch = true;
  p.threads = c.range(1, 2);
  p.total = p.threads == 1 ? c.range(0, c.thorough() ? 12 : 8) : c.range(4, c.thorough() ? 8 : 6);
  p.rounds = 1;
  p.stall = c.range(0, p.total);
  if (c.flag()) { p.abandon = c.range(0, p.total); if (p.abandon >= p.total || p.stall > p.abandon) c.discard(); }
  p.out = {Fine, (Out)c.choose(2)};
  p.preempt = 0;
  runProg(c, p);
}
}  // namespace
int main(int argc, char** argv) {
  return mc::run(argc, argv, {
      {"batch", s_batch, "batches of 0-4 examples with 1-2 (3) threads, 1-2 rounds, each kind of failure; preemption bound 3 / 2 / 1 by size (none / 4 / 3)"},
      {"abandon", s_abandon, "the same given up after every number of results"},
      {"programs", s_programs, "every sequence of up to 5 (6) submit / poll / wait operations, then destruction; preemption bound 1-3"},
      {"jam", s_jam, "0-7 submissions per thread which nobody collects, then destruction"},
      {"slow", s_slow, "1-2 threads, a collector which pauses for 30000 (200000) steps of the threads before any one of up to 8 (12) results, batches with failures and abandoned ones; every order at the other points without preemption"},
  });
}
