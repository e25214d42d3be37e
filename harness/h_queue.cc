// LIBS: v_mc v_util
// P18: every interleaving of operations on the real queue, histories checked
// against the sequential queue; lost wake-ups are deadlocks of the run.
#include "csched.h"
#include "util/bounded_queue.h"
using mc::Ctx;
namespace {
struct Tok {
  int v = 0;
  Tok() = default;
  explicit Tok(int x) : v(x) {}
  Tok(Tok&& o) noexcept : v(o.v) { o.v = -1; }
  Tok& operator=(Tok&& o) noexcept { if (this != &o) { v = o.v; o.v = -1; } return *this; }
};
using Q = jumanpp::util::bounded_queue<Tok>;
enum Kind { Offer, OfferRes, Recv, Wait };
const char* KN[] = {"offer", "offer(reserve 1)", "recieve", "waitFor"};
struct Op { Kind k; int arg = 0; unsigned long inv = 0, resp = 0; bool ok = false; int val = 0; bool started = false, done = false; };

// is there an order of the operations a sequential queue explains?
struct Lin {
  std::vector<Op*> ops;
  int cap;
  bool search(std::vector<bool>& used, std::vector<int>& q) {
    bool all = true;
    for (size_t i = 0; i < ops.size(); ++i) if (!used[i] && ops[i]->done) all = false;
    if (all) {
      // whoever still waits must have nothing to take
      for (size_t i = 0; i < ops.size(); ++i) if (!used[i] && ops[i]->started && !ops[i]->done && ops[i]->k == Wait && !q.empty()) return false;
      return true;
    }
    for (size_t i = 0; i < ops.size(); ++i) {
      Op& o = *ops[i];
      if (used[i] || !o.done) continue;
      bool first = true;
      for (size_t j = 0; j < ops.size(); ++j) if (!used[j] && ops[j]->done && j != i && ops[j]->resp < o.inv) first = false;
      if (!first) continue;
      std::vector<int> s = q;
      if (o.k == Offer || o.k == OfferRes) {
        bool can = cap - (int)q.size() > (o.k == OfferRes ? 1 : 0);
        if (can != o.ok) continue;
        if (can) s.push_back(o.arg);
      } else if (o.k == Recv) {
        if (o.ok != !q.empty()) continue;
        if (o.ok) { if (q[0] != o.val) continue; s.erase(s.begin()); }
      } else {
        if (q.empty() || q[0] != o.val) continue;
        s.erase(s.begin());
      }
      used[i] = true;
      if (search(used, s)) return true;
      used[i] = false;
    }
    return false;
  }
};

void runProg(Ctx& c, int cap, const std::vector<std::vector<Op>>& prog0, int preempt, int spur, int unblock, int prefill) {
  auto prog = prog0;
  std::string what = "capacity " + std::to_string(cap) + " prefilled " + std::to_string(prefill);
  for (auto& t : prog) { what += " |"; for (auto& o : t) what += std::string(" ") + KN[o.k]; }
  if (unblock >= 0) what += " | unblock_all";
  c.note("%s", what.c_str());
  std::vector<Op> tail;
  static Q* leak;
  leak = nullptr;
  std::vector<Op> pre(prefill);
  sched::Options so;
  so.preemptions = preempt;
  so.spurious = spur;
  int leftover = -1;
  auto body = [&](Q& q, Op& o) {
    o.started = true;
    o.inv = sched::now();
    if (o.k == Offer) o.ok = q.offer(Tok(o.arg));
    else if (o.k == OfferRes) o.ok = q.offer(Tok(o.arg), 1);
    else if (o.k == Recv) { Tok t(-7); o.ok = q.recieve(&t); o.val = t.v; }
    else { Tok t = q.waitFor(); o.val = t.v; o.ok = true; }
    o.resp = sched::now();
    o.done = true;
  };
  auto res = sched::run(c, so, [&] {
    Q* q = new Q((unsigned)cap);
    leak = q;
    for (int i = 0; i < prefill; ++i) { pre[i].k = Offer; pre[i].arg = 900 + i; body(*q, pre[i]); }
    std::vector<int> ids;
    for (auto& t : prog) ids.push_back(sched::spawn([&body, &t, q] { for (auto& o : t) body(*q, o); }));
    if (unblock >= 0) ids.push_back(sched::spawn([q] { q->unblock_all(); }));
    for (int i : ids) sched::join(i);
    leftover = (int)q->size();
    if ((int)q->remaining() != cap - leftover) leftover = 1000;
    // everything left comes out in order
    for (;;) {
      Op o;
      o.k = Recv;
      body(*q, o);
      tail.push_back(o);
      if (!o.ok) break;
    }
    delete q;
    leak = nullptr;
  });
  // what is left of the work is described, whatever happened
  std::string hist;
  Lin L;
  L.cap = cap;
  uint64_t sig = 0;
  auto add = [&](Op& o, const std::string& who) {
    if (!o.started) return;
    L.ops.push_back(&o);
    hist += who + " " + KN[o.k] + "(" + (o.k <= OfferRes ? std::to_string(o.arg) : "") + ")" + (o.done ? o.k == Wait ? "=" + std::to_string(o.val) : o.ok ? o.k == Recv ? "=" + std::to_string(o.val) : "=yes" : "=no" : " pending") + "; ";
    sig = sig * 1000003 + o.done * 4 + o.ok * 2 + o.val * 16;
  };
  for (auto& o : pre) add(o, "start");
  for (size_t t = 0; t < prog.size(); ++t) for (auto& o : prog[t]) add(o, std::to_string(t));
  for (auto& o : tail) add(o, "end");
  int items = 0;
  for (auto* o : L.ops) if (o->done && o->ok) items += o->k <= OfferRes ? 1 : -1;
  if (leak) delete leak;
  if (res.end == sched::End::Race) c.fail("race", "%s: %s", what.c_str(), res.text.c_str());
  if (res.end == sched::End::Misuse || res.end == sched::End::Livelock) c.fail("misuse", "%s: %s (%s)", what.c_str(), res.text.c_str(), hist.c_str());
  if (res.end == sched::End::Deadlock && items > 0) c.fail("lost wake-up", "%s: %s with %d items in the queue (%s)", what.c_str(), res.text.c_str(), items, hist.c_str());
  if (res.end == sched::End::Deadlock) {
    // only consumers which wait for an item may be left
    for (auto* o : L.ops) if (!o->done && o->k != Wait) c.fail("blocked", "%s: %s (%s)", what.c_str(), res.text.c_str(), hist.c_str());
  }
  std::vector<bool> used(L.ops.size());
  std::vector<int> q;
  if (!L.search(used, q)) c.fail("not a queue", "%s: no order explains %s", what.c_str(), hist.c_str());
  if (res.end == sched::End::Done) {
    int out = 0;
    for (auto& o : tail) out += o.ok;
    if (leftover != out || leftover > cap) c.fail("size", "%s: size %d with %d items (%s)", what.c_str(), leftover, out, hist.c_str());
  }
  c.sig(sig);
  c.state(sched::gSteps);
}

// all programs of small shape
std::vector<Op> thread(Ctx& c, int id, int n, int kinds) {
  std::vector<Op> r;
  for (int i = 0; i < n; ++i) {
    Op o;
    o.k = (Kind)c.choose(kinds);
    if (o.k >= Recv || kinds == 4) {}
    o.arg = 10 * (id + 1) + i;
    r.push_back(o);
  }
  return r;
}
void s_pairs(Ctx& c) {
  int cap = c.range(0, 3);
  int pre = c.choose(cap + 1);
  std::vector<std::vector<Op>> p;
  int n0 = 1 + c.choose(c.thorough() ? 4 : 3), n1 = 1 + c.choose(c.thorough() ? 4 : 3);
  if (n1 > n0) c.discard();  // threads are interchangeable
  if (!c.thorough() && n0 + n1 > 5) c.discard();
  p.push_back(thread(c, 0, n0, 4));
  p.push_back(thread(c, 1, n1, 4));
  runProg(c, cap, p, n0 + n1 > 5 ? 3 : n0 + n1 > 4 && !c.thorough() ? 2 : -1, 0, -1, pre);
}
void s_triples(Ctx& c) {
  int cap = c.range(1, 3);
  int pre = c.choose(cap + 1);
  std::vector<std::vector<Op>> p;
  // threads are interchangeable: only non-decreasing programs
  int lim = c.thorough() ? 2 : 1, total = 0;
  for (int t = 0; t < 3; ++t) {
    p.push_back(thread(c, t, 1 + (t == 0 ? c.choose(2) : c.choose(lim)), 4));
    total += (int)p.back().size();
    if (t && p[t].size() == p[t - 1].size()) for (size_t i = 0; i < p[t].size(); ++i) {
      if (p[t][i].k == p[t - 1][i].k) continue;
      if (p[t][i].k < p[t - 1][i].k) c.discard();
      break;
    }
  }
  int un = c.choose(2) - 1;
  if (un >= 0) ++total;
  runProg(c, cap, p, total > 3 ? (c.thorough() ? 3 : 1) : (c.thorough() ? -1 : 2), 0, un, pre);
}
// producers and consumers, spurious wake-ups
void s_prodcons(Ctx& c) {
  int cap = c.range(1, 3);
  int np = c.range(1, 2), nc = c.range(1, 2), k = c.range(1, c.thorough() ? 3 : 2);
  std::vector<std::vector<Op>> p;
  for (int t = 0; t < np; ++t) {
    std::vector<Op> v;
    for (int i = 0; i < k; ++i) { Op o; o.k = Offer; o.arg = 10 * (t + 1) + i; v.push_back(o); }
    p.push_back(v);
  }
  for (int t = 0; t < nc; ++t) {
    std::vector<Op> v;
    for (int i = 0; i < k; ++i) { Op o; o.k = Wait; v.push_back(o); }
    p.push_back(v);
  }
  int extra = c.choose(3);
  if (extra == 1) p.push_back({[] { Op o; o.k = Recv; return o; }()});
  bool big = np + nc + (extra != 0) > 3 || (np + nc > 2 && k > 1);
  if (!c.thorough() && big && cap == 3) c.discard();
  runProg(c, cap, p, big ? (c.thorough() ? 3 : 1) : c.thorough() ? -1 : 3, c.choose(big && !c.thorough() ? 1 : 2), extra == 2 ? 0 : -1, 0);
}
}  // namespace
int main(int argc, char** argv) {
  return mc::run(argc, argv, {
      {"pairs", s_pairs, "2 threads x every program of 1-3 (4) operations of 4 kinds each x capacity 0-3 x initial fill; all interleavings (5 operations: preemption bound 2 (none); more: 3)"},
      {"triples", s_triples, "3 threads (plus unblock_all), 1-2 operations; preemption bound 2 (none) for 3 operations, 1 (3) for more"},
      {"prodcons", s_prodcons, "1-2 producers x 1-2 blocking consumers x 1-2 (3) items, with a polling consumer or unblock_all, one spurious wake-up; preemption bound 3 (none), the largest 1 (3)"},
  });
}
