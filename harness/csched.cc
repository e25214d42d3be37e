#include "csched.h"
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <sys/mman.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <map>
#include <memory>
#include <new>
#include <vector>

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
}

namespace sched {
unsigned long gSteps, gSwitches;
namespace {
constexpr int MAXT = 8;
constexpr size_t STK = 256 * 1024;
using u64 = unsigned long;
using u32 = unsigned;

enum class St { Run, Mutex, Cond, Join, Yield, Dead };
struct Clock { u32 t[MAXT] = {}; void join(const Clock& o) { for (int i = 0; i < MAXT; ++i) if (o.t[i] > t[i]) t[i] = o.t[i]; } };
struct Thread {
  ucontext_t ctx;
  char* stack = nullptr;
  St st = St::Dead;
  const void* obj = nullptr;     // mutex or condition waited for
  pthread_mutex_t* mtx = nullptr;
  int joinT = -1;
  bool detached = false, joined = false;
  u64 prog = 0, own = 0, seen = 0;
  Clock clk;
  std::function<void()> fn;
  void* (*start)(void*) = nullptr;
  void* arg = nullptr;
  void* ret = nullptr;
};
struct Mutex { int owner = -1; int depth = 0; Clock clk; };
struct Run {
  mc::Ctx* c;
  Options o;
  Thread th[MAXT];
  int n = 0, cur = -1;
  std::map<const void*, Mutex> mtx;
  std::map<const void*, Clock> sync;
  u64 time = 0, prog = 0;
  int preempt = 0, spurious = 0;
  int stall = 0, staller = -1;
  bool stop = false;
  std::vector<int> sig;
  Result res{End::Done, ""};
};
Run* R = nullptr;
bool active = false;        // code of a simulated thread is running
ucontext_t home;
char* stacks[MAXT];

// ---- race detection
struct Cell { u32 wclk; unsigned char wtid, wmask; unsigned char rmask[MAXT]; u32 rclk[MAXT]; };
constexpr u64 PAGE = 4096;
struct SPage { Cell c[PAGE / 8]; };
struct Slot { u64 page; SPage* p; };
constexpr size_t SLOTS = 1 << 16;
Slot* slots;
std::vector<size_t>* used;
std::vector<SPage*>* pool;
constexpr int CACHE = 64;
Slot cache[CACHE];
SPage* pageOf(u64 addr, bool make) {
  u64 pg = addr / PAGE;
  Slot& q = cache[pg % CACHE];
  if (q.p && q.page == pg) return q.p;
  size_t h = (pg * 0x9e3779b97f4a7c15UL) >> 48;
  for (;; h = (h + 1) % SLOTS) {
    if (slots[h].p && slots[h].page == pg) { q = slots[h]; return slots[h].p; }
    if (!slots[h].p) break;
  }
  if (!make) return nullptr;
  slots[h].page = pg;
  if (pool->empty()) slots[h].p = (SPage*)__libc_calloc(1, sizeof(SPage));
  else { slots[h].p = pool->back(); pool->pop_back(); }
  used->push_back(h);
  q = slots[h];
  return slots[h].p;
}
void shadowReset() {
  if (!slots) {
    slots = (Slot*)mmap(nullptr, SLOTS * sizeof(Slot), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    used = new std::vector<size_t>;
    pool = new std::vector<SPage*>;
  }
  for (size_t h : *used) {
    SPage* p = slots[h].p;
    if (pool->size() < 2000) { memset(p, 0, sizeof(SPage)); pool->push_back(p); } else __libc_free(p);
    slots[h] = Slot{0, nullptr};
  }
  for (auto& q : cache) q = Slot{0, nullptr};
  used->clear();
}
void shadowClear(void* p, size_t n) {
  if (!slots || !n) return;
  u64 a = (u64)p & ~7UL, e = (u64)p + n;
  while (a < e) {
    SPage* s = pageOf(a, false);
    u64 pe = (a / PAGE + 1) * PAGE;
    if (s) for (; a < e && a < pe; a += 8) memset(&s->c[(a % PAGE) / 8], 0, sizeof(Cell));
    a = pe;
  }
}
bool onStack(u64 a) {
  return stacks[0] && a - (u64)stacks[0] < MAXT * STK;
}
void toHome() {
  active = false;
  Thread& t = R->th[R->cur];
  swapcontext(&t.ctx, &home);
  active = true;
}
void stopWith(End e, const std::string& s) {
  if (!R->stop) { R->stop = true; R->res = Result{e, s}; }
  toHome();
  abort();  // never resumed
}
void access(const void* p, size_t n, bool write) {
  if (!active) return;
  u64 a = (u64)p;
  if (onStack(a)) return;
  Run& r = *R;
  int me = r.cur;
  if (write) { ++r.prog; ++r.th[me].own; }
  if (!r.o.races) return;
  while (n) {
    u64 base = a & ~7UL;
    size_t off = a - base, len = std::min<size_t>(8 - off, n);
    unsigned char mask = (unsigned char)(((1u << len) - 1) << off);
    active = false;
    Cell& c = pageOf(base, true)->c[(base % PAGE) / 8];
    active = true;
    const Clock& k = r.th[me].clk;
    // already known
    if (write ? c.wtid == me && c.wclk == k.t[me] && c.wmask == mask : c.rclk[me] == k.t[me] && (c.rmask[me] & mask) == mask) { a += len; n -= len; continue; }
    int other = -1;
    bool ow = false;
    if (c.wmask & mask && c.wtid != me && c.wclk > k.t[c.wtid]) { other = c.wtid; ow = true; }
    if (write) for (int i = 0; i < MAXT; ++i) if (i != me && c.rmask[i] & mask && c.rclk[i] > k.t[i]) other = i;
    if (other >= 0) {
      active = false;
      char b[160];
      snprintf(b, sizeof b, "thread %d %s a location which thread %d %s, unordered", me, write ? "writes" : "reads", other, ow ? "wrote" : "read");
      std::string s = b;
      active = true;
      stopWith(End::Race, s);
    }
    if (write) { c.wtid = (unsigned char)me; c.wmask = mask; c.wclk = k.t[me]; }
    else { if (c.rclk[me] != k.t[me]) c.rmask[me] = 0; c.rmask[me] |= mask; c.rclk[me] = k.t[me]; }
    a += len;
    n -= len;
  }
}

// ---- threads
void entry() {
  active = true;
  Thread& t = R->th[R->cur];
  try {
    if (t.start) t.ret = t.start(t.arg); else t.fn();
  } catch (...) {
    active = false;
    if (!R->stop) { R->stop = true; R->res = Result{End::Misuse, "an exception left a thread"}; }
  }
  active = false;
  t.st = St::Dead;
  t.fn = nullptr;
  ++R->prog;
  swapcontext(&t.ctx, &home);
}
int create(const std::function<void()>& f, void* (*start)(void*), void* arg) {
  Run& r = *R;
  bool was = active;
  active = false;
  if (r.n >= MAXT) { fprintf(stderr, "too many threads\n"); abort(); }
  int id = r.n++;
  Thread& t = r.th[id];
  if (!stacks[0]) {
    stacks[0] = (char*)mmap(nullptr, MAXT * STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    for (int i = 1; i < MAXT; ++i) stacks[i] = stacks[0] + i * STK;
  }
  t.stack = stacks[id];
  t.fn = f;
  t.start = start;
  t.arg = arg;
  t.st = St::Run;
  if (r.cur >= 0) { t.clk = r.th[r.cur].clk; r.th[r.cur].clk.t[r.cur]++; }
  t.clk.t[id]++;
  getcontext(&t.ctx);
  t.ctx.uc_stack.ss_sp = t.stack;
  t.ctx.uc_stack.ss_size = STK;
  t.ctx.uc_link = nullptr;
  makecontext(&t.ctx, entry, 0);
  active = was;
  return id;
}
bool enabled(const Thread& t) {
  switch (t.st) {
    case St::Run: return true;
    case St::Mutex: { auto it = R->mtx.find(t.obj); return it == R->mtx.end() || it->second.owner < 0; }
    case St::Join: return R->th[t.joinT].st == St::Dead;
    case St::Yield: return R->prog - t.own != t.prog;
    default: return false;
  }
}
const char* name(St s) {
  switch (s) {
    case St::Run: return "runs";
    case St::Mutex: return "waits for a mutex";
    case St::Cond: return "waits for a condition";
    case St::Join: return "waits for a thread";
    case St::Yield: return "spins";
    default: return "ended";
  }
}
std::string where() {
  std::string s;
  for (int i = 0; i < R->n; ++i) s += (i ? ", " : "") + ("thread " + std::to_string(i)) + " " + name(R->th[i].st);
  return s;
}
}  // namespace

int self() { return R->cur; }
unsigned long now() { return ++R->time; }
int live() { int k = 0; for (int i = 1; i < R->n; ++i) k += R->th[i].st != St::Dead; return k; }
void point() { toHome(); }
void stall(int n) { R->stall = n; R->staller = R->cur; toHome(); }
int spawn(const std::function<void()>& f) { return create(f, nullptr, nullptr); }
void join(int t) {
  Run& r = *R;
  Thread& m = r.th[r.cur];
  m.st = St::Join;
  m.joinT = t;
  toHome();
  r.th[r.cur].clk.join(r.th[t].clk);
  r.th[t].joined = true;
}

Result run(mc::Ctx& c, const Options& o, const std::function<void()>& mainFn) {
  static std::unique_ptr<Run> keep;
  keep.reset(new Run);
  R = keep.get();
  R->c = &c;
  R->o = o;
  gSteps = gSwitches = 0;
  shadowReset();
  create(mainFn, nullptr, nullptr);
  Run& r = *R;
  int last = 0;
  while (true) {
    int t = -1;
    if (r.stall > 0) {
      --r.stall;
      for (int i = 1; i <= r.n && t < 0; ++i) {
        int x = (last + i) % r.n;
        if (x != r.staller && (enabled(r.th[x]) || r.th[x].st == St::Yield)) t = x;
      }
      if (t < 0) r.stall = 0;
      else { last = t; goto chosen; }
    }
    int en[MAXT + MAXT], k;
    k = 0;
    bool lastOn;
    lastOn = enabled(r.th[last]);
    if (lastOn) en[k++] = last;
    bool may;
    may = !(lastOn && o.preemptions >= 0 && r.preempt >= o.preemptions);
    if (may) for (int i = 0; i < r.n; ++i) if (i != last && enabled(r.th[i])) en[k++] = i;
    if (!k) {
      bool all = true, spin = false;
      for (int i = 0; i < r.n; ++i) { all &= r.th[i].st == St::Dead; spin |= r.th[i].st == St::Yield; }
      if (!all) { r.res = Result{spin ? End::Livelock : End::Deadlock, where()}; }
      break;
    }
    int real;
    real = k;
    if (may && r.spurious < o.spurious) for (int i = 0; i < r.n; ++i) if (r.th[i].st == St::Cond) en[k++] = i;
    int x;
    x = k > 1 ? c.choose(k) : 0;
    c.transition();
    if (x >= real) {
      ++r.spurious;
      r.th[en[x]].st = St::Mutex;
      r.th[en[x]].obj = r.th[en[x]].mtx;
      continue;
    }
    t = en[x];
    if (lastOn && t != last) { ++r.preempt; }
    if (t != last) ++gSwitches;
    last = t;
    if (++gSteps > (unsigned long)o.maxSteps) { r.res = Result{End::Livelock, "no end after " + std::to_string(o.maxSteps) + " steps: " + where()}; break; }
   chosen:
    Thread& th = r.th[t];
    if (th.st == St::Mutex) {
      Mutex& m = r.mtx[th.obj];
      m.owner = t;
      m.depth = 1;
      th.clk.join(m.clk);
    }
    th.st = St::Run;
    r.cur = t;
   resume:
    swapcontext(&home, &th.ctx);
    active = false;
    if (!r.stop && r.sig.size() > 1) {
      r.sig = {r.sig[c.choose((int)r.sig.size())]};
      goto resume;
    }
    r.cur = -1;
    if (r.stop) break;
  }
  active = false;
  Result res = r.res;
  return res;
}
}  // namespace sched

using namespace sched;

// ---- interposed synchronization
#define REAL(name) ((decltype(&name))dlsym(RTLD_NEXT, #name))
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
  if (!active) { static auto f = REAL(pthread_mutex_lock); return f ? f(m) : 0; }
  Thread& t = R->th[R->cur];
  auto& mm = R->mtx[m];
  if (mm.owner == R->cur) stopWith(End::Misuse, "a thread locks a mutex it holds");
  t.st = St::Mutex;
  t.obj = m;
  toHome();
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept {
  if (!active) { static auto f = REAL(pthread_mutex_trylock); return f ? f(m) : 0; }
  toHome();
  auto& mm = R->mtx[m];
  if (mm.owner >= 0) return EBUSY;
  mm.owner = R->cur;
  R->th[R->cur].clk.join(mm.clk);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
  if (!active) { static auto f = REAL(pthread_mutex_unlock); return f ? f(m) : 0; }
  auto& mm = R->mtx[m];
  if (mm.owner != R->cur) stopWith(End::Misuse, "a thread unlocks a mutex it does not hold");
  mm.owner = -1;
  Clock& k = R->th[R->cur].clk;
  mm.clk = k;
  k.t[R->cur]++;
  return 0;
}
int pthread_cond_wait(pthread_cond_t* cv, pthread_mutex_t* m) {
  if (!active) { static auto f = REAL(pthread_cond_wait); return f(cv, m); }
  pthread_mutex_unlock(m);
  Thread& t = R->th[R->cur];
  t.st = St::Cond;
  t.obj = cv;
  t.mtx = m;
  toHome();
  return 0;
}
static int condWake(pthread_cond_t* cv, bool all) {
  toHome();
  std::vector<int> w;
  active = false;
  for (int i = 0; i < R->n; ++i) if (R->th[i].st == St::Cond && R->th[i].obj == cv) w.push_back(i);
  if (!all && w.size() > 1) {
    R->sig = w;
    toHome();  // the explorer decides
    active = false;
    w = R->sig;
    R->sig.clear();
  }
  for (int i : w) { R->th[i].st = St::Mutex; R->th[i].obj = R->th[i].mtx; }
  active = true;
  return 0;
}
int pthread_cond_signal(pthread_cond_t* cv) noexcept {
  if (!active) { static auto f = REAL(pthread_cond_signal); return f(cv); }
  return condWake(cv, false);
}
int pthread_cond_broadcast(pthread_cond_t* cv) noexcept {
  if (!active) { static auto f = REAL(pthread_cond_broadcast); return f(cv); }
  return condWake(cv, true);
}
// a timed wait may end at any time: it is a wait that can always be left
int pthread_cond_clockwait(pthread_cond_t* cv, pthread_mutex_t* m, clockid_t, const struct timespec*) {
  if (!active) return ETIMEDOUT;
  pthread_mutex_unlock(m);
  sched_yield();
  pthread_mutex_lock(m);
  return ETIMEDOUT;
}
int pthread_cond_timedwait(pthread_cond_t* cv, pthread_mutex_t* m, const struct timespec* ts) {
  if (!active) { static auto f = REAL(pthread_cond_timedwait); return f(cv, m, ts); }
  pthread_mutex_unlock(m);
  sched_yield();
  pthread_mutex_lock(m);
  return ETIMEDOUT;
}
int pthread_create(pthread_t* id, const pthread_attr_t* a, void* (*f)(void*), void* arg) noexcept {
  if (!active) { static auto r = REAL(pthread_create); return r(id, a, f, arg); }
  *id = (pthread_t)(1000 + create(nullptr, f, arg));
  toHome();
  return 0;
}
int pthread_join(pthread_t id, void** ret) {
  if (!active) { static auto r = REAL(pthread_join); return r(id, ret); }
  int t = (int)((unsigned long)id - 1000);
  if (t == R->cur) return EDEADLK;
  sched::join(t);
  if (ret) *ret = R->th[t].ret;
  return 0;
}
int pthread_detach(pthread_t id) noexcept {
  if (!active) { static auto r = REAL(pthread_detach); return r(id); }
  R->th[(unsigned long)id - 1000].detached = true;
  return 0;
}
int sched_yield() noexcept {
  if (!active) { static auto r = REAL(sched_yield); return r ? r() : 0; }
  Thread& t = R->th[R->cur];
  t.st = St::Yield;
  // no retry without a write by another thread since the previous one
  t.prog = t.seen;
  t.seen = R->prog - t.own;
  toHome();
  return 0;
}
int nanosleep(const struct timespec* a, struct timespec* b) {
  if (!active) { static auto r = REAL(nanosleep); return r(a, b); }
  return sched_yield();
}
int clock_nanosleep(clockid_t c, int f, const struct timespec* a, struct timespec* b) {
  if (!active) { static auto r = REAL(clock_nanosleep); return r(c, f, a, b); }
  return sched_yield();
}
int usleep(useconds_t u) {
  if (!active) { static auto r = REAL(usleep); return r(u); }
  return sched_yield();
}
// ---- memory is fresh when it is allocated
void* malloc(size_t n) { void* p = __libc_malloc(n); if (active) shadowClear(p, n); return p; }
void* calloc(size_t n, size_t m) { void* p = __libc_calloc(n, m); if (active && p) shadowClear(p, n * m); return p; }
void* realloc(void* q, size_t n) { void* p = __libc_realloc(q, n); if (active && p && p != q) shadowClear(p, n); return p; }
void* memalign(size_t a, size_t n) { void* p = __libc_memalign(a, n); if (active && p) shadowClear(p, n); return p; }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** r, size_t a, size_t n) { *r = memalign(a, n); return *r ? 0 : ENOMEM; }
void free(void* p) { __libc_free(p); }

// ---- instrumentation calls of the compiler
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, true); }
void __tsan_vptr_read(void** p) { access(p, 8, false); }
void __tsan_read_range(void* p, long n) { access(p, n, false); }
void __tsan_write_range(void* p, long n) { access(p, n, true); }
#define RW(n)                                                        \
  void __tsan_read##n(void* p) { access(p, n, false); }              \
  void __tsan_write##n(void* p) { access(p, n, true); }              \
  void __tsan_unaligned_read##n(void* p) { access(p, n, false); }    \
  void __tsan_unaligned_write##n(void* p) { access(p, n, true); }    \
  void __tsan_volatile_read##n(void* p) { access(p, n, false); }     \
  void __tsan_volatile_write##n(void* p) { access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
static void atom(const volatile void* p, bool wr) {
  if (!active) return;
  if (wr || R->o.loadPoints) toHome();
  Clock& s = R->sync[(const void*)p];
  Clock& k = R->th[R->cur].clk;
  k.join(s);
  if (wr) { s.join(k); k.t[R->cur]++; ++R->prog; ++R->th[R->cur].own; }
}
#define ATOM(T, b)                                                                                            \
  T __tsan_atomic##b##_load(const volatile T* a, int) { atom(a, false); return *a; }                          \
  void __tsan_atomic##b##_store(volatile T* a, T v, int) { atom(a, true); *a = v; }                           \
  T __tsan_atomic##b##_exchange(volatile T* a, T v, int) { atom(a, true); T o = *a; *a = v; return o; }       \
  T __tsan_atomic##b##_fetch_add(volatile T* a, T v, int) { atom(a, true); T o = *a; *a = o + v; return o; }  \
  T __tsan_atomic##b##_fetch_sub(volatile T* a, T v, int) { atom(a, true); T o = *a; *a = o - v; return o; }  \
  T __tsan_atomic##b##_fetch_and(volatile T* a, T v, int) { atom(a, true); T o = *a; *a = o & v; return o; }  \
  T __tsan_atomic##b##_fetch_or(volatile T* a, T v, int) { atom(a, true); T o = *a; *a = o | v; return o; }   \
  T __tsan_atomic##b##_fetch_xor(volatile T* a, T v, int) { atom(a, true); T o = *a; *a = o ^ v; return o; }  \
  int __tsan_atomic##b##_compare_exchange_strong(volatile T* a, T* e, T v, int, int) {                        \
    atom(a, true); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; }                                   \
  int __tsan_atomic##b##_compare_exchange_weak(volatile T* a, T* e, T v, int x, int y) {                      \
    return __tsan_atomic##b##_compare_exchange_strong(a, e, v, x, y); }                                       \
  T __tsan_atomic##b##_compare_exchange_val(volatile T* a, T e, T v, int, int) {                              \
    atom(a, true); T o = *a; if (o == e) *a = v; return o; }
ATOM(unsigned char, 8) ATOM(unsigned short, 16) ATOM(unsigned int, 32) ATOM(unsigned long, 64)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
