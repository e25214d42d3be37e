// LIBS: v_mc v_util
// P18: long sequential histories of the real queue.
#include "mc.h"
#include "util/bounded_queue.h"
using mc::Ctx;
namespace {
struct Tok {
  int v = 0;
  Tok() = default;
  explicit Tok(int x) : v(x) {}
  Tok(Tok&& o) noexcept : v(o.v) { o.v = -1; }
  Tok& operator=(Tok&& o) noexcept { if (this != &o) { v = o.v; o.v = -1; } return *this; }
};
using Q = jumanpp::util::bounded_queue<Tok>;
// long sequential histories: positions go around many times, and over the end
// of the 32-bit counters in the thorough tier
void s_long(Ctx& c) {
  unsigned cap = 1 + c.choose(9);
  bool far = c.thorough() && c.flag();
  c.note("capacity %u %s", cap, far ? "2^32 operations" : "");
  Q q;
  bool late = c.flag();
  Q q2(cap);
  if (late) q.initialize(cap);
  Q& x = late ? q : q2;
  if (far) {
    if (cap != 3 || late) c.discard();
    for (unsigned long i = 0; i < (1UL << 32) - 2; ++i) { Tok t(0); x.offer(Tok((int)(i & 0xffff))); if (!x.recieve(&t) || t.v != (int)(i & 0xffff)) c.fail("long", "item %lu", i); }
  }
  unsigned long in = 0, out = 0;
  for (int round = 0; round < 400; ++round) {
    unsigned fill = round % (cap + 2);
    for (unsigned i = 0; i < fill; ++i) {
      bool ok = x.offer(Tok((int)in));
      if (ok != (in - out < cap)) c.fail("long", "offer %d with %lu of %u", ok, in - out, cap);
      if (ok) ++in;
      if (x.size() != in - out || x.remaining() != cap - (in - out)) c.fail("long", "size %zu, expected %lu", x.size(), in - out);
      c.count();
    }
    unsigned take = (round * 7) % (cap + 1);
    for (unsigned i = 0; i < take; ++i) {
      Tok t(-5);
      bool ok = x.recieve(&t);
      if (ok != (in > out)) c.fail("long", "receive %d with %lu", ok, in - out);
      if (ok) { if (t.v != (int)out) c.fail("long", "got %d, expected %lu", t.v, out); ++out; }
    }
  }
}
}  // namespace
int main(int argc, char** argv) {
  return mc::run(argc, argv, {{"long", s_long, "400 rounds around buffers of 1-9 places; thorough: one with over 2^32 items"}});
}
