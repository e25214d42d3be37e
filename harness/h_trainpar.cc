// LIBS: v_mc v_train v_core v_util
// P19: the real training environment with several threads, every interleaving
// up to a preemption bound; weights against the single-threaded ones.
#include "csched.h"
#include "tenv.h"
using mc::Ctx;
using namespace vt;
namespace tr = jumanpp::core::training;
namespace {
TrainModel* tm(Ctx& c) {
  static TrainModel m;
  if (!m.env) {
    Status s = m.make(c.scratch() + "/m", [](dsl::ModelSpecBuilder& b) {
      auto& a = b.field(1, "a").strings().trieIndex();
      auto& p = b.field(2, "p").strings();
      b.unigram({a, p});
      b.bigram({a}, {a});
      b.train().field(a, 1.0f).field(p, 1.0f);
    }, "ab,n\na,n\nb,n\ncd,n\nc,n\nd,v\nc,v\nef,n\ne,n\nf,n\nf,v\n");
    if (!s) c.fail("setup", "%s", msg(s).c_str());
  }
  return &m;
}
// examples share no character: their features are disjoint
const char* EX[3][2] = {{"a,n\nb,n\n\n", "ab,n\n\n"}, {"c,v\nd,v\n\n", "cd,n\n\n"}, {"e,n\nf,v\n\n", "e,n\nf,n\n\n"}};
struct Setup { int threads, n; int which[3]; int iters, epochs, batch; bool bad; };
tr::TrainingArguments args(const Setup& s) {
  tr::TrainingArguments a;
  a.batchSize = (u32)s.batch;
  a.numThreads = (u32)s.threads;
  a.batchMaxIterations = (u32)s.iters;
  a.batchLossEpsilon = 1e-6f;
  a.trainingConfig.featureNumberExponent = 12;
  a.trainingConfig.inputFormat = tr::InputFormat::Csv;
  a.trainingConfig.beamSize = 3;
  return a;
}
std::string text(const Setup& s) {
  std::string t;
  for (int i = 0; i < s.n; ++i) {
    if (s.bad && i == s.n - 1) { for (int k = 0; k < 2500; ++k) t += "ab,n\n"; t += "\n"; }
    else t += EX[i][s.which[i]];
  }
  return t;
}
struct Out { bool ok = false, init = true; std::vector<float> w; std::string err; double loss = 0, loss1 = 0, steps1 = 0; };
// the first epoch batch by batch: the loss of an epoch is the sum over its
// batches of the loss in their last iteration
void byBatch(TrainModel* m, const Setup& s, const std::string& txt, Out* o) {
  auto a = args(s);
  tr::TrainingEnv te(a, m->env.get());
  if (!te.initOther() || !te.loadInputData(sp(txt))) return;
  int seen = 0;
  double last = 0;
  while (seen < s.n) {
    if (!te.readOneBatch()) return;
    te.prepareTrainers();
    if (te.numTrainers() <= 0) return;
    for (int i = 0; i < s.iters; ++i) {
      if (!te.trainOneBatch(i)) return;
      double prev = last;
      last = te.batchLoss();
      if (std::abs(prev - last) / te.numTrainers() < a.batchLossEpsilon) break;
    }
    o->steps1 += last;
    seen += te.numTrainers();
  }
}
void train(TrainModel* m, const Setup& s, const std::string& txt, Out* o) {
  auto a = args(s);
  tr::TrainingEnv te(a, m->env.get());
  Status st = te.initOther();
  if (!st) { o->init = false; o->err = msg(st); return; }
  o->ok = true;
  for (int e = 0; e < s.epochs; ++e) {
    st = te.loadInputData(sp(txt));
    if (!st) { o->init = false; o->err = msg(st); return; }
    Status r = te.trainOneEpoch();
    if (!r) { o->ok = false; o->err = msg(r); break; }
    o->loss = te.epochLoss();
    if (e == 0) o->loss1 = o->loss;
  }
  o->w = scwWeights(te);
}
void s_train(Ctx& c) {
  TrainModel* m = tm(c);
  Setup s;
  s.threads = c.range(1, c.thorough() ? 3 : 2);
  s.n = c.range(1, c.thorough() ? 3 : 2);
  for (int i = 0; i < s.n; ++i) s.which[i] = c.choose(2);
  s.iters = c.range(1, 2);
  s.epochs = c.range(1, 2);
  s.batch = s.n == 1 ? 1 : c.range(s.n - 1, s.n);
  s.bad = c.flag();
  if (s.bad && (s.iters > 1 || s.epochs > 1)) c.discard();
  int work = s.n * s.iters * s.epochs;
  if (!c.thorough() && work > (s.threads == 1 ? 4 : 2)) c.discard();
  std::string txt = text(s);
  std::string what = std::to_string(s.threads) + " threads, " + std::to_string(s.n) + " examples" + (s.bad ? " (the last too long)" : "") + ", batch " + std::to_string(s.batch) + ", " + std::to_string(s.iters) + " iterations, " + std::to_string(s.epochs) + " epochs" + " variants";
  for (int i = 0; i < s.n; ++i) what += " " + std::to_string(s.which[i]);
  c.note("%s", what.c_str());
  static std::map<std::string, Out> ref;
  std::string key = txt + "|" + std::to_string(s.iters * 100 + s.epochs * 10 + s.batch);
  static Out o;
  if (!ref.count(key)) {
    // one thread, no preemptions; the order of examples is that of the batch
    Setup s1 = s;
    s1.threads = 1;
    o = Out();
    sched::Options so;
    so.preemptions = 0;
    so.races = false;
    so.maxSteps = 2000000;
    sched::Options so2 = so;
    auto r = sched::run(c, so2, [&] { train(m, s1, txt, &o); if (!s.bad) byBatch(m, s1, txt, &o); });
    if (r.end != sched::End::Done) c.fail("stuck", "%s, one thread: %s", what.c_str(), r.text.c_str());
    if (!s.bad && !(std::abs(o.loss1 - o.steps1) < 1e-6)) c.fail("epoch-loss", "%s: loss of the first epoch %g, the sum over its batches is %g", what.c_str(), o.loss1, o.steps1);
    ref[key] = o;
  }
  o = Out();
  sched::Options so;
  so.preemptions = c.thorough() ? (work <= 2 ? 3 : work <= 4 ? 2 : 1) : s.threads == 1 && work <= 2 ? 2 : 1;
  so.races = false;
  so.maxSteps = 2000000;
  auto r = sched::run(c, so, [&] { train(m, s, txt, &o); });
  if (r.end != sched::End::Done) c.fail("stuck", "%s: %s", what.c_str(), r.text.c_str());
  Out& e = ref[key];
  if (!e.init || !o.init) c.fail("setup", "%s: %s %s", what.c_str(), e.err.c_str(), o.err.c_str());
  if (o.ok != !s.bad || e.ok != !s.bad) c.fail("status", "%s: %d %s (one thread: %d %s)", what.c_str(), o.ok, o.err.c_str(), e.ok, e.err.c_str());
  if (!s.bad) {
    if (o.w.size() != e.w.size()) c.fail("weights", "%s: number of weights", what.c_str());
    int diff = 0;
    size_t at = 0;
    for (size_t i = 0; i < o.w.size(); ++i) if (memcmp(&o.w[i], &e.w[i], 4)) { ++diff; at = i; }
    if (diff) c.fail("weights", "%s: %d weights differ from single-threaded training, [%zu] %g != %g", what.c_str(), diff, at, o.w[at], e.w[at]);
    if (std::abs(o.loss - e.loss) > 1e-6) c.fail("loss", "%s: loss %g, %g with one thread", what.c_str(), o.loss, e.loss);
  }
  c.sig((uint64_t)(o.loss * 1e6) + o.w.size());
  c.state(sched::gSteps);
}
}  // namespace
int main(int argc, char** argv) {
  return mc::run(argc, argv, {{"train", s_train, "1-2 (3) threads, 1-2 (3) examples with disjoint features, valid or not, 1-2 iterations and epochs, batch full or not; preemption bound 1-2 (2-3)"}});
}
