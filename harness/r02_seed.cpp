// R02: equal seeds give equal sequences, whatever happens in between.
#include "stat_common.h"
using namespace cuhksz;
#define S(m) ((Msg() << m).os.str())

struct Op {  // one draw from a Random
  u64 kind;
  int a, b;
  double x, y;
};
static Op gen_op(Gen& g) {
  Op o;
  o.kind = g.draw(7);
  i64 lo = g.int32(), hi = g.int32();
  if (lo > hi) std::swap(lo, hi);
  if (lo == hi) hi == INT_MAX ? lo-- : hi++;
  o.a = (int)lo;
  o.b = (int)hi;
  o.x = (double)g.zrange(-1000, 1000) / 8;
  o.y = o.x + (double)g.range(1, 1000) / 8;
  return o;
}
static double run(Random& r, const Op& o) {
  switch (o.kind) {
    case 0: return r.nextInt();
    case 1: return r.nextInt(o.a, o.b);
    case 2: return r.nextInt(std::max(1, o.b));
    case 3: return r.nextDouble();
    case 4: return r.nextDouble(o.x, o.y);
    case 5: return r.nextDouble(std::fabs(o.y));
    default: return r.nextBool();
  }
}
static void noise(Gen& g, Random& other) {
  if (g.flag()) pbt::fake_time() = 1000000000 + (time_t)g.draw(1000000000);  // the clock moves on
  switch (g.draw(6)) {
    case 0: break;
    case 1: other.nextInt(); break;
    case 2: other.nextDouble(); break;
    case 3: randomInt(); break;
    case 4: other.setSeed(gen_seed(g)); break;
    default: {
      Random t(gen_seed(g));
      t.nextBool();
    }
  }
}
static void f_random(Gen& g) {
  int seed = gen_seed(g);
  std::vector<Op> ops;
  Loop l(g, len_class(g, 100));
  while (l.next()) ops.push_back(gen_op(g));
  NOTE("seed " << seed << ", " << ops.size() << " draws");
  Random a(seed);
  std::vector<double> x;
  for (auto& o : ops) x.push_back(run(a, o));
  // constructed with the seed, or reset to it after other draws
  Random b(g.flag() ? seed : gen_seed(g)), other(gen_seed(g));
  u64 how = g.draw(3);
  if (how == 0) b = Random(seed);
  else {
    u64 pre = g.draw(6);
    for (u64 i = 0; i < pre; i++) run(b, gen_op(g));
    b.setSeed(seed);
  }
  size_t copy_at = ops.empty() ? 0 : g.draw(ops.size());
  std::unique_ptr<Random> copy;
  for (size_t i = 0; i < ops.size(); i++) {
    if (i == copy_at) copy.reset(new Random(b));
    noise(g, other);
    double v = run(b, ops[i]);
    CHECK(v == x[i], "draw " << i << " (kind " << ops[i].kind << ") of two generators with seed " << seed << ": " << x[i] << " and " << v);
  }
  if (copy)  // a copy continues where the original was
    for (size_t i = copy_at; i < ops.size(); i++) {
      double v = run(*copy, ops[i]);
      CHECK(v == x[i], "draw " << i << " of a copied generator: " << v << ", expected " << x[i]);
    }
  g.nontrivial(ops.size() >= 2);
}
static void f_different(Gen& g) {
  int s1 = gen_seed(g), s2;
  switch (g.draw(4)) {
    case 0: s2 = (int)((unsigned)s1 ^ (1u << g.draw(32))); break;
    case 1: s2 = (int)((unsigned)s1 + 1 + (unsigned)g.draw(4)); break;
    case 2: s2 = (int)(0u - (unsigned)s1); break;
    default: s2 = gen_seed(g);
  }
  if (s1 == s2) return;
  NOTE("seeds " << s1 << " and " << s2);
  Random a(s1), b(g.flag() ? s2 : 0);
  b.setSeed(s2);
  bool same = true;
  for (int i = 0; i < 10; i++) same &= a.nextInt() == b.nextInt();
  CHECK(!same, "seeds " << s1 << " and " << s2 << " give the same sequence");
  // and successive draws are not all alike
  int first = a.nextInt();
  bool alike = true;
  for (int i = 0; i < 10; i++) alike &= a.nextInt() == first;
  CHECK(!alike, "seed " << s1 << ": ten equal draws");
  g.nontrivial();
}

// ---- distributions
struct Sampler {
  virtual ~Sampler() {}
  virtual double next() = 0;
  virtual void use(Random&) = 0;
};
template <class D>
struct Box : Sampler {
  std::unique_ptr<D> d;
  template <class... A>
  explicit Box(A&&... a) : d(new D(std::forward<A>(a)...)) {}
  double next() override { return (double)d->next(); }
  void use(Random& r) override { d->setRandomGenerator(r); }
};
struct Spec {
  u64 kind;
  double a, b;
  int n;
};
static Spec gen_spec(Gen& g) {
  Spec s;
  s.kind = g.draw(12);
  s.a = (double)g.range(1, 63) / 64;
  s.b = (double)g.range(1, 200) / 16;
  s.n = (int)g.range(1, 40);
  return s;
}
static Sampler* make(const Spec& s, Random* r) {
#define MK(D, ...) return r ? new Box<D>(*r, __VA_ARGS__) : new Box<D>(__VA_ARGS__)
  switch (s.kind) {
    case 0: MK(NormalDistribution, s.b - 5, s.a);
    case 1: MK(BernoulliDistribution, s.a);
    case 2: MK(BinomialDistribution, s.n, s.a);
    case 3: MK(GeometricDistribution, s.a);
    case 4: MK(NegativeBinomialDistribution, s.n, s.a / 2 + 0.5);
    case 5: MK(PoissonDistribution, s.b);
    case 6: MK(UniformDistribution, -s.a, s.b);
    case 7: MK(UniformIntDistribution, -s.n, s.n * 3);
    case 8: MK(ExponentialDistribution, s.b);
    case 9: MK(GammaDistribution, s.b, s.a);
    case 10: MK(ChiSquaredDistribution, s.b);
    default: MK(StudentTDistribution, s.b);
  }
}
static bool same_double(double a, double b) { return a == b || (a != a && b != b); }
// several distributions sharing one generator, drawn from in a generated order
static void f_dist(Gen& g) {
  int seed = gen_seed(g);
  std::vector<Spec> spec;
  size_t k = 1 + g.draw(4);
  for (size_t i = 0; i < k; i++) spec.push_back(gen_spec(g));
  std::vector<size_t> order;
  Loop l(g, len_class(g, 50));
  while (l.next()) order.push_back(g.draw(k + 1));  // k: a draw from the generator itself
  NOTE("seed " << seed << ", " << k << " distributions, " << order.size() << " draws");
  std::vector<double> x;
  {
    Random r(seed);
    std::vector<std::unique_ptr<Sampler>> d;
    for (auto& s : spec) d.emplace_back(make(s, &r));
    for (size_t o : order) x.push_back(o == k ? (double)r.nextInt() : d[o]->next());
  }
  Random r(gen_seed(g)), other(gen_seed(g));
  for (u64 i = g.draw(4); i; i--) r.nextInt();
  r.setSeed(seed);
  std::vector<std::unique_ptr<Sampler>> d, side;
  for (auto& s : spec) {
    bool own = g.flag();
    d.emplace_back(make(s, own ? nullptr : &r));  // own: made with a generator of its own
    if (own) {
      if (g.flag()) d.back()->use(other);
      d.back()->use(r);
      g.label("distribution moved to the generator");
    }
    if (g.flag()) side.emplace_back(make(gen_spec(g), g.flag() ? &other : nullptr));
  }
  for (size_t i = 0; i < order.size(); i++) {
    noise(g, other);
    if (!side.empty() && g.flag()) side[g.draw(side.size())]->next();
    size_t o = order[i];
    double v = o == k ? (double)r.nextInt() : d[o]->next();
    CHECK(same_double(v, x[i]), "draw " << i << " from distribution kind " << (o == k ? 99 : spec[o].kind) << ": " << v << ", the first run gave " << x[i]);
  }
  g.nontrivial(order.size() >= 2);
}
// long sequences
static void f_long(Gen& g) {
  int seed = gen_seed(g);
  u64 n = g.flag() ? 65500 + g.draw(100) : 1000 + g.draw(1200000);
  std::vector<Op> ops;
  for (int i = 0; i < 16; i++) ops.push_back(gen_op(g));
  u64 mode = g.draw(3);
  Spec sp = gen_spec(g);
  if (mode == 2) n = std::min<u64>(n, 150000);
  NOTE("seed " << seed << ", " << n << " draws of kind " << mode);
  auto once = [&](Random& r, std::vector<double>& x) {
    if (mode == 2) {
      std::unique_ptr<Sampler> d(make(sp, &r));
      for (u64 i = 0; i < n; i++) x.push_back(d->next());
    } else
      for (u64 i = 0; i < n; i++) x.push_back(run(r, ops[mode ? i % ops.size() : 0]));
  };
  std::vector<double> x, y;
  Random a(seed), b(gen_seed(g));
  once(a, x);
  if (g.flag()) {
    b.setSeed(seed);
    once(b, y);
  } else {
    a.setSeed(seed);
    once(a, y);
  }
  for (u64 i = 0; i < n; i++) CHECK(same_double(x[i], y[i]), "draw " << i << ": " << y[i] << ", the first run gave " << x[i]);
  g.nontrivial();
}
PBT_MAIN({"huge_sequences", 40, f_long, 0}, {"generator", 200000, f_random, 0}, {"different-seeds", 60000, f_different, 0}, {"distributions", 150000, f_dist, 0})
