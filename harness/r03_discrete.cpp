// R03: discrete distributions sample their stated law.
#include "stat_common.h"
using namespace cuhksz;

// a mass function given by log pmf on 0..; builds the CDF at chosen integers
struct Law {
  std::vector<double> at;
  std::vector<LD> F;
};
// keeps at most ~40 cut points of the CDF of a law on first, first+1, ...
static Law cuts(const std::vector<LD>& pmf, i64 first) {
  Law l;
  LD F = 0, last = 0;
  for (size_t i = 0; i < pmf.size(); i++) {
    F += pmf[i];
    bool tail = F < 1e-3L || F > 0.999L;
    if (pmf[i] >= 0.02L || F - last >= 0.02L || (tail && i % 4 == 0 && l.at.size() < 400) || i + 1 == pmf.size()) {
      l.at.push_back((double)(first + (i64)i));
      l.F.push_back(std::min<LD>(F, 1));
      last = F;
    }
  }
  return l;
}
static void judge(const std::vector<double>& x, const Law& l, const std::string& what) { law(x, l.at, l.F, 2e-9L, what); }

static std::vector<LD> binomial_pmf(i64 n, double p) {
  std::vector<LD> v((size_t)n + 1);
  for (i64 i = 0; i <= n; i++) {
    if (p == 0) v[(size_t)i] = i == 0;
    else if (p == 1) v[(size_t)i] = i == n;
    else
      v[(size_t)i] = std::exp(lgammal(n + 1) - lgammal(i + 1) - lgammal(n - i + 1) + i * std::log((LD)p) + (n - i) * log1pl(-(LD)p));
  }
  return v;
}
static std::vector<LD> poisson_pmf(double lam) {
  std::vector<LD> v;
  LD hi = lam + 12 * std::sqrt((LD)lam) + 60;
  for (i64 i = 0; i <= hi; i++) v.push_back(std::exp(i * std::log((LD)lam) - lam - lgammal(i + 1)));
  return v;
}
static std::vector<LD> negbin_pmf(i64 r, double p) {
  std::vector<LD> v;
  LD q = 1 - (LD)p, mean = r * q / p, sd = std::sqrt(mean / p);
  LD hi = mean + 12 * sd + 40 / (LD)p + 10;
  for (i64 i = 0; i <= hi; i++) {
    if (q == 0) v.push_back(i == 0);
    else v.push_back(std::exp(lgammal(i + r) - lgammal(i + 1) - lgammal(r) + r * std::log((LD)p) + i * log1pl(-(LD)p)));
  }
  return v;
}
static double gen_p(Gen& g) {
  switch (g.draw(6)) {
    case 0: return (double)g.range(1, 19) / 20;
    case 1: return (double)g.draw(1001) / 1000;
    case 2: return std::ldexp(1.0, -(int)g.draw(14));
    case 3: return 1 - std::ldexp(1.0, -(int)g.draw(20));
    case 4: return 0.5;
    default: return (double)g.draw(1u << 20) / (1u << 20);
  }
}
static u64 draws(Gen& g, double cost) {  // number of samples for a given cost per sample
  static const u64 N[] = {2000, 2000, 2000, 5000, 10000, 20000, 40000, 400000};
  u64 n = g.pick(N);
  double cap = 6e6 / (cost + 1);
  return (u64)std::max(600.0, std::min((double)n, cap));
}
template <class D> struct Var {  // the ways of obtaining a distribution object
};
static void support(double v, double lo, double hi, const std::string& what) {
  CHECK(v >= lo && v <= hi, what << ": sample " << v << " outside the support " << lo << ".." << hi);
}
template <class D>
static std::vector<double> sample(D& d, u64 n, double lo, double hi, const std::string& what) {
  std::vector<double> x((size_t)n);
  for (u64 i = 0; i < n; i++) {
    x[(size_t)i] = (double)d.next();
    support(x[(size_t)i], lo, hi, what);
  }
  return x;
}
#define S(m) ((Msg() << m).os.str())

static void f_bernoulli(Gen& g) {
  double p = g.chance(1, 8) ? (double)g.draw(2) : gen_p(g);
  int seed = gen_seed(g);
  std::string w = S("BernoulliDistribution(" << p << "), seed " << seed);
  NOTE(w);
  Random r(seed);
  BernoulliDistribution d(r, p);
  CHECK(d.p() == p, w << ": p() is " << d.p());
  std::vector<double> x = sample(d, draws(g, 1), p == 1, p > 0, w);
  std::vector<LD> pmf{1 - (LD)p, (LD)p};
  judge(x, cuts(pmf, 0), w);
  g.nontrivial(p > 0 && p < 1);
}
static void f_binomial(Gen& g) {
  int n;
  switch (g.draw(5)) {
    case 0: n = (int)g.draw(12); break;
    case 1: n = (int)g.range(12, 70); break;
    case 2: n = (int)g.range(28, 40); break;
    case 3: n = (int)g.range(70, 1100); break;
    default: n = (int)g.range(1000, 5000);
  }
  double p = g.chance(1, 10) ? (double)g.draw(2) : gen_p(g);
  int seed = gen_seed(g);
  std::string w = S("BinomialDistribution(" << n << ", " << p << "), seed " << seed);
  NOTE(w);
  Random r(seed);
  std::unique_ptr<BinomialDistribution> d(p == 0.5 && g.flag() ? new BinomialDistribution(r, n) : new BinomialDistribution(r, n, p));
  CHECK(d->p() == p && d->n() == n, w << ": n() or p() differ");
  std::vector<double> x = sample(*d, draws(g, n * p), p == 1 ? n : 0, p == 0 ? 0 : n, w);
  judge(x, cuts(binomial_pmf(n, p), 0), w);
  g.label(n >= 34 ? "binomial: 34 or more trials" : "binomial: up to 33 trials");
  g.nontrivial(n > 0 && p > 0 && p < 1);
}
static void f_poisson(Gen& g) {
  double lam;
  switch (g.draw(5)) {
    case 0: lam = (double)g.range(1, 200) / 10; break;
    case 1: lam = (double)g.range(20, 600); break;
    case 2: lam = (double)g.range(690, 760) + (double)g.draw(10) / 10; break;
    case 3: lam = (double)g.range(400, 6000); break;
    default: lam = std::ldexp((double)g.range(1, 1000), -(int)g.draw(20));
  }
  int seed = gen_seed(g);
  std::string w = S("PoissonDistribution(" << lam << "), seed " << seed);
  NOTE(w);
  Random r(seed);
  PoissonDistribution d(r, lam);
  CHECK(d.lambda() == lam, w << ": lambda() is " << d.lambda());
  std::vector<double> x = sample(d, draws(g, lam), 0, INT_MAX, w);
  judge(x, cuts(poisson_pmf(lam), 0), w);
  g.label(lam > 700 ? "poisson: mean above 700" : "poisson: mean up to 700");
  g.nontrivial(lam > 0.01);
}
static void f_negbin(Gen& g) {
  bool geo = g.chance(1, 3);
  int n;
  switch (g.draw(4)) {
    case 0: n = (int)g.range(1, 6); break;
    case 1: n = (int)g.range(1, 60); break;
    case 2: n = (int)g.range(50, 1500); break;
    default: n = (int)g.range(1000, 4000);
  }
  if (geo) n = 1;
  double p = gen_p(g);
  if (p <= 0) p = 1;
  if (n * (1 - p) / p > 20000) p = 0.5 + p / 2;
  int seed = gen_seed(g);
  std::string w = geo ? S("GeometricDistribution(" << p << "), seed " << seed) : S("NegativeBinomialDistribution(" << n << ", " << p << "), seed " << seed);
  NOTE(w);
  Random r(seed);
  std::unique_ptr<NegativeBinomialDistribution> d;
  if (geo) {
    GeometricDistribution* q = p == 0.5 && g.flag() ? new GeometricDistribution(r) : new GeometricDistribution(r, p);
    CHECK(q->p() == p, w << ": p() is " << q->p());
    d.reset(q);
  } else
    d.reset(p == 0.5 && g.flag() ? new NegativeBinomialDistribution(r, n) : new NegativeBinomialDistribution(r, n, p));
  CHECK(d->p() == p && d->r() == n, w << ": r() or p() differ");
  std::vector<double> x = sample(*d, draws(g, n * (1 - p) / p), 0, p == 1 ? 0 : INT_MAX, w);
  judge(x, cuts(negbin_pmf(n, p), 0), w);
  g.label(geo ? "geometric" : n * -std::log(p) > 700 ? "negative binomial: power of p underflows" : "negative binomial");
  g.nontrivial(p < 1);
}
static void f_uniform_int(Gen& g) {
  i64 lo, hi;
  switch (g.draw(4)) {
    case 0: lo = g.zrange(-20, 20), hi = lo + g.range(1, 40); break;
    case 1: lo = g.int32(), hi = lo + g.range(1, 20); break;
    case 2: lo = INT_MIN + (i64)g.draw(3), hi = INT_MAX - (i64)g.draw(3); break;
    default: lo = g.int32(), hi = g.int32();
  }
  if (lo > hi) std::swap(lo, hi);
  if (hi > INT_MAX) hi = INT_MAX;
  if (lo >= hi) lo = hi - 1;
  if (lo < INT_MIN) lo = INT_MIN, hi = INT_MIN + 1;
  int seed = gen_seed(g);
  std::string w = S("UniformIntDistribution(" << lo << ", " << hi << "), seed " << seed);
  NOTE(w);
  Random r(seed);
  std::unique_ptr<UniformIntDistribution> d(lo == 0 && g.flag() ? new UniformIntDistribution(r, (int)hi) : new UniformIntDistribution(r, (int)lo, (int)hi));
  CHECK(d->min() == lo && d->max() == hi, w << ": min() or max() differ");
  std::vector<double> x = sample(*d, draws(g, 1), (double)lo, (double)(hi - 1), w);
  Law l;
  i64 span = hi - lo, cells = std::min<i64>(span, 32);
  for (i64 c = 1; c <= cells; c++) {
    i64 upto = (i64)((__int128)span * c / cells);
    l.at.push_back((double)(lo + upto - 1));
    l.F.push_back((LD)upto / span);
  }
  judge(x, l, w);
  g.nontrivial(span > 1);
}
// enough samples to tell means apart that differ by less than one
static void f_poisson_fine(Gen& g) {
  double lam = 500 * (double)g.range(1, 2) + (double)g.range(1, 19) / 20 + (g.flag() ? 0 : (double)g.draw(200));
  int seed = gen_seed(g);
  std::string w = S("PoissonDistribution(" << lam << "), seed " << seed);
  NOTE(w);
  Random r(seed);
  PoissonDistribution d(r, lam);
  std::vector<double> x = sample(d, 200000, 0, INT_MAX, w);
  judge(x, cuts(poisson_pmf(lam), 0), w);
  g.nontrivial();
}
// extreme outputs of the underlying generator: samples stay in the support, certain outcomes stay certain
static void f_raw(Gen& g) {
  Random r(gen_seed(g));
  std::vector<u64> raw = gen_raw(g);
  std::string seq;
  for (u64 x : raw) seq += S(" " << x);
  NOTE("raw outputs" << seq);
  g.label(give(r, raw, g) ? "raw outputs chosen" : "raw outputs as seeded");
  size_t m = raw.size();
  double p = g.chance(1, 3) ? (double)g.draw(2) : gen_p(g);
  int n = (int)g.draw(60);
  switch (g.draw(6)) {
    case 0: {
      std::string w = S("BernoulliDistribution(" << p << ")");
      NOTE(w);
      BernoulliDistribution d(r, p);
      sample(d, m, p == 1, p > 0, w);
      break;
    }
    case 1: {
      std::string w = S("BinomialDistribution(" << n << ", " << p << ")");
      NOTE(w);
      BinomialDistribution d(r, n, p);
      sample(d, m, p == 1 ? n : 0, p == 0 ? 0 : n, w);
      break;
    }
    case 2: {
      double lam = g.flag() ? (double)g.range(1, 100) / 8 : (double)g.range(1, 1500);
      std::string w = S("PoissonDistribution(" << lam << ")");
      NOTE(w);
      PoissonDistribution d(r, lam);
      sample(d, m, 0, INT_MAX, w);
      break;
    }
    case 3: {
      p = std::max(p, 0.01);
      std::string w = S("NegativeBinomialDistribution(" << n + 1 << ", " << p << ")");
      NOTE(w);
      NegativeBinomialDistribution d(r, n + 1, p);
      sample(d, m, 0, p == 1 ? 0 : INT_MAX, w);
      break;
    }
    case 4: {
      p = std::max(p, 0.001);
      std::string w = S("GeometricDistribution(" << p << ")");
      NOTE(w);
      GeometricDistribution d(r, p);
      sample(d, m, 0, p == 1 ? 0 : INT_MAX, w);
      break;
    }
    default: {
      i64 lo = g.int32(), hi = g.int32();
      if (lo > hi) std::swap(lo, hi);
      if (lo == hi) hi == INT_MAX ? lo-- : hi++;
      std::string w = S("UniformIntDistribution(" << lo << ", " << hi << ")");
      NOTE(w);
      UniformIntDistribution d(r, (int)lo, (int)hi);
      sample(d, m, (double)lo, (double)(hi - 1), w);
    }
  }
  g.nontrivial();
}
// very large parameters, where the laws are nearly normal
static void f_huge(Gen& g) {
  int seed = gen_seed(g);
  Random r(seed);
  u64 kind = g.draw(3);
  if (kind == 0) {
    int n = g.flag() ? 32000 + (int)g.draw(3000) : (int)g.range(10000, 200000);
    double p = (double)g.range(12, 88) / 100;
    std::string w = S("BinomialDistribution(" << n << ", " << p << "), seed " << seed);
    NOTE(w);
    BinomialDistribution d(r, n, p);
    CHECK(d.n() == n && d.p() == p, w << ": n() or p() differ");
    judge_normal(sample(d, 600, 0, n, w), (LD)n * p, std::sqrt((LD)n * p * (1 - p)), 0.04L, w);
  } else if (kind == 1) {
    double lam = (double)g.range(3000, 60000) + (double)g.draw(8) / 8;
    std::string w = S("PoissonDistribution(" << lam << "), seed " << seed);
    NOTE(w);
    PoissonDistribution d(r, lam);
    judge_normal(sample(d, 600, 0, INT_MAX, w), lam, std::sqrt((LD)lam), 0.04L, w);
  } else {
    int n = (int)g.range(4000, 70000);
    double p = (double)g.range(30, 90) / 100;
    std::string w = S("NegativeBinomialDistribution(" << n << ", " << p << "), seed " << seed);
    NOTE(w);
    NegativeBinomialDistribution d(r, n, p);
    CHECK(d.r() == n && d.p() == p, w << ": r() or p() differ");
    judge_normal(sample(d, 600, 0, INT_MAX, w), n * (1 - (LD)p) / p, std::sqrt(n * (1 - (LD)p)) / p, 0.06L, w);
  }
  g.nontrivial();
}
PBT_MAIN({"huge_parameters", 60, f_huge, 0}, {"raw", 60000, f_raw, 0}, {"large_poisson", 16, f_poisson_fine, 0}, {"bernoulli", 1500, f_bernoulli, 0}, {"binomial", 4000, f_binomial, 0}, {"poisson", 3000, f_poisson, 0},
         {"negative-binomial", 4000, f_negbin, 0}, {"uniform-int", 1500, f_uniform_int, 0})
