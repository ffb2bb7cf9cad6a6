// R04: continuous distributions sample their stated law.
#include "stat_common.h"
using namespace cuhksz;
#define S(m) ((Msg() << m).os.str())

static const LD US[] = {1e-5L, 1e-4L, 1e-3L, 0.01L, 0.03L, 0.06L, 0.1L, 0.15L, 0.2L, 0.25L, 0.3L, 0.35L, 0.4L, 0.45L, 0.5L, 0.55L, 0.6L,
                        0.65L, 0.7L, 0.75L, 0.8L, 0.85L, 0.9L, 0.94L, 0.97L, 0.99L, 0.999L, 0.9999L, 0.99999L};
static u64 draws(Gen& g, double cost) {
  static const u64 N[] = {2000, 2000, 2000, 5000, 10000, 20000, 40000, 400000};
  u64 n = g.pick(N);
  double cap = 5e6 / (cost + 1);
  return (u64)std::max(600.0, std::min((double)n, cap));
}
template <class D>
static std::vector<double> sample(D& d, u64 n, double lo, double hi, const std::string& what) {
  std::vector<double> x((size_t)n);
  for (u64 i = 0; i < n; i++) {
    double v = x[(size_t)i] = d.next();
    CHECK(std::isfinite(v), what << ": sample " << v);
    CHECK(v >= lo && v <= hi, what << ": sample " << v << " outside the support");
  }
  return x;
}
// A law with CDF f, increasing over (lo, hi)
template <class F>
static void judge(const std::vector<double>& x, const F& cdf, double lo, double hi, const std::string& what) {
  std::vector<double> at;
  std::vector<LD> Fs;
  for (LD u : US) {
    double q = quantile(cdf, u, lo, hi);
    if (!at.empty() && !(q > at.back())) continue;
    at.push_back(q);
    Fs.push_back(cdf(q));
  }
  law(x, at, Fs, 1e-8L, what);
}
// positive scale factors
static double gen_scale(Gen& g) {
  switch (g.draw(4)) {
    case 0: return 1;
    case 1: return (double)g.range(1, 100) / 10;
    case 2: return std::ldexp(1 + (double)g.draw(1000) / 1000, (int)g.draw(200) - 100);
    default: return std::ldexp((double)g.range(1, 1000), (int)g.draw(40) - 20);
  }
}
static void gamma_law(GammaDistribution& d, Gen& g, double k, double theta, const std::string& w) {
  std::vector<double> x = sample(d, draws(g, k), 0, INFINITY, w);
  auto cdf = [&](double v) { return gamma_p(k, (LD)v / theta); };
  judge(x, cdf, 0, theta * (k + 40 * std::sqrt(k) + 200), w);
}
static double gen_shape(Gen& g) {
  switch (g.draw(6)) {
    case 0: return (double)g.range(1, 12);
    case 1: return (double)g.range(1, 12) / 2;
    case 2: return (double)g.range(50, 1000) / 1000;
    case 3: return (double)g.range(1, 4000) / 100 + 0.05;
    case 4: return (double)g.range(1, 800) + (g.flag() ? 0 : (double)g.draw(64) / 64);
    default: return (double)g.range(1, 10) + (g.flag() ? -1.0 : 1.0) * std::ldexp(1.0, -(int)g.range(3, 30));
  }
}
static void f_gamma(Gen& g) {
  double k = gen_shape(g), theta = gen_scale(g);
  int seed = gen_seed(g);
  std::string w = S("GammaDistribution(" << k << ", " << theta << "), seed " << seed);
  NOTE(w);
  Random r(seed);
  GammaDistribution d(r, k, theta);
  CHECK(d.k() == k && d.theta() == theta, w << ": k() or theta() differ");
  gamma_law(d, g, k, theta, w);
  g.label(k == std::floor(k) ? "gamma: whole shape" : k < 1 ? "gamma: shape below 1" : "gamma: fractional shape");
  g.nontrivial();
}
static void near_eq(double a, double b, const std::string& w) {
  CHECK(std::fabs(a - b) <= 4e-16 * std::fabs(b), w << ": parameter read back as " << a << ", expected " << b);
}
static void f_chi2(Gen& g) {
  double df = g.flag() ? (double)g.range(1, 30) : gen_shape(g) * 2;
  int seed = gen_seed(g);
  std::string w = S("ChiSquaredDistribution(" << df << "), seed " << seed);
  NOTE(w);
  Random r(seed);
  ChiSquaredDistribution d(r, df);
  near_eq(d.r(), df, w);
  gamma_law(d, g, df / 2, 2, w);
  g.nontrivial();
}
static void f_exponential(Gen& g) {
  double lam = gen_scale(g);
  int seed = gen_seed(g);
  std::string w = S("ExponentialDistribution(" << lam << "), seed " << seed);
  NOTE(w);
  Random r(seed);
  ExponentialDistribution d(r, lam);
  near_eq(d.lambda(), lam, w);
  std::vector<double> x = sample(d, draws(g, 1), 0, INFINITY, w);
  auto cdf = [&](double v) { return -expm1l(-(LD)lam * v); };
  judge(x, cdf, 0, 100 / lam, w);
  g.nontrivial();
}
static void f_normal(Gen& g) {
  double sd = gen_scale(g);
  double mean = g.chance(1, 3) ? 0 : g.flag() ? sd * (double)g.zrange(-1000, 1000) / 16 : sd * (double)g.zrange(-100000, 100000);
  bool dflt = g.chance(1, 8);
  if (dflt) mean = 0, sd = 1;
  int seed = gen_seed(g);
  std::string w = S("NormalDistribution(" << mean << ", " << sd << "), seed " << seed);
  NOTE(w);
  Random r(seed);
  std::unique_ptr<NormalDistribution> d(dflt ? new NormalDistribution(r) : new NormalDistribution(r, mean, sd));
  CHECK(d->mean() == mean && d->stddev() == sd, w << ": mean() or stddev() differ");
  std::vector<double> x = sample(*d, draws(g, 1), -INFINITY, INFINITY, w);
  auto cdf = [&](double v) { return normal_cdf(((LD)v - mean) / sd); };
  judge(x, cdf, mean - 12 * sd, mean + 12 * sd, w);
  // the two values of a polar pair must be independent in position and sign
  u64 n = x.size() / 2, c[2][4] = {{0}};
  for (u64 off = 0; off < 2; off++)
    for (u64 i = off; i + 1 < x.size(); i += 2)
      c[off][(x[i] > mean) * 2 + (x[i + 1] > mean)]++;
  for (u64 off = 0; off < 2; off++) {
    u64 m = c[off][0] + c[off][1] + c[off][2] + c[off][3];
    for (int k = 0; k < 4; k++) frequency(c[off][k], m, 0.25L, 1e-9L, S(w << ": signs " << k << " of a pair"));
  }
  // sums and differences of pairs are normal too
  std::vector<double> s, t;
  for (u64 i = 0; i + 1 < x.size(); i += 2) {
    s.push_back(((x[i] - mean) + (x[i + 1] - mean)) / sd);
    t.push_back(((x[i] - mean) - (x[i + 1] - mean)) / sd);
  }
  auto cdf2 = [&](double v) { return normal_cdf((LD)v / std::sqrt((LD)2)); };
  judge(s, cdf2, -17, 17, w + ", sum of neighbours");
  judge(t, cdf2, -17, 17, w + ", difference of neighbours");
  (void)n;
  g.nontrivial();
}
static void f_student(Gen& g) {
  double df;
  switch (g.draw(4)) {
    case 0: df = (double)g.range(1, 30); break;
    case 1: df = (double)g.range(200, 6000) / 1000; break;
    case 2: df = (double)g.range(1, 40) + 0.5; break;
    default: df = (double)g.range(30, 1000);
  }
  int seed = gen_seed(g);
  std::string w = S("StudentTDistribution(" << df << "), seed " << seed);
  NOTE(w);
  Random r(seed);
  StudentTDistribution d(r, df);
  CHECK(d.r() == df, w << ": r() is " << d.r());
  std::vector<double> x = sample(d, draws(g, df / 2 + 4), -INFINITY, INFINITY, w);
  // judge the two halves by the law of the magnitude: P(|T| <= v) = 2F(v) - 1
  auto cdf = [&](double v) { return v >= 0 ? 2 * student_cdf(df, v) - 1 : 0; };
  std::vector<double> mag(x.size());
  u64 pos = 0;
  for (size_t i = 0; i < x.size(); i++) mag[i] = std::fabs(x[i]), pos += x[i] > 0;
  judge(mag, cdf, 1e-30, 1e150, w + ", magnitude");
  frequency(pos, x.size(), 0.5L, 1e-9L, w + ": a positive sample");
  for (int lag = 1; lag <= 2; lag++)
    for (int s = 0; s < 2; s++) {
      u64 same = 0, pairs = 0;
      for (size_t i = (size_t)s; i + (size_t)lag < x.size(); i += 2 * (size_t)lag, pairs++) same += (x[i] > 0) == (x[i + (size_t)lag] > 0);
      frequency(same, pairs, 0.5L, 1e-9L, S(w << ": equal signs of samples " << lag << " apart"));
    }
  // the magnitude does not depend on the sign
  double med = quantile(cdf, 0.5L, 1e-30, 1e150);
  u64 c = 0;
  for (size_t i = 0; i < x.size(); i++) c += x[i] > med;
  frequency(c, x.size(), 0.25L, 1e-8L, S(w << ": a sample > " << med));
  g.nontrivial();
}
static void f_uniform(Gen& g) {
  double lo = 0, hi = 1;
  u64 form = g.draw(4);
  if (form == 1) hi = gen_scale(g);
  if (form >= 2) {
    double s = gen_scale(g);
    lo = s * (double)g.zrange(-1000, 1000) / 8;
    hi = lo + s * (double)g.range(1, 1000) / 8;
    if (form == 3 && g.chance(1, 4)) lo = -std::numeric_limits<double>::max(), hi = std::numeric_limits<double>::max();
  }
  int seed = gen_seed(g);
  std::string w = S("UniformDistribution(" << lo << ", " << hi << "), seed " << seed);
  NOTE(w);
  Random r(seed);
  std::unique_ptr<UniformDistribution> d(form == 0 ? new UniformDistribution(r) : form == 1 ? new UniformDistribution(r, hi) : new UniformDistribution(r, lo, hi));
  CHECK(d->min() == lo && d->max() == hi, w << ": min() or max() differ");
  std::vector<double> x = sample(*d, draws(g, 1), lo, std::nextafter(hi, lo), w);
  auto cdf = [&](double v) { return ((LD)v - lo) / ((LD)hi - lo); };
  judge(x, cdf, lo, hi, w);
  g.nontrivial();
}
// extreme outputs of the underlying generator: samples stay finite and in the support
static void f_raw(Gen& g) {
  Random r(gen_seed(g));
  std::vector<u64> raw = gen_raw(g);
  std::string seq;
  for (u64 x : raw) seq += S(" " << x);
  NOTE("raw outputs" << seq);
  g.label(give(r, raw, g) ? "raw outputs chosen" : "raw outputs as seeded");
  size_t m = raw.size();
  double a = (double)g.range(1, 64) / 8, b = (double)g.range(1, 64) / 8;
  std::string w = S("kind with parameters " << a << ", " << b);
  NOTE(w);
  switch (g.draw(5)) {
    case 0: { NormalDistribution d(r, a, b); sample(d, m, -INFINITY, INFINITY, "NormalDistribution, " + w); break; }
    case 1: { GammaDistribution d(r, a, b); sample(d, m, 0, INFINITY, "GammaDistribution, " + w); break; }
    case 2: { ExponentialDistribution d(r, a); sample(d, m, 0, INFINITY, "ExponentialDistribution, " + w); break; }
    case 3: { ChiSquaredDistribution d(r, a); sample(d, m, 0, INFINITY, "ChiSquaredDistribution, " + w); break; }
    default: { UniformDistribution d(r, -a, b); sample(d, m, -a, std::nextafter(b, -a), "UniformDistribution, " + w); }
  }
  g.nontrivial();
}
// very large parameters, where the laws are nearly normal
static void f_huge(Gen& g) {
  int seed = gen_seed(g);
  Random r(seed);
  double k = (double)(g.flag() ? g.range(2000, 6000) : g.range(2000, 60000)) + (g.flag() ? 0 : (double)g.draw(16) / 16);
  double theta = gen_scale(g);
  switch (g.draw(3)) {
    case 0: {
      std::string w = S("GammaDistribution(" << k << ", " << theta << "), seed " << seed);
      NOTE(w);
      GammaDistribution d(r, k, theta);
      judge_normal(sample(d, 600, 0, INFINITY, w), (LD)k * theta, std::sqrt((LD)k) * theta, 0.04L, w);
      break;
    }
    case 1: {
      std::string w = S("ChiSquaredDistribution(" << k * 2 << "), seed " << seed);
      NOTE(w);
      ChiSquaredDistribution d(r, k * 2);
      judge_normal(sample(d, 600, 0, INFINITY, w), 2 * (LD)k, 2 * std::sqrt((LD)k), 0.04L, w);
      break;
    }
    default: {
      std::string w = S("StudentTDistribution(" << k << "), seed " << seed);
      NOTE(w);
      StudentTDistribution d(r, k);
      judge_normal(sample(d, 600, -INFINITY, INFINITY, w), 0, 1, 0.01L, w);
    }
  }
  g.nontrivial();
}
PBT_MAIN({"huge_parameters", 60, f_huge, 0}, {"raw", 60000, f_raw, 0}, {"gamma", 2000, f_gamma, 0}, {"chi-squared", 900, f_chi2, 0}, {"exponential", 700, f_exponential, 0},
         {"normal", 900, f_normal, 0}, {"student-t", 900, f_student, 0}, {"uniform", 700, f_uniform, 0})
