// Statistical oracles with proven error bounds.
//
// Every test is on n independent Bernoulli trials with known probability p:
// by the Chernoff bound the observed frequency f satisfies
//   n * KL(f || p) > T   with probability at most 2 exp(-T),
// for every n and p (no asymptotics).  With T = 36 one test raises a false
// alarm with probability below 5e-16.
#ifndef STAT_COMMON_H
#define STAT_COMMON_H
#include <functional>
#include <memory>
#include "random/BernoulliDistribution.h"
#include "random/BinomialDistribution.h"
#include "random/ChiSquaredDistribution.h"
#include "random/ExponentialDistribution.h"
#include "random/GammaDistribution.h"
#include "random/GeometricDistribution.h"
#include "random/NegativeBinomialDistribution.h"
#include "random/NormalDistribution.h"
#include "random/PoissonDistribution.h"
#include "random/Random.h"
#include "random/StudentTDistribution.h"
#include "random/UniformDistribution.h"
#include "random/UniformIntDistribution.h"
#include "random/random_functions.h"
#include "vals.h"
typedef long double LD;

static const LD STAT_T = 36;

static LD kl(LD f, LD p) {
  LD r = 0;
  if (f > 0) r += p > 0 ? f * std::log(f / p) : 1e30L;
  if (f < 1) r += p < 1 ? (1 - f) * std::log((1 - f) / (1 - p)) : 1e30L;
  return r;
}
// `hits` of `n` independent trials of probability p (known to within slack)
template <class W>
static void frequency(u64 hits, u64 n, LD p, LD slack, const W& what) {
  if (!n) return;
  LD f = (LD)hits / n;
  LD lo = std::max<LD>(0, p - slack), hi = std::min<LD>(1, p + slack);
  if (f >= lo && f <= hi) return;
  LD d = n * (f < lo ? kl(f, lo) : kl(f, hi));
  if (d > STAT_T)
    PBT_FAIL(what << " occurred " << hits << " times in " << n << " draws; its probability is " << (double)p
                  << " (chance of such a deviation below 1e-15)");
}

// ---- cumulative distribution functions
static LD gamma_p(LD a, LD x) {  // regularised lower incomplete gamma function
  if (x <= 0) return 0;
  LD lg = lgammal(a);
  LD pre = std::exp(-x + a * std::log(x) - lg);
  if (x < a + 1) {
    LD sum = 1 / a, t = sum;
    for (int n = 1; n < 100000; n++) {
      t *= x / (a + n);
      sum += t;
      if (t < sum * 1e-19L) break;
    }
    return std::min<LD>(1, sum * pre);
  }
  LD b = x + 1 - a, c = 1e300L, d = 1 / b, h = d;
  for (int i = 1; i < 100000; i++) {
    LD an = -i * (i - a);
    b += 2;
    d = an * d + b;
    if (std::fabs(d) < 1e-300L) d = 1e-300L;
    c = b + an / c;
    if (std::fabs(c) < 1e-300L) c = 1e-300L;
    d = 1 / d;
    LD del = d * c;
    h *= del;
    if (std::fabs(del - 1) < 1e-18L) break;
  }
  return std::max<LD>(0, 1 - pre * h);
}
static LD betacf(LD a, LD b, LD x) {
  LD qab = a + b, qap = a + 1, qam = a - 1, c = 1, d = 1 - qab * x / qap;
  if (std::fabs(d) < 1e-300L) d = 1e-300L;
  d = 1 / d;
  LD h = d;
  for (int m = 1; m < 100000; m++) {
    LD m2 = 2 * m;
    LD aa = m * (b - m) * x / ((qam + m2) * (a + m2));
    d = 1 + aa * d;
    if (std::fabs(d) < 1e-300L) d = 1e-300L;
    c = 1 + aa / c;
    if (std::fabs(c) < 1e-300L) c = 1e-300L;
    d = 1 / d;
    h *= d * c;
    aa = -(a + m) * (qab + m) * x / ((a + m2) * (qap + m2));
    d = 1 + aa * d;
    if (std::fabs(d) < 1e-300L) d = 1e-300L;
    c = 1 + aa / c;
    if (std::fabs(c) < 1e-300L) c = 1e-300L;
    d = 1 / d;
    LD del = d * c;
    h *= del;
    if (std::fabs(del - 1) < 1e-18L) break;
  }
  return h;
}
static LD beta_i(LD a, LD b, LD x, LD cx) {  // regularised incomplete beta; cx = 1 - x
  if (x <= 0) return 0;
  if (cx <= 0) return 1;
  LD bt = std::exp(lgammal(a + b) - lgammal(a) - lgammal(b) + a * std::log(x) + b * std::log(cx));
  if (x < (a + 1) / (a + b + 2)) return bt * betacf(a, b, x) / a;
  return 1 - bt * betacf(b, a, cx) / b;
}
static LD normal_cdf(LD z) { return erfcl(-z / std::sqrt((LD)2)) / 2; }
// samples of a law that differs from the normal one by at most slack (theorem of Berry and Esseen)
static inline void judge_normal(const std::vector<double>& x, LD mean, LD sd, LD slack, const std::string& what) {
  static const LD zs[] = {-3, -2, -1, -0.3L, 0, 0.3L, 1, 2, 3};
  for (LD z : zs) {
    u64 hits = 0;
    for (double v : x) hits += v <= mean + z * sd;
    frequency(hits, x.size(), normal_cdf(z), slack, (Msg() << what << ": a sample up to " << (double)(mean + z * sd)).os.str());
  }
}
static LD student_cdf(LD r, LD t) {
  LD x = r / (r + t * t), cx = t * t / (r + t * t);
  LD tail = beta_i(r / 2, 0.5L, x, cx) / 2;
  return t > 0 ? 1 - tail : tail;
}
// smallest x in [lo, hi] with cdf(x) >= u, by bisection (lo, hi bracket it)
template <class F>
static double quantile(const F& cdf, LD u, double lo, double hi) {
  for (int i = 0; i < 200; i++) {
    double mid = lo / 2 + hi / 2;
    if (lo > 0 && hi / lo > 4) mid = std::sqrt(lo) * std::sqrt(hi);
    if (!(mid > lo && mid < hi)) break;
    if (cdf(mid) < u) lo = mid;
    else hi = mid;
  }
  return hi;
}

// The samples x[0..n) must be independent draws from the law whose CDF at the
// increasing points at[] is F[]: frequencies of every cell and of both tails,
// and joint frequencies of neighbouring draws.
static void law(const std::vector<double>& x, const std::vector<double>& at, const std::vector<LD>& F, LD slack,
                const std::string& what) {
  size_t m = at.size(), n = x.size();
  std::vector<u64> cell(m + 1, 0);
  std::vector<unsigned> ix(n);
  for (size_t i = 0; i < n; i++) {
    size_t c = (size_t)(std::lower_bound(at.begin(), at.end(), x[i]) - at.begin());  // at[c-1] < x <= at[c]
    cell[c]++;
    ix[i] = (unsigned)c;
  }
  u64 cum = 0;
  for (size_t c = 0; c <= m; c++) {
    LD lo = c ? F[c - 1] : 0, hi = c < m ? F[c] : 1;
    frequency(cell[c], n, hi - lo, slack,
              (Msg() << what << ": a sample in (" << (c ? at[c - 1] : -INFINITY) << ", " << (c < m ? at[c] : INFINITY) << "]").os.str());
    cum += cell[c];
    if (c < m) frequency(cum, n, hi, slack, (Msg() << what << ": a sample <= " << at[c]).os.str());
  }
  // neighbours: both draws below / above a common cut, at lags 1, 2 and 3
  static const double cuts[] = {0.1, 0.25, 0.5, 0.75, 0.9};
  for (double u : cuts) {
    size_t c = 0;
    while (c + 1 < m && F[c] < u) c++;
    if (m == 0) break;
    LD p = F[c];
    for (size_t lag = 1; lag <= 3; lag++) {
      u64 both = 0, up = 0, pairs = 0;
      for (size_t i = 0; i + 2 * lag <= n; i += 2 * lag)
        for (size_t j = 0; j < lag; j++) {
          bool a = ix[i + j] <= c, b = ix[i + j + lag] <= c;
          both += a && b;
          up += !a && b;
          pairs++;
        }
      frequency(both, pairs, p * p, 2 * slack, (Msg() << what << ": both of two samples " << lag << " apart <= " << at[c]).os.str());
      frequency(up, pairs, p * (1 - p), 2 * slack, (Msg() << what << ": a sample > " << at[c] << " with the one " << lag << " later <= it").os.str());
    }
  }
  // the outer and inner halves of neighbours (magnitudes)
  size_t a = 0, b = 0;
  while (a + 1 < m && F[a] < 0.25L) a++;
  b = a;
  while (b + 1 < m && F[b] < 0.75L) b++;
  if (b > a) {
    LD p = F[b] - F[a];
    u64 both = 0, pairs = 0;
    for (size_t i = 0; i + 2 <= n; i += 2, pairs++) {
      bool s = ix[i] > a && ix[i] <= b, t = ix[i + 1] > a && ix[i + 1] <= b;
      both += s && t;
    }
    frequency(both, pairs, p * p, 2 * slack, (Msg() << what << ": both of two neighbours in the middle cells").os.str());
    both = 0;
    pairs = 0;
    for (size_t i = 1; i + 2 <= n; i += 2, pairs++) {
      bool s = ix[i] > a && ix[i] <= b, t = ix[i + 1] > a && ix[i + 1] <= b;
      both += s && t;
    }
    frequency(both, pairs, p * p, 2 * slack, (Msg() << what << ": both of two neighbours in the middle cells (odd)").os.str());
  }
}
// ---- chosen raw outputs
// Extreme outputs of the underlying generator are as possible as any others but far too rare to
// wait for, so generators are put into a state that gives a chosen sequence of 64-bit outputs.
// This needs a Random that is exactly a 64-bit Mersenne Twister; of any other, the outputs stay
// as seeded and the same statements are checked.
static u64 untemper(u64 y) {
  u64 x = y;
  y ^= y >> 43;
  x = y;
  for (int i = 0; i < 2; i++) x = y ^ (x << 37 & 0xfff7eee000000000ull);
  y = x;
  for (int i = 0; i < 4; i++) x = y ^ (x << 17 & 0x71d67fffeda60000ull);
  y = x;
  for (int i = 0; i < 3; i++) x = y ^ (x >> 29 & 0x5555555555555555ull);
  return x;
}
static bool give(cuhksz::Random& r, const std::vector<u64>& raw, Gen& g) {
  cuhksz::Random probe(12345);
  std::mt19937_64 e((u64)12345);
  if (sizeof(probe) != sizeof(e) || memcmp((const void*)&probe, (const void*)&e, sizeof(e))) return false;
  Bulk b(g);
  std::ostringstream os;
  for (size_t i = 0; i < 312; i++) os << untemper(i < raw.size() ? raw[i] : (u64)b.next(1ull << 32) << 32 | b.next(1ull << 32)) << " ";
  os << 0;
  std::istringstream is(os.str());
  is >> e;
  std::mt19937_64 t(e);
  for (size_t i = 0; i < raw.size() && i < 312; i++)
    if (t() != raw[i]) return false;
  memcpy((void*)&r, (const void*)&e, sizeof(e));
  return true;
}
static u64 extreme(Gen& g) {
  static const u64 half[] = {0, 1, 2, 0x7ff, 0x800, 0x7fffffff, 0x80000000, 0x80000001, 0xfffff800, 0xfffffffe, 0xffffffff};
  switch (g.draw(4)) {
    case 0: return g.flag() ? 0 : ~(u64)0;
    case 1: return (1ull << g.draw(64)) - g.draw(2);
    case 2: return ~((1ull << g.draw(64)) - g.draw(2));
    default: return half[g.draw(11)] << 32 | half[g.draw(11)];
  }
}
static std::vector<u64> gen_raw(Gen& g) {
  std::vector<u64> v;
  size_t n = 1 + g.draw(12);
  for (size_t i = 0; i < n; i++) v.push_back(g.chance(1, 4) ? g.draw(~(u64)0) : extreme(g));
  return v;
}
static int gen_seed(Gen& g) { return g.flag() ? (int)g.draw(1ull << 32) : g.int32(); }
#endif
