// R05: invalid random parameters are rejected, valid ones are not.
#include "stat_common.h"
using namespace cuhksz;
#define S(m) ((Msg() << m).os.str())

static const double NAN_ = std::numeric_limits<double>::quiet_NaN();
static double positive(Gen& g) {
  switch (g.draw(4)) {
    case 0: return (double)g.range(1, 30);
    case 1: return (double)g.range(1, 1000) / 64;
    case 2: return std::ldexp(1 + (double)g.draw(100) / 100, (int)g.draw(60) - 40);
    default: return 1;
  }
}
// not above zero: zero of either sign, negative, NaN
static double not_positive(Gen& g) {
  switch (g.draw(6)) {
    case 0: return 0;
    case 1: return -0.0;
    case 2: return -std::numeric_limits<double>::denorm_min() * (double)g.range(1, 4);
    case 3: return NAN_;
    case 4: return -positive(g);
    default: return g.flag() ? -INFINITY : -1e300;
  }
}
static double bad_prob(Gen& g) {
  switch (g.draw(7)) {
    case 0: return -std::numeric_limits<double>::denorm_min();
    case 1: return std::nextafter(1.0, 2.0);
    case 2: return NAN_;
    case 3: return -positive(g);
    case 4: return 1 + positive(g);
    case 5: return g.flag() ? INFINITY : -INFINITY;
    default: return g.flag() ? 1.5 : -0.5;
  }
}
static double good_prob(Gen& g) {
  switch (g.draw(5)) {
    case 0: return 0;
    case 1: return 1;
    case 2: return std::nextafter(1.0, 0.0);
    case 3: return std::numeric_limits<double>::denorm_min() * (double)g.range(1, 3);
    default: return (double)g.draw(1001) / 1000;
  }
}
static double good_prob_pos(Gen& g) {  // sampled in linear time: not tiny
  switch (g.draw(3)) {
    case 0: return 1;
    case 1: return std::nextafter(1.0, 0.0);
    default: return (double)g.range(20, 1000) / 1000;
  }
}
// constructs and draws; `bad` says whether it must be rejected
template <class D, class... A>
static void attempt(Gen& g, bool bad, const std::string& what, A... a) {
  Random r(gen_seed(g));
  bool own = g.flag();
  NOTE(what << (bad ? " must be rejected" : " must be accepted"));
  if (bad) {
    must_error(what, [&] {
      D* d = own ? new D(a...) : new D(r, a...);
      (void)d;  // leaked: construction must not return
    });
  } else {
    std::unique_ptr<D> d(own ? new D(a...) : new D(r, a...));
    double v = (double)d->next();
    CHECK(v == v, what << ": drew NaN");
    d->next();
  }
  g.nontrivial();
}
static void f_dist(Gen& g) {
  bool bad = g.flag();
  switch (g.draw(12)) {
    case 0: {
      double p = bad ? bad_prob(g) : good_prob(g);
      return attempt<BernoulliDistribution>(g, bad, S("BernoulliDistribution(" << p << ")"), p);
    }
    case 1: {
      int n = (int)g.draw(30);
      double p = good_prob(g);
      if (bad) {
        u64 w = g.draw(3);
        if (w != 1) n = g.flag() ? -1 - (int)g.draw(5) : (int)g.range(INT_MIN, -1);
        if (w != 0) p = bad_prob(g);
      }
      return attempt<BinomialDistribution>(g, bad, S("BinomialDistribution(" << n << ", " << p << ")"), n, p);
    }
    case 2: {
      double p = bad ? (g.flag() ? not_positive(g) : bad_prob(g)) : good_prob_pos(g);
      return attempt<GeometricDistribution>(g, bad, S("GeometricDistribution(" << p << ")"), p);
    }
    case 3: {
      int n = (int)g.range(1, 30);
      double p = good_prob_pos(g);
      if (bad) {
        u64 w = g.draw(3);
        if (w != 1) n = g.flag() ? -(int)g.draw(5) : (int)g.range(INT_MIN, 0);
        if (w != 0) p = g.flag() ? not_positive(g) : bad_prob(g);
      }
      return attempt<NegativeBinomialDistribution>(g, bad, S("NegativeBinomialDistribution(" << n << ", " << p << ")"), n, p);
    }
    case 4: {
      double l = bad ? not_positive(g) : g.chance(1, 6) ? std::numeric_limits<double>::denorm_min() : (double)g.range(1, 4000) / 16;
      return attempt<PoissonDistribution>(g, bad, S("PoissonDistribution(" << l << ")"), l);
    }
    case 5: {
      double a = positive(g) * (g.flag() ? 1 : -1), b = g.flag() ? a : a + positive(g);
      if (bad) {
        u64 w = g.draw(4);
        if (w == 0) b = std::nextafter(a, -INFINITY);
        else if (w == 1) b = a - positive(g) - std::fabs(a) * 1e-9;
        else if (w == 2) a = NAN_;
        else b = NAN_;
      }
      return attempt<UniformDistribution>(g, bad, S("UniformDistribution(" << a << ", " << b << ")"), a, b);
    }
    case 6: {
      double b = bad ? not_positive(g) : positive(g);
      if (bad && b == 0) b = -1;
      if (!bad && g.chance(1, 5)) b = 0;
      return attempt<UniformDistribution>(g, bad, S("UniformDistribution(" << b << ")"), b);
    }
    case 7: {
      i64 a = g.int32(), b = g.int32();
      if (g.chance(1, 3)) b = a + (i64)g.draw(3) - 1;
      if (b < INT_MIN) b = INT_MIN;
      if (b > INT_MAX) b = INT_MAX;
      if (g.chance(1, 4)) return attempt<UniformIntDistribution>(g, b <= 0, S("UniformIntDistribution(" << b << ")"), (int)b);
      return attempt<UniformIntDistribution>(g, a >= b, S("UniformIntDistribution(" << a << ", " << b << ")"), (int)a, (int)b);
    }
    case 8: {
      double m = (double)g.zrange(-100, 100) * positive(g), s = bad ? not_positive(g) : positive(g);
      if (bad && g.chance(1, 5)) m = NAN_, s = positive(g);
      return attempt<NormalDistribution>(g, bad, S("NormalDistribution(" << m << ", " << s << ")"), m, s);
    }
    case 9: {
      double l = bad ? not_positive(g) : positive(g);
      return attempt<ExponentialDistribution>(g, bad, S("ExponentialDistribution(" << l << ")"), l);
    }
    case 10: {
      double k = positive(g), t = positive(g);
      if (k > 1000) k = 1000;
      if (bad) {
        u64 w = g.draw(3);
        if (w != 1) k = not_positive(g);
        if (w != 0) t = not_positive(g);
      }
      return attempt<GammaDistribution>(g, bad, S("GammaDistribution(" << k << ", " << t << ")"), k, t);
    }
    default: {
      double r = bad ? not_positive(g) : std::min(1000.0, positive(g) + 0.25);
      if (g.flag()) return attempt<ChiSquaredDistribution>(g, bad, S("ChiSquaredDistribution(" << r << ")"), r);
      return attempt<StudentTDistribution>(g, bad, S("StudentTDistribution(" << r << ")"), r);
    }
  }
}
static void f_draw(Gen& g) {
  Random r(gen_seed(g));
  bool fr = g.flag();
  switch (g.draw(4)) {
    case 0: {
      i64 a = g.int32(), b = g.int32();
      if (g.chance(1, 3)) b = a + (i64)g.draw(3) - 1;
      int lo = (int)a, hi = (int)std::max<i64>(INT_MIN, std::min<i64>(INT_MAX, b));
      std::string w = S((fr ? "randomInt(" : "nextInt(") << lo << ", " << hi << ")");
      NOTE(w);
      if (lo >= hi) must_error(w, [&] { fr ? randomInt(lo, hi) : r.nextInt(lo, hi); });
      else fr ? randomInt(lo, hi) : r.nextInt(lo, hi);
      break;
    }
    case 1: {
      int m = g.int32();
      std::string w = S((fr ? "randomInt(" : "nextInt(") << m << ")");
      NOTE(w);
      if (m <= 0) must_error(w, [&] { fr ? randomInt(m) : r.nextInt(m); });
      else fr ? randomInt(m) : r.nextInt(m);
      break;
    }
    case 2: {
      double a = (double)g.zrange(-1000, 1000) / 7, b = (double)g.zrange(-1000, 1000) / 7;
      u64 w3 = g.draw(6);
      if (w3 == 0) b = a;
      if (w3 == 1) b = std::nextafter(a, -INFINITY);
      if (w3 == 2) (g.flag() ? a : b) = NAN_;
      std::string w = S((fr ? "randomDouble(" : "nextDouble(") << a << ", " << b << ")");
      NOTE(w);
      if (!(a <= b)) must_error(w, [&] { fr ? randomDouble(a, b) : r.nextDouble(a, b); });
      else fr ? randomDouble(a, b) : r.nextDouble(a, b);
      break;
    }
    default: {
      double m = (double)g.zrange(-1000, 1000) / 7;
      u64 w3 = g.draw(6);
      if (w3 == 0) m = -std::numeric_limits<double>::denorm_min();
      if (w3 == 1) m = NAN_;
      std::string w = S((fr ? "randomDouble(" : "nextDouble(") << m << ")");
      NOTE(w);
      if (!(m >= 0)) must_error(w, [&] { fr ? randomDouble(m) : r.nextDouble(m); });
      else fr ? randomDouble(m) : r.nextDouble(m);
    }
  }
  g.nontrivial();
}
PBT_MAIN({"distributions", 200000, f_dist, 0}, {"draws", 100000, f_draw, 0})
