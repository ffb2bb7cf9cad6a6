// R01: every drawn number lies in the documented range, and fills it.
#include "stat_common.h"
using namespace cuhksz;
#define S(m) ((Msg() << m).os.str())

// one source of numbers: a Random object or the free functions
struct Src {
  Random* r;
  int i(int lo, int hi) { return r ? r->nextInt(lo, hi) : randomInt(lo, hi); }
  int i(int hi) { return r ? r->nextInt(hi) : randomInt(hi); }
  int i() { return r ? r->nextInt() : randomInt(); }
  double d(double lo, double hi) { return r ? r->nextDouble(lo, hi) : randomDouble(lo, hi); }
  double d(double hi) { return r ? r->nextDouble(hi) : randomDouble(hi); }
  double d() { return r ? r->nextDouble() : randomDouble(); }
  bool b() { return r ? r->nextBool() : randomBool(); }
};
// the free functions use one generator, seeded by the clock on first use
static void set_clock(Gen& g) { pbt::fake_time() = 1000000000 + (time_t)g.draw(1000000000); }

static void bounds_i(Gen& g, i64& lo, i64& hi) {
  switch (g.draw(6)) {
    case 0: lo = g.zrange(-20, 20), hi = lo + g.range(1, 12); break;
    case 1: lo = g.int32(), hi = lo + g.range(1, 6); break;
    case 2: lo = INT_MIN + (i64)g.draw(3), hi = INT_MAX - (i64)g.draw(3); break;
    case 3: lo = -(i64)g.draw(1ull << 31), hi = lo + (1ll << 31) + g.zrange(-4, 4); break;
    case 4: lo = INT_MAX - (i64)g.range(1, 9), hi = INT_MAX; break;
    default: lo = g.int32(), hi = g.int32();
  }
  if (lo > hi) std::swap(lo, hi);
  if (hi > INT_MAX) hi = INT_MAX;
  if (lo < INT_MIN) lo = INT_MIN;
  if (lo >= hi) {
    if (hi == INT_MIN) hi = INT_MIN + 1;
    lo = hi - 1;
  }
}
static void f_int(Gen& g) {
  set_clock(g);
  int seed = gen_seed(g);
  Random r(seed);
  Src s;
  s.r = g.chance(3, 4) ? &r : 0;
  u64 form = g.draw(6);
  i64 lo, hi;
  bounds_i(g, lo, hi);
  if (form == 0) lo = INT_MIN, hi = (i64)INT_MAX + 1;
  if (form == 1) {
    hi = std::max<i64>(1, hi);
    lo = 0;
  }
  std::unique_ptr<UniformIntDistribution> u;
  if (form == 2) {
    u.reset(lo == 0 && g.flag() ? new UniformIntDistribution(r, (int)hi) : new UniformIntDistribution(r, (int)lo, (int)hi));
    s.r = &r;
  }
  std::string w = S((s.r ? "Random, seed " : "free functions, ") << seed << (form == 2 ? ", UniformIntDistribution" : "") << ", int in [" << lo << ", " << hi << ")");
  NOTE(w);
  u64 span = (u64)(hi - lo);
  u64 n = span <= 48 ? span * 45 : g.chance(1, 40) ? 60000 : 300;
  std::vector<u64> seen(span <= 48 ? (size_t)span : 0, 0);
  u64 part[16] = {0}, ones[32] = {0};
  for (u64 k = 0; k < n; k++) {
    int v = form == 0 ? s.i() : form == 1 ? s.i((int)hi) : form == 2 ? u->next() : s.i((int)lo, (int)hi);
    CHECK(v >= lo && v < hi, w << ": drew " << v);
    u64 off = (u64)((i64)v - lo);
    if (!seen.empty()) seen[(size_t)off]++;
    part[(size_t)(((unsigned __int128)off * 16) / span)]++;
    if (form == 0)
      for (int b = 0; b < 32; b++) ones[b] += off >> b & 1;
  }
  for (size_t k = 0; k < seen.size(); k++) {
    CHECK(seen[k], w << ": " << lo + (i64)k << " did not occur in " << n << " draws");
    frequency(seen[k], n, 1 / (LD)span, 0, S(w << ": " << lo + (i64)k));
  }
  if (seen.empty())
    for (u64 c = 0; c < 16; c++) {  // sixteenths of the range
      u64 from = (u64)(((unsigned __int128)c * span + 15) / 16), to = (u64)(((unsigned __int128)(c + 1) * span + 15) / 16);
      frequency(part[c], n, (LD)(to - from) / span, 1e-9L, S(w << ": a value in part " << c << " of 16 of the range"));
    }
  if (form == 0)
    for (int b = 0; b < 32; b++) frequency(ones[b], n, 0.5L, 1e-9L, S(w << ": bit " << b));
  g.label(span > INT_MAX ? "int: wider than the largest int" : span <= 48 ? "int: every value required" : "int: other ranges");
  g.nontrivial(span > 1);
}
static double dbl(Gen& g) {
  switch (g.draw(6)) {
    case 0: return (double)g.zrange(-10, 10);
    case 1: return std::ldexp((double)g.zrange(-1000, 1000), (int)g.draw(1900) - 1000);
    case 2: return std::ldexp((double)g.zrange(-(1ll << 52), 1ll << 52), (int)g.draw(30));
    case 3: return (g.flag() ? 1 : -1) * std::numeric_limits<double>::max() / (double)g.range(1, 4);
    case 4: return (double)g.zrange(-5, 5) * std::numeric_limits<double>::denorm_min();
    default: return (double)g.zrange(-1000, 1000) / 7;
  }
}
static void f_double(Gen& g) {
  set_clock(g);
  int seed = gen_seed(g);
  Random r(seed);
  Src s;
  s.r = g.chance(3, 4) ? &r : 0;
  u64 form = g.draw(8);
  double lo = dbl(g), hi = lo;
  u64 wide = g.draw(5);
  if (wide == 0) {  // a few units in the last place
    u64 ulps = g.range(1, 6);
    for (u64 k = 0; k < ulps; k++) hi = std::nextafter(hi, INFINITY);
  } else if (wide == 1) hi = lo + std::fabs(dbl(g));
  else if (wide == 2) hi = lo;
  else hi = dbl(g);
  if (lo > hi) std::swap(lo, hi);
  if (!std::isfinite(hi)) hi = std::numeric_limits<double>::max();
  if (form == 0) lo = 0, hi = 1;
  if (form == 1) hi = std::max(std::fabs(lo), std::fabs(hi)), lo = 0;
  std::unique_ptr<UniformDistribution> u;
  if (form == 2) {
    u.reset(new UniformDistribution(r, lo, hi));
    s.r = &r;
  }
  std::string w = S((s.r ? "Random, seed " : "free functions, ") << seed << (form == 2 ? ", UniformDistribution" : "") << ", double in [" << lo << ", " << hi << ")");
  NOTE(w);
  u64 n = form == 0 && g.chance(1, 10) ? 60000 : 200;
  u64 part[16] = {0}, coarse = 0;
  bool wide_enough = hi > lo && ((LD)hi - lo) > std::max(std::fabs((LD)lo), std::fabs((LD)hi)) * 1e-9L && (LD)hi - lo > 1e-290L;
  for (u64 k = 0; k < n; k++) {
    double v = form == 0 ? s.d() : form == 1 ? s.d(hi) : form == 2 ? u->next() : s.d(lo, hi);
    if (lo == hi) CHECK(v == lo, w << ": drew " << v);
    else CHECK(v >= lo && v < hi, w << ": drew " << v);
    coarse += std::ldexp(v, 32) == std::floor(std::ldexp(v, 32));
    if (wide_enough) {
      int c = (int)(((LD)v - lo) / ((LD)hi - lo) * 16);
      part[std::min(15, std::max(0, c))]++;
    }
  }
  if (form == 0) frequency(coarse, n, std::ldexp(1.0L, -21), std::ldexp(1.0L, -21), w + ": a multiple of 2^-32");
  if (wide_enough)
    for (int c = 0; c < 16; c++) frequency(part[c], n, 1 / 16.0L, 1e-6L, S(w << ": a value in part " << c << " of 16 of the range"));
  g.label(hi == lo ? "double: equal bounds" : !std::isfinite(hi - lo) ? "double: wider than the largest double" : wide == 0 ? "double: a few ulps" : "double: other ranges");
  g.nontrivial(hi > lo);
}
static void f_bool(Gen& g) {
  set_clock(g);
  int seed = gen_seed(g);
  Random r(seed);
  Src s;
  s.r = g.chance(3, 4) ? &r : 0;
  u64 n = g.chance(1, 20) ? 100000 : 2000, t = 0, eq = 0;
  bool last = false;
  for (u64 k = 0; k < n; k++) {
    bool b = s.b();
    t += b;
    if (k & 1) eq += b == last;
    last = b;
  }
  frequency(t, n, 0.5L, 1e-9L, S("nextBool, seed " << seed << ": true"));
  frequency(eq, n / 2, 0.5L, 1e-9L, S("nextBool, seed " << seed << ": equal neighbours"));
  g.nontrivial();
}
// a mixed history on one generator: no draw disturbs the range of the next
static void f_mixed(Gen& g) {
  set_clock(g);
  int seed = gen_seed(g);
  Random r(seed);
  Src s;
  s.r = g.chance(3, 4) ? &r : 0;
  NOTE("seed " << seed);
  Loop l(g, len_class(g, 100));
  int steps = 0;
  while (l.next()) {
    i64 lo, hi;
    bounds_i(g, lo, hi);
    switch (g.draw(6)) {
      case 0: {
        int v = s.i((int)lo, (int)hi);
        CHECK(v >= lo && v < hi, "int in [" << lo << ", " << hi << "): " << v);
        break;
      }
      case 1: {
        int m = (int)std::max<i64>(hi, 1), v = s.i(m);
        CHECK(v >= 0 && v < m, "int in [0, " << m << "): " << v);
        break;
      }
      case 2: {
        double a = dbl(g), b = dbl(g);
        if (a > b) std::swap(a, b);
        double v = s.d(a, b);
        CHECK(a == b ? v == a : v >= a && v < b, "double in [" << a << ", " << b << "): " << v);
        break;
      }
      case 3: {
        double v = s.d();
        CHECK(v >= 0 && v < 1, "double in [0, 1): " << v);
        break;
      }
      case 4: s.b(); break;
      default: r.setSeed(gen_seed(g));
    }
    steps++;
  }
  g.nontrivial(steps >= 3);
}
// extreme outputs of the underlying generator
static void f_raw(Gen& g) {
  Random r(gen_seed(g));
  std::vector<u64> raw = gen_raw(g);
  std::string seq;
  for (u64 x : raw) seq += S(" " << x);
  NOTE("raw outputs" << seq);
  g.label(give(r, raw, g) ? "raw outputs chosen" : "raw outputs as seeded");
  for (size_t k = 0; k < raw.size(); k++) {
    i64 lo, hi;
    bounds_i(g, lo, hi);
    switch (g.draw(5)) {
      case 0: {
        int v = r.nextInt((int)lo, (int)hi);
        CHECK(v >= lo && v < hi, "int in [" << lo << ", " << hi << "): " << v);
        break;
      }
      case 1: {
        int m = (int)std::max<i64>(hi, 1), v = r.nextInt(m);
        CHECK(v >= 0 && v < m, "int in [0, " << m << "): " << v);
        break;
      }
      case 2: {
        double a = dbl(g), b = dbl(g);
        if (a > b) std::swap(a, b);
        double v = r.nextDouble(a, b);
        CHECK(a == b ? v == a : v >= a && v < b, "double in [" << a << ", " << b << "): " << v);
        break;
      }
      case 3: {
        double m = std::fabs(dbl(g)), v = r.nextDouble(m);
        CHECK(m == 0 ? v == 0 : v >= 0 && v < m, "double in [0, " << m << "): " << v);
        break;
      }
      default: {
        double v = r.nextDouble();
        CHECK(v >= 0 && v < 1, "double in [0, 1): " << v);
      }
    }
  }
  g.nontrivial();
}
// both ends of every range are among the values drawn
static void f_ends(Gen& g) {
  Random r(1);
  static const u64 half[] = {0, 1, 2, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff};
  i64 lo, hi;
  bounds_i(g, lo, hi);
  u64 form = g.draw(4);
  if (form == 0) lo = INT_MIN, hi = (i64)INT_MAX + 1;
  if (form == 1) lo = 0, hi = std::max<i64>(hi, 1);
  u64 span = (u64)(hi - lo);
  std::vector<u64> raw;
  for (u64 a : half)
    for (u64 b : half) raw.push_back(a << 32 | b);
  for (u64 k = 0; k < 3; k++)
    raw.push_back(span + k - 1), raw.push_back((span + k - 1) << 32), raw.push_back(0 - (0 - span) % span - k);
  if (!give(r, raw, g)) {
    g.label("raw outputs as seeded");
    g.nontrivial();
    return;
  }
  NOTE("ints in [" << lo << ", " << hi << ")");
  UniformIntDistribution* u = form == 2 ? new UniformIntDistribution(r, (int)lo, (int)hi) : nullptr;
  bool bottom = false, top = false;
  for (size_t k = 0; k < raw.size(); k++) {
    int v = form == 0 ? r.nextInt() : form == 1 ? r.nextInt((int)hi) : u ? u->next() : r.nextInt((int)lo, (int)hi);
    CHECK(v >= lo && v < hi, "int in [" << lo << ", " << hi << "): " << v);
    bottom = bottom || v == lo;
    top = top || v == hi - 1;
  }
  delete u;
  CHECK(bottom, "no output of the generator gives " << lo << " in [" << lo << ", " << hi << ")");
  CHECK(top, "no output of the generator gives " << hi - 1 << " in [" << lo << ", " << hi << ")");
  g.label("raw outputs chosen");
  g.nontrivial();
}
PBT_MAIN({"raw", 150000, f_raw, 0}, {"ends", 30000, f_ends, 0}, {"int", 100000, f_int, 0}, {"double", 200000, f_double, 0}, {"bool", 2000, f_bool, 0}, {"mixed", 100000, f_mixed, 0})
