#include <deque>
#include <list>
#include <set>
#include "containers/List.h"
#include "containers/MultiSet.h"
#include "containers/Set.h"
#include "containers/Vector.h"
#include "math_utils/math_functions.h"
#include "vals.h"
typedef long double LD;
static const double EPS = 2.3e-16;

struct Ref {
  LD sum, abs, mean, var_n, max;  // var_n: sum of squared deviations
  size_t n;
};
template <class T>
static Ref ref_of(const std::vector<T>& v) {
  Ref r;
  r.n = v.size();
  r.sum = r.abs = r.max = 0;
  for (size_t i = 0; i < v.size(); i++) {
    r.sum += (LD)v[i];
    r.abs += std::fabs((LD)v[i]);
    r.max = std::max(r.max, std::fabs((LD)v[i]));
  }
  r.mean = r.n ? r.sum / r.n : 0;
  r.var_n = 0;
  for (size_t i = 0; i < v.size(); i++) r.var_n += ((LD)v[i] - r.mean) * ((LD)v[i] - r.mean);
  return r;
}
static void near_mean(double got, const Ref& r, const char* what) {
  LD tol = EPS * (r.n + 4) * (r.abs / r.n) + EPS * 4 * std::fabs(r.mean);
  CHECK(std::fabs((LD)got - r.mean) <= tol, what << " = " << got << ", expected " << (double)r.mean);
}
static LD var_tol(const Ref& r, LD v) {
  LD u = 8 * (r.n + 8) * EPS;
  return u * v + u * std::sqrt(v) * r.max + (u * r.max) * (u * r.max);
}
static void near_var(double got, const Ref& r, bool sample, const char* what) {
  LD v = r.var_n / (sample ? r.n - 1 : r.n);
  CHECK(got >= 0, what << " is negative or not a number: " << got);
  CHECK(std::fabs((LD)got - v) <= var_tol(r, v), what << " = " << got << ", expected " << (double)v);
}
static void near_sd(double got, const Ref& r, bool sample, const char* what) {
  LD v = r.var_n / (sample ? r.n - 1 : r.n);
  CHECK(got >= 0, what << " is negative or not a number: " << got);
  CHECK(std::fabs((LD)got * got - v) <= 2 * var_tol(r, v), what << " = " << got << ", expected " << (double)std::sqrt(v));
}
// ---- data
template <class T> static T limit() { return std::numeric_limits<T>::max(); }
template <class T>
static std::vector<T> ints(Gen& g, i64 lo, i64 hi) {  // the sum of magnitudes fits T
  std::vector<T> v;
  size_t want = 1 + (g.flag() ? g.draw(12) : g.draw(100));
  LD room = (LD)hi;
  u64 style = g.draw(5);
  i64 off = g.integer(lo / (i64)(want + 1), hi / (i64)(want + 1));
  for (size_t i = 0; i < want; i++) {
    i64 x;
    switch (style) {
      case 0: x = g.zrange(std::max<i64>(lo, -20), std::min<i64>(hi, 20)); break;
      case 1: x = off + (i64)g.draw(4); break;               // a large common offset
      case 2: x = off; break;                                 // constant data
      case 3: x = g.integer(lo / 2, hi / 2); break;
      default: x = g.integer(lo / (i64)want, hi / (i64)want);
    }
    LD a = std::fabs((LD)x);
    if (a > room || x < lo || x > hi) continue;
    room -= a;
    v.push_back((T)x);
  }
  if (v.empty()) v.push_back((T)g.draw(3));
  return v;
}
static std::vector<double> reals(Gen& g, bool* exact) {
  std::vector<double> v;
  size_t want = 1 + (g.flag() ? g.draw(12) : g.draw(100));
  u64 style = g.draw(6);
  double off = std::ldexp((double)g.zrange(-1000, 1000), (int)g.draw(40) - 10);
  int mag = (int)g.zrange(-400, 400);  // squares of such magnitudes are still representable
  *exact = false;
  for (size_t i = 0; i < want; i++) {
    switch (style) {
      case 0: v.push_back((double)g.zrange(-4000, 4000) / 16); *exact = true; break;
      case 1: v.push_back(off + (double)g.zrange(-50, 50) / 8); break;
      case 2: v.push_back(off); break;
      case 3: v.push_back(std::ldexp((double)g.integer(-(1LL << 40), 1LL << 40), (int)g.draw(60) - 50)); break;
      case 4: v.push_back(std::ldexp((double)g.zrange(-4000, 4000), mag)); *exact = true; break;
      default: v.push_back((double)g.int32() * 1e-3);
    }
  }
  return v;
}
template <class T>
static std::string show(const std::vector<T>& v) {
  std::ostringstream o;
  o << std::setprecision(17) << v.size() << " elements:";
  for (size_t i = 0; i < v.size() && i < 30; i++) o << " " << +v[i];
  return o.str();
}
struct Half { double operator()(int x) const { return x / 2.0; } };
// every container form
template <class C, class T>
static void container(const C& c, const std::vector<T>& v, bool exact, const char* nm) {
  Ref r = ref_of(v);
  T s = cuhksz::sum(c);
  if (exact) CHECK((LD)s == r.sum, "sum of " << nm << " = " << s << ", expected " << (double)r.sum);
  else CHECK(std::fabs((LD)s - r.sum) <= EPS * (r.n + 4) * r.abs, "sum of " << nm << " = " << s << ", expected " << (double)r.sum);
  LD m3 = 0;
  size_t calls = 0;
  for (size_t i = 0; i < v.size(); i++) m3 += (LD)v[i] * 3;
  double d = cuhksz::sum(c, [&calls](T x) { calls++; return (double)x * 3; });
  CHECK(std::fabs((LD)d - m3) <= EPS * (r.n + 8) * 3 * r.abs, "mapped sum of " << nm << " = " << d << ", expected " << (double)m3);
  CHECK(calls == v.size(), "the mapping was called " << calls << " times for " << v.size() << " elements");
  if (v.empty()) return;
  near_mean(cuhksz::mean(c), r, "mean");
  near_var(cuhksz::variance(c), r, false, "variance");
  near_sd(cuhksz::stddev(c), r, false, "stddev");
  if (v.size() > 1) {
    near_var(cuhksz::sample_variance(c), r, true, "sample_variance");
    near_sd(cuhksz::sample_stddev(c), r, true, "sample_stddev");
  }
}
template <class T>
static void containers(Gen& g, const std::vector<T>& v, bool exact) {
  switch (g.draw(7)) {
    case 0: container(v, v, exact, "std::vector"); break;
    case 1: container(std::list<T>(v.begin(), v.end()), v, exact, "std::list"); break;
    case 2: container(std::deque<T>(v.begin(), v.end()), v, exact, "std::deque"); break;
    case 3: { cuhksz::Vector<T> l; for (size_t i = 0; i < v.size(); i++) l.push(v[i]); container(l, v, exact, "Vector"); break; }
    case 4: { cuhksz::List<T> l; for (size_t i = 0; i < v.size(); i++) l.push(v[i]); container(l, v, exact, "List"); break; }
    case 5: container(std::multiset<T>(v.begin(), v.end()), v, exact, "std::multiset"); break;
    default: {
      std::set<T> s(v.begin(), v.end());
      std::vector<T> u(s.begin(), s.end());
      container(s, u, exact, "std::set");
    }
  }
}
template <class T>
static void array_stats(const T*, int, const Ref&) {}
template <class T>
static void stats_of(const T* p, int n, const Ref& r) {
  near_var(cuhksz::variance(p, n), r, false, "variance(array)");
  near_sd(cuhksz::stddev(p, n), r, false, "stddev(array)");
  if (n > 1) {
    near_var(cuhksz::sample_variance(p, n), r, true, "sample_variance(array)");
    near_sd(cuhksz::sample_stddev(p, n), r, true, "sample_stddev(array)");
  }
}
template <> void array_stats(const int* p, int n, const Ref& r) { stats_of(p, n, r); }
template <> void array_stats(const double* p, int n, const Ref& r) { stats_of(p, n, r); }
template <class T>
static void arrays(Gen& g, const std::vector<T>& v, bool exact) {
  // only the first n elements of a longer array count; the array has no slack otherwise
  size_t n = v.size(), extra = g.chance(1, 3) ? 1 + g.draw(3) : 0;
  T* p = (T*)malloc((n + extra) * sizeof(T));
  for (size_t i = 0; i < n; i++) p[i] = v[i];
  for (size_t i = 0; i < extra; i++) p[n + i] = (T)99;
  Ref r = ref_of(v);
  T s = cuhksz::sum(p, (int)n);
  if (exact) CHECK((LD)s == r.sum, "sum(array) = " << +s << ", expected " << (double)r.sum);
  else CHECK(std::fabs((LD)s - r.sum) <= EPS * (r.n + 4) * r.abs, "sum(array) = " << s << ", expected " << (double)r.sum);
  LD m3 = 0;
  for (size_t i = 0; i < n; i++) m3 += (LD)v[i] / 4;
  double d = cuhksz::sum(p, (int)n, [](T x) { return (double)x / 4; });
  CHECK(std::fabs((LD)d - m3) <= EPS * (r.n + 8) * r.abs, "mapped sum(array) = " << d << ", expected " << (double)m3);
  near_mean(cuhksz::mean(p, (int)n), r, "mean(array)");
  array_stats(p, (int)n, r);
  int z = -(int)g.draw(5);
  CHECK(cuhksz::sum(p, z) == 0, "sum of the first " << z << " elements is " << +cuhksz::sum(p, z));
  CHECK(cuhksz::sum(p, z, [](T x) { return (double)x; }) == 0, "mapped sum of the first " << z << " elements");
  if (z < 0) CHECK(cuhksz::mean(p, z) == 0, "mean of the first " << z << " elements");
  for (size_t i = 0; i < n; i++) CHECK(p[i] == v[i], "the array was modified");
  free(p);
}
template <class T>
static void int_case(Gen& g) {
  std::vector<T> v = ints<T>(g, (i64)-limit<T>(), (i64)limit<T>());
  NOTE(show(v));
  arrays(g, v, true);
  g.nontrivial(v.size() >= 2);
}
static void integer_arrays(Gen& g) {
  switch (g.draw(7)) {
    case 0: case 1: case 2: int_case<int>(g); break;
    case 3: int_case<long long>(g); break;
    case 4: {  // unsigned numbers
      std::vector<unsigned> v = ints<unsigned>(g, 0, UINT_MAX);
      NOTE(show(v));
      if (g.flag()) arrays(g, v, true); else containers(g, v, true);
      g.nontrivial(v.size() >= 2);
      break;
    }
    case 5: {  // floats, with sums that are exact in them
      std::vector<float> v;
      size_t n = 1 + g.draw(60);
      float unit = std::ldexp(1.0f, (int)g.zrange(-40, 40));
      for (size_t i = 0; i < n; i++) v.push_back((float)g.zrange(-4000, 4000) * unit);
      NOTE(show(v));
      if (g.flag()) arrays(g, v, true); else containers(g, v, true);
      g.nontrivial(v.size() >= 2);
      break;
    }
    default: int_case<short>(g);
  }
}
static void integer_containers(Gen& g) {
  if (g.chance(1, 4)) {
    std::vector<long long> v = ints<long long>(g, -LLONG_MAX, LLONG_MAX);
    NOTE(show(v));
    container(v, v, true, "std::vector");
    g.nontrivial(v.size() >= 2);
    return;
  }
  std::vector<int> v = ints<int>(g, -INT_MAX, INT_MAX);
  if (g.chance(1, 40)) v.clear();
  NOTE(show(v));
  containers(g, v, true);
  g.nontrivial(v.size() >= 2);
}
static void real_arrays(Gen& g) {
  bool exact;
  std::vector<double> v = reals(g, &exact);
  NOTE(show(v));
  arrays(g, v, exact);
  g.nontrivial(v.size() >= 2);
}
static void real_containers(Gen& g) {
  bool exact;
  std::vector<double> v = reals(g, &exact);
  NOTE(show(v));
  containers(g, v, exact);
  g.nontrivial(v.size() >= 2);
}
static void huge(Gen& g) {
  int n = huge_size(g);
  Bulk b(g);
  u64 style = g.draw(3);
  NOTE(n << " elements, style " << style);
  if (g.flag()) {
    std::vector<int> v;
    int off = style == 0 ? 0 : (int)g.zrange(-10000, 10000);
    for (int i = 0; i < n; i++) v.push_back(style == 2 ? off : off + (int)b.next(4001) - 2000);
    if (g.flag()) arrays(g, v, true); else containers(g, v, true);
  } else {
    std::vector<double> v;
    double off = style == 0 ? 0 : (double)g.zrange(-100000, 100000) / 16;
    for (int i = 0; i < n; i++) v.push_back(style == 2 ? off : off + ((double)b.next(4001) - 2000) / 16);
    if (g.flag()) arrays(g, v, true); else containers(g, v, true);
  }
  g.nontrivial(true);
}
PBT_MAIN({"integer_arrays", 120000, integer_arrays, 0}, {"integer_containers", 80000, integer_containers, 0},
         {"real_arrays", 80000, real_arrays, 0}, {"real_containers", 80000, real_containers, 0},
         {"huge", 250, huge, 0})
