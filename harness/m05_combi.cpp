#include "math_utils/math_functions.h"
#include "vals.h"
typedef unsigned __int128 U;

static std::string us(U v) {
  std::string s;
  do s.insert(s.begin(), (char)('0' + (int)(v % 10))), v /= 10; while (v);
  return s;
}
static U rgcd(U a, U b) {  // binary gcd
  if (!a || !b) return a | b;
  int k = 0;
  while (!((a | b) & 1)) a >>= 1, b >>= 1, k++;
  while (!(a & 1)) a >>= 1;
  while (b) {
    while (!(b & 1)) b >>= 1;
    if (a > b) std::swap(a, b);
    b -= a;
  }
  return a << k;
}
template <class T> static u64 lim() { return (u64)std::numeric_limits<T>::max(); }
template <class T> static const char* nm() {
  return std::is_same<T, int>::value ? "int" : std::is_same<T, long long>::value ? "long long"
       : std::is_same<T, unsigned>::value ? "unsigned" : std::is_same<T, short>::value ? "short"
       : std::is_same<T, unsigned char>::value ? "unsigned char" : std::is_same<T, unsigned long long>::value ? "unsigned long long" : "?";
}
static u64 upto(Gen& g, u64 m) {
  switch (g.draw(5)) {
    case 0: return g.draw(std::min<u64>(m, 20) + 1);
    case 1: return g.draw(std::min<u64>(m, 1000) + 1);
    case 2: return m - g.draw(std::min<u64>(m, 3) + 1);
    case 3: { u64 b = 1ull << g.draw(64); b += g.draw(3); b -= 1; return b > m ? b % (m + 1) : b; }
    default: return m == ~0ull ? g.draw(0) : g.draw(m + 1);
  }
}
template <class A, class B>
static void gl(Gen& g) {
  typedef typename std::common_type<A, B>::type C;
  u64 x, y;
  switch (g.draw(6)) {
    case 0: {  // a common factor
      u64 f = 1 + upto(g, std::min(lim<A>(), lim<B>()) - 1);
      x = f * (1 + g.draw(lim<A>() / f));
      y = f * (1 + g.draw(lim<B>() / f));
      if (g.chance(1, 3)) y = f * std::min<u64>(1 + g.draw(50), lim<B>() / f);
      break;
    }
    case 1: {  // Fibonacci neighbours: the longest Euclidean runs
      u64 p = 1, q = 1, n = g.draw(92);
      for (u64 i = 0; i < n && q < lim<A>() && q < lim<B>(); i++) { u64 t = p + q; if (t > lim<A>() || t > lim<B>()) break; p = q; q = t; }
      x = p, y = q;
      if (g.flag()) std::swap(x, y);
      break;
    }
    case 2: {  // multiples
      y = upto(g, lim<B>());
      u64 k = 1 + g.draw(10);
      x = y && k <= lim<A>() / y ? y * k : upto(g, lim<A>());
      break;
    }
    default: x = upto(g, lim<A>()), y = upto(g, lim<B>());
  }
  A a = (A)x;
  B b = (B)y;
  NOTE("gcd<" << nm<A>() << "," << nm<B>() << ">(" << x << ", " << y << ")");
  U r = rgcd(x, y);
  C c = cuhksz::gcd(a, b);
  CHECK((U)(u64)c == r, "gcd(" << x << "," << y << ") = " << (u64)c << ", expected " << us(r));
  static_assert(std::is_same<decltype(cuhksz::gcd(a, b)), C>::value, "gcd returns the common type");
  if (x || y) {
    U m = r ? (U)x / r * y : 0;
    if (m <= (U)lim<C>()) {
      C l = cuhksz::lcm(a, b);
      CHECK((U)(u64)l == m, "lcm(" << x << "," << y << ") = " << (u64)l << ", expected " << us(m));
      g.label("lcm");
    }
  }
  g.nontrivial(x > 1 && y > 1);
}
static void gcd_lcm(Gen& g) {
  switch (g.draw(8)) {
    case 0: gl<int, int>(g); break;
    case 1: gl<long long, long long>(g); break;
    case 2: gl<unsigned, unsigned>(g); break;
    case 3: gl<int, long long>(g); break;
    case 4: gl<long long, short>(g); break;
    case 5: gl<short, short>(g); break;
    case 6: gl<unsigned char, int>(g); break;
    default: gl<unsigned long long, unsigned long long>(g);
  }
}
// product n*(n-1)*...*(n-r+1), or more than `cap`
static U falling(u64 n, u64 r, U cap) {
  U p = 1;
  for (u64 i = 0; i < r; i++) {
    p *= n - i;
    if (p > cap) return cap + 1;
    if (p == 0) return 0;
  }
  return p;
}
static U choose(u64 n, u64 r, U cap) {
  if (r > n - r) r = n - r;
  U p = 1;
  for (u64 i = 1; i <= r; i++) {
    U t = p * (n - r + i);  // n < 2^33, p <= 2^64
    p = t / i;
    if (p > cap) return cap + 1;
  }
  return p;
}
template <class T>
static void counts(Gen& g) {
  u64 n, r;
  switch (g.draw(4)) {
    case 0: n = g.draw(12); r = g.draw(n + 1); break;
    case 1: n = g.draw(std::min<u64>(lim<T>(), 70) + 1); r = g.flag() ? g.draw(n + 1) : n - g.draw(std::min<u64>(n, 4) + 1); break;
    case 2: n = g.draw(std::min<u64>(lim<T>(), 3000) + 1); r = g.draw(std::min<u64>(n, 6) + 1); if (g.flag()) r = n - r; break;
    default: n = upto(g, std::min<u64>(lim<T>(), 4000000000ull)); r = g.draw(std::min<u64>(n, 4) + 1);
  }
  NOTE(nm<T>() << " n=" << n << " r=" << r);
  U cap = lim<T>(), p = falling(n, r, cap), c = choose(n, r, cap), f = falling(n, n < 100 ? n : 100, cap);
  if (f <= cap) {
    T v = cuhksz::factorial((T)n);
    CHECK((U)(u64)v == f, nm<T>() << " factorial(" << n << ") = " << (u64)v << ", expected " << us(f));
    g.label("factorial");
  }
  if (p <= cap) {
    T v = cuhksz::permutation((T)n, (T)r);
    CHECK((U)(u64)v == p, nm<T>() << " permutation(" << n << "," << r << ") = " << (u64)v << ", expected " << us(p));
    g.label("permutation");
  }
  u64 k = std::min(r, n - r);
  if (c <= cap && (double)k * (double)(n - k) < 60000) {
    T v = cuhksz::binomial((T)n, (T)r);
    CHECK((U)(u64)v == c, nm<T>() << " binomial(" << n << "," << r << ") = " << (u64)v << ", expected " << us(c));
    v = cuhksz::binomial((T)n, (T)(n - r));
    CHECK((U)(u64)v == c, nm<T>() << " binomial(" << n << "," << n - r << ") = " << (u64)v << ", expected " << us(c));
    g.label("binomial");
  }
  g.nontrivial(n >= 2 && r >= 1 && (p <= cap || c <= cap));
}
static void counting(Gen& g) {
  switch (g.draw(6)) {
    case 0: counts<int>(g); break;
    case 1: counts<long long>(g); break;
    case 2: counts<unsigned>(g); break;
    case 3: counts<short>(g); break;
    case 4: counts<unsigned char>(g); break;
    default: counts<unsigned long long>(g);
  }
}
static i64 neg(Gen& g, i64 lo) { return g.flag() ? -1 - (i64)g.draw(20) : g.integer(lo, -1); }
template <class T>
static void bad(Gen& g, i64 lo) {
  T n = (T)g.draw(30), r;
  switch (g.draw(6)) {
    case 0: n = (T)neg(g, lo); must_error("factorial(" + std::to_string((i64)n) + ")", [&] { cuhksz::factorial(n); }); break;
    case 1: r = (T)(n + 1 + g.draw(20)); must_error("permutation(" + std::to_string((i64)n) + "," + std::to_string((i64)r) + ")", [&] { cuhksz::permutation(n, r); }); break;
    case 2: r = (T)neg(g, lo); must_error("permutation(" + std::to_string((i64)n) + "," + std::to_string((i64)r) + ")", [&] { cuhksz::permutation(n, r); }); break;
    case 3: r = (T)(n + 1 + g.draw(20)); must_error("binomial(" + std::to_string((i64)n) + "," + std::to_string((i64)r) + ")", [&] { cuhksz::binomial(n, r); }); break;
    case 4: r = (T)neg(g, lo); must_error("binomial(" + std::to_string((i64)n) + "," + std::to_string((i64)r) + ")", [&] { cuhksz::binomial(n, r); }); break;
    default: {
      n = (T)neg(g, lo);
      r = g.flag() ? n : (T)g.draw(4);
      if (g.flag()) must_error("permutation(" + std::to_string((i64)n) + "," + std::to_string((i64)r) + ")", [&] { cuhksz::permutation(n, r); });
      else must_error("binomial(" + std::to_string((i64)n) + "," + std::to_string((i64)r) + ")", [&] { cuhksz::binomial(n, r); });
    }
  }
  g.nontrivial();
}
static void domain(Gen& g) {
  switch (g.draw(3)) {
    case 0: bad<int>(g, INT_MIN); break;
    case 1: bad<long long>(g, LLONG_MIN); break;
    default: bad<short>(g, SHRT_MIN);
  }
}
PBT_MAIN({"gcd_lcm", 1500000, gcd_lcm, 0}, {"counting", 500000, counting, 0}, {"domain", 60000, domain, 0})
