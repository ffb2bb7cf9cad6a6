#include "mat_common.h"
using cuhksz::Matrix;
typedef __int128 Big;

// exact rationals for the reference computations; `lost` is set when one does not fit
static bool lost;
static Big mulB(Big a, Big b) {
  Big r;
  if (__builtin_mul_overflow(a, b, &r)) lost = true, r = 1;
  return r;
}
static Big addB(Big a, Big b) {
  Big r;
  if (__builtin_add_overflow(a, b, &r)) lost = true, r = 1;
  return r;
}
struct Q {
  Big n, d;
  Q(int x = 0) : n(x), d(1) {}
  Q(Big a, Big b) : n(a), d(b) {
    if (d < 0) n = -n, d = -d;
    if (d == 0) lost = true, n = d = 1;
    Big x = n < 0 ? -n : n, y = d;
    while (y) { Big t = x % y; x = y; y = t; }
    n /= x, d /= x;
  }
  Q operator*(const Q& o) const { return Q(mulB(n, o.n), mulB(d, o.d)); }
  Q operator-(const Q& o) const { return Q(addB(mulB(n, o.d), -mulB(o.n, d)), mulB(d, o.d)); }
  Q operator+(const Q& o) const { return Q(addB(mulB(n, o.d), mulB(o.n, d)), mulB(d, o.d)); }
  Q operator/(const Q& o) const { return Q(mulB(n, o.d), mulB(d, o.n)); }
  bool operator==(const Q& o) const { return n == o.n && d == o.d; }
  bool operator!=(const Q& o) const { return !(*this == o); }
};
static std::ostream& operator<<(std::ostream& o, const Q& q) { return o << (long long)q.n << "/" << (long long)q.d; }

// reduced row-echelon form: the canonical basis of the row space.  `limit` (when given)
// records the largest numerator or denominator met.
template <class T>
static Grid<T> rref(Grid<T> a, int* rank) {
  int r = 0;
  for (int c = 0; c < a.c && r < a.r; c++) {
    int p = r;
    while (p < a.r && a.at(p, c) == T(0)) p++;
    if (p == a.r) continue;
    for (int j = 0; j < a.c; j++) std::swap(a.at(p, j), a.at(r, j));
    T v = a.at(r, c);
    for (int j = 0; j < a.c; j++) a.at(r, j) = a.at(r, j) / v;
    for (int i = 0; i < a.r; i++) {
      if (i == r) continue;
      T f = a.at(i, c);
      for (int j = 0; j < a.c; j++) a.at(i, j) = a.at(i, j) - f * a.at(r, j);
    }
    r++;
  }
  *rank = r;
  return a;
}
template <class T>
static void echelon(const Grid<T>& e, int* nonzero) {
  int last = -1, rows = 0;
  bool zero_seen = false;
  for (int i = 0; i < e.r; i++) {
    int j = 0;
    while (j < e.c && e.at(i, j) == T(0)) j++;
    if (j == e.c) {
      zero_seen = true;
      continue;
    }
    CHECK(!zero_seen, "a non-zero row below a zero row: " << e.str());
    CHECK(j > last, "the leading entry of row " << i << " is not to the right of the one above: " << e.str());
    CHECK(e.at(i, j) == T(1), "the leading entry of row " << i << " is " << e.at(i, j) << ", not 1: " << e.str());
    last = j;
    rows++;
  }
  *nonzero = rows;
}
// random matrix of a chosen rank profile: zero rows/columns, repeated and combined rows
template <class T, class G>
static Grid<T> shape(Gen& g, int r, int c, G el) {
  Grid<T> x(r, c);
  for (int i = 0; i < r; i++) {
    u64 k = g.draw(8);
    if (k == 0) continue;
    if (k == 1 && i) {
      int p = (int)g.draw(i);
      for (int j = 0; j < c; j++) x.at(i, j) = x.at(p, j);
      continue;
    }
    if (k == 2 && i > 1) {
      int p = (int)g.draw(i), q = (int)g.draw(i);
      T f = el(g);
      for (int j = 0; j < c; j++) x.at(i, j) = x.at(p, j) + f * x.at(q, j);
      continue;
    }
    int lead = g.flag() ? 0 : (int)g.draw(c + 1);
    for (int j = lead; j < c; j++) x.at(i, j) = el(g);
  }
  if (c && g.chance(1, 3)) {
    int j = (int)g.draw(c);
    for (int i = 0; i < r; i++) x.at(i, j) = T(0);
  }
  return x;
}
template <class T>
static void compare(const Grid<T>& in, const Grid<T>& out) {
  int nz = 0, rk = 0, rk2 = 0;
  echelon(out, &nz);
  lost = false;
  Grid<T> a = rref(in, &rk), b = rref(out, &rk2);
  if (lost) return;  // the reference itself ran out of digits
  CHECK(nz == rk, "rank " << rk << " but " << nz << " non-zero rows: " << in.str() << " -> " << out.str());
  CHECK(a == b, "the row space changed: " << in.str() << " -> " << out.str());
}
#ifndef VERIF_PLAIN
static GF gf_el(Gen& g) { return GF((int)g.draw(GF::P())); }
static void field_of(Gen& g, int r, int c) {
  static const int primes[] = {2, 3, 5, 7, 101, 10007};
  GF::P() = g.pick(primes);
  Grid<GF> x = shape<GF>(g, r, c, gf_el);
  NOTE("mod " << GF::P() << ": " << x.str());
  Matrix<GF> m = build(x);
  Matrix<GF> copy(m);
  m.reduce();
  Grid<GF> o(r, c);
  for (int i = 0; i < r; i++)
    for (int j = 0; j < c; j++) {
      o.at(i, j) = m[i][j];
      CHECK(copy[i][j] == x.at(i, j), "a copy changed when the original was reduced");
    }
  NOTE("-> " << o.str());
  compare(x, o);
  m.reduce();
  for (int i = 0; i < r; i++)
    for (int j = 0; j < c; j++) CHECK(m[i][j] == o.at(i, j), "reducing an echelon form changed it");
  int nz;
  echelon(o, &nz);
  if (nz < std::min(r, c)) g.label("rank deficient");
  g.nontrivial(nz >= 1 && r * c >= 4);
}
static void field(Gen& g) {
  int r = gen_dim(g), c = gen_dim(g);
  field_of(g, r, c);
}
static void large(Gen& g) {
  int r = (int)g.range(1, g.flag() ? 40 : 20), c = (int)g.range(1, g.flag() ? 40 : 20);
  if (g.chance(1, 10)) { r = (int)g.range(1, 6); c = 250 + (int)g.draw(20); }
  else if (g.chance(1, 10)) { c = (int)g.range(1, 6); r = 250 + (int)g.draw(20); }
  field_of(g, r, c);
}
// every matrix of a small shape over GF(2) or GF(3)
static void small_all(Gen& g) {
  GF::P() = g.flag() ? 3 : 2;
  int r = (int)g.range(1, 3), c = (int)g.range(1, 3);
  Grid<GF> x(r, c);
  for (size_t i = 0; i < x.e.size(); i++) x.e[i] = GF((int)g.draw(GF::P()));
  Matrix<GF> m = build(x);
  m.reduce();
  Grid<GF> o(r, c);
  for (int i = 0; i < r; i++)
    for (int j = 0; j < c; j++) o.at(i, j) = m[i][j];
  compare(x, o);
  g.nontrivial(r * c >= 4);
}
#endif
static bool pow2(Big v) {
  if (v < 0) v = -v;
  return v > 0 && (v & (v - 1)) == 0;
}
// Gaussian elimination in the order the rows come; are all pivots powers of two (so that
// doubles compute it exactly), and do numbers stay small?
static bool dyadic(Grid<Q> a) {
  int r = 0;
  for (int c = 0; c < a.c && r < a.r; c++) {
    int p = r;
    while (p < a.r && a.at(p, c) == Q(0)) p++;
    if (p == a.r) continue;
    for (int j = 0; j < a.c; j++) std::swap(a.at(p, j), a.at(r, j));
    Q v = a.at(r, c);
    if (!pow2(v.n)) return false;
    for (int j = 0; j < a.c; j++) a.at(r, j) = a.at(r, j) / v;
    for (int i = r + 1; i < a.r; i++) {
      Q f = a.at(i, c);
      for (int j = 0; j < a.c; j++) {
        a.at(i, j) = a.at(i, j) - f * a.at(r, j);
        Big n = a.at(i, j).n < 0 ? -a.at(i, j).n : a.at(i, j).n;
        while (n && n % 2 == 0) n /= 2;
        if (lost || a.at(i, j).d > (1 << 25) || n > (1 << 25)) return false;
      }
    }
    r++;
  }
  return true;
}
static Q exact(double v) {
  int e;
  double m = std::frexp(v, &e);
  if (v == 0) return Q(0);
  CHECK(e > -50 && e < 50, "entry " << v << " of a reduced matrix of small numbers");
  Big n = (Big)(long long)(m * 9007199254740992.0);
  e -= 53;
  while (n % 2 == 0 && e < 0) n /= 2, e++;
  return e >= 0 ? Q(n << e, (Big)1) : Q(n, (Big)1 << -e);
}
static Q small_el(Gen& g) { return Q((int)g.zrange(-2, 2)); }
static void doubles(Gen& g) {
  int r = (int)g.range(1, 4), c = (int)g.range(1, 5);
  if (g.draw(60) == 0) (g.flag() ? r : c) = 0;
  Grid<Q> x = shape<Q>(g, r, c, small_el);
  lost = false;
  if (g.flag()) {  // rows (and maybe a column) of other magnitudes
    for (int i = 0; i < r; i++) {
      int e = (int)g.zrange(-14, 14);
      for (int j = 0; j < c; j++) x.at(i, j) = x.at(i, j) * (e >= 0 ? Q(1 << e) : Q((Big)1, (Big)1 << -e));
    }
    if (c && g.flag()) {
      int j = (int)g.draw(c), e = (int)g.range(1, 10);
      for (int i = 0; i < r; i++) x.at(i, j) = x.at(i, j) * Q((Big)1, (Big)1 << e);
    }
    g.label("scaled rows");
  }
  if (!dyadic(x)) return;
  Matrix<double> m(r, c);
  int mag = g.chance(1, 4) ? (int)g.zrange(-700, 700) : 0;  // a common factor changes nothing
  for (int i = 0; i < r; i++)
    for (int j = 0; j < c; j++) m[i][j] = std::ldexp((double)x.at(i, j).n / (double)x.at(i, j).d, mag);
  NOTE("double " << x.str() << " times 2^" << mag);
  if (mag < -500 || mag > 500) g.label("magnitudes beyond 2^500");
  m.reduce();
  Grid<Q> o(r, c);
  for (int i = 0; i < r; i++)
    for (int j = 0; j < c; j++) o.at(i, j) = exact(m[i][j]);
  compare(x, o);
  g.nontrivial(r * c >= 4);
}
#ifndef VERIF_PLAIN
static void fractions(Gen& g) {
  int r = (int)g.range(1, 3), c = (int)g.range(1, 4);
  Grid<Q> x = shape<Q>(g, r, c, small_el);
  Matrix<cuhksz::Fraction> m(r, c);
  for (int i = 0; i < r; i++)
    for (int j = 0; j < c; j++) m[i][j] = cuhksz::Fraction((int)x.at(i, j).n, (int)x.at(i, j).d);
  NOTE("fractions " << x.str());
  m.reduce();
  Grid<Q> o(r, c);
  for (int i = 0; i < r; i++)
    for (int j = 0; j < c; j++) o.at(i, j) = Q((Big)m[i][j].getNumerator(), (Big)m[i][j].getDenominator());
  compare(x, o);
  g.nontrivial(r * c >= 4);
}
PBT_MAIN({"prime_fields", 150000, field, 0}, {"small_shapes", 100000, small_all, 0}, {"doubles", 150000, doubles, 0},
         {"fractions", 100000, fractions, 0}, {"large_shapes", 3000, large, 0})
#else  // the code under test no longer compiles for element types other than the built-in ones
PBT_MAIN({"doubles", 300000, doubles, 0})
#endif
