#include "mat_common.h"
using cuhksz::Matrix;

template <class T> struct El;
template <> struct El<int> {
  static int gen(Gen& g, int) { return (int)g.zrange(-9, 9); }
  static bool ok(int v) { return v > -2000000 && v < 2000000; }
};
template <> struct El<long long> {
  static long long gen(Gen& g, int) { return g.flag() ? g.zrange(-9, 9) : g.zrange(-40000, 40000); }
  static bool ok(long long v) { return v > -(1LL << 28) && v < (1LL << 28); }
};
template <> struct El<double> {
  static double gen(Gen& g, int) { return (double)g.zrange(-20, 20) / 4; }
  static bool ok(double v) { return std::fabs(v) < 1e5 && v * 1024 == std::floor(v * 1024); }
};
template <> struct El<GF> {
  static GF gen(Gen& g, int) { return GF((int)g.draw(GF::P())); }
  static bool ok(const GF&) { return true; }
};
template <> struct El<NC> {
  static NC gen(Gen& g, int) {
    return g.chance(1, 3) ? NC((int)g.zrange(-2, 2))
                          : NC((int)g.draw(101), (int)g.draw(101), (int)g.draw(101), (int)g.draw(101));
  }
  static bool ok(const NC&) { return true; }
};
template <> struct El<cuhksz::Fraction> {
  static cuhksz::Fraction gen(Gen& g, int) { return cuhksz::Fraction((int)g.zrange(-3, 3), 1 << g.draw(3)); }
  static bool ok(cuhksz::Fraction f) { return std::abs(f.getNumerator()) < 40 && f.getDenominator() <= 16; }
};
template <class T>
static bool ok(const Grid<T>& g) {
  for (size_t i = 0; i < g.e.size(); i++)
    if (!El<T>::ok(g.e[i])) return false;
  return true;
}
template <class T>
static Grid<T> gen_grid(Gen& g, int r, int c) {
  Grid<T> x(r, c);
  u64 style = g.draw(4);
  for (int i = 0; i < r; i++)
    for (int j = 0; j < c; j++)
      x.at(i, j) = style == 0 ? T((int)(i == j)) : style == 1 && g.flag() ? T(0) : El<T>::gen(g, i);
  return x;
}
template <class T>
static void text_is(const Matrix<T>&, const Grid<T>&) {}
template <class T>
static void text_num(const Matrix<T>& m, const Grid<T>& g) {
  std::string s;
  for (int i = 0; i < g.r; i++)
  {
    for (int j = 0; j < g.c; j++) s += (j ? ", " : "") + std::to_string(g.at(i, j));
    s += "\n";
  }
  CHECK(m.toString() == s, "toString gives " << quote(m.toString()) << " for " << g.str());
  std::ostringstream os;
  os << m;
  CHECK(os.str() == s, "<< gives " << quote(os.str()) << " for " << g.str());
}
template <> void text_is(const Matrix<int>& m, const Grid<int>& g) { text_num(m, g); }
template <> void text_is(const Matrix<double>& m, const Grid<double>& g) { text_num(m, g); }
template <> void text_is(const Matrix<long long>& m, const Grid<long long>& g) { text_num(m, g); }

template <class T>
static void same(const Matrix<T>& m, const Grid<T>& g, const std::string& what) {
  for (int i = 0; i < g.r; i++)
    for (int j = 0; j < g.c; j++)
      CHECK(m[i][j] == g.at(i, j),
            what << ": entry (" << i << "," << j << ") is " << m[i][j] << ", expected " << g.at(i, j) << " of " << g.str());
  Matrix<T> q = build(g);
  CHECK(m == q && q == m, what << ": not equal to a matrix with the same shape and entries, " << g.str());
  CHECK(!(m != q), what << ": differs from a matrix with the same shape and entries");
  text_is(m, g);
}
template <class T>
static void ops(Gen& g) {
  int r = gen_dim(g), c = gen_dim(g), c2 = gen_dim(g);
  Grid<T> x = gen_grid<T>(g, r, c), y = gen_grid<T>(g, r, c), z = gen_grid<T>(g, c, c2);
  NOTE("A = " << x.str() << "\nB = " << y.str() << "\nC = " << z.str());
  Matrix<T> fresh(r, c);
  same(fresh, Grid<T>(r, c), "a new matrix");
  const Matrix<T> a = build(x), b = build(y), d = build(z);
  same(a + b, gadd(x, y, false), "A+B");
  same(a - b, gadd(x, y, true), "A-B");
  {
    Matrix<T> t(a);
    CHECK(&(t += b) == &t, "+= returns its object");
    same(t, gadd(x, y, false), "A+=B");
    Matrix<T> u(a);
    CHECK(&(u -= b) == &u, "-= returns its object");
    same(u, gadd(x, y, true), "A-=B");
    Matrix<T> v(a), w(a);
    v += v;
    same(v, gadd(x, x, false), "A+=A");
    w -= w;
    same(w, Grid<T>(r, c), "A-=A");
  }
  Grid<T> p = gmul(x, z);
  if (ok(p)) {
    same(a * d, p, "A*C");
    Matrix<T> t(a);
    CHECK(&(t *= d) == &t, "*= returns its object");
    same(t, p, "A*=C");
    g.label("product");
  }
  same(Matrix<T>::idMat(r) * a, x, "I*A");
  same(a * Matrix<T>::idMat(c), x, "A*I");
  if (r == c && ok(gmul(x, x))) {
    Matrix<T> t(a);
    t *= t;
    same(t, gmul(x, x), "A*=A");
  }
  CHECK((a == b) == (x == y) && (a != b) == !(x == y), "equality of A and B");
  // one entry differs, or the shape
  if (r && c) {
    Matrix<T> t(a);
    int i = (int)g.draw(r), j = (int)g.draw(c);
    t[i][j] += T(1);
    CHECK(t != a && !(t == a), "equal although entry (" << i << "," << j << ") differs");
    same(a, x, "the source of a changed copy");
  }
  Grid<T> big(r + 1, c), wide(r, c + 1);
  for (int q = 0; q < r; q++)
    for (int s = 0; s < c; s++) big.at(q, s) = x.at(q, s), wide.at(q, s) = x.at(q, s);
  CHECK(build(big) != a && a != build(wide) && !(a == build(big)) && !(build(wide) == a),
        "equal although the shapes differ");
  same(b, y, "operand after the operations");
  same(d, z, "operand after the operations");
  g.nontrivial(r * c >= 2);
}
// any exponent: entries of a finite ring, or a signed permutation matrix
template <class T> struct Finite { enum { yes = 0 }; };
template <> struct Finite<GF> { enum { yes = 1 }; };
template <> struct Finite<NC> { enum { yes = 1 }; };
template <class T>
static void power_large(Gen& g) {
  int n = (int)g.range(1, 4);
  Grid<T> x(n, n);
  if (Finite<T>::yes && g.flag()) x = gen_grid<T>(g, n, n);
  else {
    std::vector<int> to(n);
    for (int i = 0; i < n; i++) to[i] = i;
    for (int i = n - 1; i > 0; i--) std::swap(to[i], to[g.draw(i + 1)]);
    for (int i = 0; i < n; i++) x.at(i, to[i]) = T(g.chance(1, 3) ? -1 : 1);
  }
  unsigned e;
  switch (g.draw(4)) {
    case 0: e = (1u << g.range(5, 31)) - 1 + (unsigned)g.draw(3); break;
    case 1: e = ~0u - (unsigned)g.draw(5); break;
    case 2: e = (unsigned)g.draw(100000); break;
    default: e = (unsigned)g.draw(1ULL << 32);
  }
  NOTE("A = " << x.str() << " to the power " << e);
  Grid<T> p = gid<T>(n);  // from the highest binary digit of the exponent down
  for (int b = 31; b >= 0; b--) {
    p = gmul(p, p);
    if (e >> b & 1) p = gmul(p, x);
  }
  const Matrix<T> a = build(x);
  same(pow(a, e), p, "pow(A," + std::to_string(e) + ")");
  same(a, x, "base after pow");
  g.label(e >= 1u << 31 ? "exponent of 2^31 or more" : e >= 1u << 16 ? "exponent of 2^16 or more" : "exponent below 2^16");
  g.nontrivial(n >= 2);
}
template <class T>
static void power(Gen& g) {
  if (g.chance(1, 3)) return power_large<T>(g);
  int n = g.draw(60) ? (int)g.range(1, g.chance(1, 8) ? 12 : 4) : 0;
  Grid<T> x = gen_grid<T>(g, n, n);
  u64 e = g.draw(4) ? g.draw(9) : n > 4 ? g.draw(12) : g.draw(70);
  const Matrix<T> a = build(x);
  Grid<T> p = gid<T>(n);
  for (u64 i = 0; i < e; i++) {
    p = gmul(p, x);
    if (!ok(p)) {
      e = i;
      p = gid<T>(n);
      for (u64 q = 0; q < e; q++) p = gmul(p, x);
      break;
    }
  }
  NOTE("A = " << x.str() << " to the power " << e);
  same(pow(a, (unsigned)e), p, "pow(A," + std::to_string(e) + ")");
  same(a, x, "base after pow");
  same(Matrix<T>::idMat(n), gid<T>(n), "identity");
  g.nontrivial(e >= 2 && n >= 2);
}
// the public helpers of the copy operations, where the library offers them
template <class M>
static auto wipe(M& m, int) -> decltype(m.clear(), bool()) {
  m.clear();
  return true;
}
template <class M>
static bool wipe(M&, long) { return false; }
template <class M>
static auto take(M& m, const M& s, int) -> decltype(m.deepCopy(s), bool()) {
  m.deepCopy(s);
  return true;
}
template <class M>
static bool take(M&, const M&, long) { return false; }
// matrices of changing shapes held in three variables
template <class T>
static void history(Gen& g) {
  std::vector<Grid<T> > m;
  std::vector<Matrix<T>*> v;
  for (int i = 0; i < 3; i++) {
    m.push_back(Grid<T>((int)g.range(1, 3), (int)g.range(1, 3)));
    v.push_back(new Matrix<T>(m[i].r, m[i].c));
  }
  int steps = 0;
  Loop l(g, len_class(g, 25), 150);
  while (l.next()) {
    int i = (int)g.draw(3), j = (int)g.draw(3), k = (int)g.draw(3);
    Grid<T> r;
    switch (g.draw(14)) {
      case 12:
        if (g.flag()) {
          if (!wipe(*v[i], 0)) continue;
          NOTE("M" << i << " cleared");
          m[i] = Grid<T>(0, 0);
        } else {
          if (!take(*v[i], *v[j], 0)) continue;
          NOTE("M" << i << " takes a deep copy of M" << j);
          m[i] = Grid<T>(m[j]);
        }
        break;
      case 0: {
        m[i] = gen_grid<T>(g, gen_dim(g), gen_dim(g));
        NOTE("M" << i << " = " << m[i].str());
        *v[i] = build(m[i]);
        break;
      }
      case 1: {
        m[i] = gen_grid<T>(g, m[j].r, m[j].c);
        NOTE("M" << i << " filled in the shape of M" << j << ": " << m[i].str());
        *v[i] = Matrix<T>(m[i].r, m[i].c);
        fill(*v[i], m[i]);
        break;
      }
      case 2: {
        std::vector<std::vector<int> > ini(m[i].r, std::vector<int>(m[i].c));
        for (int a = 0; a < m[i].r; a++)
          for (int b = 0; b < m[i].c; b++) ini[a][b] = (int)g.zrange(-9, 9), m[i].at(a, b) = T(ini[a][b]);
        NOTE("M" << i << " from nested vectors: " << m[i].str());
        if (ini.empty()) m[i] = Grid<T>(0, 0);  // nothing says how many columns
        *v[i] = Matrix<T>(ini);
        break;
      }
      case 3:
        if (i != j && g.chance(1, 4)) {
          NOTE("M" << i << " and M" << j << " swapped");
          std::swap(*v[i], *v[j]);
          std::swap(m[i], m[j]);
          break;
        }
        NOTE("M" << i << " = M" << j); *v[i] = *v[j]; m[i] = m[j]; break;
      case 4: NOTE("M" << i << " = copy of M" << j); { Matrix<T>* n = new Matrix<T>(*v[j]); delete v[i]; v[i] = n; r = m[j]; m[i] = r; } break;
      case 5: {
        if (!m[i].r || !m[i].c) continue;
        int a = (int)g.draw(m[i].r), b = (int)g.draw(m[i].c);
        T x = El<T>::gen(g, 0);
        NOTE("M" << i << "[" << a << "][" << b << "] = " << x);
        (*v[i])[a][b] = x;
        m[i].at(a, b) = x;
        break;
      }
      case 6: case 7: {
        if (m[j].r != m[k].r || m[j].c != m[k].c) continue;
        bool minus = g.flag();
        r = gadd(m[j], m[k], minus);
        if (!ok(r)) continue;
        NOTE("M" << i << " = M" << j << (minus ? " - M" : " + M") << k);
        *v[i] = minus ? *v[j] - *v[k] : *v[j] + *v[k];
        m[i] = r;
        break;
      }
      case 8: {
        if (m[i].r != m[k].r || m[i].c != m[k].c) continue;
        bool minus = g.flag();
        r = gadd(m[i], m[k], minus);
        if (!ok(r)) continue;
        NOTE("M" << i << (minus ? " -= M" : " += M") << k);
        if (minus) *v[i] -= *v[k]; else *v[i] += *v[k];
        m[i] = r;
        break;
      }
      case 9: case 10: {
        if (m[j].c != m[k].r) continue;
        r = gmul(m[j], m[k]);
        if (!ok(r)) continue;
        NOTE("M" << i << " = M" << j << " * M" << k);
        *v[i] = *v[j] * *v[k];
        m[i] = r;
        break;
      }
      case 11: {
        if (m[i].c != m[k].r) continue;
        r = gmul(m[i], m[k]);
        if (!ok(r)) continue;
        NOTE("M" << i << " *= M" << k);
        *v[i] *= *v[k];
        m[i] = r;
        break;
      }
      default: {
        NOTE("M" << i << " = identity in the shape of M" << j);
        *v[i] = Matrix<T>::idMat(m[j].r);
        m[i] = gid<T>(m[j].r);
      }
    }
    steps++;
    for (int q = 0; q < 3; q++) same(*v[q], m[q], "M" + std::to_string(q));
  }
  for (int q = 0; q < 3; q++) delete v[q];
  g.nontrivial(steps >= 3);
}
template <class T>
static void mismatch(Gen& g) {
  int r = gen_dim(g), c = gen_dim(g), r2, c2;
  u64 op = g.draw(7);
  if (op < 2 || op == 6) {
    r2 = gen_dim(g), c2 = gen_dim(g);
    if (r2 == c) r2 = c + 1 + (int)g.draw(2);
  } else {
    r2 = g.flag() ? r : gen_dim(g);
    c2 = r2 == r ? c + 1 : g.flag() ? c : gen_dim(g);
    if (g.chance(1, 3) && r != c) r2 = c, c2 = r;  // the transposed shape
    if (g.chance(1, 3) && c > 1) r2 = r, c2 = c - 1;
  }
  if (r == c && op == 6) c = r + 1;
  Matrix<T>* a = new Matrix<T>(r, c);
  Matrix<T>* b = new Matrix<T>(r2, c2);
  fill(*a, gen_grid<T>(g, r, c));
  std::string sh = std::to_string(r) + "x" + std::to_string(c) + " with " + std::to_string(r2) + "x" + std::to_string(c2);
  switch (op) {
    case 0: must_error_or_assert("* of " + sh, [&] { *a * *b; }); break;
    case 1: must_error_or_assert("*= of " + sh, [&] { *a *= *b; }); break;
    case 2: must_error_or_assert("+ of " + sh, [&] { *a + *b; }); break;
    case 3: must_error_or_assert("+= of " + sh, [&] { *a += *b; }); break;
    case 4: must_error_or_assert("- of " + sh, [&] { *a - *b; }); break;
    case 5: must_error_or_assert("-= of " + sh, [&] { *a -= *b; }); break;
    default: {
      unsigned e = 2 + (unsigned)g.draw(5);
      must_error_or_assert("pow of " + sh, [&] { pow(*a, e); });
    }
  }
  g.nontrivial();
}
// larger shapes, bulk contents
template <class T>
static void large_of(Gen& g) {
  static const int dims[] = {1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 33, 40, 64, 70, 130, 257, 300, 520, 1030, 4100};
  int r = g.pick(dims), c = g.pick(dims), c2 = g.pick(dims);
  if (r * c > 5000) r = std::max(1, 5000 / c);
  if (c * c2 > 5000) c2 = std::max(1, 5000 / c);
  if ((long)r * c * c2 > 60000) c2 = std::max(1, 60000 / (r * c));
  Bulk b(g);
  Grid<T> x(r, c), y(r, c), z(c, c2);
  for (auto& e : x.e) e = T((int)b.next(19) - 9);
  for (auto& e : y.e) e = T((int)b.next(19) - 9);
  for (auto& e : z.e) e = T((int)b.next(19) - 9);
  NOTE(r << "x" << c << " and " << c << "x" << c2);
  const Matrix<T> m = build(x), n = build(y), p = build(z);
  same(m + n, gadd(x, y, false), "A+B");
  same(m - n, gadd(x, y, true), "A-B");
  same(m * p, gmul(x, z), "A*C");
  Matrix<T> t(m);
  t *= p;
  same(t, gmul(x, z), "A*=C");
  t = m;
  same(t, x, "assigned");
  t += n;
  same(t, gadd(x, y, false), "A+=B");
  t = m;
  int i = g.flag() ? r - 1 : (int)g.draw(r), j = g.flag() ? c - 1 : (int)g.draw(c);
  t[i][j] += T(1);
  CHECK(t != m && !(t == m), "equal although entry (" << i << "," << j << ") differs");
  same(m, x, "operand after the operations");
  if (r <= 70) same(Matrix<T>::idMat(r) * m, x, "I*A");
  g.nontrivial(r * c >= 2);
}
#ifndef VERIF_PLAIN
#define BY_TYPE(name)                                          \
  static void t_##name(Gen& g) {                               \
    GF::P() = 10007;                                           \
    switch (g.draw(6)) {                                       \
      case 0: name<int>(g); break;                             \
      case 4: name<long long>(g); break;                       \
      case 1: name<NC>(g); break;                              \
      case 2: name<double>(g); break;                          \
      case 3: name<cuhksz::Fraction>(g); break;                \
      default: name<GF>(g);                                    \
    }                                                          \
  }
#else  // the code under test no longer compiles for element types other than the built-in ones
#define BY_TYPE(name) static void t_##name(Gen& g) { if (g.flag()) name<int>(g); else name<double>(g); }
#endif
BY_TYPE(ops)
BY_TYPE(power)
BY_TYPE(history)
#ifndef VERIF_PLAIN
typedef NC Other;
#else
typedef double Other;
#endif
static void t_large(Gen& g) { if (g.flag()) large_of<int>(g); else large_of<Other>(g); }
static void t_mismatch(Gen& g) { if (g.flag()) mismatch<int>(g); else mismatch<Other>(g); }
PBT_MAIN({"operations", 60000, t_ops, 0}, {"powers", 60000, t_power, 0}, {"history", 20000, t_history, 0},
         {"shape_mismatch", 20000, t_mismatch, 0}, {"large_shapes", 500, t_large, 0})
