// P01: Point<N> against plain arrays of doubles.
#include <sstream>
#include "geometry/Point.h"
#include "vals.h"
typedef long double LD;

// Values whose sums and products of up to 8 pairs are exact in double.
static double exact_val(Gen& g, int e) { return std::ldexp((double)g.zrange(-1000000, 1000000), e); }
static double any_val(Gen& g) {
  switch (g.draw(6)) {
    case 0: return (double)g.zrange(-8, 8);
    case 1: return (double)g.zrange(-1000, 1000) / 7.0;
    case 2: return std::ldexp((double)g.zrange(-(1ll << 52), 1ll << 52), (int)g.draw(60) - 80);
    case 3: return std::ldexp((double)g.zrange(-1000, 1000), (int)g.draw(400) - 200);
    case 4: return (double)g.zrange(-100000, 100000) * 1e-7;
    default: return (double)g.zrange(-8, 8) + (double)g.zrange(-3, 3) * 1e-6;
  }
}
struct V {
  double c[33];
};
template <int N> struct K {
  typedef cuhksz::Point<N> P;
  static P make(const V& v, Gen& g);
  static void same(const P& p, const V& v, const char* what) {
    for (int i = 0; i < N; i++)
      CHECK(p[i] == v.c[i] || (p[i] != p[i] && v.c[i] != v.c[i]),
            what << ": coordinate " << i << " is " << p[i] << ", expected " << v.c[i]);
  }
  static void close(double got, LD want, LD scale, const char* what) {
    LD tol = 1e-14L * scale + 1e-300L;
    CHECK(std::fabs((LD)got - want) <= tol, what << " = " << got << ", expected " << (double)want);
  }
};
template <int N> static cuhksz::Point<N> by_index(const V& v) {
  cuhksz::Point<N> p;
  for (int i = 0; i < N; i++) p[i] = v.c[i];
  return p;
}
template <int N> cuhksz::Point<N> K<N>::make(const V& v, Gen&) { return by_index<N>(v); }
template <> cuhksz::Point<1> K<1>::make(const V& v, Gen& g) {
  return g.flag() ? by_index<1>(v) : cuhksz::Point<1>(v.c[0]);
}
template <> cuhksz::Point<2> K<2>::make(const V& v, Gen& g) {
  return g.flag() ? by_index<2>(v) : cuhksz::Point<2>(v.c[0], v.c[1]);
}
template <> cuhksz::Point<3> K<3>::make(const V& v, Gen& g) {
  return g.flag() ? by_index<3>(v) : cuhksz::Point<3>(v.c[0], v.c[1], v.c[2]);
}
template <int N> static std::string text(const V& v) {
  std::ostringstream os;
  os << std::setprecision(17) << "(";
  for (int i = 0; i < N; i++) os << (i ? ", " : "") << v.c[i];
  return os.str() + ")";
}
template <int N> static void cross_check(const cuhksz::Point<N>&, const cuhksz::Point<N>&, const V&, const V&) {}
template <> void cross_check<2>(const cuhksz::Point<2>& p, const cuhksz::Point<2>& q, const V& a, const V& b) {
  LD x = (LD)a.c[0] * b.c[1], y = (LD)a.c[1] * b.c[0];
  K<2>::close(cross(p, q), x - y, std::fabs(x) + std::fabs(y), "cross");
}

template <int N> static void gen_v(Gen& g, V& v, u64 style, int e) {
  for (int i = 0; i < N; i++) v.c[i] = style ? any_val(g) : exact_val(g, e);
}
template <int N> static void arith(Gen& g) {
  typedef cuhksz::Point<N> P;
  typedef K<N> T;
  V a, b;
  u64 style = g.draw(2);
  int e = (int)g.draw(40) - 20;
  gen_v<N>(g, a, style, e);
  if (g.chance(1, 6)) b = a;
  else gen_v<N>(g, b, style, e);
  double k = g.chance(1, 4) ? (double)g.zrange(-3, 3) : style ? any_val(g) : exact_val(g, e);
  NOTE("N=" << N << " a=" << text<N>(a) << " b=" << text<N>(b) << " k=" << k);
  P p = T::make(a, g), q = T::make(b, g);
  T::same(p, a, "constructed");
  P zero;
  for (int i = 0; i < N; i++) CHECK(zero[i] == 0, "default point is not the origin");
  V s, d, m, dv;
  LD dt = 0, mag = 0, ll = 0;
  for (int i = 0; i < N; i++) {
    s.c[i] = a.c[i] + b.c[i];
    d.c[i] = a.c[i] - b.c[i];
    m.c[i] = a.c[i] * k;
    dv.c[i] = k != 0 ? a.c[i] / k : 0;
    dt += (LD)a.c[i] * b.c[i];
    mag += std::fabs((LD)a.c[i] * b.c[i]);
    ll += (LD)a.c[i] * a.c[i];
  }
  T::same(p + q, s, "p + q");
  T::same(p - q, d, "p - q");
  T::same(p * k, m, "p * k");
  T::same(k * p, m, "k * p");
  if (k != 0) {
    P r = p / k;
    for (int i = 0; i < N; i++) T::close(r[i], dv.c[i], std::fabs((LD)dv.c[i]) + 1e-290L, "p / k");
    P r2 = p;
    P& rr = (r2 /= k);
    CHECK(&rr == &r2, "/= does not return its object");
    for (int i = 0; i < N; i++) T::close(r2[i], dv.c[i], std::fabs((LD)dv.c[i]) + 1e-290L, "p /= k");
  }
  T::close(p * q, dt, mag, "p * q");
  T::close(dot(p, q), dt, mag, "dot(p, q)");
  cross_check<N>(p, q, a, b);
  P c1 = p, c2 = p, c3 = p;
  P &x1 = (c1 += q), &x2 = (c2 -= q), &x3 = (c3 *= k);
  CHECK(&x1 == &c1 && &x2 == &c2 && &x3 == &c3, "a compound operator does not return its object");
  T::same(c1, s, "p += q");
  T::same(c2, d, "p -= q");
  T::same(c3, m, "p *= k");
  T::same(p, a, "p after operators (operand changed)");
  T::same(q, b, "q after operators (operand changed)");
  LD len = std::sqrt(ll);
  if (len > 1e-150L || len == 0) {
    T::close(p.len(), len, len * 4, "len");
    T::same(p, a, "p after len()");
  }
  if (len > 1e-140L) {
    P n = p;
    n.normalize();
    for (int i = 0; i < N; i++) T::close(n[i], (LD)a.c[i] / len, 4 * std::fabs((LD)a.c[i] / len) + 1e-290L, "normalize");
    T::close(n.len(), 1, 10, "length after normalize");
  }
  // aliasing
  P al = p;
  al += al;
  for (int i = 0; i < N; i++) s.c[i] = a.c[i] + a.c[i];
  T::same(al, s, "p += p");
  al = p;
  al -= al;
  for (int i = 0; i < N; i++) s.c[i] = 0;
  T::same(al, s, "p -= p");
  int at = (int)g.draw(N);
  al = p;
  al *= al[at];
  for (int i = 0; i < N; i++) s.c[i] = a.c[i] * a.c[at];
  T::same(al, s, "p *= p[i]");
  if (a.c[at] != 0) {
    al = p;
    al /= al[at];
    for (int i = 0; i < N; i++) T::close(al[i], (LD)a.c[i] / a.c[at], 4 * std::fabs((LD)a.c[i] / a.c[at]) + 1e-290L, "p /= p[i]");
  }
  // copies are independent
  P cp(p);
  P as;
  as = p;
  P& self = as;
  as = self;
  cp[at] = a.c[at] + 1;
  T::same(p, a, "p after changing a copy");
  T::same(as, a, "assigned point");
  as[at] = b.c[at];
  T::same(p, a, "p after changing an assigned copy");
  // text
  std::ostringstream o1, o2;
  int prec = (int)g.draw(18);
  o1 << std::setprecision(prec) << p;
  o2 << std::setprecision(prec) << "(" << a.c[0];
  for (int i = 1; i < N; i++) o2 << ", " << a.c[i];
  o2 << ")";
  CHECK(o1.str() == o2.str(), "printed " << o1.str() << ", expected " << o2.str());
  g.nontrivial(N >= 2 && mag > 0);
}
static void f_arith(Gen& g) {
  switch (g.draw(9)) {
    case 7: return g.draw(4) ? arith<8>(g) : arith<33>(g);
    case 8: return g.draw(4) ? arith<8>(g) : arith<17>(g);
    case 0: return arith<2>(g);
    case 1: return arith<1>(g);
    case 2: return arith<3>(g);
    case 3: return arith<4>(g);
    case 4: return arith<5>(g);
    case 5: return arith<8>(g);
    default: return arith<2>(g);
  }
}

static int lex(const V& a, const V& b, int n) {
  for (int i = 0; i < n; i++) {
    if (a.c[i] < b.c[i]) return -1;
    if (a.c[i] > b.c[i]) return 1;
  }
  return 0;
}
template <int N> static void order(Gen& g) {
  typedef cuhksz::Point<N> P;
  V v[4];
  u64 style = g.draw(3);
  for (int k = 0; k < 4; k++) {
    if (k && g.chance(1, 2)) {  // a neighbour of an earlier point
      v[k] = v[g.draw(k)];
      int at = (int)g.draw(N);
      switch (g.draw(5)) {
        case 0: break;
        case 1: v[k].c[at] += (double)g.zrange(-20, 20) * 1e-7; break;
        case 2: v[k].c[at] += (double)g.zrange(-2, 2); break;
        case 3: v[k].c[at] = std::nextafter(v[k].c[at], g.flag() ? 1e300 : -1e300); break;
        default: v[k].c[at] = -v[k].c[at];
      }
    } else
      for (int i = 0; i < N; i++) v[k].c[i] = style == 0 ? (double)g.zrange(-2, 2) : style == 1 ? any_val(g) : (double)g.draw(2);
    NOTE("v" << k << "=" << text<N>(v[k]));
  }
  bool tie = false;
  for (int i = 0; i < 4; i++)
    for (int j = 0; j < 4; j++) {
      P p = by_index<N>(v[i]), q = by_index<N>(v[j]);
      int o = lex(v[i], v[j], N);
      if (i != j && N > 1 && v[i].c[0] == v[j].c[0]) tie = true;
      CHECK((p < q) == (o < 0), text<N>(v[i]) << " < " << text<N>(v[j]));
      CHECK((p <= q) == (o <= 0), text<N>(v[i]) << " <= " << text<N>(v[j]));
      CHECK((p > q) == (o > 0), text<N>(v[i]) << " > " << text<N>(v[j]));
      CHECK((p >= q) == (o >= 0), text<N>(v[i]) << " >= " << text<N>(v[j]));
      bool eq = true, ne = false;  // decided equal / decided different
      for (int c = 0; c < N; c++) {
        LD dd = std::fabs((LD)v[i].c[c] - v[j].c[c]);
        if (dd > 0.99e-6L) eq = false;
        if (dd > 1.01e-6L) ne = true;
      }
      if (eq) CHECK(p == q && !(p != q), text<N>(v[i]) << " == " << text<N>(v[j]));
      if (ne) CHECK(p != q && !(p == q), text<N>(v[i]) << " != " << text<N>(v[j]));
      CHECK((p == q) == !(p != q) && (p == q) == (q == p), "== and != disagree");
    }
  g.nontrivial(tie);
}
static void f_order(Gen& g) {
  switch (g.draw(6)) {
    case 5: return g.draw(4) ? order<8>(g) : g.flag() ? order<17>(g) : order<33>(g);
    case 0: return order<2>(g);
    case 1: return order<3>(g);
    case 2: return order<1>(g);
    case 3: return order<5>(g);
    default: return order<8>(g);
  }
}

// a history of compound operations on three points
static void f_history(Gen& g) {
  const int N = 3;
  typedef cuhksz::Point<N> P;
  P p[3];
  V v[3];
  for (int k = 0; k < 3; k++)
    for (int i = 0; i < N; i++) p[k][i] = v[k].c[i] = (double)g.zrange(-9, 9);
  Loop l(g, len_class(g, 25));
  int steps = 0;
  while (l.next()) {
    int x = (int)g.draw(3), y = (int)g.draw(3), z = (int)g.draw(3);
    double k = (double)g.zrange(-4, 4);
    u64 op = g.draw(9);
    NOTE("op " << op << " " << x << " " << y << " " << z << " k=" << k);
    V old = v[x], ry = v[y], rz = v[z];
    double rk = op == 4 ? ry.c[(int)(l.n % N)] : k;
    for (int i = 0; i < N; i++) {
      double& t = v[x].c[i];
      switch (op) {
        case 0: t = ry.c[i] + rz.c[i]; break;
        case 1: t = ry.c[i] - rz.c[i]; break;
        case 2: t = old.c[i] + ry.c[i]; break;
        case 3: t = old.c[i] - ry.c[i]; break;
        case 4: t = old.c[i] * rk; break;
        case 5: t = ry.c[i] * k; break;
        case 6: t = ry.c[i]; break;
        case 7: t = i == (int)(l.n % N) ? k : old.c[i]; break;
        default: t = ry.c[i] * (v[y].c[0] == 0 && y != x ? 1 : 1);
      }
    }
    bool big = false;
    for (int i = 0; i < N; i++) big |= std::fabs(v[x].c[i]) > 1e12;
    if (big) {
      v[x] = old;
      continue;
    }
    switch (op) {
      case 0: p[x] = p[y] + p[z]; break;
      case 1: p[x] = p[y] - p[z]; break;
      case 2: p[x] += p[y]; break;
      case 3: p[x] -= p[y]; break;
      case 4: p[x] *= p[y][(int)(l.n % N)]; break;
      case 5: p[x] = g.flag() ? p[y] * k : k * p[y]; break;
      case 6: p[x] = p[y]; break;
      case 7: p[x][(int)(l.n % N)] = k; break;
      default: p[x] = P(p[y]);
    }
    steps++;
    for (int k2 = 0; k2 < 3; k2++) K<N>::same(p[k2], v[k2], "after a step");
  }
  g.nontrivial(steps >= 3);
}

PBT_MAIN({"arithmetic", 1600000, f_arith, 0}, {"order", 1000000, f_order, 0}, {"history", 500000, f_history, 0})
