#include <sstream>
#include "math_utils/Fraction.h"
#include "vals.h"
typedef cuhksz::Fraction F;
typedef __int128 Big;

struct Q {  // exact rational, lowest terms, d > 0
  Big n, d;
  Q() : n(0), d(1) {}
  Q(Big a, Big b) : n(a), d(b) {
    if (d < 0) n = -n, d = -d;
    Big x = n < 0 ? -n : n, y = d;
    while (y) {
      Big t = x % y;
      x = y;
      y = t;
    }
    n /= x;
    d /= x;
  }
  std::string str() const { return std::to_string((long long)n) + "/" + std::to_string((long long)d); }
};
static bool in(Big v) { return v > INT_MIN && v <= INT_MAX; }
static Q qadd(const Q& a, const Q& b) { return Q(a.n * b.d + b.n * a.d, a.d * b.d); }
static Q qsub(const Q& a, const Q& b) { return Q(a.n * b.d - b.n * a.d, a.d * b.d); }
static Q qmul(const Q& a, const Q& b) { return Q(a.n * b.n, a.d * b.d); }
static Q qdiv(const Q& a, const Q& b) { return Q(a.n * b.d, a.d * b.n); }
// the products a direct evaluation in int needs
static bool cross(const Q& a, const Q& b) { return in(a.n * b.d) && in(b.n * a.d); }
static bool can_add(const Q& a, const Q& b) { return cross(a, b) && in(a.d * b.d) && in(a.n * b.d + b.n * a.d); }
static bool can_sub(const Q& a, const Q& b) { return cross(a, b) && in(a.d * b.d) && in(a.n * b.d - b.n * a.d); }
static bool can_mul(const Q& a, const Q& b) { return in(a.n * b.n) && in(a.d * b.d); }
static bool can_div(const Q& a, const Q& b) { return b.n != 0 && cross(a, b); }

static void same(F f, const Q& q, const std::string& what) {
  CHECK(f.getNumerator() == q.n && f.getDenominator() == q.d,
        what << ": got " << f.getNumerator() << "/" << f.getDenominator() << ", expected " << q.str());
  std::ostringstream os;
  os << f;
  CHECK(os.str() == q.str(), what << ": printed as " << os.str() << ", expected " << q.str());
}
static int part(Gen& g) {
  switch (g.draw(6)) {
    case 0: return (int)g.zrange(-12, 12);
    case 1: return (int)g.zrange(-1000, 1000);
    case 2: return (int)g.zrange(-46340, 46340);
    case 3: return (int)g.integer(-INT_MAX, INT_MAX);
    case 4: return (int)(g.zrange(-60, 60) * g.range(1, 60));  // many common divisors
    default: return (int)g.integer(-40000, 40000);
  }
}
static F make(Gen& g, Q& q) {
  if (g.chance(1, 5)) {
    int v = part(g);
    q = Q(v, 1);
    if (g.flag()) { F f = v; return f; }
    return F(v);
  }
  if (g.chance(1, 30)) { q = Q(); return F(); }
  int n = part(g), d = part(g);
  if (d == 0) d = 1;
  q = Q(n, d);
  return F(n, d);
}
static void cmps(const F& a, const F& b, const Q& x, const Q& y) {
  CHECK((a == b) == (x.n == y.n && x.d == y.d), x.str() << " == " << y.str());
  CHECK((a != b) == !(x.n == y.n && x.d == y.d), x.str() << " != " << y.str());
  if (!cross(x, y)) return;
  Big l = x.n * y.d, r = y.n * x.d;
  CHECK((a < b) == (l < r), x.str() << " < " << y.str());
  CHECK((a <= b) == (l <= r), x.str() << " <= " << y.str());
  CHECK((a > b) == (l > r), x.str() << " > " << y.str());
  CHECK((a >= b) == (l >= r), x.str() << " >= " << y.str());
}
static void binary(Gen& g) {
  Q x, y;
  const F a = make(g, x);
  F b0 = make(g, y);
  if (g.chance(1, 6)) {  // the same value through other terms
    Big k = g.zrange(-50, 50);
    if (k == 0) k = 2;
    if (in(x.n * k) && in(x.d * k)) b0 = F((int)(x.n * k), (int)(x.d * k)), y = x;
  }
  const F b = b0;
  NOTE(x.str() << " and " << y.str());
  same(a, x, "construction");
  same(b, y, "construction");
  cmps(a, b, x, y);
  int ops = 0;
  if (can_add(x, y)) {
    same(a + b, qadd(x, y), "a+b");
    F t(a);
    t += b;
    same(t, qadd(x, y), "a+=b");
    ops++;
  }
  if (can_sub(x, y)) {
    same(a - b, qsub(x, y), "a-b");
    F t(a);
    t -= b;
    same(t, qsub(x, y), "a-=b");
    ops++;
  }
  if (can_mul(x, y)) {
    same(a * b, qmul(x, y), "a*b");
    F t(a);
    t *= b;
    same(t, qmul(x, y), "a*=b");
    ops++;
  }
  if (can_div(x, y)) {
    same(a / b, qdiv(x, y), "a/b");
    F t(a);
    t /= b;
    same(t, qdiv(x, y), "a/=b");
    ops++;
  }
  same(a, x, "operand after the operations");
  same(b, y, "operand after the operations");
  if (ops == 4) g.label("all four operations");
  g.nontrivial(ops >= 2 && (x.d > 1 || y.d > 1));
}
static void with_int(Gen& g) {
  Q x;
  const F a = make(g, x);
  int v = part(g);
  Q y(v, 1);
  NOTE(x.str() << " and the integer " << v);
  int ops = 0;
  if (can_add(x, y)) {
    same(a + v, qadd(x, y), "a+int");
    same(v + a, qadd(x, y), "int+a");
    F t(a);
    t += v;
    same(t, qadd(x, y), "a+=int");
    ops++;
  }
  if (can_sub(x, y)) {
    same(a - v, qsub(x, y), "a-int");
    F t(a);
    t -= v;
    same(t, qsub(x, y), "a-=int");
    ops++;
  }
  if (can_sub(y, x)) same(v - a, qsub(y, x), "int-a");
  if (can_mul(x, y)) {
    same(a * v, qmul(x, y), "a*int");
    same(v * a, qmul(x, y), "int*a");
    F t(a);
    t *= v;
    same(t, qmul(x, y), "a*=int");
    ops++;
  }
  if (can_div(x, y)) {
    same(a / v, qdiv(x, y), "a/int");
    F t(a);
    t /= v;
    same(t, qdiv(x, y), "a/=int");
    ops++;
  }
  if (can_div(y, x)) same(v / a, qdiv(y, x), "int/a");
  cmps(a, v, x, y);
  F t(a);
  t = v;
  same(t, y, "assigned int");
  same(a, x, "operand after the operations");
  g.nontrivial(ops >= 2 && x.d > 1);
}
static void history(Gen& g) {
  F r[3];
  Q m[3];
  int steps = 0;
  Loop l(g, len_class(g, 50), 300);
  while (l.next()) {
    int i = (int)g.draw(3), j = (int)g.draw(3), k = (int)g.draw(3);
    u64 op = g.draw(11);
    switch (op) {
      case 0: case 1: r[i] = make(g, m[i]); NOTE("r" << i << " = " << m[i].str()); break;
      case 2: if (!can_add(m[j], m[k])) continue; NOTE("r" << i << " = r" << j << " + r" << k); r[i] = r[j] + r[k]; m[i] = qadd(m[j], m[k]); break;
      case 3: if (!can_sub(m[j], m[k])) continue; NOTE("r" << i << " = r" << j << " - r" << k); r[i] = r[j] - r[k]; m[i] = qsub(m[j], m[k]); break;
      case 4: if (!can_mul(m[j], m[k])) continue; NOTE("r" << i << " = r" << j << " * r" << k); r[i] = r[j] * r[k]; m[i] = qmul(m[j], m[k]); break;
      case 5: if (!can_div(m[j], m[k])) continue; NOTE("r" << i << " = r" << j << " / r" << k); r[i] = r[j] / r[k]; m[i] = qdiv(m[j], m[k]); break;
      case 6: if (!can_add(m[i], m[k])) continue; NOTE("r" << i << " += r" << k); r[i] += r[k]; m[i] = qadd(m[i], m[k]); break;
      case 7: if (!can_sub(m[i], m[k])) continue; NOTE("r" << i << " -= r" << k); r[i] -= r[k]; m[i] = qsub(m[i], m[k]); break;
      case 8: if (!can_mul(m[i], m[k])) continue; NOTE("r" << i << " *= r" << k); r[i] *= r[k]; m[i] = qmul(m[i], m[k]); break;
      case 9: if (!can_div(m[i], m[k])) continue; NOTE("r" << i << " /= r" << k); r[i] /= r[k]; m[i] = qdiv(m[i], m[k]); break;
      default: if (i != j && g.chance(1, 4)) { NOTE("r" << i << " and r" << j << " swapped"); std::swap(r[i], r[j]); std::swap(m[i], m[j]); break; } NOTE("r" << i << " = r" << j); r[i] = r[j]; m[i] = m[j];
    }
    steps++;
    for (int q = 0; q < 3; q++) same(r[q], m[q], "register");
    cmps(r[i], r[j], m[i], m[j]);
  }
  g.nontrivial(steps >= 3);
}
static void zero_div(Gen& g) {
  Q x;
  F a = make(g, x);
  int v = part(g);
  F z = g.flag() ? F(0, v ? v : 1) : F();
  volatile int zero = 0;
  switch (g.draw(6)) {
    case 0: must_error("Fraction(" + std::to_string(v) + ", 0)", [&] { F f(v, zero); (void)f; }); break;
    case 1: must_error(x.str() + " / Fraction(0)", [&] { a / z; }); break;
    case 2: must_error(x.str() + " /= Fraction(0)", [&] { a /= z; }); break;
    case 3: must_error(x.str() + " / 0", [&] { a / (int)zero; }); break;
    case 4: must_error(x.str() + " /= 0", [&] { a /= (int)zero; }); break;
    default: must_error(std::to_string(v) + " / Fraction(0)", [&] { v / z; });
  }
  g.nontrivial();
}
PBT_MAIN({"operands", 600000, binary, 0}, {"integers", 400000, with_int, 0}, {"history", 60000, history, 0},
         {"zero", 40000, zero_div, 0})
