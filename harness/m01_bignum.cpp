#include <sstream>
#include "math_utils/BigNum.h"
#include "vals.h"

// Independent reference: sign and decimal magnitude string without leading zeros ("" is zero).
struct Ref {
  bool neg;
  std::string m;  // most significant first
  Ref() : neg(false) {}
  Ref(bool n, const std::string& s) : neg(n), m(s) { norm(); }
  void norm() {
    size_t p = m.find_first_not_of('0');
    m = p == std::string::npos ? "" : m.substr(p);
    if (m.empty()) neg = false;
  }
  std::string str() const { return m.empty() ? "0" : (neg ? "-" : "") + m; }
};
static int mcmp(const std::string& a, const std::string& b) {
  if (a.size() != b.size()) return a.size() < b.size() ? -1 : 1;
  return a < b ? -1 : a > b ? 1 : 0;
}
static int rcmp(const Ref& a, const Ref& b) {
  if (a.neg != b.neg) return a.neg ? -1 : 1;
  int c = mcmp(a.m, b.m);
  return a.neg ? -c : c;
}
static std::string madd(const std::string& a, const std::string& b) {
  std::string r;
  int c = 0;
  for (size_t i = 0; i < a.size() || i < b.size() || c; i++) {
    if (i < a.size()) c += a[a.size() - 1 - i] - '0';
    if (i < b.size()) c += b[b.size() - 1 - i] - '0';
    r += (char)('0' + c % 10);
    c /= 10;
  }
  return std::string(r.rbegin(), r.rend());
}
static std::string msub(const std::string& a, const std::string& b) {  // a >= b
  std::string r;
  int bo = 0;
  for (size_t i = 0; i < a.size(); i++) {
    int d = a[a.size() - 1 - i] - '0' - bo - (i < b.size() ? b[b.size() - 1 - i] - '0' : 0);
    bo = d < 0;
    r += (char)('0' + (d + 10) % 10);
  }
  return std::string(r.rbegin(), r.rend());
}
static Ref rneg(const Ref& a) { return Ref(!a.neg, a.m); }
static Ref radd(const Ref& a, const Ref& b) {
  if (a.neg == b.neg) return Ref(a.neg, madd(a.m, b.m));
  if (mcmp(a.m, b.m) >= 0) return Ref(a.neg, msub(a.m, b.m));
  return Ref(b.neg, msub(b.m, a.m));
}
static Ref rsub(const Ref& a, const Ref& b) { return radd(a, rneg(b)); }
static Ref rmul(const Ref& a, const Ref& b) {
  std::vector<int> d(a.m.size() + b.m.size() + 1, 0);
  for (size_t i = 0; i < a.m.size(); i++)
    for (size_t j = 0; j < b.m.size(); j++)
      d[i + j] += (a.m[a.m.size() - 1 - i] - '0') * (b.m[b.m.size() - 1 - j] - '0');
  for (size_t i = 0; i + 1 < d.size(); i++) d[i + 1] += d[i] / 10, d[i] %= 10;
  std::string s;
  for (size_t i = d.size(); i-- > 0;) s += (char)('0' + d[i]);
  return Ref(a.neg != b.neg, s);
}
static Ref rint64(int64_t v) {
  uint64_t m = v < 0 ? 0 - (uint64_t)v : (uint64_t)v;
  return Ref(v < 0, std::to_string(m));
}

static std::string gen_mag(Gen& g, int maxd) {  // at most maxd digits
  int n;
  switch (g.draw(5)) {
    case 0: n = (int)g.draw(std::min(maxd, 3) + 1); break;
    case 1: n = maxd; break;
    case 2: n = maxd - (int)g.draw(std::min(maxd, 3) + 1); break;
    case 3: n = maxd / 2 + (int)g.draw(3) - 1; break;
    default: n = (int)g.draw(maxd + 1);
  }
  if (n < 0) n = 0;
  if (n > maxd) n = maxd;
  std::string s;
  u64 style = g.draw(5);
  for (int i = 0; i < n; i++) {
    if (style == 0) s += '9';                                    // carries
    else if (style == 1) s += i == 0 ? '1' : '0';                // borrows
    else if (style == 2) s += "0099159"[g.draw(7)];
    else s += (char)('0' + g.draw(10));
  }
  return s;
}
static Ref gen_ref(Gen& g, int maxd) { return Ref(g.flag(), gen_mag(g, maxd)); }
// a value near another one: equal, negated, off by one, same prefix
static Ref gen_near(Gen& g, const Ref& a, int maxd) {
  Ref r = a;
  switch (g.draw(6)) {
    case 0: break;
    case 1: r = rneg(a); break;
    case 2: r = radd(a, rint64(g.flag() ? 1 : -1)); break;
    case 3: if (!r.m.empty()) r.m[g.draw(r.m.size())] = (char)('0' + g.draw(10)); r.norm(); break;
    case 4: if (!r.m.empty()) r.m = r.m.substr(g.draw(r.m.size())); r.norm(); break;
    default: r = gen_ref(g, maxd);
  }
  if ((int)r.m.size() > maxd) return a;
  return r;
}

template <int N>
struct T {
  typedef cuhksz::BigNum<N> B;
  static bool fits(const Ref& r) { return (int)r.m.size() <= N; }
  static B* dirty() {  // storage that held other data before
    void* p = malloc(sizeof(B));
    memset(p, 0x5a, sizeof(B));
    return (B*)p;
  }
  static B make(Gen& g, const Ref& r) {
    u64 k = g.draw(6);
    if (k < 2 && (r.m.size() <= 18)) return B((int64_t)atoll(r.str().c_str()));
    std::string s = r.m;
    if (k == 2 && (int)s.size() < N) s.insert(0, std::string(g.draw(N - s.size() + 1), '0'));
    if (s.empty()) s = "0";
    if (r.neg) s = "-" + s;
    if (r.m.empty() && (k == 3 || (k == 2 && g.flag()))) s = "-" + (k == 2 ? s : std::string("0"));
    if (k == 4) {  // through assignment over another value
      B b(gen_ref(g, N).str());
      b = B(s);
      return b;
    }
    if (k == 5) {  // through a copy made in dirty memory
      B* p = dirty();
      new (p) B(B(s));
      B b(*p);
      free(p);
      return b;
    }
    return B(s);
  }
  static void same(const B& b, const Ref& r, const std::string& what) {
    CHECK(b.toString() == r.str(), what << ": got " << b.toString() << ", expected " << r.str());
    const B& cb = b;
    for (size_t i = 0; i < r.m.size(); i++)
      CHECK(cb[(int)i] == r.m[r.m.size() - 1 - i] - '0', what << ": digit " << i);
    B q(r.str());
    CHECK(b == q && !(b != q), what << ": " << r.str() << " is not equal to itself");
  }
  static void cmps(const B& a, const B& b, const Ref& x, const Ref& y) {
    int c = rcmp(x, y);
    std::string w = x.str() + " vs " + y.str();
    CHECK((a == b) == (c == 0), "== " << w);
    CHECK((a != b) == (c != 0), "!= " << w);
    CHECK((a < b) == (c < 0), "< " << w);
    CHECK((a <= b) == (c <= 0), "<= " << w);
    CHECK((a > b) == (c > 0), "> " << w);
    CHECK((a >= b) == (c >= 0), ">= " << w);
    int k = cmp(a, b), ka = cmp(a, b, true), m = mcmp(x.m, y.m);
    CHECK((k < 0) == (c < 0) && (k > 0) == (c > 0), "cmp " << w << " gives " << k);
    CHECK((ka < 0) == (m < 0) && (ka > 0) == (m > 0), "cmp of absolute values " << w << " gives " << ka);
  }
  static void binary(Gen& g) {
    Ref x = gen_ref(g, N), y;
    u64 k = g.draw(4);
    if (k == 0) y = gen_near(g, x, N);
    else if (k == 1) y = gen_ref(g, std::max(1, N - (int)x.m.size()));  // product fits
    else y = gen_ref(g, N);
    if (!fits(x) || !fits(y)) return;
    const B a = make(g, x), b = make(g, y);
    NOTE("BigNum<" << N << "> " << x.str() << " and " << y.str());
    same(a, x, "construction");
    same(b, y, "construction");
    cmps(a, b, x, y);
    Ref s = radd(x, y), d = rsub(x, y), e = rsub(y, x), p = rmul(x, y);
    bool op = false;
    if (fits(s)) {
      same(a + b, s, "a+b");
      same(b + a, s, "b+a");
      B t(a);
      CHECK(&(t += b) == &t, "+= returns its object");
      same(t, s, "a+=b");
      op = true;
    }
    if (fits(d)) {
      same(a - b, d, "a-b");
      same(b - a, e, "b-a");
      B t(a);
      CHECK(&(t -= b) == &t, "-= returns its object");
      same(t, d, "a-=b");
      op = true;
    }
    if (fits(p)) {
      same(a * b, p, "a*b");
      same(b * a, p, "b*a");
      B t(a);
      CHECK(&(t *= b) == &t, "*= returns its object");
      same(t, p, "a*=b");
      op = true;
      g.label("product");
    }
    if (s.m.size() == (size_t)N || p.m.size() == (size_t)N) g.label("full-capacity result");
    same(-a, rneg(x), "-a");
    same(a.abs(), Ref(false, x.m), "a.abs()");
    same(abs(b), Ref(false, y.m), "abs(b)");
    same(a, x, "operand after the operations");
    same(b, y, "operand after the operations");
    g.nontrivial(op && x.m.size() >= 2 && y.m.size() >= 1);
  }
  static int64_t small(Gen& g) {
    int64_t v = g.flag() ? g.integer(-1000, 1000) : g.integer(INT64_MIN, INT64_MAX);
    return v;
  }
  static void smallint(Gen& g) {
    int64_t v = small(g);
    Ref y = rint64(v);
    if (!fits(y)) { v = (int64_t)g.zrange(-9, 9); y = rint64(v); }
    Ref x = g.flag() ? gen_near(g, y, N) : gen_ref(g, g.flag() ? N : std::max(1, N - (int)y.m.size()));
    if (!fits(x)) return;
    const B a = make(g, x);
    NOTE("BigNum<" << N << "> " << x.str() << " and int64 " << v);
    same(B(v), y, "from int64");
    B asg(x.str());
    asg = v;
    same(asg, y, "assigned int64");
    cmps(a, B(v), x, y);
    Ref s = radd(x, y), d = rsub(x, y), p = rmul(x, y);
    if (fits(s)) {
      same(a + v, s, "a + int64");
      B t(a);
      t += v;
      same(t, s, "a += int64");
    }
    if (fits(d)) {
      same(a - v, d, "a - int64");
      B t(a);
      t -= v;
      same(t, d, "a -= int64");
    }
    if (fits(p)) {
      same(a * v, p, "a * int64");
      B t(a);
      t *= v;
      same(t, p, "a *= int64");
    }
    Ref up = radd(x, rint64(1)), dn = rsub(x, rint64(1));
    if (fits(up)) {
      B t(a);
      CHECK(&++t == &t, "++ returns its object");
      same(t, up, "++a");
      B u(a);
      same(u++, x, "a++ returns the old value");
      same(u, up, "a++");
    }
    if (fits(dn)) {
      B t(a);
      CHECK(&--t == &t, "-- returns its object");
      same(t, dn, "--a");
      B u(a);
      same(u--, x, "a-- returns the old value");
      same(u, dn, "a--");
    }
    std::ostringstream os;
    os << a << "|" << toString(a);
    CHECK(os.str() == x.str() + "|" + x.str(), "printed " << os.str());
    same(a, x, "operand after the operations");
    g.nontrivial(x.m.size() >= 2);
  }
  // registers updated by a history of operations (operands may be the same object)
  static void history(Gen& g) {
    B r[3];
    Ref m[3];
    int steps = 0;
    Loop l(g, len_class(g, 100), 400);
    while (l.next()) {
      int i = (int)g.draw(3), j = (int)g.draw(3), k = (int)g.draw(3);
      Ref n;
      u64 op = g.draw(14);
      switch (op) {
        case 0: n = gen_ref(g, N); if (!fits(n)) continue; r[i] = make(g, n); m[i] = n; NOTE("r" << i << " = " << n.str()); break;
        case 1: n = radd(m[j], m[k]); if (!fits(n)) continue; NOTE("r" << i << " = r" << j << " + r" << k); r[i] = r[j] + r[k]; m[i] = n; break;
        case 2: n = rsub(m[j], m[k]); if (!fits(n)) continue; NOTE("r" << i << " = r" << j << " - r" << k); r[i] = r[j] - r[k]; m[i] = n; break;
        case 3: n = rmul(m[j], m[k]); if (!fits(n)) continue; NOTE("r" << i << " = r" << j << " * r" << k); r[i] = r[j] * r[k]; m[i] = n; break;
        case 4: n = radd(m[i], m[j]); if (!fits(n)) continue; NOTE("r" << i << " += r" << j); r[i] += r[j]; m[i] = n; break;
        case 5: n = rsub(m[i], m[j]); if (!fits(n)) continue; NOTE("r" << i << " -= r" << j); r[i] -= r[j]; m[i] = n; break;
        case 6: n = rmul(m[i], m[j]); if (!fits(n)) continue; NOTE("r" << i << " *= r" << j); r[i] *= r[j]; m[i] = n; break;
        case 7: NOTE("r" << i << " = -r" << j); r[i] = -r[j]; m[i] = rneg(m[j]); break;
        case 8: NOTE("r" << i << " = abs r" << j); r[i] = r[j].abs(); m[i] = Ref(false, m[j].m); break;
        case 9: n = radd(m[i], rint64(1)); if (!fits(n)) continue; NOTE("++r" << i); ++r[i]; m[i] = n; break;
        case 10: n = rsub(m[i], rint64(1)); if (!fits(n)) continue; NOTE("--r" << i); --r[i]; m[i] = n; break;
        case 11: if (i != j && g.chance(1, 4)) { NOTE("r" << i << " and r" << j << " swapped"); std::swap(r[i], r[j]); std::swap(m[i], m[j]); break; } NOTE("r" << i << " = r" << j); r[i] = r[j]; m[i] = m[j]; break;
        case 12: {
          int64_t v = (int64_t)g.zrange(-99, 99);
          n = radd(m[i], rint64(v));
          if (!fits(n) || !fits(rint64(v))) continue;
          NOTE("r" << i << " += " << v);
          r[i] += v;
          m[i] = n;
          break;
        }
        default: {
          int64_t v = (int64_t)g.zrange(-9, 9);
          n = rmul(m[i], rint64(v));
          if (!fits(n)) continue;
          NOTE("r" << i << " *= " << v);
          r[i] *= v;
          m[i] = n;
        }
      }
      steps++;
      for (int q = 0; q < 3; q++) same(r[q], m[q], "register");
    }
    for (int q = 0; q < 3; q++) cmps(r[q], r[(q + 1) % 3], m[q], m[(q + 1) % 3]);
    g.nontrivial(steps >= 3);
  }
};
#define BY_CAP(what)                          \
  static void what(Gen& g) {                  \
    switch (g.draw(5)) {                      \
      case 0: T<20>::what(g); break;          \
      case 1: T<1>::what(g); break;           \
      case 2: T<3>::what(g); break;           \
      case 3: T<8>::what(g); break;           \
      default: T<70>::what(g);                \
    }                                         \
  }
BY_CAP(binary)
BY_CAP(smallint)
BY_CAP(history)
static void large(Gen& g) {
  switch (g.draw(6)) {
    case 0: T<260>::binary(g); break;
    case 1: T<260>::history(g); break;
    case 2: T<1300>::smallint(g); break;
    case 3: T<1300>::history(g); break;
    default: T<1300>::binary(g);
  }
}
PBT_MAIN({"operands", 400000, binary, 0}, {"int64_forms", 200000, smallint, 0}, {"history", 40000, history, 0},
         {"large_capacity", 1500, large, 0})
