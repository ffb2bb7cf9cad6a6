#include "mat_common.h"
#include "math_utils/math_functions.h"
typedef __int128 Big;

static bool rep(Big v, i64 lo, i64 hi) { return v >= lo && v <= hi; }
// base^exp by repeated multiplication; false when it leaves [lo,hi]
static bool ref_pow(i64 b, u64 e, i64 lo, i64 hi, i64* out) {
  if (b == 0 || b == 1 || b == -1) {
    *out = e == 0 ? 1 : b == -1 ? (e % 2 ? -1 : 1) : b;
    return true;
  }
  Big r = 1;
  for (u64 i = 0; i < e; i++) {
    r *= b;
    if (!rep(r, lo, hi)) return false;
  }
  *out = (i64)r;
  return true;
}
// the largest |b| with b^e representable in 63 bits, roughly
static i64 root(u64 e, double bits) {
  if (e <= 1) return e == 0 ? (1LL << 40) : (bits >= 62 ? LLONG_MAX : (1LL << (int)bits) - 1);
  return (i64)std::pow(2.0, bits / (double)e);
}
static i64 gen_base(Gen& g, u64 e, double bits, i64 lo, i64 hi) {
  i64 m = root(e, bits);
  if (m < 1) m = 1;
  i64 b;
  switch (g.draw(5)) {
    case 0: b = (i64)g.zrange(-3, 3); break;
    case 1: b = m - (i64)g.draw(3) + 1; break;
    case 2: b = -(m - (i64)g.draw(3) + 1); break;
    case 3: b = (g.flag() ? 1 : -1) * (i64)(1ull << g.draw(40)); break;
    default: b = g.integer(std::max(lo, -m), std::min(hi, m));
  }
  if (b < lo || b > hi) b = (i64)g.zrange(-2, 2);
  return b;
}
static void int64_pow(Gen& g) {
  u64 e = g.draw(5) == 0 ? g.draw(1u << 31) : g.draw(66);
  i64 b = gen_base(g, e, 63, LLONG_MIN, LLONG_MAX), want;
  if (!ref_pow(b, e, LLONG_MIN, LLONG_MAX, &want)) {
    e = g.draw(4);
    if (!ref_pow(b, e, LLONG_MIN, LLONG_MAX, &want)) e = e ? 1 : 0, want = e ? b : 1;
  }
  NOTE("binaryPow(" << b << ", " << e << ")");
  i64 got = cuhksz::binaryPow(b, (int)e);
  CHECK(got == want, "binaryPow(" << b << ", " << e << ") = " << got << ", expected " << want);
  g.nontrivial(e >= 2 && b * b > 1);
}
template <class B, class E>
static void gen_num(Gen& g, i64 lo, i64 hi, double bits, u64 emax) {
  u64 e = g.draw(5) == 0 ? g.draw(emax + 1) : g.draw(std::min<u64>(emax, 66) + 1);
  i64 b = gen_base(g, e, bits, lo, hi), want;
  if (!ref_pow(b, e, lo, hi, &want)) {
    e = g.draw(4);
    if (!ref_pow(b, e, lo, hi, &want)) e = e ? 1 : 0, want = e ? b : 1;
  }
  NOTE("genericBinaryPow(" << b << ", " << e << ")");
  B got = cuhksz::genericBinaryPow((B)b, (E)e);
  CHECK(got == (B)want, "genericBinaryPow(" << b << ", " << e << ") = " << got << ", expected " << want);
  g.nontrivial(e >= 2 && b * b > 1);
}
static void generic_numbers(Gen& g) {
  switch (g.draw(6)) {
    case 0: gen_num<int, int>(g, INT_MIN, INT_MAX, 31, INT_MAX); break;
    case 1: gen_num<long long, int>(g, LLONG_MIN, LLONG_MAX, 63, INT_MAX); break;
    case 2: gen_num<long long, long long>(g, LLONG_MIN, LLONG_MAX, 63, LLONG_MAX); break;
    case 3: gen_num<int, short>(g, INT_MIN, INT_MAX, 31, SHRT_MAX); break;
    case 4: gen_num<double, unsigned>(g, -(1LL << 53), 1LL << 53, 53, UINT_MAX); break;
    default: gen_num<long long, unsigned char>(g, LLONG_MIN, LLONG_MAX, 63, 255);
  }
}
// the monoid of exponents: the value is the power itself
#ifndef VERIF_PLAIN
template <bool FromInt> struct Expo;
template <> struct Expo<true> {
  u64 v;
  explicit Expo(int one) : v(0) { CHECK(one == 1, "the zeroth power was built from " << one); }
  static Expo gen() { Expo e(1); e.v = 1; return e; }
  Expo operator*(const Expo& o) const { Expo r(*this); r *= o; return r; }
  Expo& operator*=(const Expo& o) { v += o.v; return *this; }
};
template <> struct Expo<false> {
  u64 v;
  struct Tag {};
  explicit Expo(Tag) : v(1) {}
  static Expo gen() { return Expo(Tag()); }
  Expo operator*(const Expo& o) const { Expo r(*this); r *= o; return r; }
  Expo& operator*=(const Expo& o) { v += o.v; return *this; }
};
template <bool FI, class E>
static void expo(Gen& g, u64 emax) {
  u64 e;
  switch (g.draw(4)) {
    case 0: e = g.draw(std::min<u64>(emax, 40)); break;
    case 1: { e = 1ull << g.draw(63); e += g.draw(3); e -= 1; if (e > emax) e %= emax; break; }
    case 2: e = emax - g.draw(4); break;
    default: e = g.draw(emax);
  }
  if (!FI && e == 0) e = 1;
  NOTE("power " << e);
  Expo<FI> x = Expo<FI>::gen();
  Expo<FI> r = cuhksz::genericBinaryPow(x, (E)e);
  CHECK(r.v == e, "power " << e << " multiplies the base " << r.v << " times");
  CHECK(x.v == 1, "the base was modified");
  g.nontrivial(e >= 2);
}
static void exponents(Gen& g) {
  switch (g.draw(6)) {
    case 0: expo<true, int>(g, INT_MAX); break;
    case 1: expo<true, long long>(g, LLONG_MAX); break;
    case 2: expo<true, unsigned long long>(g, ~0ull >> 1); break;
    case 3: expo<false, int>(g, INT_MAX); break;
    case 4: expo<false, long long>(g, LLONG_MAX); break;
    default: expo<false, unsigned char>(g, 255);
  }
}
// words under concatenation, non-commuting matrices, fractions, Matrix
struct Word {
  std::string s;
  struct Tag {};
  Word(Tag, const std::string& t) : s(t) {}
  Word& operator*=(const Word& o) { std::string t = o.s; s += t; return *this; }
  Word operator*(const Word& o) const { Word r(*this); return r *= o; }
};
static void algebra(Gen& g) {
  u64 e = 1 + (g.draw(3) ? g.draw(12) : g.draw(200));
  switch (g.draw(4)) {
    case 0: {
      std::string w = gen_string(g, "ab", 6), x;
      for (u64 i = 0; i < e; i++) x += w;
      CHECK(cuhksz::genericBinaryPow(Word(Word::Tag(), w), (int)e).s == x, "word " << quote(w) << " to the power " << e);
      break;
    }
    case 1: {
      NC b((int)g.draw(101), (int)g.draw(101), (int)g.draw(101), (int)g.draw(101)), r(1);
      if (g.chance(1, 8)) e = 0;
      for (u64 i = 0; i < e; i++) r = r * b;
      CHECK(cuhksz::genericBinaryPow(b, (int)e) == r, b << " to the power " << e);
      break;
    }
    case 2: {
      int n = (int)g.zrange(-7, 7), d = 1 + (int)g.draw(7);
      cuhksz::Fraction f(n, d), r(1);
      if (g.chance(1, 8)) e = 0;
      Big pn = 1, pd = 1;
      int fn = f.getNumerator(), fd = f.getDenominator();
      u64 i = 0;
      for (; i < e; i++) {
        Big a = pn * fn, b = pd * fd;
        if (!rep(a, -INT_MAX, INT_MAX) || !rep(b, 1, INT_MAX)) break;
        pn = a, pd = b;
      }
      e = i;
      cuhksz::Fraction got = cuhksz::genericBinaryPow(f, (int)e);
      NOTE("fraction " << fn << "/" << fd << " to the power " << e);
      CHECK(got.getNumerator() == pn && got.getDenominator() == pd,
            fn << "/" << fd << " to the power " << e << " = " << got.getNumerator() << "/" << got.getDenominator());
      break;
    }
    default: {
      int n = (int)g.range(1, 3);
      Grid<NC> x(n, n), p;
      for (size_t i = 0; i < x.e.size(); i++) x.e[i] = NC((int)g.draw(101), (int)g.draw(5), (int)g.draw(101), (int)g.draw(101));
      if (e > 40) e %= 40;
      if (!e) e = 1;
      p = x;
      for (u64 i = 1; i < e; i++) p = gmul(p, x);
      cuhksz::Matrix<NC> m = cuhksz::genericBinaryPow(build(x), (int)e);
      for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++) CHECK(m[i][j] == p.at(i, j), "matrix " << x.str() << " to the power " << e);
    }
  }
  g.nontrivial(e >= 2);
}
#endif
static void domain(Gen& g) {
  i64 b = g.integer(LLONG_MIN, LLONG_MAX);
  int e = g.flag() ? -1 - (int)g.draw(10) : (int)g.integer(INT_MIN, -1);
  if (g.chance(1, 3)) b = (i64)g.zrange(-2, 2);
#ifndef VERIF_PLAIN
  u64 kinds = 4;
#else
  u64 kinds = 2;
#endif
  switch (g.draw(kinds)) {
    case 0: must_error("binaryPow(" + std::to_string(b) + "," + std::to_string(e) + ")", [&] { cuhksz::binaryPow(b, e); }); break;
    case 1: must_error("genericBinaryPow(" + std::to_string(b) + "," + std::to_string(e) + ")", [&] { cuhksz::genericBinaryPow(b, e); }); break;
#ifndef VERIF_PLAIN
    case 2: { int z = g.flag() ? 0 : e; must_error("genericBinaryPow(no unit, " + std::to_string(z) + ")", [&] { cuhksz::genericBinaryPow(Expo<false>::gen(), z); }); break; }
    default: { long long le = e; must_error("genericBinaryPow(Expo, " + std::to_string(e) + ")", [&] { cuhksz::genericBinaryPow(Expo<true>::gen(), le); }); }
#endif
  }
  g.nontrivial();
}
#ifdef VERIF_PLAIN
PBT_MAIN({"int64", 600000, int64_pow, 0}, {"generic_numbers", 600000, generic_numbers, 0}, {"domain", 40000, domain, 0})
#else
PBT_MAIN({"int64", 600000, int64_pow, 0}, {"generic_numbers", 600000, generic_numbers, 0}, {"exponents", 300000, exponents, 0},
         {"algebra", 120000, algebra, 0}, {"domain", 40000, domain, 0})
#endif
