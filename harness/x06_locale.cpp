// The environment: results do not depend on the program's locale, on errno or on the state of
// streams, and no call changes any of them.
#include "jobs.h"
#include <cerrno>
#include <cfenv>
#include <clocale>
#include <cmath>
#include <limits>
#include "json_common.h"
// ---- locales: a C++ locale with the punctuation of some country and the C library's locale
struct Punct : std::numpunct<char> {
  char dec, sep;
  Str grp, yes, no;
  Punct(char d, char s, const Str& g, const Str& y, const Str& n) : dec(d), sep(s), grp(g), yes(y), no(n) {}
  char do_decimal_point() const { return dec; }
  char do_thousands_sep() const { return sep; }
  Str do_grouping() const { return grp; }
  Str do_truename() const { return yes; }
  Str do_falsename() const { return no; }
};
struct Place { const char* name; std::locale cpp; const char* c; bool comma, group; };
static std::locale cpp(char d, char s, const char* g, const char* y, const char* n) { return std::locale(std::locale::classic(), new Punct(d, s, g, y, n)); }
static const std::vector<Place>& places() {
  static std::vector<Place> p;
  if (p.size()) return p;
  p.push_back({"C++ locale: decimal comma", cpp(',', '.', "", "true", "false"), "C", true, false});
  p.push_back({"C++ locale: decimal comma, points between thousands, wahr/falsch", cpp(',', '.', "\3", "wahr", "falsch"), "C", true, true});
  p.push_back({"C++ locale: decimal comma, blanks between thousands, oui/non", cpp(',', ' ', "\3", "oui", "non"), "C", true, true});
  p.push_back({"C++ locale: decimal point, commas between thousands", cpp('.', ',', "\3", "true", "false"), "C", false, true});
  p.push_back({"C++ locale: decimal point, commas between groups of two after the first three", cpp('.', ',', "\3\2", "yes", "no"), "C", false, true});
  p.push_back({"C++ locale: decimal point, apostrophes between thousands", cpp('.', '\'', "\3", "true", "false"), "C", false, true});
  // a German locale of the C library, which run.py prepares (LOCPATH); without it the others are used
  static const char de[] = "de_DE.UTF-8";
  if (setlocale(LC_ALL, de)) {
    p.push_back({"C locale de_DE.UTF-8", std::locale::classic(), de, true, true});
    p.push_back({"C locale de_DE.UTF-8, C++ locale: decimal point, commas between thousands", cpp('.', ',', "\3", "true", "false"), de, true, true});
    setlocale(LC_ALL, "C");
    try {
      std::locale both(de);
      p.push_back({"global locale de_DE.UTF-8", both, de, true, true});
    } catch (std::exception&) {}
  }
  setlocale(LC_ALL, "C");
  return p;
}
struct Ambient {  // what no call may change
  std::locale l;
  Str c;
  int round;
  std::ios_base::fmtflags f[3];
  std::streamsize prec[3], width[3];
  Ambient() : l(), c(setlocale(LC_ALL, 0)), round(fegetround()) {
    std::ios* s[3] = {&std::cout, &std::cerr, &std::cin};
    for (int i = 0; i < 3; i++) f[i] = s[i]->flags(), prec[i] = s[i]->precision(), width[i] = s[i]->width();
  }
  Str change() const {
    Ambient n;
    if (!(n.l == l)) return "the global C++ locale is " + n.l.name();
    if (n.c != c) return "the C locale is " + n.c;
    if (n.round != round) { fesetround(round); return "the rounding mode is another"; }
    std::ios* s[3] = {&std::cout, &std::cerr, &std::cin};
    for (int i = 0; i < 3; i++) if (n.f[i] != f[i] || n.prec[i] != prec[i] || n.width[i] != width[i]) s[i]->flags(f[i]), s[i]->precision(prec[i]), s[i]->width(width[i]);
    for (int i = 0; i < 3; i++) if (n.f[i] != f[i] || n.prec[i] != prec[i] || n.width[i] != width[i]) return Str("the format of std::") + (i == 0 ? "cout" : i == 1 ? "cerr" : "cin") + " is another";
    return "";
  }
};
struct In {  // the program in that place, until the end of the scope
  Ambient* a;
  In(const Place& p, u64 err) {
    std::locale::global(p.cpp);
    setlocale(LC_ALL, p.c);
    a = new Ambient;
    static const int e[] = {0, ERANGE, EINVAL, EINTR};
    errno = e[err % 4];
  }
  void leave() {
    Str s = a->change();
    out();
    CHECK(s.empty(), "after the calls " << s);
  }
  void out() {
    if (!a) return;
    delete a;
    a = 0;
    std::locale::global(std::locale::classic());
    setlocale(LC_ALL, "C");
  }
  ~In() { out(); }
};
static const Place& place(Gen& g) {
  const Place& p = places()[g.draw(places().size())];
  NOTE(p.name);
  return p;
}
// ---- JSON
static void json_dump(Gen& g) {
  const Place& p = place(g);
  int budget = (int)len_class(g, 60);
  MV m = g.draw(3) ? gen_mv(g, 1 + (int)g.draw(5), false, budget) : gen_scalar(g, false);
  J j;
  build(g, j, m);
  NOTE(show(m));
  Str a = j.dump(), esc = cuhksz::jsonEscape(a), b, esc2, shown;
  u64 e = g.draw(4);
  {
    In in(p, e);
    b = j.dump();
    esc2 = cuhksz::jsonEscape(a);
    Out o;
    o << j;
    shown = o.str();
    in.leave();
  }
  CHECK(a == b, "dump() gives " << brief(b) << " and in the classic locale " << brief(a));
  CHECK(a == shown, "printing gives " << brief(shown) << " and dump() in the classic locale " << brief(a));
  CHECK(esc == esc2, "jsonEscape gives another text than in the classic locale");
  Str df = differ(j, m, 0);
  CHECK(df.empty(), "after dump(): " << df);
  g.nontrivial(a.find_first_of("0123456789") != Str::npos);
}
static void json_load(Gen& g) {
  const Place& p = place(g);
  MV m;
  if (g.flag()) {
    m = MV::of(Ty::Array);
    Loop l(g, 3, 20);
    while (l.next()) m.a.push_back(g.flag() ? MV::real(1) : MV::integer(g.int32()));
  } else {
    int budget = (int)len_class(g, 60);
    m = gen_mv(g, 1 + (int)g.draw(5), false, budget);
  }
  Speller sp(g);
  Str t = sp.ws() + sp.value(m) + sp.ws();
  NOTE(brief(t));
  MV ref;
  Strict st(t, false);
  st.ws();
  st.value(ref, 1);
  if (st.out_of_range) return;
  J j;
  Str back;
  u64 e = g.draw(4);
  {
    In in(p, e);
    j = cuhksz::loadJSON(t);
    back = cuhksz::loadJSON(j.dump()).dump();
    in.leave();
  }
  Str df = differ(j, m, 1e-12);
  CHECK(df.empty(), "loadJSON(" << brief(t) << "): " << df);
  CHECK(back == j.dump(), "the dumped value, loaded and dumped again: " << brief(back) << ", not " << brief(j.dump()));
  g.nontrivial(t.find_first_of("0123456789") != Str::npos);
}
// texts that may be malformed are accepted or rejected alike
static void json_reject(Gen& g) {
  const Place& p = place(g);
  static const char* T[] = {"{", "}", "[", "]", ":", ",", "\"a\"", "1", "-", "1.5", "1,5", "1e5", "1.000", "1,000", "true", "wahr", "false", "null", " ", "0", ".", "\"\\u0041\"", "{\"a\":", "[1,", "[]", "{}", "\xc2\xa0", "\xa0"};
  Str t;
  Loop l(g, 5, 30);
  bool wrap = g.flag();
  while (l.next()) t += T[g.draw(sizeof T / sizeof T[0])];
  if (wrap) t = "[" + t + "]";
  NOTE(brief(t));
  Str a, b;
  bool x = returns_or_errors("loadJSON", [&] { a = cuhksz::loadJSON(t).dump(); });
  u64 e = g.draw(4);
  In in(p, e);
  bool y = returns_or_errors("loadJSON", [&] { b = cuhksz::loadJSON(t).dump(); });
  in.leave();
  CHECK(x == y, brief(t) << " is " << (y ? "accepted" : "rejected") << " and in the classic locale " << (x ? "accepted" : "rejected"));
  CHECK(a == b, brief(t) << " loads as " << brief(b) << " and in the classic locale as " << brief(a));
  g.nontrivial(t.size() > 2);
}
// ---- casts invert printing in the same locale
template <class T> static void cast_one(Gen& g, const Place& p, T v) {
  bool pad = g.flag();
  u64 e = g.draw(4);
  T got, got2;
  Str s;
  {
    In in(p, e);
    std::ostringstream o;
    o.precision(std::numeric_limits<T>::max_digits10 ? std::numeric_limits<T>::max_digits10 : 6);
    o << v;
    s = (pad ? " \t" : "") + o.str();
    got = cuhksz::stringCast<T>(s);
    got2 = cuhksz::stringCast<T>(s)();
    in.leave();
  }
  NOTE(s);
  CHECK(got == v && got2 == v, "stringCast of \"" << s << "\", which is how " << v << " prints here, gives " << got << " and " << got2);
  g.nontrivial(s.size() > 1);
}
static double real(Gen& g) {
  if (g.draw(20) == 19) return -0.0;
  double d = (double)g.integer(INT64_MIN, INT64_MAX) / std::pow(2.0, (double)g.draw(80));
  return g.draw(4) ? d : (double)g.int32() / 8;
}
static void cast(Gen& g) {
  const Place& p = place(g);
  switch (g.draw(8)) {
    case 0: return cast_one<int>(g, p, g.int32());
    case 1: return cast_one<long long>(g, p, (long long)g.integer(INT64_MIN, INT64_MAX));
    case 2: return cast_one<unsigned>(g, p, (unsigned)g.int32());
    case 3: return cast_one<unsigned long>(g, p, (unsigned long)g.integer(INT64_MIN, INT64_MAX));
    case 4: return cast_one<bool>(g, p, g.flag());
    case 5: return cast_one<float>(g, p, (float)real(g));
    case 6: return cast_one<short>(g, p, (short)g.int32());
    default: return cast_one<double>(g, p, real(g));
  }
}
// ---- everything else: the same transcript as in the classic locale
static void others(Gen& g) {
  const Place& p = place(g);
  u64 seed = g.draw(1ull << 40);
  std::vector<int> todo;
  Loop l(g, 4, 10);
  while (l.next()) {
    int j = (int)g.draw(NJOBS);
    if (jobs[j] == j_cast) continue;             // follows the locale
    if (jobs[j] == j_matrix && p.c[1]) continue;  // Matrix::toString prints like printf
    todo.push_back(j);
  }
  Str s, a, b;
  for (int j : todo) s += Str(" ") + names[j];
  NOTE(s);
  u64 e = g.draw(4);
  for (int k = 0; k < 2; k++) {
    R r(seed);
    Out o;
    o.imbue(std::locale::classic());
    if (k == 0) {
      Ambient amb;
      for (int j : todo) { o << '[' << names[j] << ' '; jobs[j](r, o); o << ']'; }
      a = o.str();
      Str c = amb.change();
      CHECK(c.empty(), "after the calls " << c);
    } else {
      In in(p, e);
      for (int j : todo) { o << '[' << names[j] << ' '; jobs[j](r, o); o << ']'; }
      b = o.str();
      in.leave();
    }
  }
  if (a != b) {
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
    size_t f = a.rfind('[', i);
    if (f == Str::npos) f = 0;
    CHECK(false, "...\n" << b.substr(f, i - f + 80) << "\nin the classic locale\n" << a.substr(f, i - f + 80));
  }
  g.nontrivial(!todo.empty());
}
// ---- streams: what is printed follows the state of the stream, which stays as it was
struct Fmt {
  std::ios_base::fmtflags f;
  int prec;
  char fill;
  std::locale l;
};
static Fmt fmt(Gen& g) {
  Fmt r;
  r.f = std::ios_base::skipws;
  static const std::ios_base::fmtflags base[] = {std::ios_base::dec, std::ios_base::hex, std::ios_base::oct}, fl[] = {std::ios_base::fmtflags(), std::ios_base::fixed, std::ios_base::scientific},
                                       more[] = {std::ios_base::boolalpha, std::ios_base::showpos, std::ios_base::showpoint, std::ios_base::uppercase, std::ios_base::showbase, std::ios_base::unitbuf};
  r.f |= base[g.draw(2) ? 0 : g.draw(3)] | fl[g.draw(3)];
  for (auto m : more) if (g.draw(4) == 0) r.f |= m;
  r.prec = (int)g.draw(18);
  r.fill = " 0*"[g.draw(3)];
  if (g.draw(3) == 0) r.l = place(g).cpp;
  return r;
}
static void put(std::ios& s, const Fmt& f) { s.flags(f.f); s.precision(f.prec); s.fill(f.fill); s.imbue(f.l); }
template <class T, class E> static void print_one(const Fmt& f, const T& v, E expected, bool judged = true) {
  std::ostringstream o, want;
  put(o, f);
  put(want, f);
  Ambient amb;
  std::ostream& r = (o << v);
  Str s = amb.change();
  CHECK(s.empty(), "after printing " << s);
  CHECK(&r == &o, "printing gives back another stream");
  CHECK(o.flags() == f.f, "printing changes the flags of the stream");
  CHECK(o.precision() == f.prec, "printing changes the precision of the stream from " << f.prec << " to " << o.precision());
  CHECK(o.fill() == f.fill && o.width() == 0, "printing changes the fill character or width of the stream");
  CHECK(o.getloc() == f.l, "printing changes the locale of the stream");
  CHECK(o.good() && o.exceptions() == std::ios_base::goodbit, "printing changes the state of the stream");
  if (!judged) return;
  expected(want);
  CHECK(o.str() == want.str(), "prints " << brief(o.str()) << ", not " << brief(want.str()));
}
template <class T, class V> static void vec(const Fmt& f, Gen& g, V val) {
  std::vector<T> m;
  cuhksz::Vector<T> v;
  Loop l(g, 3, 12);
  while (l.next()) { m.push_back(val()); v.push(m.back()); }
  print_one(f, v, [&](std::ostream& o) { o << "{"; for (size_t i = 0; i < m.size(); i++) { if (i) o << ", "; o << m[i]; } o << "}"; });
  g.nontrivial(!m.empty());
}
static void print(Gen& g) {
  Fmt f = fmt(g);
  NOTE("flags " << (long)f.f << " precision " << f.prec << " fill " << f.fill);
  switch (g.draw(8)) {
    case 0: return vec<int>(f, g, [&] { return (int)g.int32(); });
    case 1: return vec<double>(f, g, [&] { return real(g); });
    case 2: return vec<float>(f, g, [&] { return (float)real(g); });
    case 3: {
      switch (g.draw(2)) {
        case 0: {
          cuhksz::Point<2> p(real(g), real(g));
          print_one(f, p, [&](std::ostream& o) { o << "(" << p[0] << ", " << p[1] << ")"; });
          break;
        }
        default: {
          cuhksz::Point<3> p(real(g), real(g), real(g));
          print_one(f, p, [&](std::ostream& o) { o << "(" << p[0] << ", " << p[1] << ", " << p[2] << ")"; });
        }
      }
      return g.nontrivial();
    }
    case 4: {
      // in lowest terms and with a positive denominator
      static const int d[] = {1, 2, 3, 4, 7, 10, 1000, 4096, 65536, 1000003};
      int b = d[g.draw(10)], a = (int)g.integer(-20000, 20000), x = a < 0 ? -a : a, y = b;
      while (y) { int t = x % y; x = y; y = t; }
      if (x) a /= x, b /= x;
      cuhksz::Fraction q(a, b);
      NOTE(a << "/" << b);
      print_one(f, q, [&](std::ostream& o) { o << a << "/" << b; });
      return g.nontrivial();
    }
    case 5: {
      int64_t n = g.integer(INT64_MIN, INT64_MAX);
      cuhksz::BigNum<40> b(n);
      NOTE(n);
      print_one(f, b, [&](std::ostream& o) { o << std::to_string(n); });
      return g.nontrivial();
    }
    case 6: {
      int budget = 12;
      MV m = gen_mv(g, 3, false, budget);
      J j;
      build(g, j, m);
      Str s = j.dump();
      print_one(f, j, [&](std::ostream& o) { o << s; });
      return g.nontrivial();
    }
    default: {
      int r = 1 + (int)g.draw(3), c = 1 + (int)g.draw(3);
      cuhksz::Matrix<double> m(r, c);
      for (int i = 0; i < r; i++) for (int k = 0; k < c; k++) m[i][k] = real(g);
      Str s = m.toString();
      print_one(f, m, [&](std::ostream& o) { o << s; });
      return g.nontrivial();
    }
  }
}
template <class T, class V> static void read_one(const Fmt& f, Gen& g, V val) {
  std::vector<T> m;
  cuhksz::Vector<T> v, w;
  Loop l(g, 3, 12);
  while (l.next()) { m.push_back(val()); v.push(m.back()); }
  std::ostringstream o;
  put(o, f);
  o << v;
  Str t = o.str();
  bool dense = !(f.f & std::ios_base::skipws);  // nothing is skipped: no blanks, please
  if (dense) t.erase(std::remove(t.begin(), t.end(), ' '), t.end());
  NOTE(brief(t));
  std::istringstream i(t + (dense ? "7" : " 7"));
  put(i, f);
  Ambient amb;
  i >> w;
  Str s = amb.change();
  CHECK(s.empty(), "after reading " << s);
  CHECK(i.flags() == f.f && i.precision() == f.prec && i.fill() == f.fill && i.getloc() == f.l && i.exceptions() == std::ios_base::goodbit, "reading changes the format of the stream");
  CHECK(w.size() == (int)m.size(), "reads " << w.size() << " elements of " << m.size());
  for (size_t k = 0; k < m.size(); k++) CHECK(w[(int)k] == m[k], "element " << k << " is read as " << w[(int)k] << ", not " << m[k]);
  int next = 0;
  CHECK((i >> next) && next == 7, "what follows the vector is not there to be read");
  g.nontrivial(!m.empty());
}
static void read(Gen& g) {
  Fmt f = fmt(g);
  f.l = std::locale::classic();
  f.prec = 17;
  if (f.f & std::ios_base::fixed) f.f &= ~std::ios_base::fixed;
  if (g.flag()) f.l = cpp('.', '\'', "\3", "yes", "no");
  if (g.draw(4) == 3) f.f &= ~std::ios_base::skipws;
  NOTE("flags " << (long)f.f);
  switch (g.draw(4)) {
    case 0: return read_one<unsigned>(f, g, [&] { return (unsigned)g.int32(); });
    case 1: return read_one<long>(f, g, [&] { return (long)(g.int32() & 0x7fffffff); });
    case 2: f.f |= std::ios_base::boolalpha; return read_one<short>(f, g, [&] { return (short)(g.int32() & 0x7fff); });
    default: return read_one<double>(f, g, [&] { return (double)g.int32() / 8; });
  }
}
PBT_MAIN({"json_dump", 12000, json_dump, 0}, {"json_load", 15000, json_load, 0}, {"json_reject", 10000, json_reject, 0}, {"cast", 30000, cast, 0}, {"others", 4000, others, 0},
         {"print", 30000, print, 0}, {"read", 20000, read, 0})
