#include "vals.h"
#include <cmath>
#include <limits>
#include <sstream>
#include "containers/Vector.h"
using cuhksz::Vector;

typedef Vector<int> V1;
typedef Vector<V1> V2;
typedef Vector<V2> V3;

static const char WS[] = " \t\n\v\f\r";
static std::string ws(Gen& g) {
  std::string s;
  if (g.draw(3) == 0) return s;
  Loop l(g, 2, 6);
  while (l.next()) s += WS[g.draw(6)];
  return s;
}
// --- independent printer
template <class T> struct Pr { static std::string s(const T& t) { std::ostringstream o; o << t; return o.str(); } };
template <> struct Pr<long long> { static std::string s(long long t) { return std::to_string(t); } };
template <> struct Pr<int> { static std::string s(int t) { return std::to_string(t); } };
template <class T> struct Pr<std::vector<T> > {
  static std::string s(const std::vector<T>& v) {
    std::string r = "{";
    for (size_t i = 0; i < v.size(); i++) r += (i ? ", " : "") + Pr<T>::s(v[i]);
    return r + "}";
  }
  static std::string spaced(Gen& g, const std::vector<T>& v) {
    std::string r = "{";
    for (size_t i = 0; i < v.size(); i++) r += (i ? ws(g) + "," : std::string()) + ws(g) + Pr<T>::s(v[i]);
    return r + ws(g) + "}";
  }
};
// --- model <-> library
template <class T> struct Conv {
  typedef T L;
  static L to(const T& t) { return t; }
  static bool eq(const L& a, const T& b) { return a == b; }
};
template <class T> struct Conv<std::vector<T> > {
  typedef Vector<typename Conv<T>::L> L;
  static L to(const std::vector<T>& v) {
    L r;
    for (auto& x : v) r.push(Conv<T>::to(x));
    return r;
  }
  static bool eq(const L& a, const std::vector<T>& b) {
    if (a.size() != (int)b.size()) return false;
    for (size_t i = 0; i < b.size(); i++)
      if (!Conv<T>::eq(a[(int)i], b[i])) return false;
    return true;
  }
};
template <class T> struct G { static T gen(Gen& g, int) { return Val<T>::gen(g); } };
template <> struct G<char> { static char gen(Gen& g, int) { static const char a[] = "abcXYZ0189.-+_{[(:"; return a[g.draw(sizeof a - 1)]; } };
template <> struct G<unsigned> { static unsigned gen(Gen& g, int) { return (unsigned)g.integer(0, UINT_MAX); } };
template <class T> struct G<std::vector<T> > {
  static std::vector<T> gen(Gen& g, int d) {
    std::vector<T> v;
    Loop l(g, d == 0 ? len_class(g, 100) : 2, 600);
    while (l.next()) v.push_back(G<T>::gen(g, d + 1));
    return v;
  }
};
template <class T>
static void roundtrip(Gen& g) {
  typedef std::vector<T> M;
  typedef typename Conv<M>::L L;
  M m = G<M>::gen(g, 0);
  L v = Conv<M>::to(m);
  std::string want = Pr<M>::s(m);
  std::ostringstream os;
  os << v;
  NOTE(quote(want.substr(0, 200)));
  CHECK(os.str() == want, "printed " << quote(os.str()) << " not " << quote(want));
  // reading back: alone, followed by data, several in one stream, odd spacing
  M m2 = G<M>::gen(g, 1);
  std::string pre = ws(g), rest = g.flag() ? gen_string(g, "}{,1 x", 6) : "";
  bool spaced = g.flag();
  std::string text = pre + (spaced ? Pr<M>::spaced(g, m) : want);
  std::istringstream is(text + rest);
  L r = Conv<M>::to(m2);  // old contents must disappear
  NOTE("read " << quote((text + rest).substr(0, 300)));
  std::istream& back = (is >> r);
  CHECK(&back == &is, "returns its stream");
  CHECK(Conv<M>::eq(r, m), "read back differs from what was printed");
  CHECK(!is.fail() && !is.bad(), "stream still good");
  std::string left;
  char c;
  while (is.get(c)) left += c;
  CHECK(left == rest, "left in the stream " << quote(left) << " not " << quote(rest));
  // two in a row
  std::stringstream ss;
  ss << v << (g.flag() ? "" : " ") << Conv<M>::to(m2);
  L a, b;
  ss >> a >> b;
  CHECK(Conv<M>::eq(a, m) && Conv<M>::eq(b, m2), "two vectors written and read in sequence");
  g.nontrivial(m.size() >= 1);
  if (m.size() >= 2) g.label("two or more elements");
  if (m.empty()) g.label("empty");
}
// the number format of the stream holds for every element
template <class T> struct Num;
template <> struct Num<int> { static int gen(Gen& g) { return g.int32(); } static const bool fl = false; };
template <> struct Num<long long> { static long long gen(Gen& g) { return Val<long long>::gen(g); } static const bool fl = false; };
template <> struct Num<unsigned> { static unsigned gen(Gen& g) { return (unsigned)g.integer(0, UINT_MAX); } static const bool fl = false; };
template <> struct Num<double> {
  static double gen(Gen& g) {
    double d = Val<double>::gen(g);
    u64 k = g.draw(4);
    if (k == 0) return d;
    if (k == 1) return d / (double)(1 + g.draw(1000));
    return std::ldexp(1 + (double)g.draw(1ull << 52) / (double)(1ull << 52), (int)g.zrange(-60, 60)) * (g.flag() ? 1 : -1);
  }
  static const bool fl = true;
};
template <> struct Num<float> { static float gen(Gen& g) { return (float)Num<double>::gen(g); } static const bool fl = true; };
template <class T> static std::string each(const std::ios& fmt, const T& t) {
  std::ostringstream o;
  o.copyfmt(fmt);
  o << t;
  return o.str();
}
template <class T> static std::string each(const std::ios& fmt, const std::vector<T>& v) {
  std::string r = "{";
  for (size_t i = 0; i < v.size(); i++) r += (i ? ", " : "") + each(fmt, v[i]);
  return r + "}";
}
template <class T>
static void formatted(Gen& g) {
  std::vector<T> m, m2;
  Loop l(g, len_class(g, 20));
  while (l.next()) m.push_back(Num<T>::gen(g));
  std::stringstream ss;
  bool exact = true;
  if (Num<T>::fl) {
    int p = g.draw(3) ? std::numeric_limits<T>::max_digits10 : (int)g.draw(20);
    ss.precision(p);
    u64 k = g.draw(3);
    if (k == 1) ss << std::scientific;
    if (k == 2) ss << std::fixed;
    exact = k != 2 && p >= std::numeric_limits<T>::max_digits10;
  } else {
    u64 k = g.draw(3);
    if (k == 1) ss << std::hex;
    if (k == 2) ss << std::oct;
    // with a base other than ten, negative numbers print as the unsigned value
    if (k) for (auto& x : m) x = x < 0 ? (T)(-1 - x) : x;
  }
  if (g.draw(3) == 0) ss << std::showpos;
  if (g.draw(3) == 0) ss << std::uppercase;
  if (g.draw(3) == 0) ss << std::showbase;
  cuhksz::Vector<T> v(m);
  std::string want = each(ss, m);
  ss << v;
  NOTE(quote(want.substr(0, 300)));
  CHECK(ss.str() == want, "printed " << quote(ss.str()) << " not " << quote(want));
  cuhksz::Vector<T> r(3, T(7));
  ss >> r;
  CHECK(!ss.fail() && r.size() == (int)m.size(), "read back " << r.size() << " of " << m.size());
  if (exact)
    for (size_t i = 0; i < m.size(); i++) CHECK(r[(int)i] == m[i], "element " << i << " read back");
  std::vector<std::vector<T> > mm;
  mm.push_back(m);
  mm.push_back(std::vector<T>(m.rbegin(), m.rend()));
  mm.push_back(std::vector<T>());
  std::ostringstream os;
  os.copyfmt(ss);
  os << Conv<std::vector<std::vector<T> > >::to(mm);
  CHECK(os.str() == each(ss, mm), "nested, printed " << quote(os.str()));
  g.nontrivial(m.size() >= 2);
}
static void huge(Gen& g) {
  int n = huge_size(g);
  std::vector<int> m = bulk_seq<int>(g, n), m2 = bulk_seq<int>(g, (int)g.draw(2000));
  cuhksz::Vector<int> v(m);
  std::ostringstream os;
  os << v;
  NOTE(n << " elements");
  CHECK(os.str() == Pr<std::vector<int> >::s(m), "printing " << n << " elements");
  std::istringstream is(os.str() + " rest");
  cuhksz::Vector<int> r(m2);
  is >> r;
  CHECK(!is.fail() && r.size() == n, "read back " << r.size() << " of " << n << " elements");
  for (int i = 0; i < n; i++) CHECK(r[i] == m[i], "element " << i << " of " << n);
  std::string rest;
  is >> rest;
  CHECK(rest == "rest", "what follows the vector");
  g.nontrivial(true);
}
// --- recogniser for `ws { ws } | { elem , elem }` with int elements, nested to depth d
struct Rd {
  const std::string& s;
  size_t p;
  explicit Rd(const std::string& t) : s(t), p(0) {}
  void sp() { while (p < s.size() && strchr(WS, s[p]) && s[p]) p++; }
  bool num(int& out) {
    sp();
    size_t b = p;
    if (p < s.size() && (s[p] == '+' || s[p] == '-')) p++;
    size_t d = p;
    long long v = 0;
    bool big = false;
    while (p < s.size() && s[p] >= '0' && s[p] <= '9') {
      v = v * 10 + (s[p] - '0');
      if (v > 4000000000ll) { big = true; v = 4000000000ll; }
      p++;
    }
    if (p == d || big) return false;
    if (s[b] == '-') v = -v;
    if (v < INT_MIN || v > INT_MAX) return false;
    out = (int)v;
    return true;
  }
  bool elem(int& o) { return num(o); }
  template <class T>
  bool elem(std::vector<T>& o) { return vec(o); }
  template <class T>
  bool vec(std::vector<T>& out) {
    out.clear();
    sp();
    if (p >= s.size() || s[p] != '{') return false;
    p++;
    sp();
    if (p < s.size() && s[p] == '}') { p++; return true; }
    while (true) {
      T t = T();
      if (!elem(t)) return false;
      out.push_back(t);
      sp();
      if (p >= s.size()) return false;
      if (s[p] == '}') { p++; return true; }
      if (s[p] != ',') return false;
      p++;
    }
  }
};
template <class T>
static void arbitrary(Gen& g) {
  typedef std::vector<T> M;
  typedef typename Conv<M>::L L;
  std::string s;
  static const std::string soup = "{},1 -2+9\n0x;.a";
  if (g.draw(4) == 0) {
    s = gen_string(g, soup, 25);
  } else {
    M m = G<M>::gen(g, 1);
    s = g.flag() ? Pr<M>::s(m) : Pr<M>::spaced(g, m);
    int edits = (int)g.draw(3) + (g.draw(4) ? 1 : 0);
    for (int i = 0; i < edits && !s.empty(); i++) {
      size_t p = g.draw(s.size() + 1);
      switch (g.draw(6)) {
        case 0: s.resize(p); break;                                             // truncate
        case 1: if (p < s.size()) s.erase(p, 1); break;                         // drop a character
        case 2: s.insert(p, 1, soup[g.draw(soup.size())]); break;               // insert
        case 3: if (p < s.size()) s[p] = soup[g.draw(soup.size())]; break;      // replace
        case 4: { size_t q = s.rfind('}'); if (q != std::string::npos) s.insert(q, ","); break; }  // trailing comma
        default: s.insert(p, g.flag() ? "99999999999" : "x");
      }
    }
  }
  M want;
  Rd rd(s);
  bool ok = rd.vec(want);
  NOTE((ok ? "valid " : "malformed ") << quote(s));
  L* v = new L;
  if (ok) {
    std::istringstream is(s);
    is >> *v;
    CHECK(Conv<M>::eq(*v, want), "read value differs for " << quote(s));
    std::string left;
    char c;
    while (is.get(c)) left += c;
    CHECK(left == s.substr(rd.p), "left in the stream " << quote(left));
    delete v;
    g.label("valid");
  } else {
    std::istringstream* is = new std::istringstream(s);
    must_error("reading " + quote(s), [&] { *is >> *v; });
    g.label("malformed");
  }
  g.nontrivial(s.size() >= 2);
}
PBT_MAIN({"roundtrip_int", 40000, roundtrip<int>, 0}, {"roundtrip_ll", 20000, roundtrip<long long>, 0},
         {"roundtrip_unsigned", 10000, roundtrip<unsigned>, 0},
         {"roundtrip_char", 10000, roundtrip<char>, 0},
         {"roundtrip_nested", 20000, roundtrip<std::vector<int> >, 0},
         {"roundtrip_nested2", 15000, roundtrip<std::vector<std::vector<int> > >, 0},
         {"format_double", 20000, formatted<double>, 0}, {"format_float", 10000, formatted<float>, 0},
         {"format_int", 15000, formatted<int>, 0}, {"format_unsigned", 10000, formatted<unsigned>, 0}, {"format_ll", 10000, formatted<long long>, 0},
         {"huge", 200, huge, 0}, {"arbitrary_int", 100000, arbitrary<int>, 0}, {"arbitrary_nested", 50000, arbitrary<std::vector<int> >, 0})
