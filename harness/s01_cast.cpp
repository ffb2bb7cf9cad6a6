#include "strgen.h"
#include <cfloat>
#include "string_utils/StringCast.h"
using cuhksz::stringCast;

// casts through several call forms, with other casts made in between
template <class T, class Same> static void cast_is(Gen& g, const std::string& text, const T& want, Same same, const char* type) {
  NOTE("stringCast<" << type << ">(" << brief(text) << ")");
  std::string* s = new std::string(text);
  stringCast<T> early(*s);  // converted after its source is gone
  stringCast<T> copy = early;
  T a = stringCast<T>(text)();
  T b = (T)stringCast<T>(text);
  T c = stringCast<T>(std::string(text));
  if (g.flag()) *s = "77777777777";
  delete s;
  std::string other = "x" + std::string((size_t)g.draw(40), 'y');
  T d = stringCast<T>(other)();
  (void)d;
  T e = early(), f = copy, h = early;
  CHECK(same(a, want), "stringCast<" << type << ">(" << brief(text) << ")() gave " << a << " want " << want);
  CHECK(same(b, want), "(T)stringCast<" << type << ">(" << brief(text) << ") gave " << b << " want " << want);
  CHECK(same(c, want), "implicit stringCast<" << type << ">(" << brief(text) << ") gave " << c << " want " << want);
  CHECK(same(e, want) && same(f, want) && same(h, want), "a delayed stringCast<" << type << ">(" << brief(text) << ") gave " << e << " and " << f << " want " << want);
}
template <class T> static bool eq(const T& a, const T& b) { return a == b; }
template <class T> static std::string pad(Gen& g, const std::string& s, bool tail) {
  static const char W[] = " \t\n\r\v\f";
  std::string r;
  if (g.draw(4) == 0) { Loop l(g, 1, 5); while (l.next()) r += W[g.draw(6)]; }
  r += s;
  if (tail && g.draw(4) == 0) { r += W[g.draw(6)]; if (g.flag()) r += "junk 12"; }
  return r;
}
template <class T> static void ints(Gen& g, const char* n) {
  T v;
  if (std::numeric_limits<T>::is_signed) v = (T)g.integer((i64)std::numeric_limits<T>::min(), (i64)std::numeric_limits<T>::max());
  else if (sizeof(T) == 8) v = g.flag() ? (T)g.integer(0, INT64_MAX) : (T)(~(u64)0 - (u64)g.integer(0, INT64_MAX));
  else v = (T)g.integer(0, (i64)std::numeric_limits<T>::max());
  std::string t = std::to_string(v);
  if (v >= 0 && g.draw(8) == 0) t = "+" + t;
  else if (v >= 0 && g.draw(8) == 0) t = std::string(1 + g.draw(3), '0') + t;
  cast_is<T>(g, pad<T>(g, t, true), v, eq<T>, n);
  g.nontrivial(t.size() >= 2);
}
void integers(Gen& g) {
  switch (g.draw(8)) {
    case 0: ints<short>(g, "short"); break;
    case 1: ints<unsigned short>(g, "unsigned short"); break;
    case 2: case 3: ints<int>(g, "int"); break;
    case 4: ints<unsigned>(g, "unsigned"); break;
    case 5: ints<long>(g, "long"); break;
    case 6: ints<unsigned long>(g, "unsigned long"); break;
    default: ints<long long>(g, "long long");
  }
}
static bool feq(const float& a, const float& b) { return a == b && std::signbit(a) == std::signbit(b); }
static bool deq(const double& a, const double& b) { return a == b && std::signbit(a) == std::signbit(b); }
static bool leq(const long double& a, const long double& b) { return a == b; }
static double gen_double(Gen& g) {
  for (;;) {
    double d;
    switch (g.draw(4)) {
      case 0: d = (double)g.zrange(-1000, 1000) / (double)(1 << g.draw(8)); break;
      case 1: d = std::ldexp((double)g.zrange(-1000000, 1000000), (int)g.zrange(-300, 300)); break;
      case 2: { u64 b = g.draw(0); memcpy(&d, &b, 8); break; }
      default: d = (double)g.integer(INT64_MIN, INT64_MAX);
    }
    if (d - d == 0 && (d == 0 || std::fabs(d) >= DBL_MIN)) return d;
    return 1.5;
  }
}
void floats(Gen& g) {
  char b[600];
  double d = gen_double(g);
  switch (g.draw(4)) {
    case 0: case 1: {
      snprintf(b, sizeof b, g.flag() ? "%.17g" : "%.17e", d);
      cast_is<double>(g, pad<double>(g, b, true), d, deq, "double");
      break;
    }
    case 2: {
      float f = (float)d;
      if (!(f - f == 0) || (f != 0 && std::fabs(f) < FLT_MIN)) f = 0.25f;
      snprintf(b, sizeof b, g.flag() ? "%.9g" : "%.9e", (double)f);
      cast_is<float>(g, pad<float>(g, b, true), f, feq, "float");
      break;
    }
    default: {
      long double l = (long double)d / 3;
      snprintf(b, sizeof b, "%.21Lg", l);
      cast_is<long double>(g, pad<double>(g, b, true), l, leq, "long double");
    }
  }
  g.nontrivial(d != 0);
}
void words(Gen& g) {
  switch (g.draw(3)) {
    case 0: {
      bool v = g.flag();
      cast_is<bool>(g, pad<bool>(g, v ? "1" : "0", true), v, eq<bool>, "bool");
      break;
    }
    case 1: {
      unsigned char c;
      do c = (unsigned char)(33 + g.draw(223)); while (c >= 127 && c < 160 && isspace(c));
      char v = (char)c;
      if (g.draw(10) == 0) v = '\0';
      cast_is<char>(g, pad<char>(g, std::string(1, v), true), v, eq<char>, "char");
      break;
    }
    default: {
      std::string w;
      do { w = gen_bytes(g, 100); for (auto& c : w) if (isspace((unsigned char)c)) c = 'w'; if (w.empty()) w = "w"; } while (w.empty());
      cast_is<std::string>(g, pad<std::string>(g, w, true), w, eq<std::string>, "string");
    }
  }
  g.nontrivial();
}
// very long texts: a long word, many blanks before or after the value, many leading zeros
void long_text(Gen& g) {
  int n = huge_size(g);
  Bulk b(g);
  u64 k = g.draw(4);
  if (k == 0) {
    std::string w;
    for (int i = 0; i < n; i++) w += (char)(33 + b.next(94));
    cast_is<std::string>(g, w, w, eq<std::string>, "string");
    cast_is<std::string>(g, w + " tail", w, eq<std::string>, "string");
  } else {
    int v = g.int32();
    std::string t = std::to_string(v);
    if (k == 1) t = std::string(n, ' ') + t;
    else if (k == 2) t = t + std::string(n, ' ') + "x";
    else if (v >= 0) t = std::string(n, '0') + t;
    cast_is<int>(g, t, v, eq<int>, "int");
  }
  g.nontrivial();
}
// nothing to parse
template <class T> static void none(Gen& g, const char* n) {
  static const char* bad[] = {"", " ", "abc", "-", "+", "--1", "x1", "\n\n", ".", "e5", "\t \t", "#", ",", "()", "/", "-x"};
  std::string t = bad[g.draw(16)];
  if (g.draw(3) == 0) t = std::string((size_t)g.draw(5), ' ') + t;
  volatile char junk[256];
  for (int i = 0; i < 256; i++) junk[i] = (char)0xA5;
  cast_is<T>(g, t, T(), eq<T>, n);
  g.nontrivial();
}
void unparsable(Gen& g) {
  switch (g.draw(8)) {
    case 0: none<int>(g, "int"); break;
    case 1: none<long>(g, "long"); break;
    case 2: none<unsigned>(g, "unsigned"); break;
    case 3: none<double>(g, "double"); break;
    case 4: none<float>(g, "float"); break;
    case 5: none<short>(g, "short"); break;
    case 6: none<bool>(g, "bool"); break;
    default: {  // char and string: blank text only
      std::string t((size_t)g.draw(4), ' ');
      cast_is<char>(g, t, '\0', eq<char>, "char");
      cast_is<std::string>(g, t, "", eq<std::string>, "string");
      g.nontrivial();
    }
  }
}
// any text: deterministic, and equal to what an independent parse of a valid prefix gives
void arbitrary(Gen& g) {
  static const std::string A = "0123456789+-.eE xX\tinf";
  std::string t = g.draw(3) ? gen_string(g, A, 12) : gen_bytes(g, 30);
  NOTE(brief(t));
  int a = stringCast<int>(t)(), b = stringCast<int>(t)();
  long c = stringCast<long>(t)(), d = (long)stringCast<long>(t);
  double e = stringCast<double>(t)(), f = (double)stringCast<double>(t);
  CHECK(a == b && c == d && (e == f || (e != e && f != f)), "two casts of " << brief(t) << " differ");
  // a leading decimal integer in range is the value
  size_t i = 0;
  while (i < t.size() && (t[i] == ' ' || t[i] == '\t' || t[i] == '\n' || t[i] == '\v' || t[i] == '\f' || t[i] == '\r')) i++;
  bool neg = false;
  if (i < t.size() && (t[i] == '+' || t[i] == '-')) neg = t[i++] == '-';
  long v = 0;
  size_t k = i;
  while (k < t.size() && t[k] >= '0' && t[k] <= '9' && k - i < 9) v = v * 10 + (t[k++] - '0');
  if (k > i && !(k < t.size() && t[k] >= '0' && t[k] <= '9')) {
    CHECK(a == (neg ? -v : v), "stringCast<int>(" << brief(t) << ") = " << a);
    g.label("leading integer");
    g.nontrivial();
  } else if (k == i) {
    CHECK(a == 0, "stringCast<int>(" << brief(t) << ") = " << a << " from no digits");
    g.label("no integer");
  } else g.label("long integer");
}
PBT_MAIN({"integers", 120000, integers, 0}, {"floats", 60000, floats, 0}, {"words", 50000, words, 0}, {"long_text", 500, long_text, 0},
         {"unparsable", 30000, unparsable, 0}, {"arbitrary", 60000, arbitrary, 0})
