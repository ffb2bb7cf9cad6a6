// a JSON value model, generators, an independent strict parser and a recogniser
// of everything the library documents or tests as acceptable
#ifndef VERIF_JSON_COMMON_H
#define VERIF_JSON_COMMON_H
#include "strgen.h"
#include <map>
#include <memory>
#include <vector>
#include "json/Json.h"
typedef cuhksz::JSONObject J;
typedef J::Type Ty;

struct MV {  // model value
  Ty t;
  bool b;
  int i;
  double d;
  std::string s;
  std::vector<MV> a;
  std::map<std::string, MV> o;
  MV() : t(Ty::Null), b(false), i(0), d(0) {}
  static MV boolean(bool v) { MV m; m.t = Ty::Boolean; m.b = v; return m; }
  static MV integer(int v) { MV m; m.t = Ty::Integral; m.i = v; return m; }
  static MV real(double v) { MV m; m.t = Ty::Float; m.d = v; return m; }
  static MV str(const std::string& v) { MV m; m.t = Ty::String; m.s = v; return m; }
  static MV of(Ty t) { MV m; m.t = t; return m; }
  void set_type(Ty n) { if (n != t) *this = of(n); }
  size_t nodes() const {
    size_t n = 1;
    for (auto& x : a) n += x.nodes();
    for (auto& x : o) n += x.second.nodes();
    return n;
  }
};
inline std::string jesc(const std::string& s) {
  std::string r;
  for (char c : s) switch (c) {
      case '"': r += "\\\""; break;
      case '\\': r += "\\\\"; break;
      case '\b': r += "\\b"; break;
      case '\f': r += "\\f"; break;
      case '\n': r += "\\n"; break;
      case '\r': r += "\\r"; break;
      case '\t': r += "\\t"; break;
      default: r += c;
    }
  return r;
}
inline const char* tname(Ty t) {
  switch (t) {
    case Ty::Null: return "null";
    case Ty::Object: return "object";
    case Ty::Array: return "array";
    case Ty::String: return "string";
    case Ty::Float: return "float";
    case Ty::Integral: return "integer";
    default: return "boolean";
  }
}
inline std::string show(const MV& m, int lim = 6) {
  std::ostringstream os;
  os << std::setprecision(17);
  switch (m.t) {
    case Ty::Null: return "null";
    case Ty::Boolean: return m.b ? "true" : "false";
    case Ty::Integral: os << m.i; return os.str();
    case Ty::Float: os << m.d << "f"; return os.str();
    case Ty::String: return brief(m.s);
    case Ty::Array: {
      if (lim <= 0) return "[..]";
      os << "[";
      int n = 0;
      for (auto& x : m.a) { if (n) os << ","; if (++n > 12) { os << "..."; break; } os << show(x, lim - 1); }
      os << "]";
      return os.str();
    }
    default: {
      if (lim <= 0) return "{..}";
      os << "{";
      int n = 0;
      for (auto& x : m.o) { if (n) os << ","; if (++n > 12) { os << "..."; break; } os << brief(x.first) << ":" << show(x.second, lim - 1); }
      os << "}";
      return os.str();
    }
  }
}
// "" when j is exactly m; otherwise where and how they differ.  tol: relative tolerance of floats
inline std::string differ(const J& j, const MV& m, double tol, const std::string& at = "$") {
  std::ostringstream os;
  os << std::setprecision(17) << at << ": ";
  if (j.getType() != m.t) { os << "type " << tname(j.getType()) << " want " << tname(m.t); return os.str(); }
  if (j.isNull() != (m.t == Ty::Null)) { os << "isNull"; return os.str(); }
  std::string ws = m.t == Ty::String ? jesc(m.s) : "";
  if (j.toString() != ws || (std::string)j != ws) { os << "string " << brief(j.toString()) << " want " << brief(ws); return os.str(); }
  double wd = m.t == Ty::Float ? m.d : 0;
  double gd = j.toDouble();
  if (!(gd == wd || std::fabs(gd - wd) <= tol * std::fabs(wd))) { os << "double " << gd << " want " << wd; return os.str(); }
  if (tol == 0 && gd == 0 && std::signbit(gd) != std::signbit(wd)) { os << "sign of zero"; return os.str(); }
  if ((double)j != gd || (float)j != (float)gd || j.toFloat() != (float)gd) { os << "float accessors disagree: " << gd; return os.str(); }
  int wi = m.t == Ty::Integral ? m.i : 0;
  if (j.toInt() != wi || (int)j != wi) { os << "int " << j.toInt() << " want " << wi; return os.str(); }
  bool wb = m.t == Ty::Boolean ? m.b : false;
  if (j.toBool() != wb || (bool)j != wb) { os << "bool " << j.toBool() << " want " << wb; return os.str(); }
  int wl = m.t == Ty::Array ? (int)m.a.size() : -1, wz = m.t == Ty::Object ? (int)m.o.size() : wl;
  if (j.length() != wl) { os << "length " << j.length() << " want " << wl; return os.str(); }
  if (j.size() != wz) { os << "size " << j.size() << " want " << wz; return os.str(); }
  {
    size_t n = 0;
    auto it = m.o.begin();
    for (auto& kv : j.ObjectRange()) {
      if (m.t != Ty::Object) { os << "ObjectRange of a " << tname(m.t) << " is not empty"; return os.str(); }
      if (it == m.o.end()) { os << "extra key " << brief(kv.first); return os.str(); }
      if (kv.first != it->first) { os << "key " << brief(kv.first) << " want " << brief(it->first); return os.str(); }
      if (!j.hasKey(it->first)) { os << "hasKey(" << brief(kv.first) << ") is false"; return os.str(); }
      std::string r = differ(kv.second, it->second, tol, at + "." + brief(it->first));
      if (!r.empty()) return r;
      if (&j.at(it->first) != &kv.second) { os << "at(" << brief(it->first) << ") is another value"; return os.str(); }
      ++it, ++n;
    }
    if (n != m.o.size()) { os << "ObjectRange visits " << n << " of " << m.o.size(); return os.str(); }
  }
  {
    size_t n = 0;
    for (auto& v : j.ArrayRange()) {
      if (m.t != Ty::Array) { os << "ArrayRange of a " << tname(m.t) << " is not empty"; return os.str(); }
      if (n >= m.a.size()) { os << "extra element"; return os.str(); }
      std::string r = differ(v, m.a[n], tol, at + "[" + std::to_string(n) + "]");
      if (!r.empty()) return r;
      if (&j.at((unsigned)n) != &v) { os << "at(" << n << ") is another value"; return os.str(); }
      n++;
    }
    if (n != m.a.size()) { os << "ArrayRange visits " << n << " of " << m.a.size(); return os.str(); }
  }
  return "";
}
inline bool same_model(const MV& a, const MV& b) {
  if (a.t != b.t) return false;
  switch (a.t) {
    case Ty::Null: return true;
    case Ty::Boolean: return a.b == b.b;
    case Ty::Integral: return a.i == b.i;
    case Ty::Float: return a.d == b.d;
    case Ty::String: return a.s == b.s;
    case Ty::Array:
      if (a.a.size() != b.a.size()) return false;
      for (size_t i = 0; i < a.a.size(); i++) if (!same_model(a.a[i], b.a[i])) return false;
      return true;
    default: {
      if (a.o.size() != b.o.size()) return false;
      auto p = a.o.begin(), q = b.o.begin();
      for (; p != a.o.end(); ++p, ++q) if (p->first != q->first || !same_model(p->second, q->second)) return false;
      return true;
    }
  }
}

// ---------------------------------------------------------------- strings
// raw: also control characters without a short escape
inline std::string gen_jstr(Gen& g, bool raw) {
  static const char* hot[] = {"", "a", "key", "\"", "\\", "\\\"", "a\\nb", "\n", "\t", "\\u0041", "/", "\\/", "}", "],[", "{\"a\":1}", "null", "true", "0", "\x7f", "\xc3\xa9", "\\\\", "\b\f\r", " ", ":", ",", "\\l"};
  switch (g.draw(5)) {
    case 0: case 1: return hot[g.draw(sizeof hot / sizeof hot[0])];
    case 2: return gen_string(g, "abc", 6);
    case 3: {
      static const std::string A = std::string("\"\\/\b\f\n\r\tnrtbfu09aF {}[]:,\xe4\xb8\xad");
      return gen_string(g, A, 25);
    }
    default: {
      std::string s = gen_bytes(g, 50);
      if (!raw) for (auto& c : s) if ((unsigned char)c < 32) c = 'c';
      return s;
    }
  }
}
inline std::string gen_key(Gen& g, bool raw) {
  if (g.draw(3)) { static const char* k[] = {"a", "b", "c", "d", "key", "A", "", "aa"}; return k[g.draw(8)]; }
  return gen_jstr(g, raw);
}
inline double gen_jdouble(Gen& g) {
  switch (g.draw(6)) {
    case 0: return (double)g.zrange(-1000, 1000) / 8;
    case 1: return (double)g.zrange(-100000000, 100000000) / 1000000;
    case 2: return std::ldexp((double)g.zrange(-1000000, 1000000), (int)g.zrange(-40, 60));
    case 3: return (double)g.integer(INT64_MIN, INT64_MAX);
    case 4: return g.flag() ? -0.0 : 0.0;
    default: return std::ldexp((double)g.zrange(-1000000, 1000000), (int)g.zrange(-400, 990));
  }
}
inline MV gen_scalar(Gen& g, bool raw) {
  switch (g.draw(6)) {
    case 0: return MV();
    case 1: return MV::boolean(g.flag());
    case 2: return MV::integer(g.int32());
    case 3: return MV::real(gen_jdouble(g));
    default: return MV::str(gen_jstr(g, raw));
  }
}
inline MV gen_mv(Gen& g, int depth, bool raw, int& budget) {
  budget--;
  if (depth <= 0 || budget <= 0 || g.draw(3) == 0) return gen_scalar(g, raw);
  MV m;
  if (g.flag()) {
    m.t = Ty::Array;
    Loop l(g, 3, 60);
    while (l.next()) m.a.push_back(gen_mv(g, depth - 1, raw, budget));
  } else {
    m.t = Ty::Object;
    Loop l(g, 3, 60);
    while (l.next()) {
      std::string k = gen_key(g, raw);
      m.o[k] = gen_mv(g, depth - 1, raw, budget);
    }
  }
  return m;
}
// ---------------------------------------------------------------- building through the API
inline void put_scalar(Gen& g, J& j, const MV& m) {
  switch (m.t) {
    case Ty::Null: if (g.flag()) j = J(); else j = nullptr; break;
    case Ty::Boolean: if (g.flag()) j = m.b; else j = J(m.b); break;
    case Ty::Integral: if (g.flag()) j = m.i; else j = J((long)m.i); break;
    case Ty::Float: if (g.flag()) j = m.d; else j = J(m.d); break;
    default: if (m.s.find('\0') == std::string::npos && g.flag()) j = m.s.c_str(); else if (g.flag()) j = m.s; else j = J(m.s);
  }
}
inline void build(Gen& g, J& j, const MV& m) {
  if (m.t == Ty::Array) {
    u64 how = g.draw(4);
    if (m.a.empty() || how == 0) j = J::Array();
    else if (how == 1) j = J::Build(Ty::Array);
    for (size_t i = 0; i < m.a.size(); i++) {
      if (how == 2 || g.draw(3) == 0) {
        if (i == 0 && how >= 2) { J t; build(g, t, m.a[0]); j = J::Array(t); }
        else { J t; build(g, t, m.a[i]); j.append(t); }
      } else {
        if (i == 0 && how >= 2) j = J();
        build(g, g.flag() ? j[(int)i] : j.at((unsigned)i), m.a[i]);
      }
    }
  } else if (m.t == Ty::Object) {
    if (m.o.size() == 1 && g.flag()) {
      J t;
      build(g, t, m.o.begin()->second);
      j = J{J(m.o.begin()->first), t};
      return;
    }
    if (m.o.size() == 2 && g.flag()) {
      J t, u;
      auto a = m.o.begin(), b = a;
      ++b;
      build(g, t, a->second);
      build(g, u, b->second);
      j = J{J(a->first), t, J(b->first), u};
      return;
    }
    j = g.flag() ? J::Object() : J::Build(Ty::Object);
    for (auto& kv : m.o) {
      bool c = kv.first.find('\0') == std::string::npos;
      J& r = c && g.flag() ? j[kv.first.c_str()] : g.flag() ? j[kv.first] : j.at(kv.first);
      build(g, r, kv.second);
    }
  } else put_scalar(g, j, m);
}

// ---------------------------------------------------------------- strict RFC 8259 parser
// \uXXXX is kept as its six characters (what the library's tests pin)
struct Strict {
  const std::string& t;
  size_t p;
  bool ok, raw_ctl;
  int maxdepth;
  Strict(const std::string& s, bool raw) : t(s), p(0), ok(true), raw_ctl(raw), maxdepth(0) {}
  int at(size_t i) const { return i < t.size() ? (unsigned char)t[i] : -1; }
  void ws() { while (at(p) == ' ' || at(p) == '\t' || at(p) == '\n' || at(p) == '\r') p++; }
  static bool parse(const std::string& s, MV& m, bool raw = false, int* depth = 0) {
    Strict x(s, raw);
    x.ws();
    x.value(m, 1);
    x.ws();
    if (depth) *depth = x.maxdepth;
    return x.ok && x.p == s.size();
  }
  bool lit(const char* w) {
    size_t n = strlen(w);
    if (t.compare(p, n, w) == 0) { p += n; return true; }
    return ok = false;
  }
  bool hex(int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
  std::string str() {
    std::string r;
    p++;
    for (;;) {
      int c = at(p);
      if (c < 0) { ok = false; return r; }
      p++;
      if (c == '"') return r;
      if (c == '\\') {
        int e = at(p++);
        switch (e) {
          case '"': r += '"'; break;
          case '\\': r += '\\'; break;
          case '/': r += '/'; break;
          case 'b': r += '\b'; break;
          case 'f': r += '\f'; break;
          case 'n': r += '\n'; break;
          case 'r': r += '\r'; break;
          case 't': r += '\t'; break;
          case 'u':
            r += "\\u";
            for (int i = 0; i < 4; i++) { if (!hex(at(p))) { ok = false; return r; } r += (char)t[p++]; }
            break;
          default: ok = false; return r;
        }
      } else if (c < 32 && !raw_ctl) { ok = false; return r; }
      else r += (char)c;
    }
  }
  void value(MV& m, int depth) {
    if (depth > maxdepth) maxdepth = depth;
    if (depth > 3000) { ok = false; return; }
    int c = at(p);
    if (c == '{') {
      m.t = Ty::Object;
      p++; ws();
      if (at(p) == '}') { p++; return; }
      for (;;) {
        ws();
        if (at(p) != '"') { ok = false; return; }
        std::string k = str();
        if (!ok) return;
        ws();
        if (at(p) != ':') { ok = false; return; }
        p++; ws();
        MV v;
        value(v, depth + 1);
        if (!ok) return;
        m.o[k] = v;
        ws();
        if (at(p) == ',') { p++; continue; }
        if (at(p) == '}') { p++; return; }
        ok = false;
        return;
      }
    } else if (c == '[') {
      m.t = Ty::Array;
      p++; ws();
      if (at(p) == ']') { p++; return; }
      for (;;) {
        ws();
        m.a.push_back(MV());
        MV v;
        value(v, depth + 1);
        if (!ok) return;
        m.a.back() = v;
        ws();
        if (at(p) == ',') { p++; continue; }
        if (at(p) == ']') { p++; return; }
        ok = false;
        return;
      }
    } else if (c == '"') { m.t = Ty::String; m.s = str(); }
    else if (c == 't') { if (lit("true")) m = MV::boolean(true); }
    else if (c == 'f') { if (lit("false")) m = MV::boolean(false); }
    else if (c == 'n') { lit("null"); m = MV(); }
    else {
      size_t s = p;
      bool fl = false;
      if (at(p) == '-') p++;
      if (at(p) == '0') p++;
      else if (isdigit(at(p)) ) while (at(p) >= '0' && at(p) <= '9') p++;
      else { ok = false; return; }
      if (at(p) == '.') {
        fl = true;
        p++;
        size_t q = p;
        while (at(p) >= '0' && at(p) <= '9') p++;
        if (p == q) { ok = false; return; }
      }
      if (at(p) == 'e' || at(p) == 'E') {
        fl = true;
        p++;
        if (at(p) == '+' || at(p) == '-') p++;
        size_t q = p;
        while (at(p) >= '0' && at(p) <= '9') p++;
        if (p == q) { ok = false; return; }
      }
      std::string n = t.substr(s, p - s);
      if (fl) m = MV::real(strtod(n.c_str(), 0));
      else {
        double v = strtod(n.c_str(), 0);
        if (v < INT_MIN || v > INT_MAX) out_of_range = true;
        m = MV::integer(v < INT_MIN ? INT_MIN : v > INT_MAX ? INT_MAX : (int)v);
      }
      if (fl && (std::fabs(m.d) > 1e305 || (m.d != 0 && std::fabs(m.d) < 1e-305) || (m.d == 0 && n.find_first_of("123456789") < n.find_first_of("eE")))) out_of_range = true;
    }
  }
  bool out_of_range = false;
};
// A recogniser of a superset of the texts loadJSON may accept: any isspace blank,
// loosely spelled numbers, any string bytes and escapes, anything after the value.
struct Lenient {
  const std::string& t;
  size_t p;
  bool ok;
  int maxdepth;
  Lenient(const std::string& s) : t(s), p(0), ok(true), maxdepth(0) {}
  int at(size_t i) const { return i < t.size() ? (unsigned char)t[i] : -1; }
  void ws() { while (at(p) >= 0 && (at(p) == ' ' || (at(p) >= 9 && at(p) <= 13))) p++; }
  static bool accepts(const std::string& s, int* depth) {
    Lenient l(s);
    l.ws();
    l.value(1);
    *depth = l.maxdepth;
    return l.ok;
  }
  void no() { ok = false; }
  void str() {
    p++;
    for (;;) {
      int c = at(p);
      if (c < 0) return no();
      p++;
      if (c == '"') return;
      if (c == '\\') {
        if (at(p) < 0) return no();
        if (at(p) == 'u')
          for (int i = 1; i <= 4; i++) if (at(p + i) < 0 || !isxdigit(at(p + i))) return no();
        p++;
      }
    }
  }
  void value(int depth) {
    maxdepth = std::max(maxdepth, depth);
    if (depth > 3000) return no();
    int c = at(p);
    if (c == '{') {
      p++; ws();
      if (at(p) == '}') { p++; return; }
      for (;;) {
        ws();
        if (at(p) != '"') return no();
        str();
        if (!ok) return;
        ws();
        if (at(p) != ':') return no();
        p++; ws();
        value(depth + 1);
        if (!ok) return;
        ws();
        if (at(p) == ',') { p++; continue; }
        if (at(p) == '}') { p++; return; }
        return no();
      }
    }
    if (c == '[') {
      p++; ws();
      if (at(p) == ']') { p++; return; }
      for (;;) {
        ws();
        value(depth + 1);
        if (!ok) return;
        ws();
        if (at(p) == ',') { p++; continue; }
        if (at(p) == ']') { p++; return; }
        return no();
      }
    }
    if (c == '"') return str();
    const char* w = c == 't' ? "true" : c == 'f' ? "false" : c == 'n' ? "null" : 0;
    if (w) {
      if (t.compare(p, strlen(w), w) != 0) return no();
      p += strlen(w);
      return;
    }
    if (!(c == '-' || (c >= '0' && c <= '9'))) return no();
    while (at(p) >= 0 && (strchr("-+.eE", at(p)) || isdigit(at(p))) && at(p)) p++;
    c = at(p);
    if (!(c <= 0 || c == ',' || c == ']' || c == '}' || c == ' ' || (c >= 9 && c <= 13))) return no();
  }
};
// ---------------------------------------------------------------- spelling a value as text
struct Speller {
  Gen& g;
  int wsmode;
  Speller(Gen& g_) : g(g_), wsmode((int)g_.draw(3)) {}
  std::string ws() {
    if (wsmode == 0) return "";
    if (wsmode == 1) return g.flag() ? " " : "";
    std::string r;
    Loop l(g, 1, 5);
    while (l.next()) r += " \t\n\r"[g.draw(4)];
    return r;
  }
  // text inside quotes; m becomes what the text denotes
  std::string str(std::string& m) {
    std::string r, den;
    for (size_t i = 0; i < m.size(); i++) {
      unsigned char c = m[i];
      const char* p = strchr("\"\\\b\f\n\r\t", c);
      if (c && p) { r += '\\'; r += "\"\\bfnrt"[p - "\"\\\b\f\n\r\t"]; den += (char)c; }
      else if (c == '/' && g.flag()) { r += "\\/"; den += '/'; }
      else if (c < 32 || g.draw(24) == 0) {
        char b[8];
        snprintf(b, sizeof b, g.flag() ? "\\u%04x" : "\\u%04X", (unsigned)g.draw(65536));
        r += b;
        den += b;
      } else { r += (char)c; den += (char)c; }
    }
    m = den;
    return "\"" + r + "\"";
  }
  std::string number(MV& m) {
    if (m.t == Ty::Integral) {
      if (m.i == 0 && g.draw(4) == 0) return "-0";
      return std::to_string(m.i);
    }
    std::string s;
    if (g.flag()) s += '-';
    u64 k = g.draw(3);
    if (k == 0) s += '0';
    else if (k == 1) s += (char)('1' + g.draw(9));
    else { s += (char)('1' + g.draw(9)); Loop l(g, 4, 25); while (l.next()) s += (char)('0' + g.draw(10)); }
    if (g.draw(10) == 0) {  // an exponent far from the magnitude of the number
      int t = (int)g.integer(-270, 270), z = (int)g.draw(70);
      if (s.back() == '0') s.back() = '1';  // no leading zero
      if (g.flag()) {
        s += std::string(z, (char)('0' + g.draw(10)));
        if (g.flag()) s += ".5";
        t -= z;
      } else {
        s = s.substr(0, s[0] == '-') + "0." + std::string(z, '0') + (char)('1' + g.draw(9)) + (char)('0' + g.draw(10));
        t += z;
      }
      s += (g.flag() ? "e" : "E") + std::string(t >= 0 && g.flag() ? "+" : "") + std::to_string(t);
      m.d = strtod(s.c_str(), 0);
      return s;
    }
    bool frac = g.flag();
    if (frac) { s += '.'; s += (char)('0' + g.draw(10)); Loop l(g, 3, 25); while (l.next()) s += (char)('0' + g.draw(10)); }
    if (!frac || g.flag()) {
      s += g.flag() ? 'e' : 'E';
      u64 sg = g.draw(3);
      if (sg == 1) s += '+';
      if (sg == 2) s += '-';
      u64 e = g.draw(4) ? g.draw(13) : g.draw(280);
      if (g.draw(8) == 0) s += '0';
      s += std::to_string(e);
    }
    m.d = strtod(s.c_str(), 0);
    return s;
  }
  std::string value(MV& m) {
    switch (m.t) {
      case Ty::Null: return "null";
      case Ty::Boolean: return m.b ? "true" : "false";
      case Ty::Integral: case Ty::Float: return number(m);
      case Ty::String: return str(m.s);
      case Ty::Array: {
        std::string r = "[" + ws();
        for (size_t i = 0; i < m.a.size(); i++) { if (i) r += ws() + "," + ws(); r += value(m.a[i]); }
        return r + ws() + "]";
      }
      default: {
        std::string r = "{" + ws();
        std::map<std::string, MV> n;
        std::vector<std::pair<std::string, MV> > e(m.o.begin(), m.o.end());
        if (e.size() && g.draw(8) == 0) {  // a key again, with another value: the last one counts
          size_t i = g.draw(e.size());
          e.push_back(std::make_pair(e[i].first, gen_scalar(g, false)));
          if (g.flag()) e.push_back(e[g.draw(e.size())]);
        }
        if (g.flag())
          for (size_t i = e.size(); i > 1; i--) std::swap(e[i - 1], e[g.draw(i)]);
        for (size_t i = 0; i < e.size(); i++) {
          std::string k = e[i].first;
          if (i) r += ws() + "," + ws();
          r += str(k) + ws() + ":" + ws();
          r += value(e[i].second);
          n[k] = e[i].second;
        }
        m.o = n;
        return r + ws() + "}";
      }
    }
  }
};
#endif
