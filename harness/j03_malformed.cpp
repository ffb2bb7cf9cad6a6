#include "json_common.h"
static bool load_may_fail(const std::string& t, std::string* dump) {
  return returns_or_errors("loadJSON(" + brief(t) + ")", [&] {
    J j = cuhksz::loadJSON(t);
    *dump = j.dump();
  });
}
static void check(Gen& g, const std::string& text) {
  NOTE(brief(text));
  int depth = 0, d2 = 0;
  bool lenient = Lenient::accepts(text, &depth);
  if (depth > 1000) return;
  MV m;
  bool strict = Strict::parse(text, m, false, &d2);
  std::string d;
  bool ok = load_may_fail(text, &d);
  if (!lenient) CHECK(!ok, "malformed text is accepted: " << brief(text) << " as " << brief(d));
  if (strict) CHECK(ok, "valid text is rejected: " << brief(text));
  g.label(strict ? "valid text" : lenient ? "between strict and lenient" : ok ? "?" : "rejected");
  g.nontrivial(text.size() >= 2 && !strict);
}
static std::string valid(Gen& g, int big) {
  int budget = big;
  MV m = gen_mv(g, 5, false, budget);
  Speller sp(g);
  return sp.value(m);
}
void truncated(Gen& g) {
  int budget = (int)len_class(g, 50);
  MV m = gen_mv(g, 5, false, budget);
  if (m.t == Ty::Integral || m.t == Ty::Float) { MV a = MV::of(Ty::Array); a.a.push_back(m); m = a; }
  Speller sp(g);
  std::string t = sp.value(m);
  t = t.substr(0, g.draw(t.size()));
  NOTE(brief(t));
  must_error("loadJSON of truncated " + brief(t), [&] { J j = cuhksz::loadJSON(t); });
  g.label("truncated");
  g.nontrivial(t.size() >= 2);
}
void mutated(Gen& g) {
  std::string t = valid(g, (int)len_class(g, 50));
  static const std::string S = "{}[]:,\"\\ \n0159-+.eEtruefalsnl/\x01\x80";
  Loop l(g, 1, 8);
  bool any = false;
  do {
    any = true;
    switch (t.empty() ? 0 : g.draw(6)) {
      case 0: t.insert(t.begin() + g.draw(t.size() + 1), S[g.draw(S.size())]); break;
      case 1: t.erase(g.draw(t.size()), 1); break;
      case 2: t[g.draw(t.size())] = S[g.draw(S.size())]; break;
      case 3: t.erase(g.draw(t.size())); break;
      case 4: { size_t a = g.draw(t.size()), n = g.draw(std::min<size_t>(t.size() - a, 6) + 1); t.insert(a, t.substr(a, n)); break; }
      default: { size_t a = g.draw(t.size()), b = g.draw(t.size()); std::swap(t[a], t[b]); }
    }
  } while (l.next());
  (void)any;
  check(g, t);
}
// one structural character of a valid text removed, doubled or replaced
void structural(Gen& g) {
  std::string t = valid(g, (int)len_class(g, 25));
  std::vector<size_t> at;
  bool in = false;
  for (size_t i = 0; i < t.size(); i++) {
    if (in && t[i] == '\\') { i++; continue; }
    if (t[i] == '"') in = !in, at.push_back(i);
    else if (!in && strchr("{}[]:,", t[i])) at.push_back(i);
  }
  if (!at.empty()) {
    size_t p = at[g.draw(at.size())];
    switch (g.draw(3)) {
      case 0: t.erase(p, 1); break;
      case 1: t.insert(p, 1, t[p]); break;
      default: t[p] = "{}[]:,\"; "[g.draw(9)];
    }
  }
  check(g, t);
}
void tokens(Gen& g) {
  static const char* T[] = {"{", "}", "[", "]", ":", ",", "\"a\"", "\"", "1", "-", "1.5", "1e", "1e5", "e", "true", "false", "null", "tru", "nul", "fals", " ", "\n", "\\", "\"\\", "\"\\u12", "0", ".", "\"\\u0041\"", "{\"a\":", "[1,", "[]", "{}"};
  std::string t;
  Loop l(g, len_class(g, 12), 60);
  while (l.next()) t += T[g.draw(sizeof T / sizeof T[0])];
  check(g, t);
}
void bytes(Gen& g) {
  static const char A[] = "{}[]:,\"\\ \n0159-+.eEtrufalsn/\0\x80\xff";
  static const std::string S(A, sizeof A - 1);
  std::string t = g.draw(3) ? gen_string(g, S, 50) : gen_bytes(g, 50);
  check(g, t);
}
void deep(Gen& g) {
  std::string t;
  int n = (int)g.draw(280);
  for (int i = 0; i < n; i++) t += g.flag() ? "[" : "{\"a\":";
  if (g.flag()) t += "1";
  int c = (int)g.draw(n + 3);
  for (int i = 0; i < c; i++) t += g.flag() ? "]" : "}";
  check(g, t);
}
// far more levels than any stack holds: rejected or loaded, but never a crash
void large_nesting(Gen& g) {
  Bulk b(g);
  int n;
  switch (g.draw(4)) {
    case 0: n = 990 + (int)g.draw(30); break;
    case 1: n = 300 + (int)g.draw(3000); break;
    case 2: n = 3000 + (int)g.draw(60000); break;
    default: n = 60000 + (int)g.draw(1000000);
  }
  u64 objects = g.draw(8);
  std::string t;
  for (int i = 0; i < n; i++) t += b.next(8) < objects ? "{\"a\":" : "[";
  std::string close;
  u64 kind = g.draw(3);
  if (kind == 0) for (size_t i = t.size(); i-- > 0;) { if (t[i] == '{') close += '}'; if (t[i] == '[') close += ']'; }
  else if (kind == 1) close = std::string(g.draw(2000), ']');
  t += (g.flag() ? "1" : "") + close;
  NOTE(n << " levels, " << objects << "/8 objects, closing kind " << kind);
  std::string d;
  bool ok = load_may_fail(t, &d);
  if (kind == 2) CHECK(!ok, "text with " << n << " unclosed brackets is accepted");
  g.label(ok ? "loaded" : "rejected");
  g.nontrivial();
}
PBT_MAIN({"large_nesting", 300, large_nesting, 0}, {"truncated", 25000, truncated, 0}, {"mutated", 25000, mutated, 0}, {"structural", 25000, structural, 0}, {"tokens", 40000, tokens, 0},
         {"bytes", 40000, bytes, 0}, {"deep", 3000, deep, 0})
