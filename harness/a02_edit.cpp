#include "strgen.h"
#include "algorithm.h"
using cuhksz::editDistance;
// two-row dynamic programme over suffixes
static long expected(const std::string& a, const std::string& b) {
  std::vector<long> nxt(b.size() + 1), cur(b.size() + 1);
  for (size_t j = 0; j <= b.size(); j++) nxt[j] = (long)(b.size() - j);
  for (size_t i = a.size(); i-- > 0;) {
    cur[b.size()] = (long)(a.size() - i);
    for (size_t j = b.size(); j-- > 0;) {
      if (a[i] == b[j]) cur[j] = nxt[j + 1];
      else cur[j] = 1 + std::min(nxt[j + 1], std::min(nxt[j], cur[j + 1]));
    }
    nxt.swap(cur);
  }
  return nxt[0];
}
template <int BIG> void pair(Gen& g) {
  std::string a = gen_text(g, BIG), b = relative(g, a, BIG);
  if (g.flag()) std::swap(a, b);
  NOTE(brief(a) << " vs " << brief(b));
  long w = expected(a, b), r = editDistance(a, b);
  CHECK(r == w, "editDistance(" << brief(a) << ", " << brief(b) << ") = " << r << ", exact " << w);
  long s = editDistance(b, a);
  CHECK(s == w, "not symmetric: " << brief(a) << ", " << brief(b) << ": " << r << " and " << s);
  g.label(w == 0 ? "equal" : w < 4 ? "near" : "far");
  g.nontrivial(a.size() >= 2 && b.size() >= 2 && w > 0);
}
void triangle(Gen& g) {
  std::string a = gen_text(g, 20), b = relative(g, a, 20), c = relative(g, b, 20);
  NOTE(brief(a) << " " << brief(b) << " " << brief(c));
  long ab = editDistance(a, b), bc = editDistance(b, c), ac = editDistance(a, c);
  CHECK(ac <= ab + bc, "triangle inequality: " << brief(a) << " " << brief(b) << " " << brief(c));
  CHECK((ab == 0) == (a == b), "zero exactly for equal strings: " << brief(a) << " " << brief(b));
  g.nontrivial(a.size() + b.size() + c.size() >= 6 && ab && bc);
}
// common prefixes and suffixes do not matter; k edits cost at most k
void metamorphic(Gen& g) {
  std::string a = gen_text(g, 60), b = a;
  int k = 0;
  {
    Loop l(g, 3, 30);
    while (l.next()) {
      char c = (char)('a' + g.draw(4));
      switch (b.empty() ? 0 : g.draw(3)) {
        case 0: b.insert(b.begin() + g.draw(b.size() + 1), c); break;
        case 1: b.erase(g.draw(b.size()), 1); break;
        default: b[g.draw(b.size())] = c;
      }
      k++;
    }
  }
  std::string p = gen_text(g, 30), s = gen_text(g, 30);
  NOTE(brief(a) << " -> " << brief(b) << " by " << k << " edits");
  long d = editDistance(a, b);
  CHECK(d <= k, k << " edits turn " << brief(a) << " into " << brief(b) << ", distance " << d);
  CHECK(d == expected(a, b), "editDistance(" << brief(a) << "," << brief(b) << ") = " << d);
  long e = editDistance(p + a + s, p + b + s);
  CHECK(e == d, "common prefix/suffix changed the distance of " << brief(a) << "," << brief(b) << " with " << brief(p) << " and " << brief(s) << ": " << e << " vs " << d);
  g.nontrivial(k >= 2 && d > 0);
}
void lopsided(Gen& g) {
  std::string a = gen_text(g, 4), b(60000 + g.draw(12000), 'a');
  for (int i = 0; i < 3; i++) b[g.draw(b.size())] = (char)('a' + g.draw(4));
  if (g.flag()) std::swap(a, b);
  NOTE(brief(a) << " vs " << brief(b));
  long w = expected(a, b), r = editDistance(a, b);
  CHECK(r == w, "editDistance of " << brief(a) << " and " << brief(b) << " = " << r << ", exact " << w);
  g.nontrivial();
}
PBT_MAIN({"pair", 60000, pair<25>, 0}, {"pair_large", 1500, pair<350>, 0}, {"pair_huge", 16, pair<2600>, 0},
         {"triangle", 40000, triangle, 0}, {"metamorphic", 15000, metamorphic, 0}, {"lopsided", 40, lopsided, 0})
