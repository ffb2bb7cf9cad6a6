#include <cstring>
#include "strgen.h"
#include "algorithm.h"

static long naive(const std::string& t, const std::string& p, size_t start) {
  if (start > t.size()) return -1;
  for (size_t i = start; i + p.size() <= t.size(); i++) {
    if (p.empty() || (t[i] == p[0] && !memcmp(t.data() + i, p.data(), p.size()))) return (long)i;
  }
  return -1;
}
static void one(Gen& g, const std::string& t, const std::string& p, size_t start) {
  long want = naive(t, p, start);
  long got = cuhksz::kmpSearch(t, p, start);
  CHECK(got == want, "kmpSearch(" << brief(t) << ", " << brief(p) << ", " << start << ") = " << got << ", the first occurrence is " << want);
  if (start == 0) CHECK(cuhksz::kmpSearch(t, p) == want, "default start: " << brief(t) << ", " << brief(p));
  g.label(p.empty() ? "empty pattern" : want < 0 ? "no occurrence" : want == (long)start ? "found at start" : "found later");
}
static size_t gen_start(Gen& g, const std::string& t, const std::string& p) {
  switch (g.draw(8)) {
    case 0: case 1: return 0;
    case 2: case 3: return g.draw(t.size() + 1);
    case 4: return t.size() - std::min(t.size(), (size_t)g.draw(4)) ;
    case 5: return t.size() + g.draw(5);
    case 6: {
      static const size_t big[] = {(size_t)-1, (size_t)-2, 1ull << 31, (1ull << 31) - 1, 1ull << 32, (1ull << 32) + 1, 1ull << 63, (size_t)1 << 16};
      size_t b = big[g.draw(8)];
      return g.flag() ? b : b + g.draw(t.size() + 1);
    }
    default: {
      long f = naive(t, p, 0);
      return f < 0 ? g.draw(t.size() + 1) : (size_t)f + g.draw(2);
    }
  }
}
template <int BIG> void search(Gen& g) {
  std::string t = gen_text(g, BIG), p;
  p = relative(g, t, BIG / 2 + 3);
  if (g.draw(4) == 0) {  // plant the pattern
    size_t at = g.draw(t.size() + 1);
    t = t.substr(0, at) + p + t.substr(at);
  }
  if (!p.empty() && g.draw(4) == 0) {  // and before it something that differs in one bit
    std::string q = p;
    q[g.flag() ? q.size() - 1 - g.draw(std::min<size_t>(q.size(), 3)) : g.draw(q.size())] ^= (char)(1 << g.draw(8));
    size_t at = g.draw(t.size() + 1);
    t = t.substr(0, at) + q + t.substr(at);
  }
  NOTE("text " << brief(t) << " pattern " << brief(p));
  int n = 1 + (int)g.draw(3);
  for (int i = 0; i < n; i++) {
    size_t s = gen_start(g, t, p);
    NOTE("start " << s);
    one(g, t, p, s);
  }
  g.nontrivial(p.size() >= 2 && t.size() >= p.size());
}
// every occurrence, found by restarting after each
void all_occurrences(Gen& g) {
  std::string t = gen_text(g, 60), p = gen_string(g, "ab", 3);
  if (g.flag()) p = relative(g, t, 6);
  if (p.size() > 12) p.resize(12);
  NOTE("text " << brief(t) << " pattern " << brief(p));
  std::vector<long> a, b;
  for (size_t s = 0; s <= t.size(); s++)
    if (t.compare(s, p.size(), p) == 0 && s + p.size() <= t.size()) b.push_back((long)s);
  for (long s = 0; (size_t)s <= t.size() + 1;) {
    long r = cuhksz::kmpSearch(t, p, (size_t)s);
    if (r < 0) break;
    CHECK(r >= s, "result " << r << " before start " << s);
    a.push_back(r);
    s = r + 1;
  }
  CHECK(a == b, "occurrences of " << brief(p) << " in " << brief(t) << ": found " << a.size() << ", there are " << b.size());
  g.nontrivial(b.size() >= 2);
}
// all binary patterns against all binary texts up to a small length
void exhaustive_small(Gen& g) {
  int pl = (int)g.draw(7), tl = (int)g.draw(11);
  u64 pb = g.draw(1ull << pl);
  std::string p, t;
  for (int i = 0; i < pl; i++) p += (pb >> i & 1) ? 'b' : 'a';
  NOTE("all texts of length " << tl << " with pattern " << p);
  for (u64 tb = 0; tb < (1ull << tl); tb++) {
    t.clear();
    for (int i = 0; i < tl; i++) t += (tb >> i & 1) ? 'b' : 'a';
    for (size_t s = 0; s <= t.size() + 1; s++) {
      long w = naive(t, p, s), r = cuhksz::kmpSearch(t, p, s);
      CHECK(w == r, "kmpSearch(" << t << "," << p << "," << s << ")=" << r << " want " << w);
    }
  }
  g.nontrivial(pl >= 2 && tl >= pl);
}
PBT_MAIN({"search", 150000, search<40>, 0}, {"search_large", 12000, search<1500>, 0},
         {"search_huge", 60, search<70000>, 0}, {"all_occurrences", 60000, all_occurrences, 0},
         {"exhaustive_small", 2000, exhaustive_small, 0})
