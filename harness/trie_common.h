#ifndef VERIF_TRIE_COMMON_H
#define VERIF_TRIE_COMMON_H
#include "pbt.h"
#include <set>
#include "string_utils/Trie.h"
using namespace pbt;
using cuhksz::Trie;

// An alphabet: characters in code order (codes 2,3,...), and the two mapping functions.
struct Alphabet {
  const char* name;
  std::string chars;
  int (*toInt)(char);
  char (*toChar)(int);
  bool dflt;
};
inline bool code_less(const Alphabet& al, const std::string& a, const std::string& b) {
  size_t n = std::min(a.size(), b.size());
  for (size_t i = 0; i < n; i++) {
    int x = (int)al.chars.find(a[i]), y = (int)al.chars.find(b[i]);
    if (x != y) return x < y;
  }
  return a.size() < b.size();
}
struct Less {
  const Alphabet* al;
  bool operator()(const std::string& a, const std::string& b) const { return code_less(*al, a, b); }
};
typedef std::set<std::string, Less> Model;

inline std::string gen_word(Gen& g, const Alphabet& al, const Model& m) {
  std::string w;
  u64 k = g.draw(12);
  size_t A = al.chars.size();
  if (!m.empty() && k >= 7) {
    // near an existing word: extension, prefix, one letter changed, the word itself
    auto it = m.begin();
    std::advance(it, g.draw(m.size()));
    w = *it;
    switch (g.draw(4)) {
      case 0: w += al.chars[g.draw(A)]; if (g.flag()) w += al.chars[g.draw(A)]; break;
      case 1: w.resize(g.draw(w.size() + 1)); break;
      case 2: if (!w.empty()) w[g.draw(w.size())] = al.chars[g.draw(A)]; break;
      default: break;
    }
    return w;
  }
  if (k == 0) return w;  // the empty word
  size_t sub = k < 4 ? std::min<size_t>(A, 3) : A;
  size_t off = k == 3 && A > 3 ? A - 3 : 0;
  Loop l(g, k == 6 ? 25 : k == 5 ? 8 : 3, 120);
  while (l.next()) w += al.chars[off + g.draw(sub)];
  return w;
}
inline void full_check(Trie& t, const Alphabet& al, const Model& m, const char* where) {
  CHECK(t.size() == (int)m.size(), where << ": size " << t.size() << " model " << m.size());
  for (auto& w : m) CHECK(t.contain(w), where << ": lost " << quote(w));
  auto it = m.begin();
  size_t n = 0;
  for (auto s : t) {
    CHECK(it != m.end(), where << ": iteration yields extra " << quote(s));
    CHECK(s == *it, where << ": iteration yields " << quote(s) << " instead of " << quote(*it));
    ++it;
    CHECK(++n <= m.size(), where << ": iteration does not end");
  }
  CHECK(it == m.end(), where << ": iteration misses " << quote(*it));
}
inline void near_misses(Gen& g, Trie& t, const Alphabet& al, const Model& m, const std::string& w) {
  std::string v = w;
  CHECK(t.contain(w) == (m.count(w) > 0), "contain " << quote(w));
  v += al.chars[g.draw(al.chars.size())];
  CHECK(t.contain(v) == (m.count(v) > 0), "contain " << quote(v));
  v = w;
  if (!v.empty()) {
    v.resize(v.size() - 1);
    CHECK(t.contain(v) == (m.count(v) > 0), "contain " << quote(v));
    v = w;
    v[g.draw(v.size())] = al.chars[g.draw(al.chars.size())];
    CHECK(t.contain(v) == (m.count(v) > 0), "contain " << quote(v));
  }
}
#endif
