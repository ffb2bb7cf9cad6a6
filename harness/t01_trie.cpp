#include "vals.h"
#include "trie_common.h"

static Alphabet dflt() {
  Alphabet a = {"a-z", "abcdefghijklmnopqrstuvwxyz", 0, 0, true};
  return a;
}
static void history(Gen& g) {
  static const Alphabet al = dflt();
  Less ls = {&al};
  Model m(ls);
  Trie* t = new Trie;
  Loop ops(g, len_class(g, 400), 2500);
  int ins = 0, rem = 0, step = 0, readd = 0;
  std::set<std::string> ever;
  u64 bias = g.draw(3);
  while (ops.next()) {
    u64 op = g.draw(12);
    std::string w = gen_word(g, al, m);
    if (op < (bias == 0 ? 8u : bias == 1 ? 6u : 5u)) {
      NOTE("insert " << quote(w));
      t->insert(w);
      if (ever.count(w) && !m.count(w)) readd++;
      m.insert(w);
      ever.insert(w);
      ins++;
    } else if (op < 10) {
      if (!m.empty() && g.draw(3)) {
        auto it = m.begin();
        std::advance(it, g.draw(m.size()));
        w = *it;
      }
      NOTE("remove " << quote(w) << (m.count(w) ? "" : " (absent)"));
      t->remove(w);
      if (m.erase(w)) rem++;
    } else if (op < 11) {
      NOTE("contain " << quote(w));
    } else {
      full_check(*t, al, m, "during");
    }
    CHECK(t->size() == (int)m.size(), "size " << t->size() << " model " << m.size());
    near_misses(g, *t, al, m, w);
    if (step++ % 16 == 0 && m.size() < 60) full_check(*t, al, m, "during");
  }
  full_check(*t, al, m, "end");
  if (g.chance(1, 4)) {  // empty it again, in a generated order
    std::vector<std::string> v(m.begin(), m.end());
    while (!v.empty()) {
      size_t i = g.draw(v.size());
      t->remove(v[i]);
      m.erase(v[i]);
      CHECK(!t->contain(v[i]), "removed " << quote(v[i]) << " is still there");
      CHECK(t->size() == (int)m.size(), "size");
      v.erase(v.begin() + i);
      if (v.size() % 8 == 0) full_check(*t, al, m, "emptying");
    }
    g.label("emptied");
  }
  delete t;
  g.nontrivial(ins >= 3);
  if (rem >= 2) g.label("two or more removals");
  if (readd) g.label("re-inserted a removed word");
  if (m.size() > 50) g.label("more than 50 words");
}
// iterators: copies, comparison, several passes, partial passes
static void iterate(Gen& g) {
  static const Alphabet al = dflt();
  Less ls = {&al};
  Model m(ls);
  Trie t;
  Loop ops(g, len_class(g, 100), 600);
  while (ops.next()) {
    std::string w = gen_word(g, al, m);
    if (g.draw(5)) { t.insert(w); m.insert(w); NOTE("insert " << quote(w)); }
    else { t.remove(w); m.erase(w); NOTE("remove " << quote(w)); }
  }
  full_check(t, al, m, "first pass");
  full_check(t, al, m, "second pass");
  CHECK(t.begin() == t.begin(), "begin == begin");
  CHECK(t.end() == t.end(), "end == end");
  CHECK((t.begin() == t.end()) == m.empty(), "begin == end exactly when empty");
  CHECK((t.begin() != t.end()) == !m.empty(), "begin != end");
  if (!m.empty()) {
    size_t k = g.draw(m.size());
    auto it = t.begin();
    auto mi = m.begin();
    for (size_t i = 0; i < k; i++) { ++it; ++mi; }
    auto copy = it;
    CHECK(copy == it && !(copy != it), "a copied iterator is equal");
    CHECK(*it == *mi && *copy == *mi, "dereference after " << k << " steps");
    CHECK(*it == *mi, "dereference twice");
    auto mj = mi;
    ++it;
    ++mj;
    CHECK(*copy == *mi, "advancing one iterator does not move its copy");
    CHECK(!(copy == it) || mj == m.end(), "advanced iterator differs");
    if (mj == m.end()) CHECK(it == t.end(), "past the last");
    else CHECK(*it == *mj, "next");
    for (; copy != t.end(); ++copy) {
      CHECK(mi != m.end() && *copy == *mi, "continuing from a copy");
      ++mi;
    }
    CHECK(mi == m.end(), "continuing from a copy ends");
  }
  g.nontrivial(m.size() >= 2);
}
// thousands of words, and very long words
static void huge(Gen& g) {
  static const Alphabet al = dflt();
  Less ls = {&al};
  Model m(ls);
  Trie t;
  Bulk b(g);
  int n = g.flag() ? 250 + (int)g.draw(12) : 300 + (int)g.draw(3000);
  u64 letters = 2 + g.draw(25), len = 1 + g.draw(12);
  u64 longest = g.chance(1, 3) ? 250 + g.draw(12) : g.draw(1500);
  std::vector<std::string> words;
  for (int i = 0; i < n; i++) {
    std::string w;
    if (!words.empty() && b.next(3) == 0) {
      w = words[b.next(words.size())];
      if (b.next(2)) w += (char)('a' + b.next(letters));
      else w.resize(b.next(w.size() + 1));
    } else
      for (u64 k = b.next(len + 1); k > 0; k--) w += (char)('a' + b.next(letters));
    words.push_back(w);
    t.insert(w);
    m.insert(w);
  }
  for (u64 k = g.draw(4); k > 0; k--) {
    std::string w = k == 1 ? "" : words[b.next(words.size())];
    while (w.size() < longest) w += (char)('a' + b.next(letters));
    words.push_back(w);
    t.insert(w);
    m.insert(w);
    CHECK(t.contain(w), "a word of " << w.size() << " letters is missing");
    w.resize(w.size() ? w.size() - 1 : 0);
    CHECK(t.contain(w) == (m.count(w) > 0), "prefix of a word of " << w.size() + 1 << " letters");
    // relatives that share a long beginning with it
    for (u64 r = g.draw(4); r > 0; r--) {
      std::string v = words.back();
      if (b.next(2)) v.resize(v.size() - b.next(std::min<size_t>(v.size(), 300) + 1));
      if (b.next(3)) v += (char)('a' + b.next(letters));
      if (!v.empty() && b.next(3) == 0) v[v.size() - 1 - b.next(std::min<size_t>(v.size(), 20))] = (char)('a' + b.next(letters));
      CHECK(t.contain(v) == (m.count(v) > 0), "a relative of a word of " << longest << " letters");
      t.insert(v);
      m.insert(v);
      words.push_back(v);
      CHECK(t.contain(v), "a word of " << v.size() << " letters is missing");
    }
  }
  NOTE(n << " words over " << letters << " letters, the longest of " << longest);
  full_check(t, al, m, "filled");
  int kill = (int)g.draw(words.size() + 1);
  for (int i = 0; i < kill; i++) {
    const std::string& w = words[b.next(words.size())];
    t.remove(w);
    m.erase(w);
    CHECK(!t.contain(w), "removed word is still there");
    CHECK(t.size() == (int)m.size(), "size " << t.size() << " model " << m.size());
  }
  full_check(t, al, m, "after removals");
  for (auto& w : words) CHECK(t.contain(w) == (m.count(w) > 0), "contain " << quote(w.substr(0, 40)));
  for (int i = 0; i < kill / 2; i++) {
    const std::string& w = words[b.next(words.size())];
    t.insert(w);
    m.insert(w);
  }
  full_check(t, al, m, "refilled");
  g.nontrivial(true);
}
// tens of thousands of words
static void huge_count(Gen& g) {
  static const Alphabet al = dflt();
  Less ls = {&al};
  Model m(ls);
  Trie t;
  Bulk b(g);
  const u64 n = 32600 + g.draw(2500), len = 8 + g.draw(8);
  NOTE(n << " words of " << len << " letters");
  while (m.size() < n) {
    std::string w;
    for (u64 k = len; k > 0; k--) w += (char)('a' + b.next(26));
    t.insert(w);
    m.insert(w);
  }
  full_check(t, al, m, "filled");
  u64 k = 0;
  for (auto it = m.begin(); it != m.end();) {
    if (k++ % 3) { ++it; continue; }
    t.remove(*it);
    CHECK(!t.contain(*it), "removed word is still there");
    it = m.erase(it);
  }
  full_check(t, al, m, "after removals");
  g.nontrivial(true);
}
PBT_MAIN({"history", 40000, history, 0}, {"iterate", 30000, iterate, 0}, {"huge", 150, huge, 0}, {"huge_count", 6, huge_count, 0})
