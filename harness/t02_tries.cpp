#include "trie_common.h"

// ---- custom mappings (plain functions, as the API requires)
template <int From, int N>
struct Span {  // N characters starting at From
  static int toInt(char c) { return c == '\001' ? 1 : (unsigned char)c - From + 2; }
  static char toChar(int n) { return n == 1 ? '\001' : (char)(n - 2 + From); }
  static Alphabet make(const char* nm) {
    Alphabet a = {nm, "", toInt, toChar, false};
    for (int i = 0; i < N; i++) a.chars += (char)(From + i);
    return a;
  }
};
struct Rev {  // z first
  static int toInt(char c) { return c == '\001' ? 1 : 'z' - c + 2; }
  static char toChar(int n) { return n == 1 ? '\001' : (char)('z' - (n - 2)); }
  static Alphabet make() {
    Alphabet a = {"z-a", "zyxwvutsrqponmlkjihgfedcba", toInt, toChar, false};
    return a;
  }
};
struct Alnum {
  static const char* s() { return "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"; }
  static int toInt(char c) { return c == '\001' ? 1 : (int)(strchr(s(), c) - s()) + 2; }
  static char toChar(int n) { return n == 1 ? '\001' : s()[n - 2]; }
  static Alphabet make() {
    Alphabet a = {"alnum", s(), toInt, toChar, false};
    return a;
  }
};
struct Bytes {  // every byte: \001 -> 1, \0 -> 2, c -> c+1
  static int toInt(char ch) {
    int c = (unsigned char)ch;
    return c == 1 ? 1 : c == 0 ? 2 : c + 1;
  }
  static char toChar(int n) { return n == 1 ? '\001' : n == 2 ? '\0' : (char)(n - 1); }
  static Alphabet make() {
    Alphabet a = {"all bytes", "", toInt, toChar, false};
    a.chars += '\0';
    for (int i = 2; i < 256; i++) a.chars += (char)i;
    return a;
  }
};
static const std::vector<Alphabet>& alphabets() {
  static std::vector<Alphabet>* v = 0;
  if (!v) {
    v = new std::vector<Alphabet>;
    Alphabet d = {"a-z", "abcdefghijklmnopqrstuvwxyz", 0, 0, true};
    v->push_back(d);
    v->push_back(Span<'0', 10>::make("digits"));
    v->push_back(Span<'A', 26>::make("A-Z"));
    v->push_back(Span<'a', 2>::make("ab"));
    v->push_back(Rev::make());
    v->push_back(Alnum::make());
    v->push_back(Span<32, 95>::make("printable"));
    v->push_back(Bytes::make());
  }
  return *v;
}
static Trie* make(const Alphabet& al) { return al.dflt ? new Trie : new Trie(al.toInt, al.toChar); }

struct T1 {
  Trie* t;
  const Alphabet* al;
  Model m;
  T1(const Alphabet* a) : t(make(*a)), al(a), m(Less{a}) {}
};
static void interleave(Gen& g) {
  std::vector<T1*> v;
  const std::vector<Alphabet>& A = alphabets();
  v.push_back(new T1(&A[g.draw(A.size())]));
  v.push_back(new T1(&A[g.draw(A.size())]));
  NOTE("tries over " << v[0]->al->name << " and " << v[1]->al->name);
  Loop ops(g, len_class(g, 200), 1200);
  int step = 0, sw = 0;
  bool diff = v[0]->al != v[1]->al;
  while (ops.next()) {
    size_t a = g.draw(v.size());
    T1& x = *v[a];
    std::string w = gen_word(g, *x.al, x.m);
    u64 op = g.draw(16);
    if (op < 8) {
      NOTE("t" << a << ".insert " << quote(w));
      x.t->insert(w);
      x.m.insert(w);
      sw++;
    } else if (op < 11) {
      if (!x.m.empty() && g.draw(3)) {
        auto it = x.m.begin();
        std::advance(it, g.draw(x.m.size()));
        w = *it;
      }
      NOTE("t" << a << ".remove " << quote(w));
      x.t->remove(w);
      x.m.erase(w);
    } else if (op < 12) {
      full_check(*x.t, *x.al, x.m, "during");
    } else if (op < 13 && v.size() < 4) {
      v.push_back(new T1(&A[g.draw(A.size())]));
      NOTE("new trie over " << v.back()->al->name);
      diff |= v.back()->al != v[0]->al;
    } else if (op < 14 && v.size() > 2) {
      size_t b = g.draw(v.size());
      NOTE("delete t" << b);
      delete v[b]->t;
      delete v[b];
      v.erase(v.begin() + b);
      continue;
    } else if (op < 15) {  // copies are independent
      size_t b = g.draw(v.size());
      if (a != b) {
        NOTE("t" << b << " becomes a copy of t" << a);
        if (g.chance(1, 4)) { Trie c(*x.t), d(std::move(c)); *v[b]->t = std::move(d); }
        else if (g.flag()) *v[b]->t = *x.t;
        else {
          delete v[b]->t;
          v[b]->t = new Trie(*x.t);
        }
        v[b]->al = x.al;
        Model c = x.m;
        v[b]->m.~Model();
        new (&v[b]->m) Model(c);
      }
    }
    near_misses(g, *x.t, *x.al, x.m, w);
    for (size_t i = 0; i < v.size(); i++) CHECK(v[i]->t->size() == (int)v[i]->m.size(), "size of trie " << i);
    if (step++ % 16 == 0)
      for (size_t i = 0; i < v.size(); i++) full_check(*v[i]->t, *v[i]->al, v[i]->m, "during");
  }
  for (size_t i = 0; i < v.size(); i++) {
    full_check(*v[i]->t, *v[i]->al, v[i]->m, "end");
    delete v[i]->t;
    delete v[i];
  }
  g.nontrivial(sw >= 3);
  if (diff) g.label("different mappings alive together");
}
// one trie with a large alphabet and many children per node
static void wide(Gen& g) {
  const std::vector<Alphabet>& A = alphabets();
  const Alphabet& al = A[5 + g.draw(3)];
  Trie* t = make(al);
  Model m(Less{&al});
  std::string stem = gen_word(g, al, m);
  Loop ops(g, len_class(g, 200), 600);
  while (ops.next()) {
    std::string w = stem;
    if (g.draw(3) == 0) w.resize(g.draw(w.size() + 1));
    w += al.chars[g.draw(al.chars.size())];
    if (g.draw(3) == 0) w += al.chars[g.draw(al.chars.size())];
    if (g.draw(8)) { t->insert(w); m.insert(w); NOTE("insert " << quote(w)); }
    else { t->remove(w); m.erase(w); NOTE("remove " << quote(w)); }
    near_misses(g, *t, al, m, w);
  }
  full_check(*t, al, m, "end");
  delete t;
  g.nontrivial(m.size() >= 3);
  if (m.size() >= 30) g.label("30 or more words");
  g.label(al.name);
}
// characters outside a-z: the answer is no, or an error, never yes
static void outside(Gen& g) {
  const Alphabet& al = alphabets()[0];
  Trie* t = new Trie;
  Model m(Less{&al});
  Loop ops(g, len_class(g, 25), 100);
  while (ops.next()) {
    std::string w = gen_word(g, al, m);
    t->insert(w);
    m.insert(w);
    NOTE("insert " << quote(w));
  }
  std::string w = gen_word(g, al, m);
  char bad;
  do {
    bad = (char)g.draw(256);
    if ((bad >= 'a' && bad <= 'z') || bad == '\001') bad = "A{`\x80 z0"[g.draw(5)];
  } while (false);
  if (g.flag() || w.empty()) w.insert(g.draw(w.size() + 1), 1, bad);
  else w[g.draw(w.size())] = bad;
  NOTE("contain " << quote(w));
  bool r = false;
  if (returns_or_errors("contain", [&] { r = t->contain(w); })) {
    CHECK(!r, "a trie of lower-case words contains " << quote(w));
    delete t;
    g.label("answered no");
  } else
    g.label("rejected");
  g.nontrivial();
}
PBT_MAIN({"interleave", 30000, interleave, 0}, {"wide", 20000, wide, 0}, {"outside", 30000, outside, 0})
