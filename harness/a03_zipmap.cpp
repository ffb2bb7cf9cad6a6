#include "vals.h"
#include <deque>
#include <list>
#include <set>
#include "algorithm.h"
#include "containers/List.h"
#include "containers/Set.h"
#include "containers/Vector.h"

template <class T> static std::vector<T> gvec(Gen& g, u64 big) {
  std::vector<T> v;
  Loop l(g, len_class(g, big));
  while (l.next()) v.push_back(Val<T>::gen(g));
  return v;
}
template <class C, class T> static C mk(const std::vector<T>& v) { return C(v.begin(), v.end()); }

template <class C, class T> static void do_zip(Gen& g, u64 big) {
  int n = 1 + (int)g.draw(g.draw(4) ? 5 : 9);
  std::vector<std::vector<T> > in;
  size_t mn = (size_t)-1;
  bool equal_len = g.draw(4) == 0;
  for (int i = 0; i < n; i++) {
    in.push_back(gvec<T>(g, big));
    if (equal_len && i) {
      in[i].resize(in[0].size());
      for (auto& x : in[i]) x = Val<T>::gen(g);
    }
    mn = std::min(mn, in[i].size());
    NOTE("input " << i << ": " << show_seq(in[i].begin(), in[i].end()));
  }
  std::vector<C> c;
  for (int i = 0; i < n; i++) c.push_back(mk<C>(in[i]));
  std::vector<C> r;
  switch (n) {
    case 1: r = cuhksz::zip(c[0]); break;
    case 2: r = cuhksz::zip(c[0], c[1]); break;
    case 3: r = cuhksz::zip(c[0], c[1], c[2]); break;
    case 4: r = cuhksz::zip(c[0], c[1], c[2], c[3]); break;
    case 5: r = cuhksz::zip(c[0], c[1], c[2], c[3], c[4]); break;
    case 6: r = cuhksz::zip(c[0], c[1], c[2], c[3], c[4], c[5]); break;
    case 7: r = cuhksz::zip(c[0], c[1], c[2], c[3], c[4], c[5], c[6]); break;
    case 8: r = cuhksz::zip(c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]); break;
    default: r = cuhksz::zip(c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7], c[8]);
  }
  CHECK(r.size() == mn, "zip of " << n << " inputs has " << r.size() << " rows, the shortest input " << mn);
  for (size_t k = 0; k < mn; k++) {
    std::vector<T> row(r[k].begin(), r[k].end());
    CHECK((int)row.size() == n, "row " << k << " has " << row.size() << " elements of " << n);
    for (int i = 0; i < n; i++)
      CHECK(Val<T>::same(row[i], in[i][k]), "row " << k << " column " << i << ": " << Val<T>::show(row[i]) << " want " << Val<T>::show(in[i][k]));
  }
  for (int i = 0; i < n; i++) {
    std::vector<T> a(c[i].begin(), c[i].end());
    bool same = a.size() == in[i].size();
    for (size_t k = 0; same && k < a.size(); k++) same = Val<T>::same(a[k], in[i][k]);
    CHECK(same, "zip changed its input " << i);
  }
  if (n == 2) {
    cuhksz::Zip<C> z(c[0], c[1]);
    std::vector<C> q = z, q2 = z();
    CHECK(q.size() == mn && q2.size() == mn, "Zip object conversion");
  }
  g.label(n == 1 ? "zip of 1" : n == 2 ? "zip of 2" : "zip of 3+");
  g.nontrivial(n >= 2 && mn >= 2);
}
void zip_vector(Gen& g) { g.flag() ? do_zip<std::vector<int>, int>(g, 60) : do_zip<std::vector<Rec>, Rec>(g, 20); }
void zip_other(Gen& g) {
  switch (g.draw(3)) {
    case 0: do_zip<std::list<int>, int>(g, 25); break;
    case 1: do_zip<std::deque<std::string>, std::string>(g, 25); break;
    default: do_zip<std::list<Rec>, Rec>(g, 12);
  }
}
void zip_long(Gen& g) { do_zip<std::vector<int>, int>(g, 800); }

// ---- map and filter; the function sees every element once, in order
template <class T> struct Pred {
  int kind;
  u64 mask;
  Pred(Gen& g) : kind((int)g.draw(5)), mask(g.draw(0)) {}
  bool operator()(const T& t, size_t pos) const {
    switch (kind) {
      case 0: return true;
      case 1: return false;
      case 2: return hash(t) & 1;
      case 3: return hash(t) % 5 == 0;
      default: return mask >> (pos % 64) & 1;  // depends on the position
    }
  }
  static u64 hash(int v) { return mix((u64)(i64)v); }
  static u64 hash(const std::string& s) { return hash_str(s.c_str()) + s.size(); }
  static u64 hash(const Rec& r) { return mix((u64)(i64)r.key * 1000003 + r.tag); }
};
// long inputs
void huge(Gen& g) {
  int n = huge_size(g), n2 = g.flag() ? n : huge_size(g);
  std::vector<int> a = bulk_seq<int>(g, n), b = bulk_seq<int>(g, n2);
  NOTE("lengths " << n << " and " << n2);
  std::vector<std::vector<int> > z = cuhksz::zip(a, b);
  int mn = std::min(n, n2);
  CHECK((int)z.size() == mn, "zip of " << n << " and " << n2 << " elements has " << z.size() << " rows");
  for (int i = 0; i < mn; i++) CHECK(z[i].size() == 2 && z[i][0] == a[i] && z[i][1] == b[i], "row " << i << " of " << mn);
  size_t calls = 0;
  std::vector<long> r = cuhksz::mapAll(a, [&](int v) { calls++; return 3L * v; });
  CHECK(r.size() == a.size() && calls == a.size(), "mapAll gave " << r.size() << " results of " << n);
  for (int i = 0; i < n; i++) CHECK(r[i] == 3L * a[i], "result " << i);
  std::vector<int> f = cuhksz::filterContainer(b, [](int v) { return v % 3 == 0; }), w;
  for (int v : b)
    if (v % 3 == 0) w.push_back(v);
  CHECK(f == w, "filter kept " << f.size() << " of " << n2 << " elements, expected " << w.size());
  g.nontrivial(true);
}
template <class T> static std::string f_str(const T& t) { return "<" + Val<T>::show(t) + ">"; }

template <class C, class T> static void do_map(Gen& g, C& c, const std::vector<T>& m) {
  NOTE("elements " << show_seq(m.begin(), m.end()));
  {
    size_t calls = 0;
    std::vector<std::string> r = cuhksz::mapAll(c, [&](const T& t) { calls++; return f_str(t); });
    CHECK(r.size() == m.size(), "mapAll returned " << r.size() << " results for " << m.size() << " elements");
    CHECK(calls == m.size(), "function called " << calls << " times for " << m.size() << " elements");
    for (size_t i = 0; i < m.size(); i++) CHECK(r[i] == f_str(m[i]), "result " << i << " is " << r[i] << " want " << f_str(m[i]));
  }
  {
    int n = 0;  // stateful: the order of the calls
    std::vector<int> r = cuhksz::mapAll(c, [&](const T&) { return n++; });
    for (size_t i = 0; i < r.size(); i++) CHECK(r[i] == (int)i, "call order: result " << i << " is " << r[i]);
  }
  {
    Pred<T> p(g);
    size_t pos = 0;
    std::vector<T> r = cuhksz::filterContainer(c, [&](const T& t) { return p(t, pos++); });
    std::vector<T> w;
    for (size_t i = 0; i < m.size(); i++)
      if (p(m[i], i)) w.push_back(m[i]);
    CHECK(r.size() == w.size(), "filter kept " << show_seq(r.begin(), r.end()) << " want " << show_seq(w.begin(), w.end()));
    for (size_t i = 0; i < w.size(); i++)
      CHECK(Val<T>::same(r[i], w[i]), "filter kept " << show_seq(r.begin(), r.end()) << " want " << show_seq(w.begin(), w.end()));
    // results that are true without being bool
    static const int yes[] = {1, 2, -1, 256, 65536, INT_MIN};
    int tr = yes[g.draw(6)];
    pos = 0;
    std::vector<T> r2;
    bool ptr = g.draw(3) == 0;
    if (ptr) r2 = cuhksz::filterContainer(c, [&](const T& t) -> const void* { return p(t, pos++) ? &pos : (const void*)0; });
    else r2 = cuhksz::filterContainer(c, [&](const T& t) { return p(t, pos++) ? tr : 0; });
    CHECK(r2.size() == w.size(), "filter with " << (ptr ? std::string("pointer") : std::to_string(tr)) << " results kept " << r2.size() << " elements, want " << w.size());
    for (size_t i = 0; i < w.size(); i++) CHECK(Val<T>::same(r2[i], w[i]), "filter with non-bool results, element " << i);
    CHECK(pos == m.size(), "predicate called " << pos << " times for " << m.size() << " elements");
    g.label(w.empty() ? "filter keeps none" : w.size() == m.size() ? "filter keeps all" : "filter keeps some");
  }
  size_t i = 0;
  for (auto& x : c) {
    CHECK(i < m.size() && Val<T>::same(x, m[i]), "the container was changed at " << i);
    i++;
  }
  CHECK(i == m.size(), "the container lost elements");
  g.nontrivial(m.size() >= 2);
}
template <class T> static void mf(Gen& g) {
  std::vector<T> m = gvec<T>(g, 200);
  switch (g.draw(7)) {
    case 0: { std::vector<T> c = m; do_map(g, c, m); break; }
    case 1: { const std::vector<T> c = m; do_map(g, c, m); break; }
    case 2: { std::list<T> c(m.begin(), m.end()); do_map(g, c, m); break; }
    case 3: { std::deque<T> c(m.begin(), m.end()); do_map(g, c, m); break; }
    case 4: { cuhksz::Vector<T> c(m); do_map(g, c, m); break; }
    case 5: {
      std::list<T> l(m.begin(), m.end());
      cuhksz::List<T> c(l);
      do_map(g, c, m);
      break;
    }
    default: {
      std::set<T> s(m.begin(), m.end());
      std::vector<T> k(s.begin(), s.end());
      if (g.flag()) do_map(g, s, k);
      else { cuhksz::Set<T> c(s); do_map(g, c, k); }
    }
  }
}
void map_filter(Gen& g) {
  switch (g.draw(3)) {
    case 0: mf<int>(g); break;
    case 1: mf<std::string>(g); break;
    default: mf<Rec>(g);
  }
}
// functions that modify the element they are given, and bool results
void map_mutating(Gen& g) {
  std::vector<int> m = gvec<int>(g, 100), c = m;
  NOTE("elements " << show_seq(m.begin(), m.end()));
  std::vector<long> r = cuhksz::mapAll(c, [](int& v) -> long { long o = v; v = (int)((unsigned)v * 3u + 1u); return o * 2; });
  CHECK(r.size() == m.size(), "mapAll returned " << r.size() << " results for " << m.size());
  for (size_t i = 0; i < m.size(); i++) {
    CHECK(r[i] == 2L * m[i], "result " << i << " is " << r[i]);
    CHECK(c[i] == (int)((unsigned)m[i] * 3u + 1u), "element " << i << " was given as a copy or not exactly once");
  }
  std::vector<bool> b = cuhksz::mapAll(m, [](int& v) -> bool { return v > 0; });
  for (size_t i = 0; i < m.size(); i++) CHECK(b[i] == (m[i] > 0), "bool result " << i);
  g.nontrivial(m.size() >= 2);
}
PBT_MAIN({"zip_vector", 60000, zip_vector, 0}, {"zip_other", 40000, zip_other, 0}, {"zip_long", 3000, zip_long, 0}, {"huge", 200, huge, 0},
         {"map_filter", 80000, map_filter, 0}, {"map_mutating", 30000, map_mutating, 0})
