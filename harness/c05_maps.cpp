#include "vals.h"
#include <map>
#include <set>
#include "containers/Map.h"
#include "containers/MultiMap.h"

template <class K, class T>
struct Maps {
  typedef cuhksz::Map<K, T> C;
  typedef std::vector<std::pair<K, T> > M;  // sorted by key
  static int find(const M& m, const K& k) {
    for (size_t i = 0; i < m.size(); i++)
      if (m[i].first == k) return (int)i;
    return -1;
  }
  static void put(M& m, const K& k, const T& t) {
    int i = find(m, k);
    if (i >= 0) m[i].second = t;
    else {
      size_t p = 0;
      while (p < m.size() && m[p].first < k) p++;
      m.insert(m.begin() + p, std::make_pair(k, t));
    }
  }
  template <class It>
  static void seq(It b, It e, const M& m, const char* w) {
    size_t i = 0;
    for (; b != e; ++b, ++i)
      CHECK(i < m.size() && b->first == m[i].first && Val<T>::same(b->second, m[i].second), w << ", entry " << i);
    CHECK(i == m.size(), w << " visits " << i << " of " << m.size());
  }
  static void obs(C& s, const M& m, bool full) {
    const C& c = s;
    CHECK(s.size() == (int)m.size(), "size " << s.size() << " model " << m.size());
    CHECK(c.isEmpty() == m.empty(), "isEmpty");
    seq(c.begin(), c.end(), m, "const iteration");
    if (!full) return;
    seq(s.begin(), s.end(), m, "iteration");
    for (auto& e : m) {
      CHECK(s.contains(e.first), "contains " << Val<K>::show(e.first));
      CHECK(Val<T>::same(s.get(e.first), e.second), "get " << Val<K>::show(e.first));
      CHECK(Val<T>::same(c.get(e.first), e.second), "const get " << Val<K>::show(e.first));
      CHECK(Val<T>::same(s[e.first], e.second), "[] " << Val<K>::show(e.first));
      CHECK(&s[e.first] == &s.get(e.first), "[] and get name the same value");
    }
    std::map<K, T> a = s.toStlMap();
    seq(a.begin(), a.end(), m, "explicit conversion");
    std::map<K, T> b = s;
    seq(b.begin(), b.end(), m, "implicit conversion");
    CHECK(s.size() == (int)m.size(), "observing changes nothing");
  }
  static void compare(C& x, C& z, const M& y, const M& w) {
    bool lt = std::lexicographical_compare(y.begin(), y.end(), w.begin(), w.end());
    bool gt = std::lexicographical_compare(w.begin(), w.end(), y.begin(), y.end());
    bool e = y.size() == w.size() && std::equal(y.begin(), y.end(), w.begin());
    CHECK((x == z) == e, "==");
    CHECK((x != z) == !e, "!=");
    CHECK((x < z) == lt, "<");
    CHECK((x > z) == gt, ">");
    CHECK((x <= z) == !gt, "<=");
    CHECK((x >= z) == !lt, ">=");
  }
  static K key(Gen& g, const M& m) {
    if (!m.empty() && g.flag()) return m[g.draw(m.size())].first;
    return Val<K>::gen(g);
  }
  static void run(Gen& g) {
    const int N = 3;
    C* v[N] = {new C, new C, new C};
    M m[N];
    Loop ops(g, len_class(g, 200), 1500);
    int mut = 0, step = 0;
    size_t maxsize = 0;
    bool over = false, er = false;
    Watch watch(g);
    while (ops.next()) {
      int a = (int)g.draw(N);
      C& x = *v[a];
      M& y = m[a];
      u64 op = g.draw(22);
      if (op < 5) {
        K k = key(g, y);
        T t = Val<T>::gen(g);
        NOTE("m" << a << ".set " << Val<K>::show(k) << " -> " << Val<T>::show(t));
        over |= find(y, k) >= 0;
        x.set(k, t);
        put(y, k, t);
        mut++;
      } else if (op < 9) {
        K k = key(g, y);
        bool write = g.flag();
        NOTE("m" << a << "[" << Val<K>::show(k) << "]" << (write ? " write" : " read"));
        if (write) {
          T t = Val<T>::gen(g);
          x[k] = t;
          put(y, k, t);
        } else {
          T t = x[k];
          int i = find(y, k);
          CHECK(Val<T>::same(t, i >= 0 ? y[i].second : T()), "[] of " << (i >= 0 ? "present" : "missing") << " key");
          if (i < 0) put(y, k, T());
        }
        mut++;
      } else if (op < 12) {
        K k = y.empty() || !g.draw(4) ? Val<K>::gen(g) : y[g.draw(y.size())].first;
        int i = find(y, k);
        bool own = i >= 0 && g.chance(1, 3);
        NOTE("m" << a << ".erase " << Val<K>::show(k) << (i >= 0 ? "" : " (missing)") << (own ? " through its own key" : ""));
        if (own) {
          auto it = x.begin();
          std::advance(it, i);
          x.erase(it->first);
        } else
          x.erase(k);
        if (i >= 0) { y.erase(y.begin() + i); er = true; }
        if (watch.now()) CHECK(!x.contains(k), "erased key is gone");
        mut++;
      } else if (op < 14) {
        K k = key(g, y);
        NOTE("m" << a << " query " << Val<K>::show(k));
        CHECK(x.contains(k) == (find(y, k) >= 0), "contains " << Val<K>::show(k));
      } else if (op < 15) {
        if (!y.empty()) {
          size_t i = g.draw(y.size());
          T t = Val<T>::gen(g);
          bool viaIt = g.flag();
          NOTE("m" << a << " write through reference at " << Val<K>::show(y[i].first));
          if (viaIt) {
            auto it = x.begin();
            std::advance(it, i);
            it->second = t;
          } else
            x.get(y[i].first) = t;
          y[i].second = t;
        }
      } else if (op < 16) {
        if (g.chance(1, 3)) {
          NOTE("m" << a << ".clear");
          x.clear();
          y.clear();
        }
      } else if (op < 17) {
        int b = (int)g.draw(N);
        if (a != b && g.chance(1, 3)) {
          bool sw = g.flag();
          NOTE("m" << a << (sw ? " swapped with m" : " = temporary of m") << b);
          if (!sw) {
            assign_temp(*v[a], *v[b]);
            m[a] = m[b];
          } else if (exchange(*v[a], *v[b])) {
            std::swap(m[a], m[b]);
          }
          mut++;
          if (watch.now()) { obs(*v[a], m[a], true); obs(*v[b], m[b], true); }
          continue;
        }
        NOTE("m" << a << " = m" << b);
        C& r = (x = *v[b]);
        CHECK(&r == v[a], "assignment returns the target");
        M t = m[b];
        m[a] = t;
        mut++;
      } else if (op < 18) {
        int b = (int)g.draw(N);
        if (a != b) {
          NOTE("m" << a << " copy of m" << b);
          delete v[a];
          v[a] = new C(*v[b]);
          m[a] = m[b];
        }
      } else if (op < 20) {
        int b = (int)g.draw(N);
        NOTE("compare m" << a << " m" << b);
        compare(*v[a], *v[b], m[a], m[b]);
      } else if (op < 21) {
        M n;
        if (g.flag()) {
          K k1 = Val<K>::gen(g), k2 = Val<K>::gen(g);
          T t1 = Val<T>::gen(g), t2 = Val<T>::gen(g);
          delete v[a];
          v[a] = new C{{k1, t1}, {k2, t2}};
          put(n, k1, t1);
          if (!(k1 == k2)) put(n, k2, t2);
        } else {
          Loop l(g, len_class(g, 50));
          while (l.next()) {
            K k = Val<K>::gen(g);
            T t = Val<T>::gen(g);
            put(n, k, t);
          }
          std::map<K, T> s(n.begin(), n.end());
          delete v[a];
          v[a] = new C(s);
          seq(s.begin(), s.end(), n, "the std::map copied from");
        }
        NOTE("m" << a << " constructed with " << n.size());
        m[a] = n;
      } else if (!y.empty()) {
        K k = key(g, y);
        size_t i = g.draw(y.size());
        T t = y[i].second;
        int how = (int)g.draw(3);
        NOTE("m" << a << " own value to key " << Val<K>::show(k) << ", kind " << how);
        if (how == 0) x.set(k, x.get(y[i].first));
        else if (how == 1) x[k] = x[y[i].first];
        else {
          auto it = x.begin();
          size_t j = g.draw(y.size());
          std::advance(it, j);
          k = y[j].first;
          x.set(it->first, x[y[i].first]);
        }
        put(y, k, t);
      }
      maxsize = std::max(maxsize, m[a].size());
      if (watch.now()) obs(*v[a], m[a], m[a].size() < 16 || step % 8 == 0);
      step++;
    }
    for (int i = 0; i < N; i++) {
      obs(*v[i], m[i], true);
      delete v[i];
    }
    g.nontrivial(mut >= 3 && maxsize >= 2);
    if (er) g.label("erased a present key");
    if (over) g.label("overwrote a key");
    if (maxsize > 32) g.label("size>32");
  }
  // many entries
  static void huge(Gen& g) {
    int n = huge_size(g);
    std::vector<K> ks = bulk_seq<K>(g, n);
    if (g.flag()) spread(ks);
    std::vector<T> ts = bulk_seq<T>(g, n);
    std::map<K, T> m;
    C* v = new C;
    bool viaset = g.flag();
    for (int i = 0; i < n; i++) {
      if (viaset) v->set(ks[i], ts[i]); else (*v)[ks[i]] = ts[i];
      m[ks[i]] = ts[i];
    }
    if (g.flag()) {
      delete v;
      v = new C(m);
    }
    NOTE(n << " entries, " << m.size() << " kept");
    Loop ops(g, 8, 40);
    while (ops.next()) {
      u64 op = g.draw(7);
      K k = g.draw(3) ? ks[gen_index(g, n)] : Val<K>::gen(g);
      T t = Val<T>::gen(g);
      if (op == 0) {
        NOTE("set " << Val<K>::show(k));
        v->set(k, t);
        m[k] = t;
      } else if (op == 1) {
        NOTE("erase " << Val<K>::show(k));
        v->erase(k);
        m.erase(k);
      } else if (op == 2) {
        NOTE("copy, change, compare");
        C c(*v);
        CHECK(c == *v && !(c != *v) && c <= *v && c >= *v && !(c < *v) && !(c > *v), "copy compared with the original");
        std::map<K, T> d = m;
        c.set(k, t);
        d[k] = t;
        CHECK((c == *v) == (d == m), "==");
        CHECK((c < *v) == (d < m), "<");
        CHECK((c > *v) == (m < d), ">");
        CHECK((c <= *v) == !(m < d) && (c >= *v) == !(d < m) && (c != *v) == !(d == m), "<=, >=, !=");
        CHECK((*v < c) == (m < d) && (*v > c) == (d < m) && (*v <= c) == !(d < m) && (*v >= c) == !(m < d), "the other way round");
        C e;
        e = c;
        CHECK(e == c, "assigned");
      } else if (op == 6) {
        NOTE("clear");
        v->clear();
        m.clear();
      } else if (op == 3) {
        int a = (int)g.draw(n), c = (int)g.draw(600);
        NOTE("erase " << c << " keys");
        for (int i = a; i < n && i < a + c; i++) { v->erase(ks[i]); m.erase(ks[i]); }
      } else if (op == 4) {
        int a = (int)g.draw(n), c = (int)g.draw(600);
        NOTE("set " << c << " keys");
        for (int i = a; i < n && i < a + c; i++) { v->set(ks[i], t); m[ks[i]] = t; }
      } else {
        T x = (*v)[k];
        CHECK(Val<T>::same(x, m[k]), "[] of " << Val<K>::show(k));
      }
      CHECK(v->contains(k) == (m.count(k) > 0), "contains " << Val<K>::show(k));
      CHECK(v->size() == (int)m.size(), "size " << v->size() << " model " << m.size());
    }
    const C& c = *v;
    obs(*v, M(m.begin(), m.end()), false);
    for (auto& e : m) CHECK(v->contains(e.first) && Val<T>::same(c.get(e.first), e.second), "get " << Val<K>::show(e.first));
    std::map<K, T> a = v->toStlMap();
    CHECK(a == m, "explicit conversion");
    delete v;
    g.nontrivial(true);
  }
  static void cmp(Gen& g) {
    M a, b;
    Loop l(g, len_class(g, 12));
    while (l.next()) {
      K k = Val<K>::gen(g);
      T t = Val<T>::gen(g);
      put(a, k, t);
    }
    b = a;
    u64 k = g.draw(5);
    if (k == 1 && !b.empty()) b[g.draw(b.size())].second = Val<T>::gen(g);
    else if (k == 2 && !b.empty()) b.erase(b.begin() + g.draw(b.size()));
    else if (k == 3) {
      K kk = Val<K>::gen(g);
      put(b, kk, Val<T>::gen(g));
    }
    C *x = new C, *y = new C;
    for (auto& e : a) x->set(e.first, e.second);
    for (auto it = b.rbegin(); it != b.rend(); ++it) y->set(it->first, it->second);
    NOTE(a.size() << " entries against " << b.size() << ", kind " << k);
    compare(*x, *y, a, b);
    compare(*y, *x, b, a);
    obs(*x, a, true);
    obs(*y, b, true);
    delete x;
    delete y;
    g.nontrivial(a.size() + b.size() >= 2);
  }
};

template <class K, class T>
struct MMaps {
  typedef cuhksz::MultiMap<K, T> C;
  typedef std::vector<std::pair<K, T> > M;  // sorted by key, stable
  static void put(M& m, const K& k, const T& t) {
    size_t p = 0;
    while (p < m.size() && !(k < m[p].first)) p++;
    m.insert(m.begin() + p, std::make_pair(k, t));
  }
  static void query(C& x, const M& m, const K& k) {
    std::set<T> want;
    int n = 0;
    for (auto& e : m)
      if (e.first == k) { want.insert(e.second); n++; }
    const C& c = x;
    CHECK(c.count(k) == n, "count of " << Val<K>::show(k) << " is " << c.count(k) << " not " << n);
    cuhksz::Set<T> got = x.find(k);
    CHECK(got.size() == (int)want.size(), "find of " << Val<K>::show(k) << " has " << got.size() << " values, not " << want.size());
    auto w = want.begin();
    for (auto& e : got) {
      CHECK(w != want.end() && e == *w, "find of " << Val<K>::show(k));
      ++w;
    }
  }
  template <class It>
  static void seq(It b, It e, const M& m, const char* w) {
    size_t i = 0;
    for (; b != e; ++b, ++i)
      CHECK(i < m.size() && b->first == m[i].first && Val<T>::same(b->second, m[i].second), w << ", entry " << i);
    CHECK(i == m.size(), w << " visits " << i << " of " << m.size());
  }
  static void obs(C& s, const M& m) {
    const C& c = s;
    CHECK(s.size() == (int)m.size(), "size " << s.size() << " model " << m.size());
    CHECK(c.isEmpty() == m.empty(), "isEmpty");
    seq(c.begin(), c.end(), m, "const iteration");
    seq(s.begin(), s.end(), m, "iteration");
    std::multimap<K, T> a = s.toStlMultimap();
    seq(a.begin(), a.end(), m, "explicit conversion");
    std::multimap<K, T> b = s;
    seq(b.begin(), b.end(), m, "implicit conversion");
    for (size_t i = 0; i < m.size(); i++)
      if (i == 0 || !(m[i].first == m[i - 1].first)) query(s, m, m[i].first);
  }
  static void compare(C& x, C& z, const M& y, const M& w) {
    bool lt = std::lexicographical_compare(y.begin(), y.end(), w.begin(), w.end());
    bool gt = std::lexicographical_compare(w.begin(), w.end(), y.begin(), y.end());
    bool e = y.size() == w.size() && std::equal(y.begin(), y.end(), w.begin());
    CHECK((x == z) == e, "==");
    CHECK((x != z) == !e, "!=");
    CHECK((x < z) == lt, "<");
    CHECK((x > z) == gt, ">");
    CHECK((x <= z) == !gt, "<=");
    CHECK((x >= z) == !lt, ">=");
  }
  static void fill(Gen& g, C*& v, M& m) {
    delete v;
    m.clear();
    if (g.chance(1, 4)) {
      K a = Val<K>::gen(g), b = g.flag() ? a : Val<K>::gen(g), c = g.flag() ? a : Val<K>::gen(g);
      T s = Val<T>::gen(g), t = Val<T>::gen(g), u = Val<T>::gen(g);
      v = new C{{a, s}, {b, t}, {c, u}};
      put(m, a, s);
      put(m, b, t);
      put(m, c, u);
    } else {
      std::multimap<K, T> s;
      Loop l(g, len_class(g, 50));
      while (l.next()) {
        K k = m.empty() || g.flag() ? Val<K>::gen(g) : m[g.draw(m.size())].first;
        T t = g.chance(1, 4) && !m.empty() ? m[g.draw(m.size())].second : Val<T>::gen(g);
        s.insert(std::make_pair(k, t));
        put(m, k, t);
      }
      v = new C(s);
      seq(s.begin(), s.end(), m, "the std::multimap copied from");
    }
    NOTE("multimap constructed with " << m.size());
  }
  static void run(Gen& g) {
    const int N = 3;
    C* v[N] = {new C, new C, new C};
    M m[N];
    fill(g, v[0], m[0]);
    fill(g, v[1], m[1]);
    Loop ops(g, len_class(g, 50), 300);
    size_t maxsize = std::max(m[0].size(), m[1].size());
    int mut = 0;
    bool multi = false;
    Watch watch(g);
    while (ops.next()) {
      int a = (int)g.draw(N);
      M& y = m[a];
      u64 op = g.draw(12);
      if (op < 4) {
        K k = y.empty() || !g.draw(4) ? Val<K>::gen(g) : y[g.draw(y.size())].first;
        size_t at = y.size();
        for (size_t i = 0; i < y.size(); i++)
          if (y[i].first == k) { at = i; break; }
        bool own = at < y.size() && g.chance(1, 3);
        NOTE("mm" << a << ".erase " << Val<K>::show(k) << (own ? " through its own key" : ""));
        if (own) {
          auto it = v[a]->begin();
          std::advance(it, at);
          v[a]->erase(it->first);
        } else
          v[a]->erase(k);
        M r;
        int n = 0;
        for (auto& e : y)
          if (!(e.first == k)) r.push_back(e);
          else n++;
        if (n > 1) multi = true;
        y = r;
        if (watch.now()) query(*v[a], y, k);
        mut++;
      } else if (op < 6) {
        K k = Val<K>::gen(g);
        NOTE("mm" << a << " query " << Val<K>::show(k));
        query(*v[a], y, k);
      } else if (op < 7) {
        int b = (int)g.draw(N);
        if (a != b && g.chance(1, 3)) {
          bool sw = g.flag();
          NOTE("mm" << a << (sw ? " swapped with mm" : " = temporary of mm") << b);
          if (!sw) {
            assign_temp(*v[a], *v[b]);
            m[a] = m[b];
          } else if (exchange(*v[a], *v[b])) {
            std::swap(m[a], m[b]);
          }
          mut++;
          if (watch.now()) { obs(*v[a], m[a]); obs(*v[b], m[b]); }
          continue;
        }
        NOTE("mm" << a << " = mm" << b);
        C& r = (*v[a] = *v[b]);
        CHECK(&r == v[a], "assignment returns the target");
        M t = m[b];
        m[a] = t;
        mut++;
      } else if (op < 8) {
        int b = (int)g.draw(N);
        if (a != b) {
          NOTE("mm" << a << " copy of mm" << b);
          delete v[a];
          v[a] = new C(*v[b]);
          m[a] = m[b];
        }
      } else if (op < 10) {
        int b = (int)g.draw(N);
        NOTE("compare mm" << a << " mm" << b);
        compare(*v[a], *v[b], m[a], m[b]);
      } else if (op < 11) {
        fill(g, v[a], m[a]);
      } else if (g.chance(1, 3)) {
        NOTE("mm" << a << ".clear");
        v[a]->clear();
        y.clear();
      }
      maxsize = std::max(maxsize, m[a].size());
      if (watch.now()) obs(*v[a], m[a]);
    }
    for (int i = 0; i < N; i++) {
      obs(*v[i], m[i]);
      delete v[i];
    }
    g.nontrivial(mut >= 1 && maxsize >= 3);
    if (multi) g.label("erased a key with several values");
  }
  // many entries; keys with many values
  static void huge(Gen& g) {
    int n = huge_size(g);
    std::vector<K> ks = bulk_seq<K>(g, n);
    if (g.flag()) spread(ks);
    std::vector<T> ts = bulk_seq<T>(g, n);
    K hot = Val<K>::gen(g);
    u64 k = g.draw(3) == 0 ? g.draw(n) : 250 + g.draw(12);
    for (u64 i = 0; i < k && i < ks.size(); i++) ks[i] = hot;
    std::multimap<K, T> m;
    for (int i = 0; i < n; i++) m.insert(std::make_pair(ks[i], ts[i]));
    C v(m);
    NOTE(n << " entries");
    query(v, M(m.begin(), m.end()), hot);
    Loop ops(g, 6, 20);
    while (ops.next()) {
      K x = g.draw(4) ? ks[gen_index(g, n)] : hot;
      if (g.draw(12) == 0) {
        NOTE("clear, then the values of " << Val<K>::show(x) << " and " << Val<K>::show(hot) << " again");
        v.clear();
        CHECK(v.isEmpty() && v.size() == 0 && v.count(hot) == 0, "cleared");
        std::multimap<K, T> d;
        Bulk b(g);
        for (auto& e : m)
          if (e.first == x || e.first == hot || b.next(50) == 0) d.insert(e);
        C fresh(d);
        v = fresh;
        m = d;
      } else if (g.flag()) {
        NOTE("erase " << Val<K>::show(x));
        v.erase(x);
        m.erase(x);
      } else {
        C c(v);
        CHECK(c == v && !(c < v) && !(c > v), "copy compared with the original");
        c.erase(x);
        std::multimap<K, T> d = m;
        d.erase(x);
        CHECK((c == v) == (d == m) && (c < v) == (d < m) && (c > v) == (m < d), "copy without " << Val<K>::show(x));
      }
      CHECK(v.count(x) == (int)m.count(x), "count of " << Val<K>::show(x));
      CHECK(v.size() == (int)m.size(), "size " << v.size() << " model " << m.size());
    }
    M f(m.begin(), m.end());
    const C& c = v;
    seq(c.begin(), c.end(), f, "const iteration");
    std::multimap<K, T> a = v.toStlMultimap();
    seq(a.begin(), a.end(), f, "explicit conversion");
    for (int i = 0; i < 12; i++) query(v, f, ks[g.draw(n)]);
    g.nontrivial(true);
  }
};
PBT_MAIN({"map_int_string", 30000, (Maps<int, std::string>::run), 0},
         {"map_string_rec", 20000, (Maps<std::string, Rec>::run), 0},
         {"map_compare", 40000, (Maps<int, int>::cmp), 0},
         {"multimap_int_int", 40000, (MMaps<int, int>::run), 0},
         {"multimap_string_string", 20000, (MMaps<std::string, std::string>::run), 0},
         {"map_pod", 15000, (Maps<int, Pod>::run), 0},
         {"map_compare_pod", 20000, (Maps<int, Pod>::cmp), 0}, {"map_huge", 120, (Maps<int, std::string>::huge), 0}, {"multimap_huge", 100, (MMaps<int, int>::huge), 0})
