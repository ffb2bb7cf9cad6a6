#include "vals.h"
#include <set>
#include "containers/MultiSet.h"
#include "containers/Set.h"

template <class T>
struct Sets {
  typedef cuhksz::Set<T> S;
  typedef cuhksz::MultiSet<T> MS;
  typedef std::vector<T> M;  // sorted vector, the model of both

  static int count(const M& m, const T& t) {
    int n = 0;
    for (auto& x : m) n += (x == t);
    return n;
  }
  static void add(S& s, M& m, const T& t) {
    s.insert(t);
    if (!count(m, t)) m.insert(std::upper_bound(m.begin(), m.end(), t), t);
  }
  static void add(MS& s, M& m, const T& t) {
    s.insert(t);
    m.insert(std::upper_bound(m.begin(), m.end(), t), t);
  }
  static void del(M& m, const T& t) {
    M r;
    for (auto& x : m)
      if (!(x == t)) r.push_back(x);
    m = r;
  }
  static void erase(Gen&, S& s, M& m, const T& t) {
    s.erase(t);
    del(m, t);
  }
  static void erase(Gen&, MS& s, M& m, const T& t) {
    if (!count(m, t)) return;  // rejected: property C06
    s.erase(t);
    del(m, t);
  }
  static void member(const S& s, const M& m, const T& t) {
    CHECK(s.contains(t) == (count(m, t) > 0), "contains " << Val<T>::show(t));
  }
  static void member(const MS& s, const M& m, const T& t) {
    CHECK(s.contains(t) == (count(m, t) > 0), "contains " << Val<T>::show(t));
    CHECK(s.count(t) == count(m, t), "count of " << Val<T>::show(t) << " is " << s.count(t));
  }
  static std::set<T> stl(S& s) { return s.toStlSet(); }
  static std::multiset<T> stl(MS& s) { return s.toStlMultiset(); }
  static std::set<T> stl2(S& s) { std::set<T> r = s; return r; }
  static std::multiset<T> stl2(MS& s) { std::multiset<T> r = s; return r; }
  static S* from(const M& m, S*) {
    std::set<T> x(m.begin(), m.end()), y = x;
    S* s = new S(x);
    CHECK(x == y, "the std::set copied from is unchanged");
    return s;
  }
  static MS* from(const M& m, MS*) {
    std::multiset<T> x(m.begin(), m.end()), y = x;
    MS* s = new MS(x);
    CHECK(x == y, "the std::multiset copied from is unchanged");
    return s;
  }
  static M norm(M m, S*) {
    M r;
    std::stable_sort(m.begin(), m.end());
    for (auto& x : m)
      if (r.empty() || !(r.back() == x)) r.push_back(x);
    return r;
  }
  static M norm(M m, MS*) { std::stable_sort(m.begin(), m.end()); return m; }
  template <class It>
  static void seq(It b, It e, const M& m, const char* w) {
    size_t i = 0;
    for (; b != e; ++b, ++i) CHECK(i < m.size() && Val<T>::same(*b, m[i]), w << ", element " << i);
    CHECK(i == m.size(), w << " visits " << i << " of " << m.size());
  }
  template <class C>
  static void obs(C& s, const M& m, bool full) {
    const C& c = s;
    CHECK(s.size() == (int)m.size(), "size " << s.size() << " model " << m.size());
    CHECK(c.isEmpty() == m.empty(), "isEmpty");
    seq(c.begin(), c.end(), m, "const iteration");
    if (!full) return;
    seq(s.begin(), s.end(), m, "iteration");
    for (auto& x : m) member(c, m, x);
    auto a = stl(s);
    seq(a.begin(), a.end(), m, "explicit conversion");
    auto b = stl2(s);
    seq(b.begin(), b.end(), m, "implicit conversion");
  }
  template <class C>
  static void compare(C& x, C& z, const M& y, const M& w) {
    bool lt = std::lexicographical_compare(y.begin(), y.end(), w.begin(), w.end());
    bool gt = std::lexicographical_compare(w.begin(), w.end(), y.begin(), y.end());
    bool e = y.size() == w.size() && std::equal(y.begin(), y.end(), w.begin());
    CHECK((x == z) == e, "==");
    CHECK((x != z) == !e, "!=");
    CHECK((x < z) == lt, "<");
    CHECK((x > z) == gt, ">");
    CHECK((x <= z) == !gt, "<=");
    CHECK((x >= z) == !lt, ">=");
  }
  template <class C>
  static void run(Gen& g) {
    const int N = 3;
    C* v[N] = {new C, new C, new C};
    M m[N];
    Loop ops(g, len_class(g, 200), 1500);
    int mut = 0, step = 0;
    size_t maxsize = 0;
    bool er = false, dup = false;
    Watch watch(g);
    while (ops.next()) {
      int a = (int)g.draw(N);
      M& y = m[a];
      u64 op = g.draw(20);
      if (op < 7) {
        T t = Val<T>::gen(g);
        if (count(y, t)) dup = true;
        NOTE("s" << a << ".insert " << Val<T>::show(t));
        add(*v[a], y, t);
        mut++;
      } else if (op < 11) {
        T t = !y.empty() && g.draw(4) ? y[g.draw(y.size())] : Val<T>::gen(g);
        NOTE("s" << a << ".erase " << Val<T>::show(t));
        if (count(y, t)) er = true;
        erase(g, *v[a], y, t);
        if (watch.now()) member(*v[a], y, t);
        mut++;
      } else if (op < 13) {
        T t = Val<T>::gen(g);
        NOTE("s" << a << " query " << Val<T>::show(t));
        member(*v[a], y, t);
      } else if (op < 14) {
        if (g.chance(1, 3)) {
          NOTE("s" << a << ".clear");
          v[a]->clear();
          y.clear();
        }
      } else if (op < 15) {
        int b = (int)g.draw(N);
        if (a != b && g.chance(1, 3)) {
          bool sw = g.flag();
          NOTE("s" << a << (sw ? " swapped with s" : " = temporary of s") << b);
          if (!sw) {
            assign_temp(*v[a], *v[b]);
            m[a] = m[b];
          } else if (exchange(*v[a], *v[b])) {
            std::swap(m[a], m[b]);
          }
          mut++;
          if (watch.now()) { obs(*v[a], m[a], true); obs(*v[b], m[b], true); }
          continue;
        }
        NOTE("s" << a << " = s" << b);
        C& r = (*v[a] = *v[b]);
        CHECK(&r == v[a], "assignment returns the target");
        M t = m[b];
        m[a] = t;
        mut++;
      } else if (op < 16) {
        int b = (int)g.draw(N);
        if (a != b) {
          NOTE("s" << a << " copy of s" << b);
          delete v[a];
          v[a] = new C(*v[b]);
          m[a] = m[b];
        }
      } else if (op < 18) {
        int b = (int)g.draw(N);
        NOTE("compare s" << a << " s" << b);
        compare(*v[a], *v[b], m[a], m[b]);
      } else if (op < 19) {
        M n;
        if (g.flag()) {
          T p = Val<T>::gen(g), q = Val<T>::gen(g), r = Val<T>::gen(g);
          n = M{p, q, r};
          delete v[a];
          v[a] = new C{p, q, r};
        } else {
          Loop l(g, len_class(g, 50));
          while (l.next()) n.push_back(Val<T>::gen(g));
          delete v[a];
          v[a] = from(n, (C*)0);
        }
        NOTE("s" << a << " constructed from " << n.size() << " values");
        m[a] = norm(n, (C*)0);
      } else if (!y.empty()) {  // aliased argument
        auto it = v[a]->begin();
        std::advance(it, g.draw(y.size()));
        T t = *it;
        bool ins = g.chance(1, 4);
        NOTE("s" << a << (ins ? " insert" : " erase") << " through own reference " << Val<T>::show(t));
        if (ins) {
          v[a]->insert(*it);
          if (std::is_same<C, MS>::value) y.insert(std::upper_bound(y.begin(), y.end(), t), t);
        } else {
          v[a]->erase(*it);
          del(y, t);
          er = true;
        }
      }
      maxsize = std::max(maxsize, m[a].size());
      if (watch.now()) obs(*v[a], m[a], m[a].size() < 16 || step % 8 == 0);
      step++;
    }
    for (int i = 0; i < N; i++) {
      obs(*v[i], m[i], true);
      delete v[i];
    }
    g.nontrivial(mut >= 3 && maxsize >= 2);
    if (er) g.label("erased a present value");
    if (dup) g.label("inserted a duplicate");
    if (maxsize > 32) g.label("size>32");
  }
  template <class C>
  static void cmp(Gen& g) {
    M a, b;
    Loop l(g, len_class(g, 12));
    while (l.next()) a.push_back(Val<T>::gen(g));
    b = a;
    u64 k = g.draw(5);
    if (k == 1 && !b.empty()) b[g.draw(b.size())] = Val<T>::gen(g);
    else if (k == 2 && !b.empty()) b.erase(b.begin() + g.draw(b.size()));
    else if (k == 3) b.push_back(g.flag() && !b.empty() ? b[0] : Val<T>::gen(g));
    else if (k == 4) std::reverse(b.begin(), b.end());
    C* x = new C;
    C* y = new C;
    M ma, mb;
    for (auto& t : a) add(*x, ma, t);
    for (auto& t : b) add(*y, mb, t);
    NOTE(show_seq(a.begin(), a.end()) << " ? " << show_seq(b.begin(), b.end()));
    compare(*x, *y, ma, mb);
    compare(*y, *x, mb, ma);
    obs(*x, ma, true);
    obs(*y, mb, true);
    delete x;
    delete y;
    g.nontrivial(a.size() + b.size() >= 2);
  }
  static int qcount(const M& m, const T& t) {
    return (int)(std::upper_bound(m.begin(), m.end(), t) - std::lower_bound(m.begin(), m.end(), t));
  }
  static void qmember(const S& s, const M& m, const T& t) {
    CHECK(s.contains(t) == (qcount(m, t) > 0), "contains " << Val<T>::show(t));
  }
  static void qmember(const MS& s, const M& m, const T& t) {
    CHECK(s.contains(t) == (qcount(m, t) > 0), "contains " << Val<T>::show(t));
    CHECK(s.count(t) == qcount(m, t), "count of " << Val<T>::show(t) << " is " << s.count(t) << " not " << qcount(m, t));
  }
  static void qadd(const S*, M& m, const T& t) {
    if (!qcount(m, t)) m.insert(std::upper_bound(m.begin(), m.end(), t), t);
  }
  static void qadd(const MS*, M& m, const T& t) { m.insert(std::upper_bound(m.begin(), m.end(), t), t); }
  // large sets; multisets with values of large multiplicity
  template <class C>
  static void huge(Gen& g) {
    int n = huge_size(g);
    M raw = bulk_seq<T>(g, n);
    if (g.flag()) spread(raw);
    else if (g.flag()) {  // some values many times
      T t = Val<T>::gen(g);
      u64 k = g.draw(2) ? 255 + g.draw(4) : g.draw(n);
      for (u64 i = 0; i < k && i < raw.size(); i++) raw[i] = t;
    }
    C* v;
    if (g.flag()) v = from(raw, (C*)0);
    else {
      v = new C;
      for (auto& x : raw) v->insert(x);
    }
    M m = norm(raw, (C*)0);
    NOTE(n << " values, " << m.size() << " kept");
    Loop ops(g, 8, 40);
    while (ops.next()) {
      u64 op = g.draw(6);
      T t = m.empty() || !g.draw(3) ? Val<T>::gen(g) : m[gen_index(g, (int)m.size())];
      if (op == 0) {
        NOTE("insert " << Val<T>::show(t));
        v->insert(t);
        qadd((C*)0, m, t);
      } else if (op == 1) {
        if (qcount(m, t)) {
          NOTE("erase " << Val<T>::show(t));
          v->erase(t);
          m.erase(std::lower_bound(m.begin(), m.end(), t), std::upper_bound(m.begin(), m.end(), t));
        }
      } else if (op == 2) {
        NOTE("copy, change, compare");
        C c(*v);
        compare(c, *v, m, m);
        M d = m;
        c.insert(t);
        qadd((C*)0, d, t);
        compare(c, *v, d, m);
        C e;
        e = c;
        obs(e, d, false);
      } else if (op == 5) {
        NOTE("clear");
        v->clear();
        m.clear();
      } else if (op == 3) {
        M more = bulk_seq<T>(g, 600);
        NOTE("insert " << more.size() << " values");
        for (auto& x : more) { v->insert(x); qadd((C*)0, m, x); }
      } else {
        int k = (int)g.draw(300);
        NOTE("erase " << k << " values");
        for (; k > 0 && !m.empty(); k--) {
          T x = m[m.size() / 2];
          v->erase(x);
          m.erase(std::lower_bound(m.begin(), m.end(), x), std::upper_bound(m.begin(), m.end(), x));
        }
      }
      qmember(*v, m, t);
      CHECK(v->size() == (int)m.size(), "size " << v->size() << " model " << m.size());
    }
    obs(*v, m, false);
    for (size_t i = 0; i < m.size(); i++)
      if (i == 0 || !(m[i] == m[i - 1])) qmember(*v, m, m[i]);
    auto a = stl(*v);
    seq(a.begin(), a.end(), m, "explicit conversion");
    delete v;
    g.nontrivial(true);
  }
};
PBT_MAIN({"set_int", 30000, Sets<int>::run<cuhksz::Set<int> >, 0},
         {"set_string", 20000, Sets<std::string>::run<cuhksz::Set<std::string> >, 0},
         {"multiset_int", 30000, Sets<int>::run<cuhksz::MultiSet<int> >, 0},
         {"multiset_rec", 20000, Sets<Rec>::run<cuhksz::MultiSet<Rec> >, 0},
         {"set_compare", 30000, Sets<int>::cmp<cuhksz::Set<int> >, 0},
         {"multiset_compare", 30000, Sets<int>::cmp<cuhksz::MultiSet<int> >, 0},
         {"multiset_pod", 15000, Sets<Pod>::run<cuhksz::MultiSet<Pod> >, 0},
         {"set_rec", 15000, Sets<Rec>::run<cuhksz::Set<Rec> >, 0},
         {"set_pod", 15000, Sets<Pod>::run<cuhksz::Set<Pod> >, 0},
         {"set_huge", 120, Sets<int>::huge<cuhksz::Set<int> >, 0},
         {"multiset_huge", 120, Sets<int>::huge<cuhksz::MultiSet<int> >, 0})
