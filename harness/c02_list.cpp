#include "vals.h"
#include <list>
#include "containers/List.h"

template <class T>
struct ListModel {
  typedef cuhksz::List<T> L;
  typedef std::vector<T> M;  // model: a plain vector
  static void same(L& v, const M& m, const char* where, bool full) {
    const L& cv = v;
    CHECK(v.size() == (int)m.size(), where << ": size " << v.size() << " model " << m.size());
    CHECK(cv.isEmpty() == m.empty(), where);
    size_t i = 0;
    for (auto it = cv.begin(); it != cv.end(); ++it, ++i)
      CHECK(i < m.size() && Val<T>::same(*it, m[i]), where << ": const iteration, element " << i);
    CHECK(i == m.size(), where << ": const iteration visits " << i << " of " << m.size());
    i = 0;
    for (auto it = v.begin(); it != v.end(); ++it, ++i)
      CHECK(i < m.size() && Val<T>::same(*it, m[i]), where << ": iteration, element " << i);
    CHECK(i == m.size(), where);
    // backwards: the links agree in both directions
    i = m.size();
    for (auto it = v.end(); it != v.begin() && i > 0;) {
      --it;
      --i;
      CHECK(Val<T>::same(*it, m[i]), where << ": backward iteration, element " << i);
    }
    if (!m.empty()) {
      CHECK(Val<T>::same(v.first(), m.front()) && Val<T>::same(cv.first(), m.front()), where << ": first");
      CHECK(Val<T>::same(v.last(), m.back()) && Val<T>::same(cv.last(), m.back()), where << ": last");
    }
    if (!full) return;
    for (i = 0; i < m.size(); i++) {
      CHECK(Val<T>::same(v[(int)i], m[i]), where << ": [" << i << "]");
      CHECK(Val<T>::same(cv[(int)i], m[i]), where << ": const [" << i << "]");
    }
    std::list<T> c = v.toStlList();
    CHECK(c.size() == m.size() && std::equal(c.begin(), c.end(), m.begin(), Val<T>::same), where << ": toStlList");
    std::list<T> d = cv;
    CHECK(d.size() == m.size() && std::equal(d.begin(), d.end(), m.begin(), Val<T>::same), where << ": conversion");
  }
  static void construct(Gen& g, L*& v, M& m) {
    delete v;
    v = 0;
    m.clear();
    switch (g.draw(5)) {
      case 0: v = new L(); NOTE("construct empty"); break;
      case 1: {
        int n = g.chance(1, 20) ? (int)g.draw(700) : (int)g.draw(20);
        v = new L(n);
        m.assign(n, T());
        NOTE("construct(" << n << ")");
        break;
      }
      case 2: {
        int n = g.chance(1, 20) ? (int)g.draw(700) : (int)g.draw(40);
        T x = Val<T>::gen(g);
        v = new L(n, x);
        m.assign(n, x);
        NOTE("construct(" << n << ", " << Val<T>::show(x) << ")");
        break;
      }
      case 3: {
        T a = Val<T>::gen(g), b = Val<T>::gen(g), c = Val<T>::gen(g);
        switch (g.draw(3)) {
          case 0: v = new L{a}; m = M{a}; break;
          case 1: v = new L{a, b}; m = M{a, b}; break;
          default: v = new L{a, b, c}; m = M{a, b, c};
        }
        NOTE("construct from initializer list of " << m.size());
        break;
      }
      default: {
        Loop l(g, len_class(g, 100));
        while (l.next()) m.push_back(Val<T>::gen(g));
        std::list<T> src(m.begin(), m.end());
        v = new L(src);
        CHECK(src.size() == m.size() && std::equal(src.begin(), src.end(), m.begin(), Val<T>::same), "the std::list copied from is unchanged");
        src.clear();
        NOTE("construct from std::list " << show_seq(m.begin(), m.end()));
      }
    }
    same(*v, m, "construction", true);
  }
  static bool is_sorted(const M& m) { return std::is_sorted(m.begin(), m.end()); }
  static void run(Gen& g) {
    const int N = 3;
    L* v[N] = {new L, new L, new L};
    M m[N];
    construct(g, v[0], m[0]);
    construct(g, v[1], m[1]);
    Loop ops(g, len_class(g, 100), 1500);
    int step = 0, mutations = 0;
    size_t maxsize = 0;
    Watch watch(g);
    while (ops.next()) {
      int a = (int)g.draw(N), n;
      L& x = *v[a];
      M& y = m[a];
      n = (int)y.size();
      u64 op = g.draw(26);
      switch (op) {
        case 0: case 1: {
          T t = Val<T>::gen(g);
          NOTE("l" << a << ".push " << Val<T>::show(t));
          x.push(t);
          y.push_back(t);
          break;
        }
        case 2: case 3: {
          T t = Val<T>::gen(g);
          NOTE("l" << a << ".push_front " << Val<T>::show(t));
          x.push_front(t);
          y.insert(y.begin(), t);
          break;
        }
        case 4:
          if (n) {
            NOTE("l" << a << ".pop");
            T t = x.pop();
            CHECK(Val<T>::same(t, y.back()), "pop returned " << Val<T>::show(t));
            y.pop_back();
          }
          break;
        case 5:
          if (n) {
            NOTE("l" << a << ".pop_front");
            T t = x.pop_front();
            CHECK(Val<T>::same(t, y.front()), "pop_front returned " << Val<T>::show(t));
            y.erase(y.begin());
          }
          break;
        case 6: case 7: {
          int i = g.draw(3) ? (int)g.draw(n + 1) : (g.flag() ? n : 0);
          T t = Val<T>::gen(g);
          NOTE("l" << a << ".insert " << i << " " << Val<T>::show(t));
          x.insert(i, t);
          y.insert(y.begin() + i, t);
          break;
        }
        case 8: case 9:
          if (n) {
            int i = gen_index(g, n);
            NOTE("l" << a << ".erase " << i);
            x.erase(i);
            y.erase(y.begin() + i);
          }
          break;
        case 10:
          if (n) {
            int i = gen_index(g, n);
            T t = Val<T>::gen(g);
            int how = (int)g.draw(4);
            NOTE("l" << a << " write through reference kind " << how << " at " << i << " = " << Val<T>::show(t));
            if (how == 0) x[i] = t;
            else if (how == 1) { x.first() = t; i = 0; }
            else if (how == 2) { x.last() = t; i = n - 1; }
            else {
              auto it = x.begin();
              std::advance(it, i);
              *it = t;
            }
            y[i] = t;
          }
          break;
        case 11: case 12:
          NOTE("l" << a << ".sort");
          x.sort();
          std::stable_sort(y.begin(), y.end());
          g.label("sort");
          break;
        case 13: case 14:
          NOTE("l" << a << ".reverse");
          x.reverse();
          std::reverse(y.begin(), y.end());
          break;
        case 15: case 16: case 17: {
          int b = (a + 1 + (int)g.draw(N - 1)) % N;
          if (!is_sorted(y)) { x.sort(); std::stable_sort(y.begin(), y.end()); }
          if (!is_sorted(m[b])) { v[b]->sort(); std::stable_sort(m[b].begin(), m[b].end()); }
          NOTE("l" << a << ".merge(l" << b << ") sizes " << n << " and " << m[b].size());
          x.merge(*v[b]);
          M r(y.size() + m[b].size());
          std::merge(y.begin(), y.end(), m[b].begin(), m[b].end(), r.begin());
          if (!y.empty() && !m[b].empty()) g.label("merge of two non-empty");
          y = r;
          m[b].clear();
          if (watch.now()) same(*v[b], m[b], "merged-from list", true);
          break;
        }
        case 18:
          if (g.chance(1, 3)) {
            NOTE("l" << a << ".clear");
            x.clear();
            y.clear();
          }
          break;
        case 19: case 20: {
          int b = (int)g.draw(N);
          if (a != b && g.chance(1, 4)) {
            NOTE("l" << a << " and l" << b << " swapped");
            if (exchange(*v[a], *v[b])) std::swap(m[a], m[b]);
            break;
          }
          if (g.chance(1, 4)) {
            NOTE("l" << a << " = temporary of l" << b);
            assign_temp(x, *v[b]);
            y = M(m[b]);
            break;
          }
          NOTE("l" << a << " = l" << b);
          L& r = (x = *v[b]);
          CHECK(&r == &x, "assignment returns the target");
          y = M(m[b]);
          if (watch.now()) same(*v[b], m[b], "assignment source", false);
          break;
        }
        case 21: {
          int b = (int)g.draw(N);
          if (b != a) {
            NOTE("l" << a << " copy-constructed from l" << b);
            delete v[a];
            v[a] = new L(*v[b]);
            m[a] = m[b];
          }
          break;
        }
        case 22:
          if (n) {
            int i = gen_index(g, n), j = (int)g.draw(n + 1);
            T t = y[i];
            int how = (int)g.draw(3);
            NOTE("l" << a << " aliased op " << how << " i=" << i << " j=" << j);
            if (how == 0) { x.push(x[i]); y.push_back(t); }
            else if (how == 1) { x.insert(j, x[i]); y.insert(y.begin() + j, t); }
            else { x.push_front(x[i]); y.insert(y.begin(), t); }
          }
          break;
        case 23: case 24: {
          int b = (int)g.draw(N);
          L& z = *v[b];
          const M& w = m[b];
          NOTE("compare l" << a << " with l" << b);
          CHECK((x == z) == (y == w), "==");
          CHECK((x != z) == !(y == w), "!=");
          bool lt = std::lexicographical_compare(y.begin(), y.end(), w.begin(), w.end());
          bool gt = std::lexicographical_compare(w.begin(), w.end(), y.begin(), y.end());
          CHECK((x < z) == lt, "<");
          CHECK((x > z) == gt, ">");
          CHECK((x <= z) == !gt, "<=");
          CHECK((x >= z) == !lt, ">=");
          break;
        }
        default:
          if (g.chance(1, 2)) construct(g, v[a], m[a]);
      }
      if (op < 23) mutations++;
      maxsize = std::max(maxsize, m[a].size());
      if (watch.now()) same(*v[a], m[a], "after step", m[a].size() < 24 || step % 8 == 0);
      step++;
    }
    for (int i = 0; i < N; i++) same(*v[i], m[i], "end", true);
    for (int i = 0; i < N; i++) delete v[i];
    g.nontrivial(mutations >= 3 && maxsize >= 2);
    if (maxsize > 16) g.label("size>16");
    if (maxsize > 64) g.label("size>64");
  }
};
template <class T>
static void bulk(Gen& g) {  // sort / reverse / merge / compare of larger lists
  std::vector<T> a, b;
  {
    Loop l(g, len_class(g, 400));
    while (l.next()) a.push_back(Val<T>::gen(g));
  }
  u64 rel = g.draw(4);
  if (rel == 0) b = a;
  else if (rel == 1) { b = a; if (!b.empty()) b[g.draw(b.size())] = Val<T>::gen(g); }
  else if (rel == 2) { b = a; b.resize(g.draw(b.size() + 1)); }
  else {
    Loop l(g, len_class(g, 100));
    while (l.next()) b.push_back(Val<T>::gen(g));
  }
  NOTE(show_seq(a.begin(), a.end()) << " and " << show_seq(b.begin(), b.end()));
  std::list<T> la(a.begin(), a.end()), lb(b.begin(), b.end());
  cuhksz::List<T> x(la), y(lb);
  bool lt = std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end());
  bool gt = std::lexicographical_compare(b.begin(), b.end(), a.begin(), a.end());
  CHECK((x == y) == (a == b), "==");
  CHECK((x != y) == !(a == b), "!=");
  CHECK((x < y) == lt, "<");
  CHECK((x > y) == gt, ">");
  CHECK((x <= y) == !gt, "<=");
  CHECK((x >= y) == !lt, ">=");
  if (g.flag()) {
    x.reverse();
    std::reverse(a.begin(), a.end());
    ListModel<T>::same(x, a, "reverse", false);
  }
  x.sort();
  y.sort();
  std::stable_sort(a.begin(), a.end());
  std::stable_sort(b.begin(), b.end());
  ListModel<T>::same(x, a, "sort", false);
  ListModel<T>::same(y, b, "sort", false);
  x.merge(y);
  std::vector<T> r(a.size() + b.size());
  std::merge(a.begin(), a.end(), b.begin(), b.end(), r.begin());
  ListModel<T>::same(x, r, "merge", false);
  b.clear();
  ListModel<T>::same(y, b, "merged-from", true);
  g.nontrivial(r.size() >= 3);
  if (r.size() > 100) g.label("bulk>100");
}
// long lists: built from std::list or element by element, then a few operations
template <class T>
static void huge(Gen& g) {
  typedef cuhksz::List<T> L;
  typedef std::vector<T> M;
  int n = huge_size(g);
  M m = bulk_seq<T>(g, n);
  L* v;
  switch (g.draw(4)) {
    case 0: { std::list<T> src(m.begin(), m.end()); v = new L(src); CHECK(src.size() == m.size() && std::equal(src.begin(), src.end(), m.begin(), Val<T>::same), "the std::list copied from is unchanged"); NOTE(n << " elements from std::list"); break; }
    case 1: {
      v = new L(n, m[n / 2]);
      m.assign(n, T(m[n / 2]));
      NOTE(n << " equal elements");
      break;
    }
    case 2: {
      v = new L();
      for (auto& x : m) v->push(x);
      NOTE(n << " elements pushed");
      break;
    }
    default: {
      v = new L();
      for (int i = n - 1; i >= 0; i--) v->push_front(m[i]);
      NOTE(n << " elements pushed at the front");
    }
  }
  Loop ops(g, 6, 30);
  while (ops.next()) {
    n = (int)m.size();
    T t = Val<T>::gen(g);
    u64 op = g.draw(10);
    int i = n ? gen_index(g, n) : 0;
    if (op == 0) {
      NOTE("sort");
      v->sort();
      std::stable_sort(m.begin(), m.end());
    } else if (op == 1) {
      NOTE("reverse");
      v->reverse();
      std::reverse(m.begin(), m.end());
    } else if (op == 2) {
      M o = bulk_seq<T>(g, huge_size(g) / 4);
      NOTE("merge with " << o.size());
      std::list<T> src(o.begin(), o.end());
      L w(src);
      v->sort();
      w.sort();
      std::stable_sort(m.begin(), m.end());
      std::stable_sort(o.begin(), o.end());
      v->merge(w);
      M r(m.size() + o.size());
      std::merge(m.begin(), m.end(), o.begin(), o.end(), r.begin());
      m = r;
      CHECK(w.size() == 0 && w.isEmpty(), "merged-from list is empty");
    } else if (op == 3) {
      i = (int)g.draw((u64)n + 1);
      NOTE("insert at " << i);
      v->insert(i, t);
      m.insert(m.begin() + i, t);
    } else if (op == 4 && n) {
      NOTE("erase " << i);
      v->erase(i);
      m.erase(m.begin() + i);
    } else if (op == 5 && n) {
      NOTE("write " << i);
      (*v)[i] = t;
      m[i] = t;
    } else if (op == 6) {
      int k = (int)g.draw(std::min(n, 700) + 1);
      bool front = g.flag();
      NOTE((front ? "pop_front " : "pop ") << k << " elements");
      for (int j = 0; j < k; j++) {
        T x = front ? v->pop_front() : v->pop();
        CHECK(Val<T>::same(x, front ? m[j] : m[n - 1 - j]), "popped element " << j);
      }
      if (front) m.erase(m.begin(), m.begin() + k); else m.resize(n - k);
    } else if (op == 7 && n) {
      NOTE("copy, change " << i << ", compare");
      L c(*v);
      M d = m;
      CHECK(c == *v && !(c != *v) && c <= *v && c >= *v && !(c < *v) && !(c > *v), "copy compared with the original");
      c[i] = t;
      d[i] = t;
      bool lt = std::lexicographical_compare(d.begin(), d.end(), m.begin(), m.end());
      bool gt = std::lexicographical_compare(m.begin(), m.end(), d.begin(), d.end());
      CHECK((c == *v) == (d == m), "==");
      CHECK((c < *v) == lt, "<");
      CHECK((c > *v) == gt, ">");
      CHECK((c <= *v) == !gt && (c >= *v) == !lt && (c != *v) == !(d == m), "<=, >=, !=");
      CHECK((*v < c) == gt && (*v > c) == lt && (*v <= c) == !lt && (*v >= c) == !gt, "the other way round");
      ListModel<T>::same(c, d, "changed copy", false);
    } else if (op == 8) {
      NOTE("assign to another and back");
      L c{t};
      c = *v;
      v->clear();
      CHECK(v->size() == 0, "cleared");
      *v = c;
    } else {
      Bulk b(g);
      int k = (int)g.draw(700);
      NOTE("push " << k << " elements");
      for (; k > 0; k--) { T x = BulkVal<T>::at(b); v->push(x); m.push_back(x); }
    }
    CHECK(v->size() == (int)m.size(), "size " << v->size() << " model " << m.size());
    if (!m.empty()) {
      int k = gen_index(g, (int)m.size());
      CHECK(Val<T>::same((*v)[k], m[k]), "[" << k << "]");
    }
  }
  ListModel<T>::same(*v, m, "end", false);
  delete v;
  g.nontrivial(true);
  if (m.size() > 65535) g.label("size>65535");
}
PBT_MAIN({"int", 40000, ListModel<int>::run, 0}, {"string", 20000, ListModel<std::string>::run, 0},
         {"rec", 30000, ListModel<Rec>::run, 0}, {"bulk_int", 20000, bulk<int>, 0}, {"bulk_rec", 20000, bulk<Rec>, 0},
         {"pod", 15000, ListModel<Pod>::run, 0}, {"huge_int", 200, huge<int>, 0}, {"huge_rec", 60, huge<Rec>, 0})
