#include "vals.h"
#include "containers/Vector.h"

template <class T>
struct VecModel {
  typedef cuhksz::Vector<T> V;
  typedef std::vector<T> M;
  static void same(V& v, const M& m, const char* where) {
    const V& cv = v;
    CHECK(v.size() == (int)m.size(), where << ": size " << v.size() << " model " << m.size());
    CHECK(cv.size() == (int)m.size(), where);
    CHECK(v.isEmpty() == m.empty(), where);
    size_t i = 0;
    for (auto& x : cv) {
      CHECK(i < m.size() && Val<T>::same(x, m[i]), where << ": const iteration, element " << i);
      i++;
    }
    CHECK(i == m.size(), where << ": const iteration visits " << i << " of " << m.size());
    i = 0;
    for (auto& x : v) {
      CHECK(i < m.size() && Val<T>::same(x, m[i]), where << ": iteration, element " << i);
      i++;
    }
    CHECK(i == m.size(), where << ": iteration visits " << i << " of " << m.size());
    for (i = 0; i < m.size(); i++) {
      CHECK(Val<T>::same(v[(int)i], m[i]), where << ": [" << i << "]");
      CHECK(Val<T>::same(cv[(int)i], m[i]), where << ": const [" << i << "]");
      CHECK(Val<T>::same(v.get((int)i), m[i]), where << ": get(" << i << ")");
      CHECK(Val<T>::same(cv.get((int)i), m[i]), where << ": const get(" << i << ")");
    }
    if (!m.empty()) {
      CHECK(Val<T>::same(v.first(), m.front()) && Val<T>::same(cv.first(), m.front()), where << ": first");
      CHECK(Val<T>::same(v.last(), m.back()) && Val<T>::same(cv.last(), m.back()), where << ": last");
      CHECK(&v.first() == &v[0] && &v.last() == &v[(int)m.size() - 1], where << ": references name the elements");
    }
    M c = v.toStlVector();
    CHECK(c.size() == m.size() && std::equal(c.begin(), c.end(), m.begin(), Val<T>::same), where << ": toStlVector");
    M d = v;
    CHECK(d.size() == m.size() && std::equal(d.begin(), d.end(), m.begin(), Val<T>::same), where << ": conversion");
  }
  static void light(V& v, const M& m, const char* where) {
    CHECK(v.size() == (int)m.size(), where << ": size " << v.size() << " model " << m.size());
    CHECK(v.isEmpty() == m.empty(), where);
    if (!m.empty()) {
      CHECK(Val<T>::same(v.first(), m.front()), where << ": first");
      CHECK(Val<T>::same(v.last(), m.back()), where << ": last");
    }
  }
  static void construct(Gen& g, V*& v, M& m) {
    delete v;
    v = 0;
    m.clear();
    switch (g.draw(5)) {
      case 0:
        v = new V();
        NOTE("construct empty");
        break;
      case 1: {
        int n = g.chance(1, 20) ? (int)g.draw(3000) : (int)g.draw(20);
        v = new V(n);
        m.assign(n, T());
        NOTE("construct(" << n << ")");
        break;
      }
      case 2: {
        int n = g.chance(1, 8) ? (int)g.draw(g.chance(1, 4) ? 3000 : 400) : (int)g.draw(12);
        T x = Val<T>::gen(g);
        v = new V(n, x);
        m.assign(n, x);
        NOTE("construct(" << n << ", " << Val<T>::show(x) << ")");
        break;
      }
      case 3: {
        T a = Val<T>::gen(g), b = Val<T>::gen(g), c = Val<T>::gen(g);
        switch (g.draw(3)) {
          case 0: v = new V{a}; m = M{a}; break;
          case 1: v = new V{a, b}; m = M{a, b}; break;
          default: v = new V{a, b, c}; m = M{a, b, c};
        }
        NOTE("construct from initializer list of " << m.size());
        break;
      }
      default: {
        Loop l(g, len_class(g, 100));
        while (l.next()) m.push_back(Val<T>::gen(g));
        M src = m;
        v = new V(src);
        CHECK(src.size() == m.size() && std::equal(src.begin(), src.end(), m.begin(), Val<T>::same), "the std::vector copied from is unchanged");
        for (auto& x : src) x = T();
        NOTE("construct from std::vector " << show_seq(m.begin(), m.end()));
      }
    }
    same(*v, m, "construction");
  }
  static void run(Gen& g) {
    const int N = 3;
    V* v[N] = {new V, new V, new V};
    M m[N];
    construct(g, v[0], m[0]);
    Loop ops(g, len_class(g, 200), 2000);
    int step = 0, mutations = 0;
    size_t maxsize = 0;
    Watch watch(g);
    while (ops.next()) {
      int a = (int)g.draw(N), n;
      V& x = *v[a];
      M& y = m[a];
      n = (int)y.size();
      u64 op = g.draw(24);
      switch (op) {
        case 0: case 1: case 2: case 3: {
          T t = Val<T>::gen(g);
          NOTE("v" << a << ".push " << Val<T>::show(t));
          x.push(t);
          y.push_back(t);
          break;
        }
        case 4: case 5:
          if (n) {
            NOTE("v" << a << ".pop");
            T t = x.pop();
            CHECK(Val<T>::same(t, y.back()), "pop returned " << Val<T>::show(t));
            y.pop_back();
          }
          break;
        case 6: case 7: case 8: {
          int i = g.draw(3) ? (int)g.draw(n + 1) : (g.flag() ? n : 0);
          T t = Val<T>::gen(g);
          NOTE("v" << a << ".insert " << i << " " << Val<T>::show(t));
          x.insert(i, t);
          y.insert(y.begin() + i, t);
          break;
        }
        case 9: case 10:
          if (n) {
            int i = gen_index(g, n);
            NOTE("v" << a << ".erase " << i);
            x.erase(i);
            y.erase(y.begin() + i);
          }
          break;
        case 11: case 12:
          if (n) {
            int i = gen_index(g, n);
            T t = Val<T>::gen(g);
            NOTE("v" << a << ".set " << i << " " << Val<T>::show(t));
            x.set(i, t);
            y[i] = t;
          }
          break;
        case 13:
          if (n) {
            int i = gen_index(g, n);
            T t = Val<T>::gen(g);
            int how = (int)g.draw(5);
            NOTE("v" << a << " write through reference kind " << how << " at " << i << " = " << Val<T>::show(t));
            if (how == 0) x[i] = t;
            else if (how == 1) x.get(i) = t;
            else if (how == 2) { x.first() = t; i = 0; }
            else if (how == 3) { x.last() = t; i = n - 1; }
            else {
              auto it = x.begin();
              std::advance(it, i);
              *it = t;
            }
            y[i] = t;
          }
          break;
        case 14:
          if (g.chance(1, 3)) {
            NOTE("v" << a << ".clear");
            x.clear();
            y.clear();
          }
          break;
        case 15: case 16: {
          int b = (int)g.draw(N);
          if (a != b && g.chance(1, 4)) {
            NOTE("v" << a << " and v" << b << " swapped");
            if (exchange(*v[a], *v[b])) std::swap(m[a], m[b]);
            break;
          }
          NOTE("v" << a << " = v" << b);
          if (g.chance(1, 4)) assign_temp(x, *v[b]); else x = *v[b];
          y = M(m[b]);
          if (watch.now()) same(*v[b], m[b], "assignment source");
          break;
        }
        case 17: {
          int b = (int)g.draw(N);
          if (b != a) {
            NOTE("v" << a << " copy-constructed from v" << b);
            delete v[a];
            v[a] = new V(*v[b]);
            m[a] = m[b];
          }
          break;
        }
        case 18: {  // chained / aliased arguments
          if (n) {
            int i = gen_index(g, n), j = (int)g.draw(n + 1);
            T t = y[i];
            int how = (int)g.draw(3);
            NOTE("v" << a << " aliased op " << how << " i=" << i << " j=" << j);
            if (how == 0) { x.push(x[i]); y.push_back(t); }
            else if (how == 1) { x.insert(j, x[i]); y.insert(y.begin() + j, t); }
            else { int k = j ? j - 1 : 0; x.set(k, x[i]); y[k] = t; }
          }
          break;
        }
        case 19: case 20: case 21: {
          int b = (int)g.draw(N);
          V& z = *v[b];
          const M& w = m[b];
          NOTE("compare v" << a << " with v" << b);
          CHECK((x == z) == (y == w), "==");
          CHECK((x != z) == !(y == w), "!=");
          bool lt = std::lexicographical_compare(y.begin(), y.end(), w.begin(), w.end());
          bool gt = std::lexicographical_compare(w.begin(), w.end(), y.begin(), y.end());
          CHECK((x < z) == lt, "<");
          CHECK((x > z) == gt, ">");
          CHECK((x <= z) == !gt, "<=");
          CHECK((x >= z) == !lt, ">=");
          break;
        }
        case 22:
          if (g.chance(1, 3)) construct(g, v[a], m[a]);
          break;
        default: {  // burst of pushes: crosses growth boundaries
          int k = (int)g.draw(70);
          NOTE("v" << a << " push burst " << k);
          for (int q = 0; q < k; q++) {
            T t = Val<T>::gen(g);
            x.push(t);
            y.push_back(t);
          }
        }
      }
      if (op < 19) mutations++;
      maxsize = std::max(maxsize, m[a].size());
      if (!watch.now()) continue;
      if (m[a].size() < 40 || step % 8 == 0) same(*v[a], m[a], "after step");
      else light(*v[a], m[a], "after step");
      step++;
    }
    for (int i = 0; i < N; i++) same(*v[i], m[i], "end");
    for (int i = 0; i < N; i++) delete v[i];
    g.nontrivial(mutations >= 3 && maxsize >= 2);
    if (maxsize > 16) g.label("size>16");
    if (maxsize > 64) g.label("size>64");
    if (maxsize > 256) g.label("size>256");
    if (mutations > 20) g.label("mutations>20");
  }
};
// pairs of sequences, chosen so that the comparison outcome varies
template <class T>
static void compare_pairs(Gen& g) {
  std::vector<T> a, b;
  Loop l(g, len_class(g, 25));
  while (l.next()) a.push_back(Val<T>::gen(g));
  b = a;
  switch (g.draw(5)) {
    case 0: break;
    case 1: if (!b.empty()) b[g.draw(b.size())] = Val<T>::gen(g); break;
    case 2: if (!b.empty()) b.resize(g.draw(b.size())); break;
    case 3: b.push_back(Val<T>::gen(g)); break;
    default: {
      b.clear();
      Loop k(g, 5);
      while (k.next()) b.push_back(Val<T>::gen(g));
    }
  }
  if (g.flag()) std::swap(a, b);
  NOTE(show_seq(a.begin(), a.end()) << " ? " << show_seq(b.begin(), b.end()));
  std::vector<T> a2 = a, b2 = b;
  cuhksz::Vector<T> x(a2), y(b2);
  bool lt = std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end());
  bool gt = std::lexicographical_compare(b.begin(), b.end(), a.begin(), a.end());
  bool eq = a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin());
  CHECK((x == y) == eq, "==");
  CHECK((x != y) == !eq, "!=");
  CHECK((x < y) == lt, "<");
  CHECK((x > y) == gt, ">");
  CHECK((x <= y) == !gt, "<=");
  CHECK((x >= y) == !lt, ">=");
  VecModel<T>::same(x, a, "operand");
  VecModel<T>::same(y, b, "operand");
  g.nontrivial(a.size() + b.size() >= 2);
  g.label(eq ? "cmp equal" : lt ? "cmp less" : "cmp greater");
}
// long vectors, built in one of several ways, then a few operations
template <class T>
static void huge(Gen& g) {
  typedef cuhksz::Vector<T> V;
  typedef std::vector<T> M;
  int n = huge_size(g);
  M m = bulk_seq<T>(g, n);
  V* v;
  switch (g.draw(3)) {
    case 0: { M src = m; v = new V(src); CHECK(src == m, "the std::vector copied from is unchanged"); NOTE(n << " elements from std::vector"); break; }
    case 1: {
      v = new V();
      for (auto& x : m) v->push(x);
      NOTE(n << " elements pushed");
      break;
    }
    default: {
      v = new V(n, m[0]);
      for (int i = 0; i < n; i++) CHECK(Val<T>::same((*v)[i], m[0]), "element " << i << " of construct(" << n << ", value)");
      for (int i = 1; i < n; i++) v->set(i, m[i]);
      NOTE(n << " elements set one by one");
    }
  }
  int mut = 1;
  Loop ops(g, 8, 40);
  while (ops.next()) {
    n = (int)m.size();
    T t = Val<T>::gen(g);
    u64 op = g.draw(10);
    int i = n ? gen_index(g, n) : 0;
    if (op == 0) {
      Bulk b(g);
      int k = (int)g.draw(700);
      NOTE("push " << k << " elements");
      for (; k > 0; k--) { T x = BulkVal<T>::at(b); v->push(x); m.push_back(x); }
    } else if (op == 1) {
      i = (int)g.draw((u64)n + 1);
      NOTE("insert at " << i);
      v->insert(i, t);
      m.insert(m.begin() + i, t);
    } else if (op == 2 && n) {
      NOTE("erase " << i);
      v->erase(i);
      m.erase(m.begin() + i);
    } else if (op == 3 && n) {
      NOTE("set " << i);
      v->set(i, t);
      m[i] = t;
    } else if (op == 4 && n) {
      int k = (int)g.draw(std::min(n, 700) + 1);
      NOTE("pop " << k << " elements");
      for (; k > 0; k--) {
        T x = v->pop();
        CHECK(Val<T>::same(x, m.back()), "pop at size " << m.size());
        m.pop_back();
      }
    } else if (op == 5 && n) {  // a copy that differs in one element
      NOTE("copy, change " << i << ", compare");
      V c(*v);
      M d = m;
      CHECK(c == *v && !(c != *v) && c <= *v && c >= *v && !(c < *v) && !(c > *v), "copy compared with the original");
      c[i] = t;
      d[i] = t;
      bool lt = std::lexicographical_compare(d.begin(), d.end(), m.begin(), m.end());
      bool gt = std::lexicographical_compare(m.begin(), m.end(), d.begin(), d.end());
      CHECK((c == *v) == (d == m), "==");
      CHECK((c < *v) == lt, "<");
      CHECK((c > *v) == gt, ">");
      CHECK((c <= *v) == !gt && (c >= *v) == !lt && (c != *v) == !(d == m), "<=, >=, !=");
      CHECK((*v < c) == gt && (*v > c) == lt && (*v <= c) == !lt && (*v >= c) == !gt, "the other way round");
      VecModel<T>::same(c, d, "changed copy");
    } else if (op == 6) {
      NOTE("assign to a shorter and back");
      V c{t};
      c = *v;
      VecModel<T>::light(c, m, "assigned");
      *v = V();
      *v = c;
    } else if (op == 7) {
      int k = std::min(50 + (int)g.draw(300), 1 + 3000000 / (n + 1));
      NOTE("insert " << k << " at the front");
      m.insert(m.begin(), k, t);
      for (; k > 0; k--) v->insert(0, t);
    } else if (op == 9) {
      NOTE("clear");
      v->clear();
      m.clear();
    } else {
      int k = std::min(std::min(n, 50 + (int)g.draw(300)), 1 + 3000000 / (n + 1));
      NOTE("erase " << k << " at " << i);
      for (; k > 0 && i < (int)m.size(); k--) { v->erase(i); m.erase(m.begin() + i); }
    }
    VecModel<T>::light(*v, m, "after step");
    mut++;
  }
  VecModel<T>::same(*v, m, "end");
  delete v;
  g.nontrivial(mut >= 1);
  if (m.size() > 255) g.label("size>255");
  if (m.size() > 65535) g.label("size>65535");
}
PBT_MAIN({"int", 60000, VecModel<int>::run, 0}, {"string", 30000, VecModel<std::string>::run, 0},
         {"rec", 30000, VecModel<Rec>::run, 0}, {"compare_int", 60000, compare_pairs<int>, 0},
         {"compare_string", 30000, compare_pairs<std::string>, 0}, {"pod", 20000, VecModel<Pod>::run, 0},
         {"compare_pod", 30000, compare_pairs<Pod>, 0}, {"huge_int", 300, huge<int>, 0},
         {"huge_string", 120, huge<std::string>, 0})
