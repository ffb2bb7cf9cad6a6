#include "vals.h"
#include <memory>
#include <deque>
#include <queue>
#include <stack>
#include "containers/Queue.h"
#include "containers/Stack.h"

template <class T>
struct QS {
  typedef cuhksz::Queue<T> Q;
  typedef cuhksz::Stack<T> S;
  typedef std::deque<T> M;
  static M drain(std::queue<T> q) {
    M r;
    while (!q.empty()) { r.push_back(q.front()); q.pop(); }
    return r;
  }
  static M drain(std::stack<T> q) {
    M r;
    while (!q.empty()) { r.push_front(q.top()); q.pop(); }
    return r;
  }
  static bool eq(const M& a, const M& b) { return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin(), Val<T>::same); }
  static void obs(Q& q, const M& m, bool full) {
    const Q& c = q;
    CHECK(q.size() == (int)m.size() && c.size() == (int)m.size(), "queue size " << q.size() << " model " << m.size());
    CHECK(q.isEmpty() == m.empty(), "queue isEmpty");
    if (!m.empty()) {
      CHECK(Val<T>::same(q.first(), m.front()) && Val<T>::same(c.first(), m.front()), "queue first is " << Val<T>::show(q.first()));
      CHECK(Val<T>::same(q.last(), m.back()) && Val<T>::same(c.last(), m.back()), "queue last is " << Val<T>::show(q.last()));
    }
    if (full) {
      CHECK(eq(drain(q.toStlQueue()), m), "toStlQueue");
      std::queue<T> k = q;
      CHECK(eq(drain(k), m), "queue conversion");
    }
  }
  static void obs(S& q, const M& m, bool full) {
    const S& c = q;
    CHECK(q.size() == (int)m.size() && c.size() == (int)m.size(), "stack size " << q.size() << " model " << m.size());
    CHECK(q.isEmpty() == m.empty(), "stack isEmpty");
    if (!m.empty())
      CHECK(Val<T>::same(q.top(), m.back()) && Val<T>::same(c.top(), m.back()), "stack top is " << Val<T>::show(q.top()));
    if (full) {
      CHECK(eq(drain(q.toStlStack()), m), "toStlStack");
      std::stack<T> k = q;
      CHECK(eq(drain(k), m), "stack conversion");
    }
  }
  template <class C>
  static void compare(C& x, C& z, const M& y, const M& w) {
    bool lt = std::lexicographical_compare(y.begin(), y.end(), w.begin(), w.end());
    bool gt = std::lexicographical_compare(w.begin(), w.end(), y.begin(), y.end());
    bool e = y.size() == w.size() && std::equal(y.begin(), y.end(), w.begin());
    CHECK((x == z) == e, "==");
    CHECK((x != z) == !e, "!=");
    CHECK((x < z) == lt, "<");
    CHECK((x > z) == gt, ">");
    CHECK((x <= z) == !gt, "<=");
    CHECK((x >= z) == !lt, ">=");
    g_cmp++;
  }
  static int g_cmp;
  static void add(Q& q, M& m, const T& t) { q.enqueue(t); m.push_back(t); }
  static void add(S& q, M& m, const T& t) { q.push(t); m.push_back(t); }
  static void take(Q& q, M& m) {
    T t = q.dequeue();
    CHECK(Val<T>::same(t, m.front()), "dequeue returned " << Val<T>::show(t) << " not " << Val<T>::show(m.front()));
    m.pop_front();
  }
  static void take(S& q, M& m) {
    T t = q.pop();
    CHECK(Val<T>::same(t, m.back()), "pop returned " << Val<T>::show(t) << " not " << Val<T>::show(m.back()));
    m.pop_back();
  }
  static void poke(Gen& g, Q& q, M& m, const T& t) {
    if (g.flag()) { q.first() = t; m.front() = t; }
    else { q.last() = t; m.back() = t; }
  }
  static void poke(Gen&, S& q, M& m, const T& t) { q.top() = t; m.back() = t; }
  static void alias(Gen& g, Q& q, M& m) {
    if (g.flag()) { T t = m.front(); q.enqueue(q.first()); m.push_back(t); }
    else { T t = m.back(); q.enqueue(q.last()); m.push_back(t); }
  }
  static void alias(Gen&, S& q, M& m) { T t = m.back(); q.push(q.top()); m.push_back(t); }
  static Q* from(const M& m, Q*) {
    std::queue<T> s(m);
    Q* q = new Q(s);
    CHECK(s.size() == m.size(), "the std::queue copied from is unchanged");
    for (auto& x : m) { CHECK(Val<T>::same(s.front(), x), "the std::queue copied from is unchanged"); s.pop(); }
    return q;
  }
  static S* from(const M& m, S*) {
    std::stack<T> s(m);
    S* q = new S(s);
    CHECK(s.size() == m.size(), "the std::stack copied from is unchanged");
    for (size_t i = m.size(); i-- > 0; s.pop()) CHECK(Val<T>::same(s.top(), m[i]), "the std::stack copied from is unchanged");
    return q;
  }

  template <class C>
  static void run(Gen& g) {
    const int N = 3;
    C* v[N] = {new C, new C, new C};
    M m[N];
    Loop ops(g, len_class(g, 400), 3000);
    int mut = 0;
    size_t maxsize = 0;
    int step = 0;
    u64 bias = g.draw(3);  // grow, balanced, shrink
    Watch watch(g);
    while (ops.next()) {
      int a = (int)g.draw(N);
      u64 op = g.draw(20);
      if (op < 9) {
        bool put = op < (bias == 0 ? 7u : bias == 1 ? 5u : 3u);
        if (put || m[a].empty()) {
          T t = Val<T>::gen(g);
          NOTE("c" << a << " add " << Val<T>::show(t));
          add(*v[a], m[a], t);
        } else {
          NOTE("c" << a << " remove");
          take(*v[a], m[a]);
        }
        mut++;
      } else if (op < 10) {
        if (g.chance(1, 3)) {
          NOTE("c" << a << " clear (size " << m[a].size() << ")");
          v[a]->clear();
          m[a].clear();
          mut++;
        }
      } else if (op < 12) {
        int b = (int)g.draw(N);
        if (a != b && g.chance(1, 3)) {
          bool sw = g.flag();
          NOTE("c" << a << (sw ? " swapped with c" : " = temporary of c") << b);
          if (!sw) {
            assign_temp(*v[a], *v[b]);
            m[a] = m[b];
          } else if (exchange(*v[a], *v[b])) {
            std::swap(m[a], m[b]);
          }
          mut++;
          if (watch.now()) { obs(*v[a], m[a], true); obs(*v[b], m[b], true); }
          continue;
        }
        NOTE("c" << a << " = c" << b);
        *v[a] = *v[b];
        M t = m[b];
        m[a] = t;
        if (watch.now()) obs(*v[b], m[b], true);
        mut++;
      } else if (op < 13) {
        int b = (int)g.draw(N);
        if (a != b) {
          NOTE("c" << a << " copy-constructed from c" << b);
          delete v[a];
          v[a] = new C(*v[b]);
          m[a] = m[b];
        }
      } else if (op < 14) {
        if (!m[a].empty()) {
          T t = Val<T>::gen(g);
          NOTE("c" << a << " write through reference " << Val<T>::show(t));
          poke(g, *v[a], m[a], t);
        }
      } else if (op < 15) {
        if (!m[a].empty()) {
          NOTE("c" << a << " add own element");
          alias(g, *v[a], m[a]);
        }
      } else if (op < 18) {
        int b = (int)g.draw(N);
        NOTE("compare c" << a << " c" << b);
        compare(*v[a], *v[b], m[a], m[b]);
      } else if (op < 19) {
        M n;
        Loop l(g, len_class(g, 25));
        while (l.next()) n.push_back(Val<T>::gen(g));
        NOTE("c" << a << " constructed from STL container of " << n.size());
        delete v[a];
        v[a] = from(n, (C*)0);
        m[a] = n;
        mut++;
      } else {
        int k = (int)g.draw(150);
        bool down = g.flag();
        NOTE("c" << a << (down ? " drain " : " burst ") << k);
        for (int i = 0; i < k; i++) {
          if (down) {
            if (m[a].empty()) break;
            take(*v[a], m[a]);
          } else
            add(*v[a], m[a], Val<T>::gen(g));
        }
      }
      maxsize = std::max(maxsize, m[a].size());
      if (watch.now()) obs(*v[a], m[a], step % 16 == 0 && m[a].size() < 64);
      step++;
    }
    for (int i = 0; i < N; i++) {
      obs(*v[i], m[i], true);
      while (!m[i].empty()) take(*v[i], m[i]);
      CHECK(v[i]->isEmpty(), "drained");
      delete v[i];
    }
    g.nontrivial(mut >= 4 && maxsize >= 2);
    if (maxsize > 64) g.label("size>64");
    if (maxsize > 256) g.label("size>256");
  }
  // long queues and stacks
  template <class C>
  static void huge(Gen& g) {
    int n = huge_size(g);
    std::vector<T> bulk = bulk_seq<T>(g, n);
    M m;
    C* v;
    if (g.flag()) {
      m.assign(bulk.begin(), bulk.end());
      v = from(m, (C*)0);
      NOTE(n << " elements from the STL container");
    } else {
      v = new C;
      for (auto& x : bulk) add(*v, m, x);
      NOTE(n << " elements added");
    }
    Loop ops(g, 8, 40);
    while (ops.next()) {
      u64 op = g.draw(6);
      if (op == 0) {
        u64 k = g.draw(m.size() + 1);
        NOTE("take " << k);
        for (; k > 0; k--) take(*v, m);
      } else if (op == 1) {
        std::vector<T> more = bulk_seq<T>(g, huge_size(g) / 2);
        NOTE("add " << more.size());
        for (auto& x : more) add(*v, m, x);
      } else if (op == 2) {  // rolling: the size stays, everything moves through
        u64 k = g.draw(70000);
        Bulk b(g);
        NOTE("roll " << k);
        for (; k > 0 && !m.empty(); k--) { take(*v, m); add(*v, m, BulkVal<T>::at(b)); }
      } else if (op == 5) {
        NOTE("clear");
        v->clear();
        m.clear();
      } else if (op == 3) {
        NOTE("copy and compare");
        C c(*v);
        M d = m;
        compare(c, *v, d, m);
        add(c, d, Val<T>::gen(g));
        compare(c, *v, d, m);
        compare(*v, c, m, d);
        C e;
        e = c;
        obs(e, d, false);
        M o = d;
        o[gen_index(g, (int)o.size())] = Val<T>::gen(g);  // one element may differ
        std::unique_ptr<C> f(from(o, (C*)0));
        compare(*f, c, o, d);
        compare(c, *f, d, o);
      } else if (!m.empty()) {
        poke(g, *v, m, Val<T>::gen(g));
      }
      obs(*v, m, false);
    }
    obs(*v, m, true);
    while (!m.empty()) take(*v, m);
    CHECK(v->isEmpty() && v->size() == 0, "drained");
    delete v;
    g.nontrivial(true);
  }
  // pairs near each other in the order
  template <class C>
  static void cmp(Gen& g) {
    M a, b;
    Loop l(g, len_class(g, 12));
    while (l.next()) a.push_back(Val<T>::gen(g));
    b = a;
    u64 k = g.draw(5);
    if (k == 1 && !b.empty()) b[g.draw(b.size())] = Val<T>::gen(g);
    else if (k == 2 && !b.empty()) b.resize(g.draw(b.size()));
    else if (k == 3) b.push_back(Val<T>::gen(g));
    else if (k == 4) {
      b.clear();
      Loop q(g, 4);
      while (q.next()) b.push_back(Val<T>::gen(g));
    }
    C *x = from(a, (C*)0), *y = from(b, (C*)0);
    NOTE(show_seq(a.begin(), a.end()) << " ? " << show_seq(b.begin(), b.end()));
    compare(*x, *y, a, b);
    compare(*y, *x, b, a);
    obs(*x, a, true);
    obs(*y, b, true);
    delete x;
    delete y;
    g.nontrivial(a.size() + b.size() >= 2);
  }
};
template <class T> int QS<T>::g_cmp = 0;
PBT_MAIN({"queue_int", 40000, QS<int>::run<cuhksz::Queue<int> >, 0},
         {"queue_rec", 20000, QS<Rec>::run<cuhksz::Queue<Rec> >, 0},
         {"stack_int", 40000, QS<int>::run<cuhksz::Stack<int> >, 0},
         {"stack_rec", 20000, QS<Rec>::run<cuhksz::Stack<Rec> >, 0},
         {"queue_compare", 40000, QS<std::string>::cmp<cuhksz::Queue<std::string> >, 0},
         {"stack_compare", 40000, QS<std::string>::cmp<cuhksz::Stack<std::string> >, 0},
         {"queue_pod", 15000, QS<Pod>::run<cuhksz::Queue<Pod> >, 0},
         {"stack_pod", 15000, QS<Pod>::run<cuhksz::Stack<Pod> >, 0},
         {"queue_compare_pod", 20000, QS<Pod>::cmp<cuhksz::Queue<Pod> >, 0},
         {"stack_compare_pod", 20000, QS<Pod>::cmp<cuhksz::Stack<Pod> >, 0},
         {"queue_huge", 150, QS<int>::huge<cuhksz::Queue<int> >, 0},
         {"stack_huge", 150, QS<std::string>::huge<cuhksz::Stack<std::string> >, 0})
