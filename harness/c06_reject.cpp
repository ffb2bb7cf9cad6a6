#include "vals.h"
#include <map>
#include <set>
#include "containers/List.h"
#include "containers/Map.h"
#include "containers/MultiSet.h"
#include "containers/Queue.h"
#include "containers/Stack.h"
#include "containers/Vector.h"

// Every container is built on the heap by a generated history and is leaked when
// an access ends the (simulated) process.
template <class C, class T>
static int grow(Gen& g, C& c, void (*add)(C&, const T&), void (*take)(C&)) {
  int n = 0;
  Loop l(g, len_class(g, 50), 400);
  u64 bias = g.draw(3);
  while (l.next()) {
    u64 k = g.draw(10);
    if (n && k < (bias == 0 ? 2u : bias == 1 ? 5u : 8u)) {
      take(c);
      n--;
    } else if (k == 9 && g.chance(1, 6)) {
      c.clear();
      n = 0;
    } else {
      add(c, Val<T>::gen(g));
      n++;
    }
  }
  if (g.chance(1, 4)) {  // frequent: exactly empty after use
    c.clear();
    n = 0;
    NOTE("cleared");
  }
  return n;
}
static volatile long sink;
template <class T> static void use(const T& t) { sink += (long)(size_t)&t; }

template <class T>
static void vec(Gen& g) {
  typedef cuhksz::Vector<T> C;
  C* c = new C;
  int n = grow<C, T>(g, *c, [](C& x, const T& t) { x.push(t); }, [](C& x) { x.pop(); });
  const C& k = *c;
  NOTE("vector of size " << n);
  if (n) {  // the boundary accesses that are valid
    use((*c)[n - 1]); use((*c)[0]); use(k[n - 1]); use(k.get(0)); use(c->get(n - 1)); use(c->first()); use(k.last());
    c->set(n - 1, c->get(n - 1));
    c->set(0, c->get(0));
    c->insert(n, T());
    c->erase(n);
    c->insert(0, T());
    c->erase(0);
    T t = c->last();
    CHECK(Val<T>::same(c->pop(), t), "pop");
    c->push(t);
  } else {
    c->insert(0, T());
    c->erase(0);
  }
  CHECK(c->size() == n, "size");
  T t = Val<T>::gen(g);
  u64 op = g.draw(n == 0 ? 12 : 7);
  int i = op == 6 ? gen_bad_index(g, 0, n) : gen_bad_index(g, 0, n - 1);
  NOTE("operation " << op << " index " << i);
  switch (op) {
    case 0: must_error("get", [&] { use(c->get(i)); }); break;
    case 1: must_error("const get", [&] { use(k.get(i)); }); break;
    case 2: must_error("[]", [&] { use((*c)[i]); }); break;
    case 3: must_error("const []", [&] { use(k[i]); }); break;
    case 4: must_error("set", [&] { c->set(i, t); }); break;
    case 5: must_error("erase", [&] { c->erase(i); }); break;
    case 6: must_error("insert", [&] { c->insert(i, t); }); break;
    case 7: must_error("first of empty", [&] { use(c->first()); }); break;
    case 8: must_error("const first of empty", [&] { use(k.first()); }); break;
    case 9: must_error("last of empty", [&] { use(c->last()); }); break;
    case 10: must_error("const last of empty", [&] { use(k.last()); }); break;
    default: must_error("pop of empty", [&] { c->pop(); });
  }
  g.nontrivial();
  g.label(n ? "vector non-empty" : "vector empty");
}
template <class T>
static void list(Gen& g) {
  typedef cuhksz::List<T> C;
  C* c = new C;
  int n = grow<C, T>(g, *c, [](C& x, const T& t) { x.push(t); }, [](C& x) { x.pop_front(); });
  const C& k = *c;
  NOTE("list of size " << n);
  if (n) {
    use((*c)[n - 1]); use((*c)[0]); use(k[n - 1]); use(k[0]); use(c->first()); use(k.last()); use(k.first()); use(c->last());
    c->insert(n, T());
    c->erase(n);
    c->insert(0, T());
    c->erase(0);
    c->push_front(c->pop_front());
    c->push(c->pop());
  } else {
    c->insert(0, T());
    c->erase(0);
  }
  CHECK(c->size() == n, "size");
  T t = Val<T>::gen(g);
  u64 op = g.draw(n == 0 ? 10 : 4);
  int i = op == 3 ? gen_bad_index(g, 0, n) : gen_bad_index(g, 0, n - 1);
  NOTE("operation " << op << " index " << i);
  switch (op) {
    case 0: must_error("[]", [&] { use((*c)[i]); }); break;
    case 1: must_error("const []", [&] { use(k[i]); }); break;
    case 2: must_error("erase", [&] { c->erase(i); }); break;
    case 3: must_error("insert", [&] { c->insert(i, t); }); break;
    case 4: must_error("first of empty", [&] { use(c->first()); }); break;
    case 5: must_error("const first of empty", [&] { use(k.first()); }); break;
    case 6: must_error("last of empty", [&] { use(c->last()); }); break;
    case 7: must_error("const last of empty", [&] { use(k.last()); }); break;
    case 8: must_error("pop of empty", [&] { c->pop(); }); break;
    default: must_error("pop_front of empty", [&] { c->pop_front(); });
  }
  g.nontrivial();
  g.label(n ? "list non-empty" : "list empty");
}
template <class T>
static void queue_stack(Gen& g) {
  typedef cuhksz::Queue<T> Q;
  typedef cuhksz::Stack<T> S;
  if (g.flag()) {
    Q* c = new Q;
    int n = grow<Q, T>(g, *c, [](Q& x, const T& t) { x.enqueue(t); }, [](Q& x) { x.dequeue(); });
    const Q& k = *c;
    NOTE("queue of size " << n << ", drained");
    while (n--) {
      use(c->first()); use(c->last()); use(k.first()); use(k.last());
      c->dequeue();
    }
    CHECK(c->isEmpty(), "drained");
    switch (g.draw(5)) {
      case 0: must_error("dequeue of empty queue", [&] { c->dequeue(); }); break;
      case 1: must_error("first of empty queue", [&] { use(c->first()); }); break;
      case 2: must_error("const first of empty queue", [&] { use(k.first()); }); break;
      case 3: must_error("last of empty queue", [&] { use(c->last()); }); break;
      default: must_error("const last of empty queue", [&] { use(k.last()); });
    }
  } else {
    S* c = new S;
    int n = grow<S, T>(g, *c, [](S& x, const T& t) { x.push(t); }, [](S& x) { x.pop(); });
    const S& k = *c;
    NOTE("stack of size " << n << ", drained");
    while (n--) {
      use(c->top()); use(k.top());
      c->pop();
    }
    CHECK(c->isEmpty(), "drained");
    switch (g.draw(3)) {
      case 0: must_error("pop of empty stack", [&] { c->pop(); }); break;
      case 1: must_error("top of empty stack", [&] { use(c->top()); }); break;
      default: must_error("const top of empty stack", [&] { use(k.top()); });
    }
  }
  g.nontrivial();
}
template <class K>
static void keyed(Gen& g) {
  std::set<K> present;
  if (g.flag()) {
    typedef cuhksz::Map<K, std::string> C;
    C* c = new C;
    const C& cc = *c;
    Loop l(g, len_class(g, 50), 300);
    while (l.next()) {
      K k = Val<K>::gen(g);
      if (g.draw(4)) {
        c->set(k, "v");
        present.insert(k);
      } else {
        c->erase(k);
        present.erase(k);
      }
    }
    for (auto& k : present) {
      use(c->get(k));
      use(cc.get(k));
    }
    K k = Val<K>::gen(g);
    if (present.count(k)) {
      c->erase(k);
      present.erase(k);
    }
    NOTE("map with " << present.size() << " keys, missing key " << Val<K>::show(k));
    if (g.flag()) must_error("get of missing key", [&] { use(c->get(k)); });
    else must_error("const get of missing key", [&] { use(cc.get(k)); });
  } else {
    typedef cuhksz::MultiSet<K> C;
    C* c = new C;
    Loop l(g, len_class(g, 50), 300);
    while (l.next()) {
      K k = Val<K>::gen(g);
      if (g.draw(4) || !present.count(k)) {
        c->insert(k);
        present.insert(k);
      } else {
        c->erase(k);
        present.erase(k);
      }
    }
    K k = Val<K>::gen(g);
    if (present.count(k)) c->erase(k);
    NOTE("multiset with " << present.size() << " distinct values, missing value " << Val<K>::show(k));
    must_error("erase of missing value", [&] { c->erase(k); });
  }
  g.nontrivial();
}
PBT_MAIN({"vector_int", 40000, vec<int>, 0}, {"vector_string", 20000, vec<std::string>, 0},
         {"list_int", 40000, list<int>, 0}, {"list_rec", 20000, list<Rec>, 0},
         {"queue_stack_int", 30000, queue_stack<int>, 0}, {"queue_stack_string", 20000, queue_stack<std::string>, 0},
         {"keyed_int", 30000, keyed<int>, 0}, {"keyed_string", 20000, keyed<std::string>, 0})
