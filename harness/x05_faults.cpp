// Exceptions that pass through the library: the n-th allocation, element operation or callback of
// a call throws.  Nothing may leak, and the objects involved must stay valid.
#include <list>
#include <map>
#include <memory>
#include <new>
#include <queue>
#include <set>
#include <stack>
#include "algorithm.h"
#include "base64/base64_functions.h"
#include "containers/List.h"
#include "containers/Map.h"
#include "containers/MultiMap.h"
#include "containers/MultiSet.h"
#include "containers/Queue.h"
#include "containers/Set.h"
#include "containers/Stack.h"
#include "containers/Vector.h"
#include "graph/Edge.h"
#include "graph/SegmentTree.h"
#include "graph/Vertex.h"
#include "json/Json.h"
#include "math_utils/Matrix.h"
#include "math_utils/math_functions.h"
#include "network/network_functions.h"
#include "random.h"
#include "string_utils/StringCast.h"
#include "string_utils/Trie.h"
#include "strgen.h"
#include "vals.h"
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static size_t in_use() { return __sanitizer_get_current_allocated_bytes(); }
// ---- the fault: the countdown-th event while armed throws
static long countdown = 0;  // 0: not armed
struct Thrown {};
static void tick() {
  if (countdown > 0 && --countdown == 0) throw Thrown();
}
static void* allocate(size_t n) {
  if (countdown > 0 && --countdown == 0) throw std::bad_alloc();
  void* p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new(size_t n) { return allocate(n); }
void* operator new[](size_t n) { return allocate(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
// libFuzzer's own code pairs its allocations with the functions above
extern "C" const char* __asan_default_options() { return "alloc_dealloc_mismatch=0"; }
// true: the call ended in the injected exception
template <class F>
static bool fails(u64 at, F f) {
  countdown = (long)at;
  try {
    f();
  } catch (const Thrown&) {
    countdown = 0;
    return true;
  } catch (const std::bad_alloc&) {
    countdown = 0;
    return true;
  }
  countdown = 0;
  return false;
}
static u64 when(Gen& g) {  // which event fails; 0: none
  switch (g.draw(4)) {
    case 0: return 0;
    case 1: return 1 + g.draw(3);
    default: return 1 + g.draw(g.flag() ? 12 : 60);
  }
}
// ---- an element that may throw whenever it is created, assigned, compared or combined
struct Fussy {
  int v;
  int* heap;
  static long& live() { static long n; return n; }
  Fussy() : v(0), heap(0) { make(0); }
  Fussy(int x) : v(x), heap(0) { make(x); }
  Fussy(double x) : v((int)x), heap(0) { make((int)x); }
  Fussy(const Fussy& o) : v(o.v), heap(0) { make(*o.heap); }
  ~Fussy() { delete heap; live()--; }
  Fussy& operator=(const Fussy& o) { tick(); v = o.v; *heap = *o.heap; return *this; }
  Fussy& operator+=(const Fussy& o) { tick(); set(v + o.v); return *this; }
  Fussy& operator-=(const Fussy& o) { tick(); set(v - o.v); return *this; }
  Fussy& operator*=(const Fussy& o) { tick(); set(v * o.v); return *this; }
  Fussy& operator/=(const Fussy& o) { tick(); set(o.v ? v * o.v : v); return *this; }  // modulo 3
  Fussy operator+(const Fussy& o) const { tick(); return Fussy(norm(v + o.v)); }
  Fussy operator-(const Fussy& o) const { tick(); return Fussy(norm(v - o.v)); }
  Fussy operator*(const Fussy& o) const { tick(); return Fussy(norm(v * o.v)); }
  bool operator<(const Fussy& o) const { tick(); return *heap < *o.heap; }
  bool operator>(const Fussy& o) const { return o < *this; }
  bool operator<=(const Fussy& o) const { return !(o < *this); }
  bool operator>=(const Fussy& o) const { return !(*this < o); }
  bool operator==(const Fussy& o) const { tick(); return *heap == *o.heap; }
  bool operator!=(const Fussy& o) const { return !(*this == o); }
 private:
  static int norm(int x) { return ((x % 3) + 3) % 3; }
  void set(int x) { v = *heap = norm(x); }
  void make(int x) {
    tick();
    heap = new int(x);
    live()++;
  }
};
// the value of an element, read without an event
static std::string str(const Fussy& f) {
  CHECK(f.v == *f.heap, "an element was left half-changed");
  return std::to_string(*f.heap);
}
static std::string str(const std::string& s) { return s; }
template <class A, class B> static std::string str(const std::pair<A, B>& p) { return str(p.first) + ":" + str(p.second); }
typedef std::vector<std::string> Seen;
// ---- what the histories below do with each container.  A "kept" operation (addition of one
// element, removal of one) that fails leaves the container as it was.
template <class It> static Seen seen(It b, It e) {
  Seen s;
  for (; b != e; ++b) s.push_back(str(*b));
  return s;
}
template <class C> struct Ops;
template <class T> struct Ops<cuhksz::Vector<T> > {
  typedef cuhksz::Vector<T> C;
  enum { N = 8 };
  static bool act(u64 op, C& c, C& o, const T& t, u64 i, bool* kept) {
    u64 n = (u64)c.size();
    switch (op) {
      case 0: case 1: *kept = true; c.push(t); return true;
      case 2: c.insert((int)(i % (n + 1)), t); return true;
      case 3: if (!n) return false; *kept = true; { T x = c.pop(); (void)x; } return true;
      case 4: if (!n) return false; c.erase((int)(i % n)); return true;
      case 5: if (!n) return false; c.set((int)(i % n), t); return true;
      case 6: { *kept = true; C x((int)(i % 5), t); std::vector<T> v = c.toStlVector(); C y(v); return true; }
      default: *kept = true; { bool b = c == o; b = c < o; (void)b; } return true;
    }
  }
  static Seen all(const C& c) { Seen s = seen(c.begin(), c.end()); CHECK((int)s.size() == c.size(), "size"); return s; }
};
template <class T> struct Ops<cuhksz::List<T> > {
  typedef cuhksz::List<T> C;
  enum { N = 11 };
  static bool act(u64 op, C& c, C& o, const T& t, u64 i, bool* kept) {
    u64 n = (u64)c.size();
    switch (op) {
      case 0: case 1: *kept = true; c.push(t); return true;
      case 2: *kept = true; c.push_front(t); return true;
      case 3: *kept = true; c.insert((int)(i % (n + 1)), t); return true;
      case 4: if (!n) return false; *kept = true; { T x = c.pop(); (void)x; } return true;
      case 5: if (!n) return false; *kept = true; { T x = c.pop_front(); (void)x; } return true;
      case 6: if (!n) return false; *kept = true; c.erase((int)(i % n)); return true;
      case 7: c.sort(); return true;
      case 8: *kept = true; { std::list<T> v = c.toStlList(); C y(v), z((int)(i % 5), t); } return true;
      case 9: if (!n) return false; c[(int)(i % n)] = t; return true;
      default: *kept = true; { bool b = c == o; b = c < o; (void)b; } return true;
    }
  }
  static Seen all(const C& c) { Seen s = seen(c.begin(), c.end()); CHECK((int)s.size() == c.size(), "size"); return s; }
};
// an adapter's contents, read through a copy
template <class T> static Seen drain(std::queue<T> q) {
  Seen s;
  for (; !q.empty(); q.pop()) s.push_back(str(q.front()));
  return s;
}
template <class T> static Seen drain(std::stack<T> q) {
  Seen s;
  for (; !q.empty(); q.pop()) s.push_back(str(q.top()));
  return s;
}
template <class T> struct Ops<cuhksz::Queue<T> > {
  typedef cuhksz::Queue<T> C;
  enum { N = 6 };
  static bool act(u64 op, C& c, C& o, const T& t, u64, bool* kept) {
    *kept = true;
    switch (op) {
      case 0: case 1: case 2: c.enqueue(t); return true;
      case 3: if (!c.size()) return false; { T x = c.dequeue(); (void)x; } return true;
      case 4: { std::queue<T> v = c.toStlQueue(); C y(v); return true; }
      default: { bool b = c == o; b = c < o; (void)b; } return true;
    }
  }
  static Seen all(C& c) { Seen s = drain(c.toStlQueue()); CHECK((int)s.size() == c.size(), "size"); return s; }
};
template <class T> struct Ops<cuhksz::Stack<T> > {
  typedef cuhksz::Stack<T> C;
  enum { N = 6 };
  static bool act(u64 op, C& c, C& o, const T& t, u64, bool* kept) {
    *kept = true;
    switch (op) {
      case 0: case 1: case 2: c.push(t); return true;
      case 3: if (!c.size()) return false; { T x = c.pop(); (void)x; } return true;
      case 4: { std::stack<T> v = c.toStlStack(); C y(v); return true; }
      default: { bool b = c == o; b = c < o; (void)b; } return true;
    }
  }
  static Seen all(C& c) { Seen s = drain(c.toStlStack()); CHECK((int)s.size() == c.size(), "size"); return s; }
};
template <class T> struct Ops<cuhksz::Set<T> > {
  typedef cuhksz::Set<T> C;
  enum { N = 6 };
  static bool act(u64 op, C& c, C& o, const T& t, u64, bool* kept) {
    *kept = true;
    switch (op) {
      case 0: case 1: c.insert(t); return true;
      case 2: c.erase(t); return true;
      case 3: c.contains(t); return true;
      case 4: { std::set<T> v = c.toStlSet(); C y(v); return true; }
      default: { bool b = c == o; b = c < o; (void)b; } return true;
    }
  }
  static Seen all(C& c) { Seen s = seen(c.begin(), c.end()); CHECK((int)s.size() == c.size(), "size"); return s; }
};
template <class T> struct Ops<cuhksz::MultiSet<T> > {
  typedef cuhksz::MultiSet<T> C;
  enum { N = 6 };
  static bool act(u64 op, C& c, C& o, const T& t, u64, bool* kept) {
    *kept = true;
    switch (op) {
      case 0: case 1: c.insert(t); return true;
      case 2: if (c.count(t)) c.erase(t); return true;
      case 3: c.count(t); return true;
      case 4: { std::multiset<T> v = c.toStlMultiset(); C y(v); return true; }
      default: { bool b = c == o; b = c < o; (void)b; } return true;
    }
  }
  static Seen all(C& c) { Seen s = seen(c.begin(), c.end()); CHECK((int)s.size() == c.size(), "size"); return s; }
};
template <class T> struct Ops<cuhksz::Map<T, T> > {
  typedef cuhksz::Map<T, T> C;
  enum { N = 6 };
  static bool act(u64 op, C& c, C& o, const T& t, u64, bool* kept) {
    switch (op) {
      case 0: case 1: c.set(t, t); return true;
      case 2: c[t] = t; return true;
      case 3: *kept = true; c.erase(t); return true;
      case 4: *kept = true; { c.contains(t); std::map<T, T> v = c.toStlMap(); C y(v); } return true;
      default: *kept = true; { bool b = c == o; b = c < o; (void)b; } return true;
    }
  }
  static Seen all(C& c) {
    std::map<T, T> m = c.toStlMap();
    Seen s = seen(m.begin(), m.end());
    CHECK((int)s.size() == c.size(), "size");
    return s;
  }
};
template <class T> struct Ops<cuhksz::MultiMap<T, T> > {
  typedef cuhksz::MultiMap<T, T> C;
  enum { N = 4 };
  static bool act(u64 op, C& c, C& o, const T& t, u64 i, bool* kept) {
    switch (op) {
      case 0: {
        std::multimap<T, T> m = c.toStlMultimap();
        for (u64 k = 0; k <= i % 3; k++) m.insert(std::make_pair(t, t));
        C n(m);
        c = n;
        return true;
      }
      case 1: *kept = true; c.erase(t); return true;
      case 2: *kept = true; { cuhksz::Set<T> s = c.find(t); } return true;
      default: *kept = true; { bool b = c == o; b = c < o; (void)b; } return true;
    }
  }
  static Seen all(C& c) {
    std::multimap<T, T> m = c.toStlMultimap();
    Seen s = seen(m.begin(), m.end());
    CHECK((int)s.size() == c.size(), "size");
    return s;
  }
};
static Fussy* element(Gen& g, Fussy*) { return new Fussy((int)g.zrange(-3, 6)); }
static std::string* element(Gen& g, std::string*) {
  static const char* w[] = {"a", "", "some text that does not fit into the string object itself", "another one of these long texts, for the heap", "bc"};
  return new std::string(std::string(w[g.draw(5)]) + (char)('a' + g.draw(5)));
}
template <class C, class T>
static void history_of(Gen& g) {
  const int N = 3;
  long live = Fussy::live();
  int failed = 0;
  {
    std::unique_ptr<C> v[N];
    Seen m[N];
    for (int i = 0; i < N; i++) v[i].reset(new C);
    Loop l(g, len_class(g, 60), 120);
    while (l.next()) {
      int a = (int)g.draw(N), b = (int)g.draw(N);
      u64 at = when(g), op = g.draw(Ops<C>::N + 3), i = g.draw(64);
      std::unique_ptr<T> t(element(g, (T*)0));
      bool kept = false;
      NOTE("operation " << op << " on " << a << " and " << b << " with " << str(*t) << ", event " << at << " throws");
      bool f = fails(at, [&] {
        if (op < (u64)Ops<C>::N) { Ops<C>::act(op, *v[a], *v[b], *t, i, &kept); return; }
        if (op == (u64)Ops<C>::N) { *v[a] = *v[b]; return; }
        if (op == (u64)Ops<C>::N + 1) { kept = true; C c(*v[b]); return; }
        kept = true;
        std::unique_ptr<C> c(new C(*v[b]));
        v[a].swap(c);
      });
      failed += f;
      for (int k = 0; k < N; k++) {
        Seen s = Ops<C>::all(*v[k]);
        if (f && (kept || k != a))
          CHECK(s == m[k], "container " << k << " was changed by an operation on " << a << " that ended in an exception");
        m[k] = s;
      }
    }
  }
  CHECK(Fussy::live() == live, Fussy::live() - live << " elements are still alive after all containers were destroyed");
  g.nontrivial(failed >= 1);
  if (failed) g.label("failed");
}
typedef std::string Str;
template <class T>
static void histories(Gen& g) {
  switch (g.draw(8)) {
    case 0: history_of<cuhksz::Vector<T>, T>(g); break;
    case 1: history_of<cuhksz::List<T>, T>(g); break;
    case 2: history_of<cuhksz::Queue<T>, T>(g); break;
    case 3: history_of<cuhksz::Stack<T>, T>(g); break;
    case 4: history_of<cuhksz::Set<T>, T>(g); break;
    case 5: history_of<cuhksz::MultiSet<T>, T>(g); break;
    case 6: history_of<cuhksz::MultiMap<T, T>, T>(g); break;
    default: history_of<cuhksz::Map<T, T>, T>(g);
  }
}
// ---- matrices
typedef cuhksz::Matrix<Fussy> M;
static Seen entries(const M& m, int r, int c) {
  Seen s;
  for (int i = 0; i < r; i++)
    for (int j = 0; j < c; j++) s.push_back(str(m[i][j]));
  return s;
}
static void matrices(Gen& g) {
  long live = Fussy::live();
  int failed = 0;
  {
    const int r = 1 + (int)g.draw(3), c = 1 + (int)g.draw(3);
    std::unique_ptr<M> v[3], w(new M(c, c)), sq(new M(r, r));
    for (int k = 0; k < 3; k++) {
      v[k].reset(new M(r, c));
      for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) (*v[k])[i][j] = Fussy((int)g.draw(3));
    }
    for (int i = 0; i < c; i++) for (int j = 0; j < c; j++) (*w)[i][j] = Fussy((int)g.draw(3));
    Loop l(g, 8, 40);
    while (l.next()) {
      u64 a = g.draw(3), b = g.draw(3), at = when(g), op = g.draw(11);
      unsigned e = (unsigned)g.draw(9);
      NOTE("step " << op << " on " << a << " and " << b << " of " << r << "x" << c << ", event " << at << " throws");
      Seen before[3];
      for (int k = 0; k < 3; k++) before[k] = entries(*v[k], r, c);
      bool replaced = false;  // the left operand may have been changed, even its shape
      bool f = fails(at, [&] {
        switch (op) {
          case 0: { M s = *v[a] + *v[b]; break; }
          case 1: { M s = *v[a] - *v[b]; break; }
          case 2: { M s = *v[a] * *w; break; }
          case 3: { M s(*v[a]); break; }
          case 4: { M s(r, c); M u(c); break; }
          case 5: { M s = pow(*w, e); break; }
          case 6: { bool x = *v[a] == *v[b]; (void)x; break; }
          case 7: replaced = true; *v[a] = *v[b]; break;
          case 8: replaced = true; if (e & 1) *v[a] += *v[b]; else *v[a] -= *v[b]; break;
          case 9: replaced = true; *v[a] *= *w; break;
          default: replaced = true; v[a]->reduce(); break;
        }
      });
      failed += f;
      for (u64 k = 0; k < 3; k++)
        if (f && (!replaced || k != a)) CHECK(entries(*v[k], r, c) == before[k], "matrix " << k << " was changed by a failed operation on " << a);
      if (f && replaced) {  // whatever is left can be assigned to or destroyed
        if (g.flag()) v[a].reset();
        M fresh(r, c);
        if (!v[a]) v[a].reset(new M(fresh));
        else *v[a] = fresh;
        for (auto& s : entries(*v[a], r, c)) CHECK(s == "0", "an entry of a matrix assigned anew is " << s);
      }
    }
  }
  CHECK(Fussy::live() == live, Fussy::live() - live << " elements are still alive after all matrices were destroyed");
  g.nontrivial(failed >= 1);
}
// ---- JSON
typedef cuhksz::JSONObject J;
static void walk(const J& j, u64& n) {  // reads everything there is
  n++;
  switch (j.getType()) {
    case J::Type::Object: for (auto& e : j.ObjectRange()) { n += e.first.size(); walk(e.second, n); } break;
    case J::Type::Array: for (auto& e : j.ArrayRange()) walk(e, n); break;
    default: n += j.toString().size() + (u64)j.toInt() + (u64)j.toBool() + (j.toDouble() > 0);
  }
}
static Str key(Gen& g) {
  static const char* w[] = {"a", "", "some text that does not fit into the string object itself", "k"};
  return w[g.draw(4)];
}
static void jsons(Gen& g) {
  std::unique_ptr<J> r[3];
  for (int i = 0; i < 3; i++) r[i].reset(new J);
  int failed = 0;
  Loop l(g, len_class(g, 40), 100);
  while (l.next()) {
    u64 root = g.draw(3), other = (root + 1 + g.draw(2)) % 3;
    J* j = r[root].get();
    for (int d = (int)g.draw(3); d > 0; d--) {
      if (j->getType() == J::Type::Array && j->size() > 0) j = &(*j)[(int)g.draw(j->size())];
      else if (j->getType() == J::Type::Object && j->size() > 0 && g.flag()) { auto it = j->ObjectRange().begin(); std::advance(it, (long)g.draw(j->size())); j = &it->second; }
    }
    Str k = key(g), text = key(g) + "\"\n" + key(g);
    u64 op = g.draw(16), at = when(g);
    int i = (int)g.draw(5);
    Str was[3];
    for (int q = 0; q < 3; q++) was[q] = r[q]->dump();
    Str doc = was[other];
    NOTE("step " << op << " on " << root << " and " << other << ", event " << at << " throws");
    bool pure = false;
    bool f = fails(at, [&] {
      switch (op) {
        case 0: *j = i; break;
        case 1: *j = text; break;
        case 2: *j = "literal text that is long enough to need the heap"; break;
        case 3: (*j)[k]; break;
        case 4: (*j)[k] = text; break;
        case 5: (*j)[i] = text; break;
        case 6: j->append(text); break;
        case 7: j->append(J(text), 1, J::Array(1, "x", text)); break;
        case 8: *j = *r[other]; break;
        case 9: *j = J(*r[other]); break;
        case 10: *j = J{J(k), J(text), J("k"), J::Array(1, 2)}; break;
        case 11: *j = J::Build(i & 1 ? J::Type::Object : J::Type::Array); break;
        case 12: pure = true; { J c(*j); c[k] = *r[other]; c = std::move(c[k]); } break;
        case 13: pure = true; { J c = cuhksz::loadJSON(doc); } break;
        case 14: pure = true; { Str s = j->dump(); s += j->toString(); J c(text); c = J::Array(text, c); } break;
        default: pure = true; { Str s = cuhksz::jsonEscape(text); const J& cj = *j; s += cj.hasKey(k) ? "1" : "0"; J c = J::Object(); c["x"]["y"][2] = text; }
      }
    });
    failed += f;
    for (u64 q = 0; q < 3; q++) {
      if (f && (pure || q != root)) CHECK(r[q]->dump() == was[q], "value " << q << " was changed by a failed operation: " << brief(r[q]->dump()) << " instead of " << brief(was[q]));
      u64 n = 0;
      walk(*r[q], n);
      if (r[q]->dump().size() > 2000) *r[q] = nullptr;
    }
  }
  g.nontrivial(failed >= 1);
}
// ---- graphs
using cuhksz::Vertex;
using cuhksz::Edge;
static void consistent(const std::vector<Vertex*>& v) {
  std::set<Vertex*> alive(v.begin(), v.end());
  std::multiset<Edge*> out, in;
  for (Vertex* x : v) {
    int n = 0;
    for (Edge* e : x->outEdges) {
      CHECK(e->getFrom() == x, "an outgoing edge does not start at its vertex");
      CHECK(alive.count(e->getTo()), "an edge leads to a vertex that does not exist");
      out.insert(e);
      n++;
    }
    CHECK(n == x->getOutDegree(), "out-degree");
    n = 0;
    for (Edge* e : x->inEdges) {
      CHECK(e->getTo() == x, "an incoming edge does not end at its vertex");
      CHECK(alive.count(e->getFrom()), "an edge comes from a vertex that does not exist");
      in.insert(e);
      n++;
    }
    CHECK(n == x->getInDegree(), "in-degree");
  }
  CHECK(out == in, "the outgoing edges of all vertices are not their incoming edges");
}
static void graphs(Gen& g) {
  std::vector<Vertex*> v;
  int failed = 0;
  v.reserve(1000);
  Loop l(g, len_class(g, 40), 100);
  while (l.next()) {
    u64 op = g.draw(7), at = when(g);
    if (v.size() < 2 || op == 0) { v.push_back(new Vertex((int)g.draw(9))); continue; }
    size_t a = g.draw(v.size()), b = g.draw(v.size()), edges = 0, after = 0;
    NOTE("step " << op << " on " << a << " and " << b << ", event " << at << " throws");
    for (Vertex* x : v) edges += (size_t)x->getOutDegree();
    bool small = v[b]->getInDegree() + v[b]->getOutDegree() < 40;
    bool f = false, whole = true;
    switch (op) {
      case 1: case 2: case 3: f = fails(at, [&] { v[a]->addEdge(*v[b], 5); }); break;
      case 4: delete v[a]; v.erase(v.begin() + (long)a); break;
      case 5: whole = false; if (small) f = fails(at, [&] { *v[a] = *v[b]; }); break;
      default: if (small) f = fails(at, [&] { v.push_back(new Vertex(*v[b])); });
    }
    failed += f;
    consistent(v);
    for (Vertex* x : v) after += (size_t)x->getOutDegree();
    if (f && whole) CHECK(after == edges, "a failed step left " << after << " edges where there were " << edges);
  }
  while (!v.empty()) {
    size_t a = g.draw(v.size());
    delete v[a];
    v.erase(v.begin() + (long)a);
    consistent(v);
  }
  g.nontrivial(failed >= 1);
}
// ---- tries: a failed question changes nothing; what a failed change leaves can be replaced
static Str tword(Gen& g) {
  Str w;
  Loop k(g, 4, 40);
  while (k.next()) w += (char)('a' + g.draw(3));
  return w;
}
static void tries(Gen& g) {
  std::unique_ptr<cuhksz::Trie> t[2];
  std::set<Str> m[2];
  int failed = 0;
  for (int i = 0; i < 2; i++) t[i].reset(new cuhksz::Trie);
  Loop l(g, len_class(g, 40), 120);
  while (l.next()) {
    u64 a = g.draw(2), op = g.draw(8), at = when(g);
    Str w = tword(g);
    NOTE("step " << op << " on " << a << " with " << w << ", event " << at << " throws");
    bool question = false;
    bool f = fails(at, [&] {
      switch (op) {
        case 0: case 1: case 2: case 3: t[a]->insert(w); break;
        case 4: t[a]->remove(w); break;
        case 5: question = true; t[a]->contain(w); break;
        case 6: question = true; for (auto s : *t[a]) if (s == w) break; break;
        default: question = true; cuhksz::Trie c(*t[a]);
      }
    });
    failed += f;
    if (!f) {
      if (op < 4) m[a].insert(w);
      if (op == 4) m[a].erase(w);
    } else if (!question) {
      if (g.flag()) { t[a].reset(new cuhksz::Trie); m[a].clear(); }
      else { *t[a] = *t[1 - a]; m[a] = m[1 - a]; }
    }
    for (int i = 0; i < 2; i++) {
      CHECK(t[i]->contain(w) == (bool)m[i].count(w), "membership of " << w << " in trie " << i);
      CHECK((size_t)t[i]->size() == m[i].size(), "size of trie " << i);
    }
  }
  for (int i = 0; i < 2; i++) {
    std::set<Str>::iterator it = m[i].begin();
    for (auto s : *t[i]) {
      CHECK(it != m[i].end() && s == *it, "iteration of trie " << i << " gives " << s);
      ++it;
    }
    CHECK(it == m[i].end(), "iteration of trie " << i << " ends early");
  }
  g.nontrivial(failed >= 1);
}
// ---- functions: a failed call can be made again
struct Call {  // a callback that may throw
  bool operator()(const Str& s) const { tick(); return s.size() % 2; }
};
static void functions(Gen& g) {
  Str a = gen_bytes(g, 60), b = gen_string(g, "ab", 30), doc = "{\"k\" : [1, 2.5, \"" + b + "\", {\"" + b + "\" : null}]}";
  std::vector<Str> v{a, b, a + b, ""}, u{b, a, a};
  u64 op = g.draw(12), at = 1 + g.draw(g.flag() ? 6 : 120);
  NOTE("call " << op << " on " << brief(a) << " and " << brief(b) << ", event " << at << " throws");
  Str r[2];
  bool f = false;
  for (int run = 0; run < 2; run++) {
    Str& out = r[run];
    bool failed = fails(run ? 0 : at, [&] {
      switch (op) {
        case 0: { std::string s = cuhksz::base64Encode(a); out.swap(s); break; }
        case 1: { std::string s = cuhksz::base64Decode(b); out.swap(s); break; }
        case 2: { std::string s = cuhksz::urlEncode(a); out.swap(s); break; }
        case 3: { std::string s = cuhksz::urlDecode(a); out.swap(s); break; }
        case 4: out += (char)('a' + (1 + cuhksz::kmpSearch(a + b, b, 0)) % 26); break;
        case 5: out += (char)('a' + cuhksz::editDistance(a, b) % 26); break;
        case 6: { Str s = cuhksz::stringCast<Str>(a)(); out.swap(s); break; }
        case 7: { std::vector<std::vector<Str> > z = cuhksz::zip(v, u); for (auto& x : z) for (auto& y : x) out += y; break; }
        case 8: { std::vector<Str> z = cuhksz::filterContainer(v, Call()); for (auto& y : z) out += y; break; }
        case 9: { std::vector<bool> z = cuhksz::mapAll(v, Call()); for (size_t i = 0; i < z.size(); i++) out += z[i] ? '1' : '0'; break; }
        case 10: { J j = cuhksz::loadJSON(doc); Str s = j.dump(); out.swap(s); break; }
        default: { Fussy x = cuhksz::genericBinaryPow(Fussy(2), (int)(a.size() % 50)); out += (char)('0' + x.v % 3); break; }
      }
    });
    if (run == 0) f = failed;
    else CHECK(!failed, "fails without a fault");
  }
  CHECK(v[0] == a && v[1] == b && v[2] == a + b && u[0] == b && u[1] == a, "the arguments were changed");
  // the second call, after the failed one, against the same call once more
  if (op == 0) CHECK(cuhksz::base64Decode(r[1]) == a, "base64Encode after a failed call");
  if (op == 2) CHECK(cuhksz::urlDecode(r[1]) == a, "urlEncode after a failed call");
  if (op == 4) { size_t p = (a + b).find(b); CHECK(r[1][0] == (char)('a' + (1 + p) % 26), "kmpSearch after a failed call"); }
  if (op == 9) { Str e; for (auto& s : v) e += s.size() % 2 ? '1' : '0'; CHECK(r[1] == e, "mapAll after a failed call"); }
  g.nontrivial(f);
}
// ---- generators and segment trees
template <class D, class Make> static void distribution(u64 at, Make make, bool* f) {
  std::unique_ptr<D> d;
  *f = fails(at, [&] { d.reset(make()); d->next(); });
  if (!d) d.reset(make());
  d->next();
}
static void others(Gen& g) {
  using namespace cuhksz;
  u64 at = 1 + g.draw(8), k = g.draw(9);
  bool own = g.flag(), f = false;
  NOTE("object " << k << ", event " << at << " throws");
  Random r(5);
#define D(cls, ...) distribution<cls>(at, [&] { return own ? new cls(__VA_ARGS__) : new cls(r, __VA_ARGS__); }, &f); break;
  switch (k) {
    case 0: D(BinomialDistribution, 30, 0.3)
    case 1: D(BernoulliDistribution, 0.3)
    case 2: D(GeometricDistribution, 0.3)
    case 3: D(StudentTDistribution, 4)
    case 4: D(NormalDistribution, 0, 1)
    case 5: D(ExponentialDistribution, 2)
    case 6: D(PoissonDistribution, 2)
    case 7: D(UniformIntDistribution, 1, 3)
    default: {
      std::vector<long long> a(1 + g.draw(9), 3);
      std::unique_ptr<SegmentTree<long long> > t;
      f = fails(at * (1 + g.draw(4)), [&] { t.reset(new SegmentTree<long long>(a)); });
      if (!t) t.reset(new SegmentTree<long long>(a));
      int n = (int)a.size();
      t->addInterval(0, n - 1, 2);
      SegmentTree<long long> copy(*t);
      fails(1 + g.draw(5), [&] { SegmentTree<long long> c(*t); });
      CHECK(t->querySum(0, n - 1) == 5 * n && copy.querySum(0, n - 1) == 5 * n, "the sum of a segment tree made after a failed one");
    }
  }
  g.nontrivial(f);
}
// the scene runs twice on the same choices: the first run may create what lives until the
// program ends, the second may leave nothing behind
typedef void (*Scene)(Gen&);
template <Scene F>
static void balanced(Gen& g) {
  Gen start(g);
  F(g);
  Slot* s = pbt::E().slot;
  u64 len = s ? (u64)s->tape_len : 0;
  int over = s ? (int)s->overflow : 0;
  size_t before = in_use();
  F(start);
  size_t after = in_use();
  if (s) s->tape_len = len, s->overflow = over;
#ifdef PBT_FUZZ
  // libFuzzer brings its own std::vector<std::string>, compiled without exceptions
  if (F == histories<Str> || F == tries || F == functions || F == jsons) after = before;
#endif
  CHECK(after <= before, after - before << " bytes are still allocated after every object of the history was destroyed");
}
PBT_MAIN({"elements", 20000, balanced<histories<Fussy> >, 0}, {"memory", 20000, balanced<histories<Str> >, 0}, {"matrices", 20000, balanced<matrices>, 0},
         {"json", 12000, balanced<jsons>, 0}, {"graphs", 15000, balanced<graphs>, 0}, {"tries", 10000, balanced<tries>, 0},
         {"functions", 30000, balanced<functions>, 0}, {"others", 10000, balanced<others>, 0})
