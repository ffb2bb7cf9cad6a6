// Memory: everything a history of uses acquired is released once its objects are gone, and an
// object that keeps returning to the same contents does not keep growing.
#include <deque>
#include <list>
#include <memory>
#include <set>
#include "algorithm.h"
#include "base64/base64_functions.h"
#include "containers/List.h"
#include "containers/Map.h"
#include "containers/MultiMap.h"
#include "containers/MultiSet.h"
#include "containers/Queue.h"
#include "containers/Set.h"
#include "containers/Stack.h"
#include "containers/Vector.h"
#include "geometry/Circle.h"
#include "geometry/Line.h"
#include "geometry/Point.h"
#include "graph/BST.h"
#include "graph/Edge.h"
#include "graph/SegmentTree.h"
#include "graph/Tree.h"
#include "graph/Vertex.h"
#include "json/Json.h"
#include "math_utils/BigNum.h"
#include "math_utils/Fraction.h"
#include "math_utils/Matrix.h"
#include "math_utils/math_functions.h"
#include "network/network_functions.h"
#include "random.h"
#include "strgen.h"
#include "string_utils/StringCast.h"
#include "string_utils/Trie.h"
namespace cuhksz {
Point<2> getIntersection(const Line& l1, const Line& l2);
double disToLine(Point<2> P, Line l);
double disToSegment(Point<2> P, Line l);
}  // namespace cuhksz
extern "C" size_t __sanitizer_get_current_allocated_bytes();
typedef void (*Scene)(Gen&);
static size_t in_use() { return __sanitizer_get_current_allocated_bytes(); }
// The scene runs twice on the same choices: the first run may create what lives until the
// program ends, the second may leave nothing behind.
template <Scene F>
static void balanced(Gen& g) {
  Gen again(g);
  F(g);
  Slot* s = pbt::E().slot;
  u64 len = s ? (u64)s->tape_len : 0;
  int over = s ? (int)s->overflow : 0;
  size_t before = in_use();
  F(again);
  size_t after = in_use();
  if (s) s->tape_len = len, s->overflow = over;
  CHECK(after <= before, after - before << " bytes are still allocated after every object of the history was destroyed");
}
static std::string word(Gen& g) {
  static const char* w[] = {"a", "", "some text that does not fit into the string object itself", "another one of these long texts, for the heap", "bc"};
  return std::string(w[g.draw(5)]) + (char)('a' + g.draw(20));
}
// ---- containers
template <class C> struct Ops;
template <class T> struct Ops<cuhksz::Vector<T> > {
  typedef cuhksz::Vector<T> C;
  static void add(Gen& g, C& c, const T& t) { if (g.flag()) c.push(t); else c.insert((int)g.draw((u64)c.size() + 1), t); }
  static void del(Gen& g, C& c) { if (c.size()) { if (g.flag()) c.pop(); else c.erase((int)g.draw(c.size())); } }
  static void misc(Gen& g, C& c, C&) {
    if (c.size()) { c.set((int)g.draw(c.size()), word(g)); c[0] = word(g); }
    std::vector<T> v = c.toStlVector();
    C n(v), z(3), y(4, word(g));
    n = y;
    std::stringstream ss;
    ss << n;
  }
};
template <class T> struct Ops<cuhksz::List<T> > {
  typedef cuhksz::List<T> C;
  static void add(Gen& g, C& c, const T& t) {
    switch (g.draw(3)) {
      case 0: c.push(t); break;
      case 1: c.push_front(t); break;
      default: c.insert((int)g.draw((u64)c.size() + 1), t);
    }
  }
  static void del(Gen& g, C& c) {
    if (!c.size()) return;
    switch (g.draw(3)) {
      case 0: c.pop(); break;
      case 1: c.pop_front(); break;
      default: c.erase((int)g.draw(c.size()));
    }
  }
  static void misc(Gen& g, C& c, C& o) {
    switch (g.draw(4)) {
      case 0: c.sort(); break;
      case 1: c.reverse(); break;
      case 2: if (&c != &o) { c.sort(); o.sort(); c.merge(o); } break;
      default: { std::list<T> l = c.toStlList(); C n(l); if (n.size()) n[0] = word(g); }
    }
  }
};
template <class T> struct Ops<cuhksz::Queue<T> > {
  typedef cuhksz::Queue<T> C;
  static void add(Gen&, C& c, const T& t) { c.enqueue(t); }
  static void del(Gen&, C& c) { if (c.size()) c.dequeue(); }
  static void misc(Gen& g, C& c, C&) { if (c.size()) { c.first() = word(g); c.last() = word(g); } std::queue<T> q = c.toStlQueue(); C n(q); }
};
template <class T> struct Ops<cuhksz::Stack<T> > {
  typedef cuhksz::Stack<T> C;
  static void add(Gen&, C& c, const T& t) { c.push(t); }
  static void del(Gen&, C& c) { if (c.size()) c.pop(); }
  static void misc(Gen& g, C& c, C&) { if (c.size()) c.top() = word(g); std::stack<T> q = c.toStlStack(); C n(q); }
};
template <class T> struct Ops<cuhksz::Set<T> > {
  typedef cuhksz::Set<T> C;
  static void add(Gen&, C& c, const T& t) { c.insert(t); }
  static void del(Gen& g, C& c) { if (c.size()) c.erase(*c.begin()); c.erase(word(g)); }
  static void misc(Gen& g, C& c, C&) { c.contains(word(g)); std::set<T> s = c.toStlSet(); C n(s); }
};
template <class T> struct Ops<cuhksz::MultiSet<T> > {
  typedef cuhksz::MultiSet<T> C;
  static void add(Gen&, C& c, const T& t) { c.insert(t); }
  static void del(Gen&, C& c) { if (c.size()) { T t = *c.begin(); c.erase(t); } }
  static void misc(Gen& g, C& c, C&) { c.count(word(g)); std::multiset<T> s = c.toStlMultiset(); C n(s); }
};
template <class T> struct Ops<cuhksz::Map<T, T> > {
  typedef cuhksz::Map<T, T> C;
  static void add(Gen& g, C& c, const T& t) { if (g.flag()) c.set(t, word(g)); else c[t] = word(g); }
  static void del(Gen& g, C& c) { c.erase(word(g)); }
  static void misc(Gen& g, C& c, C&) { c.contains(word(g)); std::map<T, T> s = c.toStlMap(); C n(s); }
};
template <class C> static bool equal(C& a, C& b) { return a == b; }
template <class C>
static void history(Gen& g) {
  const int N = 3;
  std::unique_ptr<C> v[N];
  for (int i = 0; i < N; i++) v[i].reset(new C);
  int mut = 0;
  Loop l(g, len_class(g, 100), 300);
  while (l.next()) {
    int a = (int)g.draw(N), b = (int)g.draw(N);
    switch (g.draw(9)) {
      case 0: case 1: case 2: NOTE("add to " << a); Ops<C>::add(g, *v[a], word(g)); mut++; break;
      case 3: NOTE("remove from " << a); Ops<C>::del(g, *v[a]); mut++; break;
      case 4: NOTE(a << " = " << b); *v[a] = *v[b]; break;
      case 5: NOTE(a << " is a copy of " << b); if (a != b) v[a].reset(new C(*v[b])); break;
      case 6: NOTE("clear " << a); if (g.chance(1, 3)) v[a]->clear(); break;
      case 7: NOTE("compare " << a << " with " << b); equal(*v[a], *v[b]); break;
      default: NOTE("other uses of " << a); Ops<C>::misc(g, *v[a], *v[b]); mut++;
    }
  }
  g.nontrivial(mut >= 3);
}
typedef std::string Str;
static void containers(Gen& g) {
  switch (g.draw(7)) {
    case 0: history<cuhksz::Vector<Str> >(g); break;
    case 1: history<cuhksz::List<Str> >(g); break;
    case 2: history<cuhksz::Queue<Str> >(g); break;
    case 3: history<cuhksz::Stack<Str> >(g); break;
    case 4: history<cuhksz::Set<Str> >(g); break;
    case 5: history<cuhksz::MultiSet<Str> >(g); break;
    default: history<cuhksz::Map<Str, Str> >(g);
  }
}
static void multimaps(Gen& g) {
  typedef cuhksz::MultiMap<Str, Str> C;
  std::multimap<Str, Str> m;
  Loop l(g, len_class(g, 50), 100);
  while (l.next()) m.insert(std::make_pair(word(g), word(g)));
  C c(m), d, e{{word(g), word(g)}};
  d = c;
  Loop k(g, 6, 40);
  while (k.next()) {
    switch (g.draw(4)) {
      case 0: d.erase(word(g)); break;
      case 1: { cuhksz::Set<Str> s = d.find(word(g)); break; }
      case 2: { std::multimap<Str, Str> t = d.toStlMultimap(); C n(t); e = n; break; }
      default: if (g.flag()) e = d; else e.clear();
    }
  }
  g.nontrivial(m.size() >= 2);
}
// ---- trie
static void tries(Gen& g) {
  cuhksz::Trie t;
  int ins = 0;
  Loop l(g, len_class(g, 100), 400);
  while (l.next()) {
    Str w;
    Loop k(g, 4, 60);
    while (k.next()) w += (char)('a' + g.draw(4));
    switch (g.draw(5)) {
      case 0: case 1: case 2: NOTE("insert " << w); t.insert(w); ins++; break;
      case 3: NOTE("remove " << w); t.remove(w); break;
      default: t.contain(w); for (auto s : t) if (s == w) break;
    }
  }
  g.nontrivial(ins >= 3);
}
// ---- JSON
typedef cuhksz::JSONObject J;
static J& node(Gen& g, J& root) {
  J* p = &root;
  for (int d = (int)g.draw(4); d > 0; d--) {
    if (p->getType() == J::Type::Array && p->size() > 0 && g.flag()) p = &(*p)[(int)g.draw(p->size())];
    else if (g.flag()) p = &(*p)[word(g)];
    else p = &(*p)[(int)g.draw(4)];
  }
  return *p;
}
static void jsons(Gen& g) {
  std::unique_ptr<J> r[3];
  for (int i = 0; i < 3; i++) r[i].reset(new J);
  int mut = 0;
  Loop l(g, len_class(g, 50), 150);
  while (l.next()) {
    size_t root = g.draw(3);
    J& j = node(g, *r[root]);
    u64 op = g.draw(16);
    NOTE("step " << op);
    mut++;
    switch (op) {
      case 0: j = (int)g.draw(9); break;
      case 1: j = word(g); break;
      case 2: j = "literal text that is long enough to need the heap"; break;
      case 3: j = g.flag(); break;
      case 4: j = 1.5; break;
      case 5: j = nullptr; break;
      case 6: { J c(j); if (c.dump().size() < 3000) node(g, *r[g.draw(3)]) = c; break; }
      case 7: { J c(j); J d(std::move(c)); if (d.dump().size() < 3000) node(g, *r[g.draw(3)]) = std::move(d); break; }
      case 8: j.append(word(g)); break;
      case 9: j.append(J(word(g)), 1, J::Array(1, "x", word(g))); break;
      case 10: j = J{J(word(g)), J(word(g)), J("k"), J::Array(1, 2)}; break;
      case 11: j = J::Build(g.flag() ? J::Type::Object : J::Type::Array); break;
      case 12: { Str s = j.dump(); J k = cuhksz::loadJSON(s); if (s.size() < 3000) j = k; break; }
      case 13:
        // never a value into a part of itself
        if (g.flag()) j = std::move(*r[(root + 1 + g.draw(2)) % 3]);
        else *r[root] = std::move(j);
        break;
      case 14: r[g.draw(3)].reset(new J(word(g))); break;
      default: {
        const J& cj = j;
        cj.hasKey(word(g));
        cj.toString();
        cuhksz::jsonEscape(word(g));
        for (auto& e : j.ArrayRange()) (void)e.size();
        for (auto& e : j.ObjectRange()) (void)e.second.size();
      }
    }
    size_t total = 0;
    for (int i = 0; i < 3; i++) total += r[i]->dump().size();
    if (total > 20000) for (int i = 0; i < 3; i++) *r[i] = J();
  }
  g.nontrivial(mut >= 3);
}
// ---- graph
static void graphs(Gen& g) {
  using namespace cuhksz;
  std::vector<Vertex*> v;
  int steps = 0;
  Loop l(g, len_class(g, 50), 150);
  while (l.next()) {
    steps++;
    u64 op = g.draw(7);
    if (v.size() < 2 || op == 0) { v.push_back(g.flag() ? new Vertex : new Vertex(3)); NOTE("new vertex"); continue; }
    size_t a = g.draw(v.size()), b = g.draw(v.size());
    NOTE("step " << op << " on " << a << " and " << b);
    switch (op) {
      case 1: case 2: case 3: v[a]->addEdge(*v[b], (int)g.draw(9)); break;
      case 4: delete v[a]; v.erase(v.begin() + a); break;
      case 5: if (v[b]->getInDegree() + v[b]->getOutDegree() < 60) *v[a] = *v[b]; break;
      default:
        if (v[b]->getInDegree() + v[b]->getOutDegree() < 60) v.push_back(new Vertex(*v[b]));
        { Edge e(v[a], v[b], 2), f(e); f = e; }
    }
  }
  while (!v.empty()) {
    size_t a = g.draw(v.size());
    delete v[a];
    v.erase(v.begin() + a);
  }
  g.nontrivial(steps >= 4);
}
static void trees(Gen& g) {
  using namespace cuhksz;
  int n = 1 + (int)g.draw(40);
  Tree t;
  std::vector<Node*> nd;
  for (int i = 0; i < n; i++) {
    nd.push_back(new Node(i, i));
    if (i == 0) t.setRoot(nd[0]); else t.addNode(nd[i], nd[g.draw(i)]);
  }
  for (int i = 0; i < 5; i++) { t.LCA(nd[g.draw(n)], nd[g.draw(n)]); t.getDistance(nd[g.draw(n)], nd[0]); }
  for (auto p : nd) delete p;
  std::vector<long long> a(n, 3);
  SegmentTree<long long> s(a);
  for (int i = 0; i < 6; i++) {
    int x = (int)g.draw(n), y = x + (int)g.draw(n - x);
    s.addInterval(x, y, 2);
    s.mulInterval(x, y, -1);
    s.querySum(x, y);
    s.queryMin(x, y);
    s.queryMax(x, y);
  }
  BST b;
  std::vector<BSTNode*> bn;
  for (int i = 0; i < n; i++) { bn.push_back(new BSTNode((int)g.draw(50), i)); b.insert(bn[i]); }
  for (int i = 0; i < n; i++) {
    b.find((int)g.draw(50));
    if (g.flag()) { b.pre(bn[i]); b.erase(bn[i]); }
  }
  for (auto p : bn) delete p;
  g.nontrivial(n >= 4);
}
// ---- numbers
static void numbers(Gen& g) {
  using namespace cuhksz;
  int r = 1 + (int)g.draw(5), c = 1 + (int)g.draw(5), q = 1 + (int)g.draw(5);
  typedef Matrix<double> M;
  std::unique_ptr<M> v[3];
  v[0].reset(new M(r, c)); v[1].reset(new M(r, c)); v[2].reset(new M(c, q));
  for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) (*v[0])[i][j] = (double)g.draw(4), (*v[1])[i][j] = (double)g.draw(4);
  Loop l(g, 6, 40);
  while (l.next()) {
    u64 op = g.draw(9);
    NOTE("matrix step " << op);
    switch (op) {
      case 0: *v[0] = *v[0] + *v[1]; break;
      case 1: *v[0] -= *v[1]; break;
      case 2: { M p = *v[0] * *v[2]; p *= M::idMat(q); break; }
      case 3: { M t(*v[0]); t = *v[2]; t = *v[0]; t.reduce(); break; }
      case 4: { M sq(r, r); sq = pow(M::idMat(r), (unsigned)g.draw(9)); break; }
      case 5: { M t(*v[1]); t = t; Str s = t.toString(); break; }
      case 6: v[1].reset(new M(*v[0])); break;
      case 7: { bool e = *v[0] == *v[1]; (void)e; break; }
      default: { Matrix<Fraction> f(2, 2); f[0][0] = Fraction(1, 2); f.reduce(); Matrix<Fraction> h(f); h = f + f; }
    }
  }
  BigNum<30> a(Str("123456789")), b((int64_t)-5);
  a *= b;
  Str s = a.toString() + (a + b).toString() + (a - b).toString();
  Fraction f(3, 4), h(1, 3);
  f = f * h + f / h - h;
  std::stringstream fs;
  fs << f;
  Str t = fs.str();
  std::vector<double> d(r + 1, 1.5);
  variance(d);
  stddev(d);
  sample_variance(d);
  mean(d);
  genericBinaryPow((int64_t)3, 5);
  binomial(10, (int)g.draw(11));
  g.nontrivial(true);
}
// ---- geometry
template <int N>
static void points(Gen& g) {
  using namespace cuhksz;
  Point<N> a, b;
  for (int i = 0; i < N; i++) a[i] = (double)g.draw(9), b[i] = (double)g.draw(9);
  Loop l(g, 5, 30);
  while (l.next()) {
    u64 op = g.draw(9);
    NOTE("point step " << op);
    switch (op) {
      case 0: a = a + b; break;
      case 1: a = a - b; break;
      case 2: a = a * 2.0; break;
      case 3: a = a / 2.0; break;
      case 4: a = 0.5 * b; break;
      case 5: { Point<N> c(a); c += b; c -= a; c *= 3; c /= 3; a = c; break; }
      case 6: { double d = a * b; (void)d; break; }
      case 7: { bool x = a == b || a < b || a != b; (void)x; break; }
      default: a.len();
    }
  }
}
static void geometry(Gen& g) {
  using namespace cuhksz;
  switch (g.draw(3)) {
    case 0: points<1>(g); break;
    case 1: points<2>(g); break;
    default: points<3>(g);
  }
  Point<2> p(1, 2), q(3, (double)g.draw(5));
  Line l(p, GVector<2>(1, 1)), m(q, GVector<2>(1, -1)), k(l);
  k = m;
  getIntersection(l, m);
  disToLine(p, k);
  disToSegment(q, l);
  Circle c(p, 2);
  c.getPoint((double)g.draw(7));
  g.nontrivial(true);
}
// ---- text and algorithms
static void texts(Gen& g) {
  Str a = gen_bytes(g, 60), b = gen_bytes(g, 60);
  NOTE(brief(a) << " " << brief(b));
  cuhksz::base64Decode(cuhksz::base64Encode(a));
  cuhksz::base64Encode(a, (int)g.draw(300));
  cuhksz::base64Decode(b);
  cuhksz::urlDecode(cuhksz::urlEncode(a));
  cuhksz::urlDecode(b);
  cuhksz::kmpSearch(a + b, b, g.draw(70));
  cuhksz::editDistance(a, b);
  int i = cuhksz::stringCast<int>(b);
  Str w = cuhksz::stringCast<Str>(a)();
  cuhksz::stringCast<double> early(a);
  double d = early;
  (void)i; (void)d;
  std::vector<Str> v{a, b, w}, u{b, a};
  std::vector<std::vector<Str> > z = cuhksz::zip(v, u);
  std::vector<Str> f = cuhksz::filterContainer(v, [](const Str& s) { return s.size() % 2; });
  std::vector<size_t> n = cuhksz::mapAll(v, [](const Str& s) { return s.size(); });
  g.nontrivial(a.size() + b.size() >= 2);
}
// ---- random
template <class D> static void use(D* d) { d->next(); d->next(); delete d; }
static void randoms(Gen& g) {
  using namespace cuhksz;
  Random r((int)g.draw(1000));
  Loop l(g, 4, 30);
  while (l.next()) {
    bool own = g.flag(), move = g.chance(1, 3);
    u64 k = g.draw(12);
    NOTE("distribution " << k << (own ? " with its own generator" : " with a given generator") << (move ? ", moved" : ""));
#define D(cls, ...) { cls* d = own ? new cls(__VA_ARGS__) : new cls(r, __VA_ARGS__); if (move) { d->next(); d->setRandomGenerator(r); } use(d); break; }
    switch (k) {
      case 0: D(BernoulliDistribution, 0.3)
      case 1: D(BinomialDistribution, 30, 0.3)
      case 2: D(ChiSquaredDistribution, 3)
      case 3: D(ExponentialDistribution, 2)
      case 4: D(GammaDistribution, 2.5, 1)
      case 5: D(GeometricDistribution, 0.4)
      case 6: D(NegativeBinomialDistribution, 5, 0.4)
      case 7: D(NormalDistribution, 0, 1)
      case 8: D(PoissonDistribution, 4)
      case 9: D(StudentTDistribution, 5)
      case 10: D(UniformDistribution, 1, 2)
      default: D(UniformIntDistribution, 1, 9)
    }
  }
  randomInt();
  randomDouble();
  g.nontrivial(true);
}
// ---- objects that keep coming back to the same contents
template <class F>
static void steady(const char* what, F cycle) {
  for (int i = 0; i < 40; i++) cycle();
  size_t before = in_use();
  for (int i = 0; i < 400; i++) cycle();
  size_t after = in_use();
  CHECK(after <= before + 600, what << " grew by " << after - before << " bytes in 400 rounds that each end in the same contents");
}
static void rounds(Gen& g) {
  Str w[4];
  for (int i = 0; i < 4; i++) w[i] = word(g);
  int n = 1 + (int)g.draw(6);
  u64 kind = g.draw(9);
  NOTE("kind " << kind << ", " << n << " elements a round");
  switch (kind) {
    case 0: { cuhksz::Vector<Str> c; steady("Vector", [&] { for (int i = 0; i < n; i++) c.push(w[i % 4]); c.insert(0, w[0]); c.erase(0); while (c.size()) c.pop(); }); break; }
    case 1: { cuhksz::List<Str> c; steady("List", [&] { for (int i = 0; i < n; i++) c.push(w[i % 4]); c.sort(); c.reverse(); while (c.size()) c.pop_front(); }); break; }
    case 2: { cuhksz::Queue<Str> c; steady("Queue", [&] { for (int i = 0; i < n; i++) c.enqueue(w[i % 4]); while (c.size()) c.dequeue(); }); break; }
    case 3: { cuhksz::Stack<Str> c; steady("Stack", [&] { for (int i = 0; i < n; i++) c.push(w[i % 4]); while (c.size()) c.pop(); }); break; }
    case 4: { cuhksz::Map<Str, Str> c; steady("Map", [&] { for (int i = 0; i < n; i++) c.set(w[i % 4], w[(i + 1) % 4]); for (int i = 0; i < 4; i++) c.erase(w[i]); }); break; }
    case 5: { cuhksz::JSONObject j; steady("JSONObject", [&] { for (int i = 0; i < n; i++) j[w[i % 4]] = w[(i + 1) % 4]; j = n; j = w[0]; j = cuhksz::JSONObject::Array(1, w[1]); j = nullptr; }); break; }
    case 6: { cuhksz::Matrix<double> m(n, n), k(n, 1); steady("Matrix", [&] { cuhksz::Matrix<double> t(m); t = k; m = t; m = cuhksz::Matrix<double>(n, n); m += m; }); break; }
    case 7: {
      cuhksz::Vertex a, b;
      steady("Vertex", [&] { cuhksz::Vertex c; for (int i = 0; i < n; i++) { c.addEdge(a); b.addEdge(c); } cuhksz::Vertex d(c); d = a; });
      break;
    }
    default: {
      cuhksz::Trie t;
      std::vector<Str> ws;
      for (int i = 0; i < n; i++) {
        Str s;
        Loop l(g, 4, 30);
        while (l.next()) s += (char)('a' + g.draw(4));
        ws.push_back(s);
      }
      steady("Trie", [&] { for (auto& s : ws) t.insert(s); for (auto& s : ws) t.remove(s); });
    }
  }
  g.nontrivial(true);
}
PBT_MAIN({"containers", 40000, balanced<containers>, 0}, {"multimaps", 10000, balanced<multimaps>, 0}, {"tries", 8000, balanced<tries>, 0},
         {"json", 8000, balanced<jsons>, 0}, {"graphs", 15000, balanced<graphs>, 0}, {"trees", 10000, balanced<trees>, 0},
         {"numbers", 10000, balanced<numbers>, 0}, {"geometry", 10000, balanced<geometry>, 0}, {"texts", 15000, balanced<texts>, 0},
         {"random", 3000, balanced<randoms>, 0}, {"rounds", 6000, rounds, 0})
