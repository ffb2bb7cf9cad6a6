// Small programs that use one area of the library each and write down what they see: the jobs of
// threads (X02), and of a program in some environment (X06).
#pragma once
#include <deque>
#include <functional>
#include <list>
#include <locale>
#include <map>
#include <memory>
#include <set>
#include "algorithm.h"
#include "base64/base64_functions.h"
#include "containers/List.h"
#include "containers/Map.h"
#include "containers/MultiMap.h"
#include "containers/MultiSet.h"
#include "containers/Queue.h"
#include "containers/Set.h"
#include "containers/Stack.h"
#include "containers/Vector.h"
#include "geometry/Circle.h"
#include "geometry/Line.h"
#include "geometry/Point.h"
#include "graph/BST.h"
#include "graph/SegmentTree.h"
#include "graph/Tree.h"
#include "json/Json.h"
#include "math_utils/BigNum.h"
#include "math_utils/Fraction.h"
#include "math_utils/Matrix.h"
#include "math_utils/math_functions.h"
#include "network/network_functions.h"
#include "pbt.h"
#include "random.h"
#include "string_utils/StringCast.h"
#include "string_utils/Trie.h"
using namespace pbt;
namespace cuhksz {
Point<2> getIntersection(const Line& l1, const Line& l2);
double disToLine(Point<2> P, Line l);
double disToSegment(Point<2> P, Line l);
}  // namespace cuhksz
typedef std::string Str;
// The choices of one thread: a generator of its own.
struct R {
  u64 s;
  explicit R(u64 seed) : s(mix(seed)) {}
  u64 draw(u64 n) { s = mix(s); return n ? s % n : 0; }
  bool flag() { return draw(2); }
};
typedef std::ostringstream Out;
static Str word(R& r) {
  Str w;
  for (u64 n = r.draw(12); n > 0; n--) w += (char)('a' + r.draw(4));
  return w;
}
static Str bytes(R& r, u64 max) {
  Str w;
  for (u64 n = r.draw(max); n > 0; n--) w += (char)r.draw(256);
  return w;
}
// ---- what a thread may do on its own
static void j_base64(R& r, Out& o) {
  Str a = bytes(r, 200);
  Str e = cuhksz::base64Encode(a);
  o << e << ' ' << (cuhksz::base64Decode(e) == a) << cuhksz::base64Decode(word(r)).size() << ' ';
}
static void j_url(R& r, Out& o) {
  Str a = bytes(r, 200);
  Str e = cuhksz::urlEncode(a);
  o << e << ' ' << (cuhksz::urlDecode(e) == a) << cuhksz::urlDecode("%41" + word(r)) << ' ';
}
static void j_search(R& r, Out& o) {
  Str t, p = word(r);
  for (int i = 0; i < 12; i++) t += word(r);
  t += p;
  o << cuhksz::kmpSearch(t, p) << ' ' << cuhksz::kmpSearch(t, p, 7) << ' ' << cuhksz::editDistance(t, p) << ' ';
}
static void j_cast(R& r, Out& o) {
  int v = (int)r.draw(100000) - 50000;
  int i = cuhksz::stringCast<int>(std::to_string(v));
  double d = cuhksz::stringCast<double>(std::to_string(v) + ".5");
  Str s = cuhksz::stringCast<Str>(word(r) + " x");
  cuhksz::stringCast<long long> late(std::to_string(v) + "123");
  long long l = late;
  o << i << ' ' << d << ' ' << s << ' ' << l << ' ';
}
static void j_trie(R& r, Out& o) {
  cuhksz::Trie t;
  for (int i = 0; i < 40; i++) {
    Str w = word(r);
    switch (r.draw(4)) {
      case 0: t.remove(w); break;
      case 1: o << t.contain(w); break;
      default: t.insert(w);
    }
  }
  o << t.size();
  for (auto s : t) o << s << ' ';
}
static void j_json(R& r, Out& o) {
  typedef cuhksz::JSONObject J;
  J j;
  for (int i = 0; i < 10; i++) {
    Str k = word(r);
    switch (r.draw(6)) {
      case 0: j[k] = (int)r.draw(1000); break;
      case 1: j[k] = bytes(r, 20); break;
      case 2: j[k] = r.flag(); break;
      case 3: j[k] = (double)r.draw(1000) / 8; break;
      case 4: j[k]["in"] = J::Array(1, "x", word(r)); break;
      default: { J c(j); if (c.dump().size() < 500) j[k] = c; }
    }
  }
  Str d = j.dump();
  J b = cuhksz::loadJSON("{\"a\" : [1, -2.5e2, \"\\u0041\\n\", null, true], \"b\":{}}");
  o << d << ' ' << b.dump() << ' ' << b["a"].length() << ' ' << cuhksz::jsonEscape(bytes(r, 30)) << ' ';
}
static void j_matrix(R& r, Out& o) {
  using namespace cuhksz;
  int n = 1 + (int)r.draw(4);
  Matrix<double> a(n, n), b(n, n);
  for (int i = 0; i < n; i++) for (int k = 0; k < n; k++) a[i][k] = (double)r.draw(5), b[i][k] = (double)r.draw(5);
  Matrix<double> c = a * b + a - b;
  o << c.toString() << pow(a, (unsigned)r.draw(6)).toString();
  c.reduce();
  o << c.toString();
  Matrix<Fraction> f(2, 2);
  for (int i = 0; i < 2; i++) for (int k = 0; k < 2; k++) f[i][k] = Fraction((int)r.draw(9) - 4, 1 + (int)r.draw(4));
  f.reduce();
  o << f[0][0] << f[0][1] << f[1][1] << ' ';
}
static void j_numbers(R& r, Out& o) {
  using namespace cuhksz;
  Str d;
  for (int i = 0; i < 12; i++) d += (char)('1' + r.draw(9));
  BigNum<40> a(d), b((int64_t)r.draw(1000000) - 500000);
  o << (a + b).toString() << ' ' << (a * b).toString() << ' ' << (a - b).toString() << ' ' << (a < b) << ' ';
  Fraction f((int)r.draw(100) - 50, 1 + (int)r.draw(20)), h(1 + (int)r.draw(20), 1 + (int)r.draw(20));
  o << f + h << f - h << f * h << f / h << (f < h) << ' ';
  std::vector<double> v;
  for (int i = 0; i < 8; i++) v.push_back((double)r.draw(100));
  o << sum(v) << ' ' << mean(v) << ' ' << variance(v) << ' ' << stddev(v) << ' ' << sample_variance(v) << ' ';
  o << gcd((int)r.draw(1000), (int)r.draw(1000)) << ' ' << binomial(20, (int)r.draw(21)) << ' ' << permutation(9, (int)r.draw(10)) << ' '
    << genericBinaryPow((int64_t)3, (int)r.draw(30)) << ' ';
}
template <class C> static void text(Out& o, C& c) { for (auto& e : c) o << e << ','; o << c.size() << ' '; }
static void j_vector(R& r, Out& o) {
  cuhksz::Vector<Str> v;
  for (int i = 0; i < 25; i++) {
    switch (r.draw(6)) {
      case 0: if (v.size()) v.pop(); break;
      case 1: v.insert((int)r.draw(v.size() + 1), word(r)); break;
      case 2: if (v.size()) v.erase((int)r.draw(v.size())); break;
      case 3: if (v.size()) v[(int)r.draw(v.size())] = word(r); break;
      default: v.push(word(r));
    }
  }
  cuhksz::Vector<Str> w(v);
  o << (w == v) << v << ' ';
  text(o, w);
  cuhksz::Vector<int> n;
  std::istringstream in("{1, 2, 33}");
  in.imbue(std::locale::classic());
  in >> n;
  o << n;
}
static void j_list(R& r, Out& o) {
  cuhksz::List<Str> v, x;
  for (int i = 0; i < 25; i++) {
    switch (r.draw(6)) {
      case 0: if (v.size()) v.pop(); break;
      case 1: v.insert((int)r.draw(v.size() + 1), word(r)); break;
      case 2: if (v.size()) v.pop_front(); break;
      case 3: x.push(word(r)); break;
      default: v.push_front(word(r));
    }
  }
  v.sort(); x.sort();
  v.merge(x);
  v.reverse();
  text(o, v);
}
static void j_assoc(R& r, Out& o) {
  cuhksz::Map<Str, int> m;
  cuhksz::Set<Str> s;
  cuhksz::MultiSet<Str> ms;
  std::multimap<Str, int> in;
  for (int i = 0; i < 9; i++) in.insert(std::make_pair(word(r).substr(0, 2), (int)r.draw(5)));
  cuhksz::MultiMap<Str, int> mm(in);
  for (int i = 0; i < 25; i++) {
    Str k = word(r).substr(0, 3);
    int v = (int)r.draw(100);
    switch (r.draw(8)) {
      case 0: m.erase(k); break;
      case 1: s.erase(k); break;
      case 2: o << m.contains(k) << s.contains(k) << ms.count(k); break;
      case 3: m[k] = v; break;
      case 4: m.set(k, v); o << mm.count(k); break;
      case 5: s.insert(k); break;
      case 6: ms.insert(k); break;
      default: mm.erase(k.substr(0, 2));
    }
  }
  for (auto& e : m) o << e.first << '=' << e.second << ',';
  text(o, s);
  text(o, ms);
  std::multimap<Str, int> t = mm.toStlMultimap();
  for (auto& e : t) o << e.first << '=' << e.second << ',';
}
static void j_queue(R& r, Out& o) {
  cuhksz::Queue<Str> q;
  cuhksz::Stack<Str> s;
  for (int i = 0; i < 25; i++) {
    switch (r.draw(4)) {
      case 0: if (q.size()) o << q.dequeue(); break;
      case 1: if (s.size()) o << s.pop(); break;
      case 2: q.enqueue(word(r)); break;
      default: s.push(word(r));
    }
  }
  o << q.size() << s.size() << ' ';
}
static void j_trees(R& r, Out& o) {
  using namespace cuhksz;
  int n = 2 + (int)r.draw(20);
  std::vector<long long> a;
  for (int i = 0; i < n; i++) a.push_back((long long)r.draw(50));
  SegmentTree<long long> s(a);
  for (int i = 0; i < 10; i++) {
    int x = (int)r.draw(n), y = x + (int)r.draw(n - x);
    s.addInterval(x, y, (long long)r.draw(5));
    s.mulInterval(0, x, -1);
    o << s.querySum(x, y) << ' ' << s.queryMin(x, y) << ' ' << s.queryMax(x, y) << ' ';
  }
  Tree t;
  std::vector<std::unique_ptr<Node> > nd;
  for (int i = 0; i < n; i++) {
    nd.emplace_back(new Node(i, i));
    if (i == 0) t.setRoot(nd[0].get()); else t.addNode(nd[i].get(), nd[r.draw(i)].get());
  }
  for (int i = 0; i < 10; i++) {
    Node *x = nd[r.draw(n)].get(), *y = nd[r.draw(n)].get();
    Node* l = t.LCA(x, y);
    for (int k = 0; k < n; k++) if (nd[k].get() == l) o << k << ' ';
    o << t.getDistance(x, y) << ' ';
  }
  BST b;
  std::vector<std::unique_ptr<BSTNode> > bn;
  for (int i = 0; i < n; i++) { bn.emplace_back(new BSTNode(i * 3, i)); b.insert(bn[i].get()); }
  for (int i = 0; i < n; i += 2) b.erase(bn[i].get());
  for (int i = 0; i < 3 * n; i++) o << (b.find(i) != nullptr);
}
static void j_geometry(R& r, Out& o) {
  using namespace cuhksz;
  Point<2> p((double)r.draw(9), 2), q(3, (double)r.draw(5));
  Point<2> c = (p + q) * 2.0 - p / 2.0;
  o << c[0] << ' ' << c[1] << ' ' << p * q << ' ' << c.len() << ' ' << (p < q) << (p == q) << ' ';
  Line l(p, GVector<2>(1, 1)), m(q, GVector<2>(1, -1));
  Point<2> x = getIntersection(l, m);
  o << x[0] << ' ' << x[1] << ' ' << disToLine(q, l) << ' ' << disToSegment(q, l) << ' ';
  Circle k(p, 2);
  Point<2> y = k.getPoint((double)r.draw(7));
  o << y[0] << ' ' << y[1] << ' ';
}
template <class D> static void draws(D&& d, Out& o) { for (int i = 0; i < 4; i++) o << d.next() << ' '; }
static void j_random(R& r, Out& o) {
  using namespace cuhksz;
  Random g((int)r.draw(100000));
  for (int i = 0; i < 6; i++) o << g.nextInt(-50, 50) << ' ' << g.nextDouble(1, 2) << ' ' << g.nextBool() << ' ';
  switch (r.draw(12)) {
    case 0: draws(BernoulliDistribution(g, 0.3), o); break;
    case 1: draws(BinomialDistribution(g, 30, 0.3), o); break;
    case 2: draws(ChiSquaredDistribution(g, 3), o); break;
    case 3: draws(ExponentialDistribution(g, 2), o); break;
    case 4: draws(GammaDistribution(g, 2.5, 1), o); break;
    case 5: draws(GeometricDistribution(g, 0.4), o); break;
    case 6: draws(NegativeBinomialDistribution(g, 5, 0.4), o); break;
    case 7: draws(NormalDistribution(g, 0, 1), o); break;
    case 8: draws(PoissonDistribution(g, 4), o); break;
    case 9: draws(StudentTDistribution(g, 5), o); break;
    case 10: draws(UniformDistribution(g, 1, 2), o); break;
    default: draws(UniformIntDistribution(g, 1, 9), o);
  }
  NormalDistribution own(0, 1);  // a generator of its own, seeded from the clock
  double v = own.next();
  o << (v == v);
}
static void j_sequences(R& r, Out& o) {
  std::vector<Str> v{word(r), word(r), word(r)}, u{word(r), word(r)};
  int calls = 0;
  auto z = cuhksz::zip(v, u);
  for (auto& row : z) for (auto& e : row) o << e << ' ';
  for (auto& e : cuhksz::filterContainer(v, [&](const Str& s) { calls++; return s.size() % 2 == 0; })) o << e << ' ';
  for (auto& e : cuhksz::mapAll(v, [&](const Str& s) { calls++; return s.size(); })) o << e << ' ';
  cuhksz::List<int> l;
  for (int i = 0; i < 5; i++) l.push((int)r.draw(9));
  for (auto& e : cuhksz::filterContainer(l, [&](int i) { calls++; return i > 3; })) o << e << ' ';
  o << calls << ' ';
}
typedef void (*Job)(R&, Out&);
static const Job jobs[] = {j_base64, j_url, j_search, j_cast, j_trie, j_json, j_matrix, j_numbers, j_vector, j_list, j_assoc, j_queue, j_trees, j_geometry, j_random, j_sequences};
static const char* names[] = {"base64", "url", "search", "cast", "trie", "json", "matrix", "numbers", "vector", "list", "map/set", "queue/stack", "trees", "geometry", "random", "sequences"};
enum { NJOBS = sizeof(jobs) / sizeof(jobs[0]) };
