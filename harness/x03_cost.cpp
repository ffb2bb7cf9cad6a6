// Cost: operations keep the growth their data structure or algorithm stands for. Element
// operations and callbacks are counted; where nothing can be counted, inputs are so large that
// the wrong growth does not end within the CPU limit of a case (the right one takes 1% of it).
// the limits are part of the oracle here: the right growth needs about 1% of them
#define PBT_CASE_CPU 7
#define PBT_LONG_CPU 7
#include <deque>
#include <list>
#include <memory>
#include "algorithm.h"
#include "base64/base64_functions.h"
#include "containers/List.h"
#include "containers/Map.h"
#include "containers/MultiMap.h"
#include "containers/MultiSet.h"
#include "containers/Queue.h"
#include "containers/Set.h"
#include "containers/Stack.h"
#include "containers/Vector.h"
#include "graph/BST.h"
#include "graph/SegmentTree.h"
#include "graph/Tree.h"
#include "json/Json.h"
#include "math_utils/Matrix.h"
#include "math_utils/math_functions.h"
#include "network/network_functions.h"
#include "pbt.h"
#include "string_utils/StringCast.h"
#include "string_utils/Trie.h"
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
using namespace pbt;
typedef std::string Str;
struct R {
  u64 s;
  explicit R(u64 seed) : s(mix(seed)) {}
  u64 draw(u64 n) { s = mix(s); return n ? s % n : 0; }
};
// bytes allocated: what is copied again for every token or character shows here
static u64 bytes = 0;
static void on_malloc(const volatile void*, size_t n) { bytes += n; }
static void on_free(const volatile void*) {}
static bool hooked = __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free) != 0;
#define MEMORY(what, limit, ...)                                                                        \
  do {                                                                                                  \
    u64 b0_ = bytes, lim_ = (u64)(limit);                                                               \
    { __VA_ARGS__; }                                                                                    \
    CHECK(!hooked || bytes - b0_ <= lim_, what << " allocates " << bytes - b0_ << " bytes, more than " << lim_); \
  } while (0)
static u64 ops = 0;  // element operations and callbacks
static int log2up(u64 n) { int k = 0; while ((1ull << k) < n) k++; return k; }
#ifdef VERIF_PLAIN
typedef long long Counted;
static long long val(const Counted& c) { return c; }
#else
struct Counted {
  long long v;
  Counted(long long x = 0) : v(x) { ops++; }
  Counted(const Counted& o) : v(o.v) { ops++; }
  Counted(Counted&& o) : v(o.v) { ops++; }
  Counted& operator=(const Counted& o) { ops++; v = o.v; return *this; }
  Counted& operator+=(const Counted& o) { ops++; v = (long long)((u64)v + (u64)o.v); return *this; }
  Counted& operator-=(const Counted& o) { ops++; v = (long long)((u64)v - (u64)o.v); return *this; }
  Counted& operator*=(const Counted& o) { ops++; v = (long long)((u64)v * (u64)o.v); return *this; }
  Counted operator-() const { return Counted(-v); }
};
static long long val(const Counted& c) { return c.v; }
static Counted operator+(Counted a, const Counted& b) { return a += b; }
static Counted operator-(Counted a, const Counted& b) { return a -= b; }
static Counted operator*(Counted a, const Counted& b) { return a *= b; }
static bool operator<(const Counted& a, const Counted& b) { ops++; return a.v < b.v; }
static bool operator>(const Counted& a, const Counted& b) { ops++; return a.v > b.v; }
static bool operator<=(const Counted& a, const Counted& b) { ops++; return a.v <= b.v; }
static bool operator>=(const Counted& a, const Counted& b) { ops++; return a.v >= b.v; }
static bool operator==(const Counted& a, const Counted& b) { ops++; return a.v == b.v; }
static bool operator!=(const Counted& a, const Counted& b) { ops++; return a.v != b.v; }
static std::ostream& operator<<(std::ostream& o, const Counted& c) { return o << c.v; }
#endif
#define COST(what, limit, stmt) do { u64 o_ = ops; stmt; u64 d_ = ops - o_; CHECK(d_ <= (u64)(limit), what << " took " << d_ << " element operations, at most " << (u64)(limit) << " expected"); } while (0)
static int big(Gen& g, int lo, int hi) { return lo + (int)g.draw(hi - lo + 1); }
// ---- range updates and queries in logarithmic time
static void segment(Gen& g) {
  int n = big(g, 30000, 120000);
  R r(g.draw(1ull << 40));
  std::vector<Counted> a;
  for (int i = 0; i < n; i++) a.push_back(Counted((long long)r.draw(100)));
  NOTE(n << " elements");
  u64 each = 600 * (log2up(n) + 2);
  std::unique_ptr<cuhksz::SegmentTree<Counted> > t;
  COST("building a segment tree of " << n << " elements", 300ull * n, t.reset(new cuhksz::SegmentTree<Counted>(a)));
  for (int i = 0; i < 400; i++) {
    int x = (int)r.draw(n), y = x + (int)r.draw(n - x);
    switch (r.draw(4)) {
      case 0: x = 0; break;
      case 1: y = n - 1; break;
      case 2: y = x; break;
    }
    switch (r.draw(5)) {
      case 0: COST("addInterval", each, t->addInterval(x, y, Counted(3))); break;
      case 1: COST("mulInterval", each, t->mulInterval(x, y, Counted(i % 2 ? -1 : 1))); break;
      case 2: COST("querySum", each, t->querySum(x, y)); break;
      case 3: COST("queryMin", each, t->queryMin(x, y)); break;
      default: COST("queryMax", each, t->queryMax(x, y));
    }
  }
  // the same on a built-in type, for what does not go through the elements
  std::vector<long long> b(n, 1);
  cuhksz::SegmentTree<long long> s(b);
  for (int i = 0; i < 4000; i++) {
    int x = (int)r.draw(n), y = x + (int)r.draw(n - x);
    if (i % 2) s.addInterval(x, y, 1); else s.querySum(0, y), s.queryMin(x, n - 1), s.queryMax(x, y);
  }
  g.nontrivial(true);
}
// ---- powers by a logarithmic number of multiplications
static u64 products = 0;
struct Num {  // constructible from int
  u64 v;
  explicit Num(int x = 1) : v((u64)x) {}
  Num& operator*=(const Num& o) { products++; v *= o.v; return *this; }
  Num operator*(const Num& o) const { Num r(*this); r *= o; return r; }
};
struct Opaque {  // not constructible from a number
  u64 v;
  Opaque(const char*, u64 x) : v(x) {}
  Opaque& operator*=(const Opaque& o) { products++; v *= o.v; return *this; }
  Opaque operator*(const Opaque& o) const { Opaque r(*this); r *= o; return r; }
};
static u64 upow(u64 b, u64 e) { u64 r = 1; for (; e; e >>= 1, b *= b) if (e & 1) r *= b; return r; }
static void power(Gen& g) {
  int bits = 1 + (int)g.draw(62);
  u64 e = (1ull << bits) - 1 - (g.flag() ? g.draw((1ull << bits) - 1) : 0);
  if (e == 0) e = 1;
  u64 b = g.draw(1000);
  u64 limit = 4 * (log2up(e) + 1) + 8;
  NOTE(b << "^" << e);
  products = 0;
  Num r = cuhksz::genericBinaryPow(Num((int)b), (long long)e);
  CHECK(products <= limit, "genericBinaryPow took " << products << " multiplications for the exponent " << e);
  CHECK(r.v == upow(b, e), "wrong power " << r.v);
  products = 0;
  Opaque o = cuhksz::genericBinaryPow(Opaque("", b), (long long)e);
  CHECK(products <= limit, "genericBinaryPow took " << products << " multiplications for the exponent " << e);
  CHECK(o.v == upow(b, e), "wrong power " << o.v);
  int ie = (int)(e & 0x7fffffff);
  if (ie > 0) {
    int64_t one = cuhksz::binaryPow(g.flag() ? 1 : -1, ie);
    CHECK(one == 1 || one == -1, "binaryPow of one is " << one);
    cuhksz::Matrix<Counted> m(2, 2);
    m[0][0] = 1; m[0][1] = 1; m[1][0] = 0; m[1][1] = 1;
    cuhksz::Matrix<Counted> p(2, 2);
    COST("pow of a 2x2 matrix with exponent " << ie, 4000 * (log2up(ie) + 3), p = pow(m, (unsigned)ie));
    CHECK((u64)val(p[0][1]) == (u64)ie, "wrong matrix power");
  }
  g.nontrivial(bits >= 10);
}
// ---- substring search in linear time
static void search(Gen& g) {
  R r(g.draw(1ull << 40));
  int m = big(g, 100000, 300000), n = m * 2 + big(g, 0, 300000);
  Str unit;
  int per = (int)g.draw(5);
  for (int i = 0; i <= (per < 3 ? per : per == 3 ? 1000 : m / 3); i++) unit += (char)('a' + r.draw(2));
  Str p, t;
  while ((int)p.size() < m) p += unit;
  p.resize(m);
  while ((int)t.size() < n) t += unit;
  t.resize(n);
  int how = (int)g.draw(4);
  if (how == 0) p[m - 1] = 'z';                                  // never found, fails at the last character
  if (how == 1) { p[m - 1] = 'z'; t += p; }                      // found at the very end
  if (how == 2) { p[0] = 'z'; }
  if (how == 3) { for (int i = m - 1; i < n; i += m) t[i] = 'y'; }  // long partial matches
  NOTE("text of " << t.size() << ", pattern of " << p.size() << ", period " << unit.size() << ", kind " << how);
  for (int k = 0; k < 3; k++) {
    long f = (long)cuhksz::kmpSearch(t, p, (size_t)k);
    if (how == 0) CHECK(f < 0, "found at " << f);
    if (how == 1) CHECK(f == n, "found at " << f);
    if (f >= 0) CHECK(t.compare(f, p.size(), p) == 0, "no occurrence at " << f);
  }
  g.nontrivial(true);
}
// ---- lookups of a trie depend on the word, not on the stored words
static u64 mapped = 0;
static int to_int(char c) { mapped++; return c == '\001' ? 1 : c - 'a' + 2; }
static char to_char(int n) { mapped++; return n == 1 ? '\001' : (char)(n - 2 + 'a'); }
static Str trie_word(R& r, int max, int letters) { Str w; for (u64 n = 1 + r.draw(max); n > 0; n--) w += (char)('a' + r.draw(letters)); return w; }
static void trie(Gen& g) {
  R r(g.draw(1ull << 40));
  int n = big(g, 300, 1500), letters = 2 + (int)g.draw(8), len = 3 + (int)g.draw(20);
  NOTE(n << " words of up to " << len << " of " << letters << " letters");
  cuhksz::Trie t(to_int, to_char);
  std::vector<Str> ws;
  for (int i = 0; i < n; i++) { ws.push_back(trie_word(r, len, letters)); t.insert(ws.back()); }
  for (int i = 0; i < 2000; i++) {
    Str w = r.draw(2) ? ws[r.draw(ws.size())] : trie_word(r, len, letters);
    if (r.draw(8) == 0) w += trie_word(r, 300, letters);
    mapped = 0;
    t.contain(w);
    CHECK(mapped <= 8 * (w.size() + 2), "looking up a word of " << w.size() << " letters took " << mapped << " conversions");
    if (i % 40 == 0) {
      mapped = 0;
      t.remove(w);
      CHECK(mapped <= 8 * (w.size() + 2), "removing a word of " << w.size() << " letters took " << mapped << " conversions");
    }
  }
  g.nontrivial(true);
}
// ---- ancestors in logarithmic time
static void ancestors(Gen& g) {
  using namespace cuhksz;
  R r(g.draw(1ull << 40));
  int n = big(g, 60000, 100000), shape = (int)g.draw(4);
  NOTE(n << " nodes, shape " << shape);
  Tree t;
  std::vector<std::unique_ptr<Node> > nd;
  for (int i = 0; i < n; i++) {
    nd.emplace_back(new Node(i, i));
    if (i == 0) { t.setRoot(nd[0].get()); continue; }
    int p = shape == 0 ? i - 1 : shape == 1 ? (i < 3 ? 0 : i - 2) : shape == 2 ? i - 1 - (int)r.draw(i < 4 ? i : 4) : (i % 3 ? i - 1 : i - 1 - (int)r.draw(i < 20 ? i : 20));
    t.addNode(nd[i].get(), nd[p].get());
  }
  int lows = 0;
  for (int i = 0; i < 60000; i++) {
    Node *x = nd[n - 1 - (int)r.draw(200)].get(), *y = nd[r.draw(4) ? n - 1 - (int)r.draw(200) : r.draw(n)].get();
    Node* l = t.LCA(x, y);
    lows += l->getHeight() <= x->getHeight();
    lows += t.getDistance(x, y) >= 0;
    lows += x->getAncestor((int)r.draw(x->getHeight() + 1))->getHeight() <= x->getHeight();
  }
  CHECK(lows == 180000, "an ancestor below its descendant");
  g.nontrivial(true);
}
// ---- insertion into the search tree is logarithmic on average, whatever the order
static void search_tree(Gen& g) {
  using namespace cuhksz;
  R r(g.draw(1ull << 40));
  int n = big(g, 100000, 200000), order = (int)g.draw(6), span = g.flag() ? n : 1 + (int)g.draw(1000);
  NOTE(n << " insertions in order " << order << ", ranks below " << span);
  BST b;
  std::vector<std::unique_ptr<BSTNode> > nd;
  for (int i = 0; i < n; i++) {
    long k = order == 0 ? i : order == 1 ? n - i : order == 2 ? (i % 2 ? n - i / 2 : i / 2) : order == 3 ? (i % 2 ? n / 2 + i / 2 : n / 2 - i / 2) : order == 4 ? (long)r.draw(n) : (long)(i % 300) * 300 + i / 300;
    nd.emplace_back(new BSTNode((int)(span == n ? k : k % span), i));
    b.insert(nd.back().get());
  }
  CHECK(b.find(nd[n - 1]->getRank()) != nullptr, "the last node inserted is not found");
  g.nontrivial(true);
}
// ---- containers
static void sequences(Gen& g) {
  using namespace cuhksz;
  R r(g.draw(1ull << 40));
  int n = big(g, 50000, 150000), kind = (int)g.draw(5);
  NOTE("kind " << kind << ", " << n << " elements");
  u64 many = 60ull * n + 5000, few = 500;
  switch (kind) {
    case 0: {
      Vector<Counted> v;
      COST(n << " pushes to a Vector", many, for (int i = 0; i < n; i++) v.push(Counted(i)));
      for (int i = 0; i < 20000; i++) {
        int k = (int)r.draw(n);
        COST("access to a Vector", few, v[k] = Counted(i); v.get(k); v.set(k, Counted(1)); v.size(); v.isEmpty(); v.first(); v.last());
      }
      COST("copying a Vector", many, Vector<Counted> w(v); w = v; bool e = w == v; (void)e);
      COST(n << " pops from a Vector", many, for (int i = 0; i < n; i++) v.pop());
      break;
    }
    case 1: {
      List<Counted> v;
      COST(n << " pushes to a List", many, for (int i = 0; i < n; i++) if (i % 2) v.push(Counted((long long)r.draw(1000))); else v.push_front(Counted((long long)r.draw(1000))));
      for (int i = 0; i < 20000; i++) COST("access to the ends of a List", few, v.first(); v.last(); v.size(); v.isEmpty());
      COST("sorting a List", 40ull * n * (log2up(n) + 1), v.sort());
      COST("reversing a List", many, v.reverse());
      List<Counted> w;
      COST("filling a List", many, for (int i = 0; i < n; i++) w.push(Counted(i)));
      COST("sorting a List", 40ull * n * (log2up(n) + 1), v.sort());
      COST("merging Lists", 2 * many, w.merge(v));
      CHECK((int)w.size() == 2 * n && v.isEmpty(), "merge");
      COST("emptying a List", 2 * many, for (int i = 0; i < n; i++) { w.pop(); w.pop_front(); });
      break;
    }
    case 2: {
      Queue<Counted> q;
      COST(n << " queue steps", 3 * many, for (int i = 0; i < n; i++) { q.enqueue(Counted(i)); q.enqueue(Counted(i)); q.dequeue(); });
      for (int i = 0; i < 20000; i++) COST("access to the ends of a Queue", few, q.first(); q.last(); q.size(); q.isEmpty());
      COST("emptying a Queue", many, while (!q.isEmpty()) q.dequeue());
      break;
    }
    case 3: {
      Stack<Counted> q;
      COST(n << " stack steps", 3 * many, for (int i = 0; i < n; i++) { q.push(Counted(i)); q.push(Counted(i)); q.pop(); });
      for (int i = 0; i < 20000; i++) COST("access to the top of a Stack", few, q.top(); q.size(); q.isEmpty());
      COST("emptying a Stack", many, while (!q.isEmpty()) q.pop());
      break;
    }
    default: {
      std::vector<Counted> v;
      for (int i = 0; i < n; i++) v.push_back(Counted(i));
      std::vector<Counted> u(v);
      COST("zip", 4 * many, cuhksz::zip(v, u));
      COST("map", 2 * many, cuhksz::mapAll(v, [](const Counted& c) { return c + Counted(1); }));
      COST("filter", 2 * many, cuhksz::filterContainer(v, [](const Counted& c) { return c < Counted(7); }));
    }
  }
  g.nontrivial(true);
}
static void ordered(Gen& g) {
  using namespace cuhksz;
  R r(g.draw(1ull << 40));
  int n = big(g, 20000, 60000), kind = (int)g.draw(4), order = (int)g.draw(3);
  NOTE("kind " << kind << ", " << n << " elements, order " << order);
  u64 each = 60 * (log2up(n) + 4);
  auto key = [&](int i) { return Counted(order == 0 ? i : order == 1 ? n - i : (long long)mix(i)); };
  switch (kind) {
    case 0: {
      Set<Counted> s;
      for (int i = 0; i < n; i++) COST("Set insert", each, s.insert(key(i)));
      for (int i = 0; i < 5000; i++) COST("Set lookup", each, s.contains(key((int)r.draw(2 * n))); s.size());
      for (int i = 0; i < n; i += 3) COST("Set erase", each, s.erase(key(i)));
      break;
    }
    case 1: {
      MultiSet<Counted> s;
      for (int i = 0; i < n; i++) COST("MultiSet insert", each, s.insert(key(i)));
      for (int i = 0; i < 5000; i++) COST("MultiSet lookup", each, s.count(key((int)r.draw(2 * n))); s.size());
      for (int i = 0; i < n; i += 3) COST("MultiSet erase", each, s.erase(key(i)));
      break;
    }
    case 2: {
      Map<Counted, Counted> s;
      for (int i = 0; i < n; i++) COST("Map set", each, if (i % 2) s.set(key(i), Counted(1)); else s[key(i)] = Counted(2));
      for (int i = 0; i < 5000; i++) COST("Map lookup", each, s.contains(key((int)r.draw(2 * n))); s.get(key((int)r.draw(n))); s.size());
      for (int i = 0; i < n; i += 3) COST("Map erase", each, s.erase(key(i)));
      break;
    }
    default: {
      std::multimap<Counted, Counted> in;
      for (int i = 0; i < n; i++) in.insert(std::make_pair(key(i), Counted(i)));
      MultiMap<Counted, Counted> s(in);
      for (int i = 0; i < 5000; i++) COST("MultiMap lookup", each, s.count(key((int)r.draw(2 * n))); s.size());
      for (int i = 0; i < 5000; i++) COST("MultiMap lookup", each, s.find(key((int)r.draw(n))));
      for (int i = 0; i < n; i += 3) COST("MultiMap erase", each, s.erase(key(i)));
    }
  }
  g.nontrivial(true);
}
static cuhksz::JSONObject token(R& r) {
  switch (r.draw(8)) {
    case 0: return true;
    case 1: return false;
    case 2: return cuhksz::JSONObject();
    case 3: return (double)r.draw(100000) / 8;
    case 4: return Str(1 + r.draw(9), 'x');
    case 5: return cuhksz::JSONObject::Array(1, true);
    default: return (int)r.draw(1000);
  }
}
// ---- texts, JSON and statistics in time proportional to their size
static void linear(Gen& g) {
  using namespace cuhksz;
  R r(g.draw(1ull << 40));
  int kind = (int)g.draw(6);
  NOTE("kind " << kind);
  switch (kind) {
    case 0: case 1: {
      int n = big(g, 400000, 800000);
      Str s;
      for (int i = 0; i < n; i++) s += (char)r.draw(256);
      Str e, d;
      MEMORY("encoding", 3000ull * n, e = kind == 0 ? base64Encode(s) : urlEncode(s));
      MEMORY("decoding", 3000ull * n, d = kind == 0 ? base64Decode(e) : urlDecode(e));
      CHECK(d == s, (kind == 0 ? "base64" : "url"));
      break;
    }
    case 2: {
      int n = big(g, 30000, 60000);
      JSONObject a = JSONObject::Build(JSONObject::Type::Array);
      for (int i = 0; i < n; i++) if (i % 2) a.append(token(r)); else a[i] = token(r);
      JSONObject b(a);
      CHECK(b.length() == n, "length " << b.length());
      Str d, d2;
      JSONObject c;
      MEMORY("dumping an array", 4000ull * n, d = a.dump());
      MEMORY("loading an array", 5000ull * n, c = loadJSON(d));
      d2 = c.dump();
      CHECK(c.length() == n && d2 == d, "array of " << n << " elements");
      break;
    }
    case 3: {
      int n = big(g, 20000, 40000);
      JSONObject a;
      for (int i = 0; i < n; i++) a["key" + std::to_string(i)] = token(r);
      Str d;
      JSONObject c;
      MEMORY("dumping an object", 4000ull * n, d = a.dump());
      MEMORY("loading an object", 5000ull * n, c = loadJSON(d));
      CHECK(c.size() == n && c.dump() == d, "object of " << n << " members");
      break;
    }
    case 4: {
      int n = big(g, 300000, 600000);
      Str s;
      for (int i = 0; i < n; i++) s += "ab\"\\\n"[r.draw(5)];
      JSONObject a(s);
      Str d;
      JSONObject c;
      MEMORY("dumping a string", 300ull * n, d = a.dump());
      MEMORY("loading a string", 300ull * n, c = loadJSON(d));
      CHECK(c.dump() == d, "text of " << n << " characters");
      break;
    }
    default: {
      int n = big(g, 200000, 400000);
      std::vector<double> v;
      for (int i = 0; i < n; i++) v.push_back((double)r.draw(100));
      double m = mean(v), q = variance(v) + stddev(v) + sample_variance(v) + sum(v);
      CHECK(m >= 0 && q >= 0, "statistics");
    }
  }
  g.nontrivial(true);
}
PBT_MAIN({"segment", 150, segment, 0}, {"power", 30000, power, 0}, {"search", 200, search, 0}, {"trie", 80, trie, 0}, {"ancestors", 60, ancestors, 0},
         {"search_tree", 100, search_tree, 0}, {"sequences", 150, sequences, 0}, {"ordered", 120, ordered, 0}, {"linear", 150, linear, 0})
