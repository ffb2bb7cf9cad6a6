#include <memory>
#include "graph/SegmentTree.h"
#include "vals.h"

template <class T> struct Num;
template <> struct Num<long long> {
  static long long val(Gen& g) { return g.draw(3) ? g.zrange(-20, 20) : g.zrange(-1000000, 1000000); }
  static long long fac(Gen& g) { return g.draw(4) ? g.zrange(-3, 3) : g.zrange(-50, 50); }
  static bool ok(long long v) { return v > -(1LL << 45) && v < (1LL << 45); }
  static const char* name() { return "long long"; }
};
template <> struct Num<int> {
  static int val(Gen& g) { return (int)g.zrange(-50, 50); }
  static int fac(Gen& g) { return (int)g.zrange(-3, 3); }
  static bool ok(int v) { return v > -1000000 && v < 1000000; }
  static const char* name() { return "int"; }
};
template <> struct Num<double> {
  static double val(Gen& g) { return (double)g.zrange(-80, 80) / 4; }
  static double fac(Gen& g) { static const double f[] = {1, 0, -1, 2, -2, 0.5, -0.5, 3}; return g.pick(f); }
  static bool ok(double v) { return std::fabs(v) < 1e6 && v * 4096 == std::floor(v * 4096); }
  static const char* name() { return "double"; }
};
static void gen_range(Gen& g, int n, int* l, int* r) {
  switch (g.draw(7)) {
    case 0: *l = *r = gen_index(g, n); break;
    case 1: *l = 0; *r = n - 1; break;
    case 2: *l = 0; *r = gen_index(g, n); break;
    case 3: *l = gen_index(g, n); *r = n - 1; break;
    case 4: {  // an aligned block: exactly one tree node, or its neighbours
      int lo = 0, hi = n - 1;
      u64 d = g.draw(8);
      while (d-- && lo < hi) {
        int m = (lo + hi) / 2;
        if (g.flag()) lo = m + 1; else hi = m;
      }
      *l = lo; *r = hi;
      if (g.chance(1, 3) && *l > 0) --*l;
      if (g.chance(1, 3) && *r + 1 < n) ++*r;
      break;
    }
    default:
      *l = (int)g.draw(n);
      *r = (int)g.draw(n);
      if (*l > *r) std::swap(*l, *r);
  }
}
// the whole tree filled again from an array of its size, where the library offers it
template <class Tr, class V>
static auto refill(Tr& t, V& v, int) -> decltype(t.init(v, 0, 0, 1), bool()) {
  t.init(v, 0, (int)v.size() - 1, 1);
  return true;
}
template <class Tr, class V>
static bool refill(Tr&, V&, long) { return false; }
template <class T>
static void query(cuhksz::SegmentTree<T>& t, const std::vector<T>& m, int l, int r, u64 kind) {
  T s = 0, mn = m[l], mx = m[l];
  for (int i = l; i <= r; i++) s += m[i], mn = std::min(mn, m[i]), mx = std::max(mx, m[i]);
  if (kind == 0) {
    T q = t.querySum(l, r);
    NOTE("sum [" << l << "," << r << "] = " << q);
    CHECK(q == s, "sum of [" << l << "," << r << "] is " << q << ", expected " << s);
  } else if (kind == 1) {
    T q = t.queryMin(l, r);
    NOTE("min [" << l << "," << r << "] = " << q);
    CHECK(q == mn, "minimum of [" << l << "," << r << "] is " << q << ", expected " << mn);
  } else {
    T q = t.queryMax(l, r);
    NOTE("max [" << l << "," << r << "] = " << q);
    CHECK(q == mx, "maximum of [" << l << "," << r << "] is " << q << ", expected " << mx);
  }
}
template <class T>
static void history(Gen& g, int n, u64 avg) {
  std::vector<T> m;
  for (int i = 0; i < n; i++) m.push_back(Num<T>::val(g));
  std::vector<T> in(m);
  typedef cuhksz::SegmentTree<T> Tree;
  std::unique_ptr<Tree> tp(new Tree(in)), up;  // the tree; a copy, once there is one
  std::vector<T> um;
#define t (*tp)
  CHECK(in == m, "the constructor changed its argument");
  for (size_t i = 0; i < in.size(); i++) in[i] = 77;  // the tree does not depend on it any more
  CHECK(t.getSize() == n, "getSize() = " << t.getSize());
  if (n == 0) return;
  NOTE(Num<T>::name() << ", " << n << " elements " << show_seq(m.begin(), m.end()));
  int ups = 0, qs = 0;
  u64 qbias = 1 + g.draw(6);
  Loop l(g, avg, 600);
  while (l.next()) {
    int a, b;
    gen_range(g, n, &a, &b);
    if (g.draw(24) == 0) {
      std::vector<T> w;
      for (int i = 0; i < n; i++) w.push_back(Num<T>::val(g));
      std::vector<T> w0(w);
      if (refill(t, w, 0)) {
        NOTE("filled again with " << show_seq(w0.begin(), w0.end()));
        CHECK(w == w0, "init changed its argument");
        m = w0;
        g.label("filled again");
      }
      continue;
    }
    if (g.draw(16) == 0) {
      if (!up) {
        NOTE("the tree is copied");
        up.reset(new Tree(t));
        um = m;
      } else if (g.flag()) {
        NOTE("the other tree");
        std::swap(tp, up);
        std::swap(m, um);
      } else if (g.flag()) {
        NOTE("assigned from the other tree");
        t = *up;
        m = um;
      } else {
        NOTE("assigned a tree of another size");
        std::vector<T> w(1 + g.draw(4), Num<T>::val(g));
        Tree x(w);
        x.addInterval(0, 0, Num<T>::val(g));
        x = t;
        t = x;
      }
      continue;
    }
    if (g.draw(8) < qbias) {
      query(t, m, a, b, g.draw(3));
      qs++;
      continue;
    }
    bool mul = g.flag();
    T x = mul ? Num<T>::fac(g) : Num<T>::val(g);
    bool ok = true;
    for (int i = a; i <= b && ok; i++) ok = Num<T>::ok(mul ? m[i] * x : m[i] + x);
    if (!ok) continue;
    NOTE((mul ? "multiply [" : "add [") << a << "," << b << "] by/of " << x);
    if (mul) t.mulInterval(a, b, x); else t.addInterval(a, b, x);
    for (int i = a; i <= b; i++) m[i] = mul ? m[i] * x : m[i] + x;
    ups++;
  }
  if (n <= 10) {
    for (int i = 0; i < n; i++)
      for (int j = i; j < n; j++)
        for (u64 k = 0; k < 3; k++) query(t, m, i, j, k);
  } else {
    for (u64 k = 0; k < 3; k++) query(t, m, 0, n - 1, k);
    for (int i = 0; i < n; i++) query(t, m, i, i, (u64)i % 3);
    for (u64 k = 0; k < 3; k++) query(t, m, 0, n - 1, k);
  }
  if (up) {
    g.label("copied");
    for (u64 k = 0; k < 3; k++) query(*up, um, 0, n - 1, k);
    for (int i = 0; i < n; i++) query(*up, um, i, i, (u64)i % 3);
  }
#undef t
  if (ups >= 2 && qs >= 1) g.label("updates and queries interleaved");
  g.nontrivial(ups >= 2 && n >= 2);
}
// long arrays, a short history
static void huge(Gen& g) {
  typedef long long T;
  int n = huge_size(g);
  Bulk b(g);
  std::vector<T> m;
  for (int i = 0; i < n; i++) m.push_back((T)b.next(2001) - 1000);
  cuhksz::SegmentTree<T> t(m);
  CHECK(t.getSize() == n, "getSize() = " << t.getSize());
  NOTE(n << " elements");
  int ups = 0;
  Loop l(g, 12, 40);
  while (l.next()) {
    int a, c;
    gen_range(g, n, &a, &c);
    if (g.draw(2)) {
      query(t, m, a, c, g.draw(3));
      continue;
    }
    bool mul = g.flag();
    T x = mul ? Num<T>::fac(g) : Num<T>::val(g);
    bool ok = true;
    for (int i = a; i <= c && ok; i++) ok = Num<T>::ok(mul ? m[i] * x : m[i] + x);
    if (!ok) continue;
    NOTE((mul ? "multiply [" : "add [") << a << "," << c << "] by/of " << x);
    if (mul) t.mulInterval(a, c, x); else t.addInterval(a, c, x);
    for (int i = a; i <= c; i++) m[i] = mul ? m[i] * x : m[i] + x;
    ups++;
  }
  for (u64 k = 0; k < 3; k++) query(t, m, 0, n - 1, k);
  for (int i = 0; i < n; i += 1 + (int)b.next(40)) query(t, m, i, i, (u64)i % 3);
  for (int i = 0; i < 6; i++) {
    int a, c;
    gen_range(g, n, &a, &c);
    for (u64 k = 0; k < 3; k++) query(t, m, a, c, k);
  }
  g.nontrivial(ups >= 2);
}
static void small(Gen& g) {
  int n = 1 + (int)g.draw(10);
  if (g.draw(50) == 0) n = 0;
  u64 avg = len_class(g, 25);
  if (g.flag()) history<int>(g, n, avg); else history<double>(g, n, avg);
}
static void large(Gen& g) {
  int n = g.draw(4) ? 1 + (int)g.draw(70) : 1 + (int)g.draw(400);
  u64 avg = len_class(g, 200);
  if (g.draw(3)) history<long long>(g, n, avg); else history<double>(g, n, avg);
}
PBT_MAIN({"small_sizes", 150000, small, 0}, {"larger_sizes", 40000, large, 0}, {"huge_sizes", 200, huge, 0})
