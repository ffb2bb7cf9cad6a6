// element types and value generators shared by the container harnesses
#ifndef VERIF_VALS_H
#define VERIF_VALS_H
#include "pbt.h"
using namespace pbt;

// ordered by key only; tag tells equal elements apart (stability)
struct Rec {
  int key, tag;
  std::string pad;  // heap data: lifetime errors become visible to ASan
  Rec() : key(0), tag(0) {}
  Rec(int k, int t) : key(k), tag(t), pad("r" + std::to_string(k) + "/" + std::to_string(t) + "................") {}
  bool operator<(const Rec& o) const { return key < o.key; }
  bool operator>(const Rec& o) const { return key > o.key; }
  bool operator==(const Rec& o) const { return key == o.key; }
  bool operator!=(const Rec& o) const { return key != o.key; }
  bool operator<=(const Rec& o) const { return key <= o.key; }
  bool operator>=(const Rec& o) const { return key >= o.key; }
};
inline std::ostream& operator<<(std::ostream& o, const Rec& r) { return o << r.key << "#" << r.tag; }

template <class T> struct Val;
template <> struct Val<int> {
  static int dom_small(Gen& g) { return (int)g.zrange(-3, 6); }
  static int gen(Gen& g) { return g.draw(3) < 2 ? dom_small(g) : g.int32(); }
  static bool same(int a, int b) { return a == b; }
  static std::string show(int a) { return std::to_string(a); }
};
template <> struct Val<long long> {
  static long long gen(Gen& g) { return g.integer(LLONG_MIN, LLONG_MAX); }
  static bool same(long long a, long long b) { return a == b; }
  static std::string show(long long a) { return std::to_string(a); }
};
template <> struct Val<std::string> {
  static std::string gen(Gen& g) {
    u64 k = g.draw(4);
    if (k == 0) return std::string(1, (char)('a' + g.draw(3)));
    if (k == 1) return "";
    if (k == 2) return gen_string(g, "ab", 6);
    return "long string that needs the heap " + std::to_string(g.draw(50));
  }
  static bool same(const std::string& a, const std::string& b) { return a == b; }
  static std::string show(const std::string& a) { return quote(a); }
};
template <> struct Val<Rec> {
  static Rec gen(Gen& g) {
    int k = g.draw(3) < 2 ? (int)g.zrange(-3, 4) : g.int32();
    return Rec(k, (int)g.draw(1000));
  }
  static bool same(const Rec& a, const Rec& b) { return a.key == b.key && a.tag == b.tag && a.pad == b.pad; }
  static std::string show(const Rec& a) { return std::to_string(a.key) + "#" + std::to_string(a.tag); }
};
template <> struct Val<double> {
  static double gen(Gen& g) { return g.draw(2) ? (double)g.zrange(-20, 20) / 4 : (double)g.int32() / 1024; }
  static bool same(double a, double b) { return a == b; }
  static std::string show(double a) { return std::to_string(a); }
};

// trivially copyable, with padding bytes of arbitrary contents, compared by key only
struct Pod {
  signed char key;
  int tag;
  Pod() : key(0), tag(0) {}
  Pod(int k, int t) {
    memset((void*)this, t * 37 + 11, sizeof *this);
    key = (signed char)k;
    tag = t;
  }
  bool operator<(const Pod& o) const { return key < o.key; }
  bool operator>(const Pod& o) const { return key > o.key; }
  bool operator==(const Pod& o) const { return key == o.key; }
  bool operator!=(const Pod& o) const { return key != o.key; }
  bool operator<=(const Pod& o) const { return key <= o.key; }
  bool operator>=(const Pod& o) const { return key >= o.key; }
};
inline std::ostream& operator<<(std::ostream& o, const Pod& r) { return o << (int)r.key << "#" << r.tag; }
template <> struct Val<Pod> {
  static Pod gen(Gen& g) { return Pod((int)g.zrange(-3, 4), (int)g.draw(1000)); }
  static bool same(const Pod& a, const Pod& b) { return a.key == b.key && a.tag == b.tag; }
  static std::string show(const Pod& a) { return std::to_string((int)a.key) + "#" + std::to_string(a.tag); }
};

// swaps two values the way std::swap does; not every type can be assigned a temporary
template <class C>
typename std::enable_if<std::is_move_assignable<C>::value && std::is_move_constructible<C>::value, bool>::type exchange(C& a, C& b) {
  std::swap(a, b);
  return true;
}
template <class C>
typename std::enable_if<!(std::is_move_assignable<C>::value && std::is_move_constructible<C>::value), bool>::type exchange(C&, C&) {
  return false;
}
// assigns a temporary, where that is possible
template <class C>
typename std::enable_if<std::is_move_assignable<C>::value && std::is_move_constructible<C>::value, void>::type assign_temp(C& a, const C& b) {
  C t(b), u(std::move(t));
  a = std::move(u);
}
template <class C>
typename std::enable_if<!(std::is_move_assignable<C>::value && std::is_move_constructible<C>::value), void>::type assign_temp(C& a, C& b) {
  a = b;
}
template <class It>
std::string show_seq(It b, It e) {
  std::string s = "[";
  int n = 0;
  for (; b != e; ++b) {
    if (n) s += ", ";
    if (++n > 40) {
      s += "...";
      break;
    }
    typedef typename std::iterator_traits<It>::value_type T;
    s += Val<typename std::remove_cv<T>::type>::show(*b);
  }
  return s + "]";
}
// bulk contents derived from one generated number, for inputs too long to draw item by item
struct Bulk {
  u64 s;
  explicit Bulk(Gen& g) : s(mix(g.draw(1u << 30))) {}
  u64 next(u64 n) {
    s += 0x9e3779b97f4a7c15ull;
    return (u64)(((unsigned __int128)mix(s) * n) >> 64);
  }
};
// sizes around the limits of 8- and 16-bit counters, and beyond them
inline int huge_size(Gen& g) {
  switch (g.draw(7)) {
    case 0: return 250 + (int)g.draw(12);
    case 1: return 1018 + (int)g.draw(12);
    case 2: return 4090 + (int)g.draw(12);
    case 3: return 32762 + (int)g.draw(12);
    case 4: return 65530 + (int)g.draw(12);
    case 5: return 300 + (int)g.draw(9000);
    default: return 70000 + (int)g.draw(70000);
  }
}
template <class T> struct BulkVal;
template <> struct BulkVal<int> {
  static int at(Bulk& b) { return (int)b.next(b.next(2) ? 1000 : 2000000000) - 500; }
};
template <> struct BulkVal<std::string> {
  static std::string at(Bulk& b) {
    std::string s = std::to_string(b.next(b.next(2) ? 300 : 1000000000));
    return b.next(4) ? s : "a string that needs the heap: " + s;
  }
};
template <> struct BulkVal<Rec> {
  static Rec at(Bulk& b) {
    int k = (int)b.next(2000);
    return Rec(k, (int)b.next(1000));
  }
};
template <class T>
std::vector<T> bulk_seq(Gen& g, int n) {
  Bulk b(g);
  std::vector<T> r;
  for (int i = 0; i < n; i++) r.push_back(BulkVal<T>::at(b));
  return r;
}
// all different
inline void spread(std::vector<int>& v) {
  for (size_t i = 0; i < v.size(); i++) v[i] = (int)(unsigned)(i * 2654435761u);
}
template <class T> void spread(std::vector<T>&) {}
// an index valid for a sequence of n>0 elements, biased to the ends
inline int gen_index(Gen& g, int n) {
  u64 k = g.draw(4);
  if (k == 0) return 0;
  if (k == 1) return n - 1;
  return (int)g.draw(n);
}
// an index outside [lo,hi]
inline int gen_bad_index(Gen& g, int lo, int hi) {
  switch (g.draw(8)) {
    case 0: return hi + 1;
    case 1: return lo - 1;
    case 2: return hi + 2;
    case 3: return INT_MAX;
    case 4: return INT_MIN;
    case 5: return hi + (int)g.range(1, 300);
    case 6: return lo - (int)g.range(1, 300);
    default: {
      int v = g.int32();
      if (v >= lo && v <= hi) v = hi + 1;
      return v;
    }
  }
}
#endif
