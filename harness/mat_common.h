#ifndef VERIF_MAT_COMMON_H
#define VERIF_MAT_COMMON_H
#include <iostream>
#include <sstream>
#include "math_utils/Fraction.h"
#include "math_utils/Matrix.h"
#include "vals.h"

// integers modulo a prime: an exact field
struct GF {
  static int& P() {
    static int p = 7;
    return p;
  }
  int v;
  static int norm(long long x) { return (int)(((x % P()) + P()) % P()); }
  GF() : v(0) {}
  GF(int x) : v(norm(x)) {}
  GF(double x) : v(norm((long long)x)) {}
  GF operator+(const GF& o) const { return GF(norm((long long)v + o.v)); }
  GF operator-(const GF& o) const { return GF(norm((long long)v - o.v)); }
  GF operator*(const GF& o) const { return GF(norm((long long)v * o.v)); }
  GF inv() const {
    long long r = 1, b = v;
    for (int e = P() - 2; e > 0; e >>= 1) {
      if (e & 1) r = r * b % P();
      b = b * b % P();
    }
    return GF((int)r);
  }
  GF operator/(const GF& o) const { return *this * o.inv(); }
  GF operator-() const { return GF(-v); }
  GF& operator+=(const GF& o) { return *this = *this + o; }
  GF& operator-=(const GF& o) { return *this = *this - o; }
  GF& operator*=(const GF& o) { return *this = *this * o; }
  GF& operator/=(const GF& o) { return *this = *this / o; }
  bool operator==(const GF& o) const { return v == o.v; }
  bool operator!=(const GF& o) const { return v != o.v; }
};
inline std::ostream& operator<<(std::ostream& o, const GF& x) { return o << x.v; }

// 2x2 matrices modulo 101 as elements: a ring whose product does not commute
struct NC {
  int a[4];
  void set(int w, int x, int y, int z) {
    a[0] = w, a[1] = x, a[2] = y, a[3] = z;
    for (int i = 0; i < 4; i++) a[i] = ((a[i] % 101) + 101) % 101;
  }
  NC() { set(0, 0, 0, 0); }
  NC(int x) { set(x, 0, 0, x); }
  NC(int w, int x, int y, int z) { set(w, x, y, z); }
  NC operator+(const NC& o) const { return NC(a[0] + o.a[0], a[1] + o.a[1], a[2] + o.a[2], a[3] + o.a[3]); }
  NC operator-(const NC& o) const { return NC(a[0] - o.a[0], a[1] - o.a[1], a[2] - o.a[2], a[3] - o.a[3]); }
  NC operator*(const NC& o) const {
    return NC(a[0] * o.a[0] + a[1] * o.a[2], a[0] * o.a[1] + a[1] * o.a[3], a[2] * o.a[0] + a[3] * o.a[2],
              a[2] * o.a[1] + a[3] * o.a[3]);
  }
  NC& operator+=(const NC& o) { return *this = *this + o; }
  NC& operator-=(const NC& o) { return *this = *this - o; }
  NC& operator*=(const NC& o) { return *this = *this * o; }
  bool operator==(const NC& o) const { return !memcmp(a, o.a, sizeof a); }
  bool operator!=(const NC& o) const { return !(*this == o); }
};
inline std::ostream& operator<<(std::ostream& o, const NC& x) {
  return o << "<" << x.a[0] << " " << x.a[1] << " " << x.a[2] << " " << x.a[3] << ">";
}

template <class T>
struct Grid {  // the reference matrix
  int r, c;
  std::vector<T> e;
  Grid(int r_ = 1, int c_ = 1) : r(r_), c(c_), e(r_ * c_, T(0)) {}
  T& at(int i, int j) { return e[i * c + j]; }
  const T& at(int i, int j) const { return e[i * c + j]; }
  bool operator==(const Grid& o) const { return r == o.r && c == o.c && e == o.e; }
  std::string str() const {
    std::ostringstream os;
    for (int i = 0; i < r; i++) {
      os << (i ? " ; " : "[");
      for (int j = 0; j < c; j++) os << (j ? " " : "") << at(i, j);
    }
    os << "]";
    return os.str();
  }
};
template <class T>
Grid<T> gmul(const Grid<T>& a, const Grid<T>& b) {
  Grid<T> r(a.r, b.c);
  for (int i = 0; i < a.r; i++)
    for (int j = 0; j < b.c; j++) {
      T s(0);
      for (int k = 0; k < a.c; k++) s = s + a.at(i, k) * b.at(k, j);
      r.at(i, j) = s;
    }
  return r;
}
template <class T>
Grid<T> gadd(const Grid<T>& a, const Grid<T>& b, bool minus) {
  Grid<T> r(a.r, a.c);
  for (size_t i = 0; i < a.e.size(); i++) r.e[i] = minus ? a.e[i] - b.e[i] : a.e[i] + b.e[i];
  return r;
}
template <class T>
Grid<T> gid(int n) {
  Grid<T> r(n, n);
  for (int i = 0; i < n; i++) r.at(i, i) = T(1);
  return r;
}
template <class T>
void fill(cuhksz::Matrix<T>& m, const Grid<T>& g) {
  for (int i = 0; i < g.r; i++)
    for (int j = 0; j < g.c; j++) m[i][j] = g.at(i, j);
}
template <class T>
cuhksz::Matrix<T> build(const Grid<T>& g) {
  cuhksz::Matrix<T> m(g.r, g.c);
  fill(m, g);
  return m;
}
inline int gen_dim(Gen& g) {
  u64 k = g.draw(8);
  if (k == 7 && g.draw(6) == 0) return 0;
  if (k < 3) return (int)g.range(1, 3);
  if (k < 7) return (int)g.range(1, 5);
  return (int)g.range(1, 9);
}
#endif
