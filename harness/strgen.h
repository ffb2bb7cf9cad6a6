// strings with the structure string algorithms are sensitive to
#ifndef VERIF_STRGEN_H
#define VERIF_STRGEN_H
#include "vals.h"
inline std::string gen_text(Gen& g, u64 big) {
  static const std::string A2 = "ab", A4 = std::string("ab\0\xff", 4);
  switch (g.draw(8)) {
    case 0: return gen_string(g, A2, big);
    case 1: return gen_string(g, A4, big);
    case 2: return gen_string(g, "abcdefghijklmnopqrstuvwxyz ", big);
    case 3: return gen_bytes(g, big);
    case 4: {  // periodic with a few flaws
      std::string p = gen_string(g, "abc", 6), s;
      if (p.empty()) p = "a";
      Loop l(g, len_class(g, big / 4 + 3));
      while (l.next()) s += p;
      s += p.substr(0, g.draw(p.size() + 1));
      Loop f(g, 1, 4);
      while (f.next())
        if (!s.empty()) s[g.draw(s.size())] = (char)('a' + g.draw(3));
      return s;
    }
    case 5: {  // Fibonacci / Thue-Morse like words
      std::string a = "a", b = g.flag() ? "b" : "ab";
      bool tm = g.flag();
      u64 n = g.draw(12);
      for (u64 i = 0; i < n && b.size() < 2 * big + 8; i++) {
        if (tm) {
          std::string c = b;
          for (auto& x : c) x = x == 'a' ? 'b' : 'a';
          b += c;
        } else {
          std::string c = b + a;
          a = b;
          b = c;
        }
      }
      return b;
    }
    case 6: {  // a^n x a^m
      std::string s(g.draw(big + 2), 'a');
      Loop f(g, 1, 5);
      while (f.next()) {
        s += (char)('b' + g.draw(2));
        s += std::string(g.draw(big / 4 + 2), 'a');
      }
      return s;
    }
    default: return std::string(g.draw(big + 2), g.flag() ? 'a' : '\0');
  }
}
// byte strings around and beyond 2^16
inline std::string gen_huge_bytes(Gen& g) {
  Bulk b(g);
  int n = huge_size(g);
  u64 style = g.draw(4);
  std::string s;
  for (int i = 0; i < n; i++) {
    if (style == 0) s += (char)b.next(256);
    else if (style == 1) s += (char)(b.next(40) ? 'a' + b.next(26) : b.next(256));
    else if (style == 2) s += (char)(b.next(3) ? 0 : b.next(256));
    else s += (char)(i % 251);
  }
  return s;
}
inline void edit(Gen& g, std::string& s) {
  char c = g.draw(3) ? (char)('a' + g.draw(3)) : (char)g.draw(256);
  switch (s.empty() ? 0 : g.draw(4)) {
    case 0: s.insert(s.begin() + g.draw(s.size() + 1), c); break;
    case 1: s.erase(g.draw(s.size()), 1); break;
    case 2: s[g.draw(s.size())] = c; break;
    default: {
      size_t i = g.draw(s.size()), j = g.draw(s.size());
      std::swap(s[i], s[j]);
    }
  }
}
// a string related to s
inline std::string relative(Gen& g, const std::string& s, u64 big) {
  std::string r;
  switch (g.draw(6)) {
    case 0: return gen_text(g, big);
    case 1: r = s; break;
    case 2: {
      size_t a = g.draw(s.size() + 1);
      r = s.substr(a, g.draw(s.size() - a + 1));
      break;
    }
    case 3: r = s.substr(0, g.draw(s.size() + 1)); break;
    case 4: r = s.substr(g.draw(s.size() + 1)); break;
    default: {
      size_t a = g.draw(s.size() + 1);
      r = s.substr(a) + s.substr(0, a);
    }
  }
  if (g.draw(3)) {
    Loop l(g, 2, 40);
    while (l.next()) edit(g, r);
  }
  return r;
}
inline std::string brief(const std::string& s) {
  return s.size() <= 400 ? quote(s) : quote(s.substr(0, 200)) + "...(" + std::to_string(s.size()) + " bytes)";
}
#endif
