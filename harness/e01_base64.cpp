#include "strgen.h"
#include "base64/base64_functions.h"
using cuhksz::base64Decode;
using cuhksz::base64Encode;
static const char ALPHA[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string expected(const std::string& s, bool padded) {
  std::string r;
  for (size_t i = 0; i < s.size(); i += 3) {
    unsigned v = 0;
    int n = (int)std::min<size_t>(3, s.size() - i);
    for (int k = 0; k < 3; k++) v = v << 8 | (k < n ? (unsigned char)s[i + k] : 0);
    for (int k = 0; k <= n; k++) r += ALPHA[v >> (18 - 6 * k) & 63];
    if (padded) for (int k = n; k < 3; k++) r += '=';
  }
  return r;
}
static std::string gen_data(Gen& g, u64 big) {
  if (g.draw(4) == 0) return gen_text(g, big);
  std::string s = gen_bytes(g, big);
  u64 k = g.draw(5);
  if (k == 0) s += std::string(g.draw(4), '\0');
  else if (k == 1) s = std::string(g.draw(4), '\0') + s;
  return s;
}
template <int BIG> void encode(Gen& g) {
  std::string s = BIG > 60000 ? gen_huge_bytes(g) : gen_data(g, BIG);
  NOTE(brief(s));
  std::string e = base64Encode(s), w = expected(s, true);
  CHECK(e == w, "base64Encode(" << brief(s) << ") = " << brief(e) << " want " << brief(w));
  CHECK(base64Encode(s, -1) == w, "explicit length -1");
  std::string d = base64Decode(e);
  CHECK(d == s, "base64Decode(" << brief(e) << ") = " << brief(d) << " want " << brief(s));
  g.label(s.size() % 3 == 0 ? "length 0 mod 3" : s.size() % 3 == 1 ? "length 1 mod 3" : "length 2 mod 3");
  if (s.find('\0') != std::string::npos) g.label("contains a zero byte");
  g.nontrivial(s.size() >= 2);
}
// decoding text that another encoder made, with and without padding
void decode(Gen& g) {
  std::string s = gen_data(g, 60);
  std::string w = expected(s, g.flag());
  NOTE(brief(w));
  std::string d = base64Decode(w);
  CHECK(d == s, "base64Decode(" << brief(w) << ") = " << brief(d) << " want " << brief(s));
  CHECK(base64Encode(d) == expected(s, true), "re-encoding " << brief(d));
  g.nontrivial(s.size() >= 2);
}
// the optional output length
void length(Gen& g) {
  std::string s = gen_data(g, 25);
  std::string bare = expected(s, false);
  int n;
  switch (g.draw(5)) {
    case 0: n = (int)bare.size() + (int)g.draw(4); break;
    case 1: n = (int)bare.size() - 1 - (int)g.draw(3); break;
    case 2: n = (int)bare.size() + (int)g.draw(200); break;
    case 3: n = (int)g.zrange(-300, 300); break;
    default: n = g.flag() ? INT_MIN + (int)g.draw(3) : (int)g.draw(bare.size() + 1);
  }
  NOTE(brief(s) << " length " << n);
  std::string e = base64Encode(s, n), w;
  if (n == -1) w = expected(s, true);
  else if (n < 0 || n < (int)bare.size()) w = "";
  else w = bare + std::string((size_t)n - bare.size(), '=');
  CHECK(e == w, "base64Encode(" << brief(s) << ", " << n << ") = " << brief(e) << " want " << brief(w));
  if (n >= (int)bare.size()) {
    CHECK(base64Decode(e) == s, "decoding " << brief(e));
    g.label("padded to length");
  } else g.label(n < -1 ? "negative length" : "too short");
  g.nontrivial(!s.empty());
}
// decoding anything at all ends safely
void any_text(Gen& g) {
  std::string t = gen_bytes(g, 100);
  NOTE(brief(t));
  std::string d = base64Decode(t);
  CHECK(d.size() <= t.size(), "decoding " << t.size() << " characters gave " << d.size() << " bytes");
  CHECK(base64Decode(t) == d, "not deterministic");
  g.nontrivial(t.size() >= 2);
}
PBT_MAIN({"roundtrip", 60000, encode<60>, 0}, {"roundtrip_large", 300, encode<5000>, 0}, {"decode", 40000, decode, 0},
         {"length", 40000, length, 0}, {"any_text", 20000, any_text, 0}, {"roundtrip_huge", 400, encode<70000>, 0})
