#include "strgen.h"
#include "network/network_functions.h"
using cuhksz::urlDecode;
using cuhksz::urlEncode;
static bool keep(unsigned char c) {
  return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '-' || c == '_' || c == '.' || c == '~';
}
static std::string expected(const std::string& s) {
  std::string r;
  for (unsigned char c : s)
    if (keep(c)) r += (char)c;
    else {
      r += '%';
      r += "0123456789ABCDEF"[c >> 4];
      r += "0123456789ABCDEF"[c & 15];
    }
  return r;
}
template <int BIG> void roundtrip(Gen& g) {
  std::string s = BIG > 60000 ? gen_huge_bytes(g) : g.draw(4) ? gen_bytes(g, BIG) : gen_text(g, BIG);
  NOTE(brief(s));
  std::string e = urlEncode(s), w = expected(s);
  CHECK(e == w, "urlEncode(" << brief(s) << ") = " << brief(e) << " want " << brief(w));
  std::string d = urlDecode(e);
  CHECK(d == s, "urlDecode(" << brief(e) << ") = " << brief(d) << " want " << brief(s));
  g.label(e == s ? "nothing to escape" : "escapes");
  g.nontrivial(s.size() >= 2 && e != s);
}
// text another encoder made: any choice of what to escape, either case, + for blank
void foreign(Gen& g) {
  std::string s, t;
  Loop l(g, len_class(g, 60));
  while (l.next()) {
    unsigned char c = g.flag() ? (unsigned char)g.draw(256) : (unsigned char)(32 + g.draw(95));
    s += (char)c;
    if (c == ' ' && g.flag()) t += '+';
    else if (c == '%' || c == '+' || g.draw(3) == 0) {
      const char* H = g.flag() ? "0123456789ABCDEF" : "0123456789abcdef";
      const char* L = g.flag() ? "0123456789ABCDEF" : "0123456789abcdef";
      t += '%';
      t += H[c >> 4];
      t += L[c & 15];
    } else t += (char)c;
  }
  NOTE(brief(t));
  std::string d = urlDecode(t);
  CHECK(d == s, "urlDecode(" << brief(t) << ") = " << brief(d) << " want " << brief(s));
  g.nontrivial(s.size() >= 2 && s != t);
}
// any text: ends safely, plain parts unchanged
void any_text(Gen& g) {
  static const std::string A("%%%%+aF09zG \xff\0x", 16);
  std::string t = g.flag() ? gen_string(g, A, 30) : gen_bytes(g, 60);
  NOTE(brief(t));
  std::string d = urlDecode(t);
  CHECK(d.size() <= t.size(), "decoding grew the text " << brief(t));
  CHECK(urlDecode(t) == d, "not deterministic");
  // what precedes the first '%' is unchanged but for '+'
  size_t n = std::min(t.find('%'), t.size());
  std::string pre = t.substr(0, n);
  for (auto& c : pre) if (c == '+') c = ' ';
  CHECK(d.substr(0, n) == pre, "urlDecode(" << brief(t) << ") = " << brief(d) << " changed plain text");
  // a whole well-formed text put before it decodes on its own
  std::string p = gen_bytes(g, 8), dp = urlDecode(expected(p) + t);
  CHECK(dp == p + d, "urlDecode(" << brief(expected(p) + t) << ") = " << brief(dp) << " want " << brief(p + d));
  if (n != t.size()) g.label("has a percent sign");
  g.nontrivial(t.size() >= 2);
}
PBT_MAIN({"roundtrip", 80000, roundtrip<60>, 0}, {"roundtrip_large", 400, roundtrip<5000>, 0}, {"foreign", 60000, foreign, 0},
         {"any_text", 60000, any_text, 0}, {"roundtrip_huge", 300, roundtrip<70000>, 0})
