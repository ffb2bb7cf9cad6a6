#include "json_common.h"
// floats keep six decimals
static void round6(MV& m) {
  if (m.t == Ty::Float) m.d = strtod(std::to_string(m.d).c_str(), 0);
  for (auto& x : m.a) round6(x);
  for (auto& x : m.o) round6(x.second);
}
static void check(Gen& g, const MV& m) {
  NOTE("value " << show(m));
  J j;
  build(g, j, m);
  std::string df = differ(j, m, 1e-320);
  CHECK(df.empty(), "built value: " << df);
  MV want = m;
  round6(want);
  std::string text;
  u64 how = g.draw(4);
  if (how == 0) {
    std::ostringstream os;
    os << j;
    text = os.str();
  } else if (how == 1) {
    static const char* tabs[] = {"", " ", "  ", "    ", "\t", "\n", " \t "};
    text = j.dump((int)g.draw(5), tabs[g.draw(7)]);
  } else text = j.dump();
  NOTE("text " << brief(text));
  MV back;
  CHECK(Strict::parse(text, back, true), "the dumped text is not valid JSON: " << brief(text));
  CHECK(same_model(back, want), "the dumped text " << brief(text) << " denotes " << show(back) << " want " << show(want));
  J k = cuhksz::loadJSON(text);
  df = differ(k, want, 1e-320);
  CHECK(df.empty(), "load(dump(v)): " << df << " for " << brief(text));
  CHECK(k.dump() == j.dump(), "dump(load(dump(v))) is " << brief(k.dump()) << " want " << brief(j.dump()));
  CHECK(differ(j, m, 1e-320).empty(), "dumping changed the value");
  g.nontrivial(m.nodes() >= 3);
}
void tree(Gen& g) {
  int budget = (int)len_class(g, 200);
  check(g, gen_mv(g, 2 + (int)g.draw(6), true, budget));
}
void strings(Gen& g) {
  MV m;
  m.t = g.flag() ? Ty::Object : Ty::Array;
  Loop l(g, 3, 20);
  while (l.next()) {
    MV s = MV::str(gen_jstr(g, true));
    if (m.t == Ty::Array) m.a.push_back(s);
    else m.o[gen_jstr(g, true)] = s;
  }
  check(g, m);
}
void numbers(Gen& g) {
  MV m;
  m.t = Ty::Array;
  Loop l(g, 4, 30);
  while (l.next()) m.a.push_back(g.flag() ? MV::real(gen_jdouble(g)) : MV::integer(g.int32()));
  check(g, m);
}
void deep(Gen& g) {
  MV m = gen_scalar(g, true);
  int d = (int)g.draw(150);
  for (int i = 0; i < d; i++) {
    MV n;
    if (g.flag()) { n.t = Ty::Array; n.a.push_back(m); if (g.draw(4) == 0) n.a.push_back(gen_scalar(g, true)); }
    else { n.t = Ty::Object; n.o[gen_key(g, true)] = m; }
    m = n;
  }
  check(g, m);
}
void escape(Gen& g) {
  std::string s = gen_jstr(g, true);
  NOTE(brief(s));
  std::string e = cuhksz::jsonEscape(s);
  CHECK(e == jesc(s), "jsonEscape(" << brief(s) << ") = " << brief(e));
  g.nontrivial(s.size() >= 2);
}
// long arrays, many keys, long strings
void huge(Gen& g) {
  Bulk b(g);
  int n = huge_size(g);
  MV m;
  J j;
  u64 kind = g.draw(3);
  NOTE("kind " << kind << ", size " << n);
  if (kind == 0) {
    m.t = Ty::Array;
    j = J::Array();
    for (int i = 0; i < n; i++) {
      MV e = b.next(20) ? MV::integer((int)b.next(4000000000u)) : MV::str("s" + std::to_string(b.next(1000)));
      if (e.t == Ty::Integral) j.append(e.i);
      else j.append(e.s);
      m.a.push_back(e);
    }
  } else if (kind == 1) {
    m.t = Ty::Object;
    n = std::min(n, 6000);
    for (int i = 0; i < n; i++) {
      std::string k = "k" + std::to_string(b.next(100000));
      if (b.next(400) == 0) k += std::string(1000 + b.next(8000), (char)('a' + b.next(26))) + (b.next(2) ? "\"end" : "end");
      int v = (int)b.next(1000000);
      j[k] = v;
      m.o[k] = MV::integer(v);
    }
  } else {
    std::string s;
    for (int i = 0; i < n; i++) s += b.next(30) ? (char)('a' + b.next(26)) : "\"\\\n\t\r/"[b.next(6)];
    m = MV::str(s);
    j = s;
  }
  std::string df = differ(j, m, 1e-320);
  CHECK(df.empty(), "built value: " << df.substr(0, 300));
  std::string text = j.dump();
  MV back;
  CHECK(Strict::parse(text, back, true), "the dumped text of " << n << " elements is not valid JSON");
  CHECK(same_model(back, m), "the dumped text of " << n << " elements denotes another value");
  J k = cuhksz::loadJSON(text);
  df = differ(k, m, 1e-320);
  CHECK(df.empty(), "load(dump(v)): " << df.substr(0, 300));
  CHECK(k.dump() == text, "dump(load(dump(v)))");
  if (m.t != Ty::String) CHECK(k.size() == (int)(m.t == Ty::Array ? m.a.size() : m.o.size()), "size " << k.size());
  g.nontrivial(true);
}
PBT_MAIN({"huge", 150, huge, 0}, {"tree", 14000, tree, 0}, {"strings", 20000, strings, 0}, {"numbers", 15000, numbers, 0}, {"deep", 1500, deep, 0}, {"escape", 30000, escape, 0})
