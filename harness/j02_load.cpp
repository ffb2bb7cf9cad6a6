#include "json_common.h"
static void check(Gen& g, MV m) {
  Speller sp(g);
  std::string text = sp.ws() + sp.value(m) + sp.ws();
  NOTE(brief(text));
  MV ref;
  Strict st(text, false);
  st.ws();
  st.value(ref, 1);
  if (st.out_of_range) return;
  J j = cuhksz::loadJSON(text);
  std::string df = differ(j, m, 1e-12);
  CHECK(df.empty(), "loadJSON(" << brief(text) << "): " << df);
  CHECK(st.ok && same_model(ref, m), "harness: the reference parser disagrees on " << brief(text));
  g.nontrivial(text.size() >= 4);
}
void tree(Gen& g) {
  int budget = (int)len_class(g, 200);
  check(g, gen_mv(g, 2 + (int)g.draw(6), false, budget));
}
void numbers(Gen& g) {
  MV m = g.flag() ? MV::real(1) : MV::integer(g.int32());
  u64 k = g.draw(4);
  if (k == 1) { MV a = MV::of(Ty::Array); a.a.push_back(m); m = a; }
  else if (k == 2) { MV o = MV::of(Ty::Object); o.o["n"] = m; m = o; }
  else if (k == 3) {
    MV a = MV::of(Ty::Array);
    Loop l(g, 4, 30);
    while (l.next()) a.a.push_back(g.flag() ? MV::real(1) : MV::integer(g.int32()));
    m = a;
  }
  check(g, m);
}
void strings(Gen& g) {
  MV m;
  m.t = g.flag() ? Ty::Object : Ty::Array;
  Loop l(g, 3, 20);
  while (l.next()) {
    MV s = MV::str(gen_jstr(g, false));
    if (m.t == Ty::Array) m.a.push_back(s);
    else m.o[gen_jstr(g, false)] = s;
  }
  if (g.draw(4) == 0) m = MV::str(gen_jstr(g, false));
  check(g, m);
}
void deep(Gen& g) {
  MV m = gen_scalar(g, false);
  int d = (int)g.draw(200);
  for (int i = 0; i < d; i++) {
    MV n;
    if (g.flag()) { n.t = Ty::Array; if (g.draw(4) == 0) n.a.push_back(gen_scalar(g, false)); n.a.push_back(m); }
    else { n.t = Ty::Object; n.o[gen_key(g, false)] = m; }
    m = n;
  }
  check(g, m);
}
void wide(Gen& g) {
  MV m;
  m.t = g.flag() ? Ty::Object : Ty::Array;
  int n = (int)g.draw(1500);
  for (int i = 0; i < n; i++) {
    if (m.t == Ty::Array) m.a.push_back(MV::integer(i));
    else m.o["k" + std::to_string(i)] = MV::integer(i);
  }
  check(g, m);
}
// long arrays, many keys, long strings, long blank stretches
void huge(Gen& g) {
  Bulk b(g);
  int n = huge_size(g);
  MV m;
  std::string text(g.flag() ? b.next(n) : 0, ' ');
  u64 kind = g.draw(3);
  NOTE("kind " << kind << ", size " << n);
  if (kind == 0) {
    m.t = Ty::Array;
    text += "[";
    for (int i = 0; i < n; i++) {
      int v = (int)b.next(4000000000u);
      m.a.push_back(MV::integer(v));
      text += (i ? "," : "") + std::string(b.next(3), " \n\t"[b.next(3)]) + std::to_string(v);
    }
    text += "]";
  } else if (kind == 1) {
    m.t = Ty::Object;
    n = std::min(n, 6000);
    text += "{";
    for (int i = 0; i < n; i++) {
      std::string k = "k" + std::to_string(i);
      m.o[k] = MV::boolean(b.next(2));
      text += (i ? "," : "") + ("\"" + k + "\":") + (m.o[k].b ? "true" : "false");
    }
    text += "}";
  } else {
    std::string s;
    for (int i = 0; i < n; i++) s += b.next(30) ? (char)('a' + b.next(26)) : "\"\\\n\t\r/"[b.next(6)];
    m = MV::str(s);
    text += "\"" + jesc(s) + "\"";
  }
  J j = cuhksz::loadJSON(text);
  std::string df = differ(j, m, 0);
  CHECK(df.empty(), "text of " << text.size() << " characters: " << df.substr(0, 300));
  g.nontrivial(true);
}
// nesting up to the documented depth
void large_nesting(Gen& g) {
  Bulk b(g);
  int n = 1 + (int)g.draw(1000);
  if (g.draw(3) == 0) n = 1000 - (int)g.draw(4);
  u64 objects = g.draw(8);  // out of 8: how many levels are objects
  int sib = (int)g.draw(3);
  NOTE(n << " levels, " << objects << "/8 objects, siblings " << sib);
  std::vector<char> kind;
  std::string text;
  for (int i = 0; i < n; i++) {
    bool o = b.next(8) < objects;
    kind.push_back(o ? 'o' : 'a');
    text += std::string(b.next(2), ' ') + (o ? "{" : "[");
    if (sib == 1) text += o ? "\"a\": 1, " : "1, ";
    if (o) text += "\"k\":";
  }
  // siblings after the nested value are written back to front
  std::string close;
  for (int i = n - 1; i >= 0; i--) close += (sib == 2 ? (kind[i] == 'o' ? ",\"z\":2" : ",2") : "") + std::string(kind[i] == 'o' ? "}" : "]");
  text += "true" + close;
  J j = cuhksz::loadJSON(text);
  const J* c = &j;
  for (int i = 0; i < n; i++) {
    if (kind[i] == 'o') {
      CHECK(c->getType() == Ty::Object && c->size() == (sib ? 2 : 1), "object at level " << i);
      if (sib == 1) CHECK(c->at(std::string("a")).toInt() == 1, "sibling at level " << i);
      if (sib == 2) CHECK(c->at(std::string("z")).toInt() == 2, "sibling at level " << i);
      c = &c->at(std::string("k"));
    } else {
      CHECK(c->getType() == Ty::Array && c->size() == (sib ? 2 : 1), "array at level " << i);
      if (sib) CHECK(c->at(sib == 1 ? 0u : 1u).toInt() == sib, "sibling at level " << i);
      c = &c->at(sib == 1 ? 1u : 0u);
    }
  }
  CHECK(c->getType() == Ty::Boolean && c->toBool(), "innermost value");
  g.nontrivial(n >= 2);
}
PBT_MAIN({"large_nesting", 60, large_nesting, 0}, {"huge", 150, huge, 0}, {"tree", 15000, tree, 0}, {"numbers", 60000, numbers, 0}, {"strings", 25000, strings, 0}, {"deep", 1500, deep, 0}, {"wide", 120, wide, 0})
