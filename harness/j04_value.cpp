#include "json_common.h"
#include "vals.h"
#include <stdexcept>
enum { NR = 3 };
struct World {
  std::unique_ptr<J> r[NR];
  MV m[NR];
  World() { for (int i = 0; i < NR; i++) r[i].reset(new J); }
};
struct Node {
  J* j;
  MV* m;
  std::string path;
  std::vector<MV*> up;  // ancestors, root first, itself last
};
// walks down to an existing node
static Node walk(Gen& g, World& w) {
  int k = (int)g.draw(NR);
  Node n;
  n.j = w.r[k].get();
  n.m = &w.m[k];
  n.path = std::string(1, (char)('A' + k));
  n.up.push_back(n.m);
  while (g.draw(3)) {
    if (n.m->t == Ty::Array && !n.m->a.empty()) {
      int i = gen_index(g, (int)n.m->a.size());
      n.j = g.flag() ? &(*n.j)[i] : &n.j->at((unsigned)i);
      n.m = &n.m->a[i];
      n.path += "[" + std::to_string(i) + "]";
    } else if (n.m->t == Ty::Object && !n.m->o.empty()) {
      auto it = n.m->o.begin();
      std::advance(it, g.draw(n.m->o.size()));
      n.j = g.flag() ? &(*n.j)[it->first] : &n.j->at(it->first);
      n.path += "." + brief(it->first);
      n.m = &it->second;
    } else break;
    n.up.push_back(n.m);
  }
  return n;
}
static void grow(MV& m, size_t i) { if (m.a.size() <= i) m.a.resize(i + 1); }
static void check_all(World& w, const char* after) {
  for (int k = 0; k < NR; k++) {
    std::string d = differ(*w.r[k], w.m[k], 0, std::string(1, (char)('A' + k)));
    CHECK(d.empty(), "after " << after << ": " << d << "; model " << show(w.m[k]));
  }
}
template <class F> static void rejected(const std::string& what, F f) {
  NOTE("must be rejected: " << what);
  volatile bool thrown = false;
  DeathInfo d = run_may_exit([&] {
    try { f(); } catch (const std::exception&) { thrown = true; }
  });
  E().expect_exit = 0;
  CHECK(thrown || (d.died && d.code == EXIT_FAILURE), what << " was not rejected");
}
static void step(Gen& g, World& w, int& mut) {
  Node n = walk(g, w);
  mut++;
  switch (g.draw(20)) {
    case 0: case 1: {
      MV v = gen_scalar(g, true);
      NOTE(n.path << " = " << show(v));
      put_scalar(g, *n.j, v);
      *n.m = v;
      break;
    }
    case 2: case 3: {  // copy from any node: itself, an ancestor, a part, another root
      Node s = walk(g, w);
      NOTE(n.path << " = copy of " << s.path);
      const J& c = *s.j;
      MV v = *s.m;
      if (g.flag()) *n.j = c; else *n.j = *s.j;
      *n.m = v;
      break;
    }
    case 4: {  // move from a node that is not a proper ancestor
      Node s = walk(g, w);
      bool anc = false, part = false;
      for (size_t i = 0; i + 1 < n.up.size(); i++) if (n.up[i] == s.m) anc = true;
      for (size_t i = 0; i + 1 < s.up.size(); i++) if (s.up[i] == n.m) part = true;
      if (anc) break;
      NOTE(n.path << " = move of " << s.path);
      MV v = *s.m;
      *n.j = std::move(*s.j);
      if (!part && s.m != n.m) {  // a moved-from value can be given a new value
        *s.j = 7;
        *s.m = MV::integer(7);
      }
      *n.m = v;
      break;
    }
    case 5: case 6: {
      std::string k = gen_key(g, true);
      NOTE(n.path << "[" << brief(k) << "] created");
      J& x = g.flag() ? (*n.j)[k] : n.j->at(k);
      n.m->set_type(Ty::Object);
      MV& y = n.m->o[k];
      if (g.flag()) { MV v = gen_scalar(g, true); put_scalar(g, x, v); y = v; }
      break;
    }
    case 7: case 8: {
      int i = (int)g.draw(n.m->a.size() + 4);
      if (g.draw(24) == 0) i += (int)g.draw(160);
      NOTE(n.path << "[" << i << "] created");
      J& x = g.flag() ? (*n.j)[i] : n.j->at((unsigned)i);
      n.m->set_type(Ty::Array);
      grow(*n.m, i);
      if (g.flag()) { MV v = gen_scalar(g, true); put_scalar(g, x, v); n.m->a[i] = v; }
      break;
    }
    case 9: {
      NOTE(n.path << ".append scalars");
      std::string s = gen_jstr(g, true);
      int i = g.int32();
      bool b = g.flag();
      double d = gen_jdouble(g);
      switch (g.draw(5)) {
        case 0: n.j->append(s); n.m->set_type(Ty::Array); n.m->a.push_back(MV::str(s)); break;
        case 1: n.j->append(i); n.m->set_type(Ty::Array); n.m->a.push_back(MV::integer(i)); break;
        case 2: n.j->append(b, d); n.m->set_type(Ty::Array); n.m->a.push_back(MV::boolean(b)); n.m->a.push_back(MV::real(d)); break;
        case 3: n.j->append(nullptr); n.m->set_type(Ty::Array); n.m->a.push_back(MV()); break;
        default: n.j->append(s, i, b); n.m->set_type(Ty::Array); n.m->a.push_back(MV::str(s)); n.m->a.push_back(MV::integer(i)); n.m->a.push_back(MV::boolean(b));
      }
      break;
    }
    case 10: case 11: {
      Node s = walk(g, w);
      NOTE(n.path << ".append(copy of " << s.path << ")");
      MV v = *s.m;
      if (g.flag()) { n.j->append(*s.j); n.m->set_type(Ty::Array); n.m->a.push_back(v); }
      else { n.j->append(*s.j, *s.j); n.m->set_type(Ty::Array); n.m->a.push_back(v); n.m->a.push_back(v); }
      break;
    }
    case 12: {
      static const Ty ts[] = {Ty::Null, Ty::Object, Ty::Array, Ty::String, Ty::Float, Ty::Integral, Ty::Boolean};
      Ty t = ts[g.draw(7)];
      NOTE(n.path << " = Build(" << tname(t) << ")");
      *n.j = J::Build(t);
      *n.m = MV::of(t);
      break;
    }
    case 13: {
      Node s = walk(g, w);
      std::string k1 = gen_key(g, true), k2 = gen_key(g, true);
      NOTE(n.path << " = {" << brief(k1) << ", 1, " << brief(k2) << ", copy of " << s.path << "}");
      MV v = MV::of(Ty::Object);
      v.o[k1] = MV::integer(1);
      v.o[k2] = *s.m;
      *n.j = J{J(k1), 1, J(k2), *s.j};
      *n.m = v;
      break;
    }
    case 14: {
      Node s = walk(g, w);
      NOTE(n.path << " = Array(true, copy of " << s.path << ", x)");
      MV v = MV::of(Ty::Array);
      v.a.push_back(MV::boolean(true));
      v.a.push_back(*s.m);
      v.a.push_back(MV::str("x"));
      *n.j = J::Array(true, *s.j, "x");
      *n.m = v;
      break;
    }
    case 15: {  // whole roots: copy- and move-construction
      int a = (int)g.draw(NR), b = (int)g.draw(NR);
      if (g.flag()) {
        NOTE((char)('A' + a) << " replaced by a copy of " << (char)('A' + b));
        std::unique_ptr<J> x(new J(*(const J*)w.r[b].get()));
        MV v = w.m[b];
        w.r[a] = std::move(x);
        w.m[a] = v;
      } else {
        NOTE((char)('A' + a) << " moved to a new object");
        std::unique_ptr<J> x(new J(std::move(*w.r[a])));
        w.r[a] = std::move(x);
      }
      break;
    }
    case 16: {  // change every element through iteration
      NOTE(n.path << " incremented through iteration");
      for (auto& e : n.j->ArrayRange()) if (e.getType() == Ty::Integral) e = (int)((unsigned)e.toInt() + 1u);
      for (auto& e : n.m->a) if (e.t == Ty::Integral) e.i = (int)((unsigned)e.i + 1u);
      for (auto& e : n.j->ObjectRange()) if (e.second.getType() == Ty::Integral) e.second = (int)((unsigned)e.second.toInt() + 1u);
      for (auto& e : n.m->o) if (e.second.t == Ty::Integral) e.second.i = (int)((unsigned)e.second.i + 1u);
      const auto ar = n.j->ArrayRange();
      size_t c = 0;
      for (auto it = ar.begin(); it != ar.end(); ++it) c++;
      CHECK(c == n.m->a.size(), "const range visits " << c << " of " << n.m->a.size());
      break;
    }
    case 17: {
      NOTE(n.path << " swapped with a temporary");
      J t = std::move(*n.j);
      std::string d = differ(t, *n.m, 0);
      CHECK(d.empty(), "moved value: " << d);
      J u(t);
      *n.j = u;
      break;
    }
    case 18: {
      std::string k = gen_key(g, true);
      bool has = n.m->t == Ty::Object && n.m->o.count(k);
      NOTE(n.path << ".hasKey(" << brief(k) << ")");
      CHECK(n.j->hasKey(k) == has, n.path << ".hasKey(" << brief(k) << ") is " << !has);
      mut--;
      break;
    }
    default: {  // const lookups of what is not there
      const J& c = *n.j;
      if (g.flag()) {
        std::string k = gen_key(g, true);
        bool has = n.m->t == Ty::Object && n.m->o.count(k);
        if (!has) rejected("const at(" + brief(k) + ") on a value without that key", [&] { c.at(k); });
      } else {
        unsigned i = (unsigned)n.m->a.size() + (unsigned)(g.draw(4) ? g.draw(3) : g.draw(1u << 31));
        rejected("const at(" + std::to_string(i) + ") past the end", [&] { c.at(i); });
      }
      mut--;
    }
  }
  for (int k = 0; k < NR; k++)
    if (w.m[k].nodes() > 260) {
      NOTE((char)('A' + k) << " cleared");
      *w.r[k] = J();
      w.m[k] = MV();
    }
}
void history(Gen& g) {
  World w;
  int mut = 0;
  size_t most = 0;
  Loop l(g, len_class(g, 100), 400);
  Watch watch(g);
  while (l.next()) {
    step(g, w, mut);
    if (watch.now()) check_all(w, "the last step");
    for (int k = 0; k < NR; k++) most = std::max(most, w.m[k].nodes());
  }
  check_all(w, "the history");
  g.nontrivial(mut >= 4 && most >= 3);
}
void negative_index(Gen& g) {
  World w;
  int mut = 0;
  Loop l(g, 6, 30);
  while (l.next()) step(g, w, mut);
  Node n = walk(g, w);
  int i = (int)g.integer(INT_MIN, -1);
  rejected(n.path + "[" + std::to_string(i) + "]", [&] { (*n.j)[i]; });
  check_all(w, "a rejected index");
  g.nontrivial();
}
// a copy stays what it was, whatever happens to the original, and the other way round
void copies(Gen& g) {
  int budget = 40;
  MV m = gen_mv(g, 4, true, budget);
  J* a = new J;
  build(g, *a, m);
  J b(*a), c;
  c = *a;
  NOTE("value " << show(m));
  World w;
  w.r[0].reset(a);
  w.m[0] = m;
  int mut = 0;
  Loop l(g, 8, 60);
  while (l.next()) {
    step(g, w, mut);
    std::string d = differ(b, m, 0) + differ(c, m, 0);
    CHECK(d.empty(), "a copy changed with its original: " << d);
  }
  w.r[0].reset();
  std::string d = differ(b, m, 0) + differ(c, m, 0);
  CHECK(d.empty(), "a copy changed with its original's destruction: " << d);
  g.nontrivial(m.nodes() >= 2 && mut >= 2);
}
// indexes that only long arrays have
void large_index(Gen& g) {
  J j;
  if (g.flag()) j = J::Array();
  size_t n = 0;
  std::map<size_t, int> set;
  Loop l(g, 3, 8);
  while (l.next()) {
    size_t i = (size_t)huge_size(g) + g.draw(2);
    int v = (int)g.draw(1000) + 1;
    NOTE("[" << i << "] = " << v);
    switch (g.draw(3)) {
      case 0: j[(int)i] = v; break;
      case 1: j.at((unsigned)i) = v; break;
      default: j.append(v); i = n; break;
    }
    set[i] = v;
    n = std::max(n, i + 1);
    CHECK(j.length() == (int)n && j.size() == (int)n, "the array has length " << j.length() << " and size " << j.size() << ", not " << n);
  }
  const J c(j);
  for (auto& kv : set) {
    CHECK((int)c.at((unsigned)kv.first) == kv.second && j[(int)kv.first].toInt() == kv.second && j.at((unsigned)kv.first).toInt() == kv.second,
          "element " << kv.first << " is not " << kv.second);
    for (size_t k : {kv.first ? kv.first - 1 : n, kv.first + 1})
      if (k < n && !set.count(k)) CHECK(c.at((unsigned)k).toInt() == 0, "element " << k << " is not null");
  }
  size_t at = 0;
  for (auto& x : c.ArrayRange()) {
    auto it = set.find(at);
    CHECK(x.toInt() == (it == set.end() ? 0 : it->second), "element " << at << " of the range is wrong");
    at++;
  }
  CHECK(at == n, "the range has " << at << " elements, not " << n);
  g.nontrivial(n > 200);
}
PBT_MAIN({"large_index", 60, large_index, 0}, {"history", 6000, history, 0}, {"negative_index", 8000, negative_index, 0}, {"copies", 8000, copies, 0})
