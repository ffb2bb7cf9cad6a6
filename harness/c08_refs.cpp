// References and iterators: what leads to an element goes on leading to it while other elements
// are added and removed, and writing through it changes the element in the container.
#include "vals.h"
#include <list>
#include <map>
#include <memory>
#include <set>
#include "containers/List.h"
#include "containers/Map.h"
#include "containers/MultiMap.h"
#include "containers/MultiSet.h"
#include "containers/Queue.h"
#include "containers/Set.h"
#include "containers/Stack.h"
#include "containers/Vector.h"
#include "json/Json.h"
typedef std::string Str;
static bool same(const Rec& a, const Rec& b) { return a.key == b.key && a.tag == b.tag && a.pad == b.pad; }
static Str show(const Rec& r) { std::ostringstream o; o << r; return o.str(); }
struct Maker {  // every element has a tag of its own
  int next = 0;
  Rec make(int key) { return Rec(key, ++next); }
};
// what is held: the model's element (by its place in a std::list) and the way to it
template <class It> struct Held { std::list<Rec>::iterator m; const Rec* p; It it; };
// the elements of the container are, in order, those of the model
template <class C> static void whole(C& c, const std::list<Rec>& m, const char* what) {
  auto i = m.begin();
  int n = 0;
  for (auto& e : c) {
    CHECK(i != m.end(), what << ": more elements than " << m.size());
    CHECK(same(e, *i), what << ": element " << n << " is " << show(e) << ", want " << show(*i));
    ++i, ++n;
  }
  CHECK(i == m.end(), what << ": " << n << " elements, want " << m.size());
  CHECK(c.size() == (int)m.size(), what << ": size " << c.size() << ", want " << m.size());
}
template <class C, class H> static void follow(C& c, std::list<Rec>& m, H& held, const char* what) {
  for (auto& h : held) {
    CHECK(same(*h.p, *h.m), what << ": the reference to " << show(*h.m) << " now gives " << show(*h.p));
    CHECK(same(*h.it, *h.m), what << ": the iterator at " << show(*h.m) << " now gives " << show(*h.it));
    CHECK(&*h.it == h.p, what << ": the iterator at " << show(*h.m) << " leads to another place");
    auto n = std::next(h.m);
    auto j = std::next(h.it);
    CHECK((n == m.end()) == (j == c.end()), what << ": the iterator at " << show(*h.m) << " is " << (j == c.end() ? "" : "not ") << "the last");
    if (n != m.end()) CHECK(same(*j, *n), what << ": after " << show(*h.m) << " the iterator comes to " << show(*j) << ", want " << show(*n));
    if (h.m == m.begin()) CHECK(h.it == c.begin(), what << ": the iterator at the first element is not begin()");
    else CHECK(same(*std::prev(h.it), *std::prev(h.m)), what << ": before " << show(*h.m) << " the iterator comes to " << show(*std::prev(h.it)));
  }
}
template <class H> static void drop(H& held, std::list<Rec>::iterator m) {
  for (size_t i = 0; i < held.size();) if (held[i].m == m) held.erase(held.begin() + i); else i++;
}
// reading, copying and comparing must not move anything either
template <class C> static void look(Gen& g, C& c) {
  switch (g.draw(3)) {
    case 0: { C d(c); CHECK(d.size() == c.size(), "a copy has " << d.size() << " elements of " << c.size()); d.clear(); break; }
    case 1: { C d(c); CHECK(d == c && !(d != c) && !(d < c), "a copy differs"); break; }
    default: c.size(); c.isEmpty();
  }
}
// ---- lists
static void list(Gen& g) {
  typedef cuhksz::List<Rec> L;
  Maker mk;
  L c;
  std::list<Rec> m;
  std::vector<Held<L::iterator> > held;
  L::iterator end = c.end();
  Loop l(g, 15, 60);
  int kept = 0;
  while (l.next()) {
    u64 op = g.draw(10);
    int n = (int)m.size();
    Rec r = mk.make((int)g.draw(6));
    if (op == 0) { c.push(r); m.push_back(r); }
    else if (op == 1) { c.push_front(r); m.push_front(r); }
    else if (op == 2 || op == 3) { int at = (int)g.draw(n + 1); NOTE("insert at " << at << " of " << n); c.insert(at, r); m.insert(std::next(m.begin(), at), r); }
    else if (op == 4 && n) { int at = (int)g.draw(n); NOTE("erase " << at << " of " << n); c.erase(at); auto i = std::next(m.begin(), at); drop(held, i); m.erase(i); }
    else if (op == 5 && n) { NOTE("pop"); c.pop(); drop(held, std::prev(m.end())); m.pop_back(); }
    else if (op == 6 && n) { NOTE("pop_front"); c.pop_front(); drop(held, m.begin()); m.pop_front(); }
    else if (op == 7) look(g, c);
    else if (n && held.size() < 8) {
      int at = (int)g.draw(n);
      Held<L::iterator> h = {std::next(m.begin(), at), 0, std::next(c.begin(), at)};
      h.p = at == 0 && g.flag() ? &c.first() : at == n - 1 && g.flag() ? &c.last() : &c[at];
      NOTE("hold " << at << " of " << n);
      held.push_back(h);
    }
    if (held.size() && g.draw(4) == 0) {
      auto& h = held[g.draw(held.size())];
      Rec w = mk.make((int)g.draw(6));
      if (g.flag()) *const_cast<Rec*>(h.p) = w; else *h.it = w;
      *h.m = w;
      NOTE("write through");
    }
    CHECK(end == c.end(), "List: the end is another");
    if (m.size()) CHECK(same(*std::prev(end), m.back()), "List: before the end stands " << show(*std::prev(end)));
    follow(c, m, held, "List");
    kept += (int)held.size();
  }
  whole(c, m, "List");
  g.nontrivial(kept > 3);
}
// ---- ordered containers; equal elements stand in the order of insertion
template <class C, bool MULTI> static void ordered(Gen& g, const char* what) {
  Maker mk;
  C c;
  std::list<Rec> m;
  std::vector<Held<typename C::iterator> > held;
  auto end = c.end();
  int range = 2 + (int)g.draw(12), kept = 0;
  Loop l(g, 15, 60);
  while (l.next()) {
    u64 op = g.draw(8);
    int k = (int)g.draw(range);
    if (op < 3) {
      Rec r = mk.make(k);
      NOTE("insert " << k);
      c.insert(r);
      auto i = m.begin();
      while (i != m.end() && i->key <= k) ++i;
      if (MULTI || i == m.begin() || std::prev(i)->key != k) m.insert(i, r);
    } else if (op == 3 || op == 4) {
      bool there = false;
      for (auto& e : m) there |= e.key == k;
      if (MULTI && !there) continue;
      NOTE("erase " << k);
      c.erase(Rec(k, 0));
      for (auto i = m.begin(); i != m.end();) if (i->key == k) { drop(held, i); i = m.erase(i); } else ++i;
    } else if (op == 5) look(g, c);
    else if (m.size() && held.size() < 8) {
      int at = (int)g.draw(m.size());
      NOTE("hold " << at);
      auto it = std::next(c.begin(), at);
      held.push_back({std::next(m.begin(), at), &*it, it});
    }
    c.contains(Rec(k, 0));
    CHECK(end == c.end(), what << ": the end is another");
    follow(c, m, held, what);
    kept += (int)held.size();
  }
  whole(c, m, what);
  g.nontrivial(kept > 3);
}
static void sets(Gen& g) { ordered<cuhksz::Set<Rec>, false>(g, "Set"); }
static void multisets(Gen& g) { ordered<cuhksz::MultiSet<Rec>, true>(g, "MultiSet"); }
// ---- maps
static void maps(Gen& g) {
  typedef cuhksz::Map<Rec, Rec> M;
  Maker mk;
  M c;
  std::map<int, Rec> m;
  struct H { int key; Rec* p; M::iterator it; };
  std::vector<H> held;
  int range = 2 + (int)g.draw(12), kept = 0;
  Loop l(g, 15, 60);
  while (l.next()) {
    u64 op = g.draw(9);
    int k = (int)g.draw(range);
    bool there = m.count(k);
    Rec r = mk.make(k);
    if (op < 2) { NOTE("set " << k); c.set(Rec(k, 0), r); m[k] = r; }
    else if (op == 2) { NOTE("[" << k << "] ="); c[Rec(k, 0)] = r; m[k] = r; }
    else if (op == 3) { NOTE("[" << k << "]"); const Rec& x = c[Rec(k, 0)]; if (!there) m[k] = Rec(); CHECK(same(x, m[k]), "Map: [" << k << "] is " << show(x)); }
    else if (op == 4 || op == 5) {
      NOTE("erase " << k);
      c.erase(Rec(k, 0));
      m.erase(k);
      for (size_t i = 0; i < held.size();) if (held[i].key == k) held.erase(held.begin() + i); else i++;
    } else if (op == 6) look(g, c);
    else if (there && held.size() < 8) {
      NOTE("hold " << k);
      auto it = c.begin();
      while (it->first.key != k) ++it;
      Rec* p = g.flag() ? &c.get(Rec(k, 0)) : &c[Rec(k, 0)];
      held.push_back({k, p, it});
    }
    if (held.size() && g.draw(4) == 0) {
      auto& h = held[g.draw(held.size())];
      Rec w = mk.make(1);
      if (g.flag()) *h.p = w; else h.it->second = w;
      m[h.key] = w;
      NOTE("write through " << h.key);
      CHECK(same(c.get(Rec(h.key, 0)), w), "Map: what is written through a reference is not in the Map");
    }
    for (auto& h : held) {
      CHECK(same(*h.p, m[h.key]), "Map: the reference to the value of " << h.key << " gives " << show(*h.p) << ", want " << show(m[h.key]));
      CHECK(h.it->first.key == h.key && &h.it->second == h.p, "Map: the iterator at " << h.key << " leads to another place");
      auto n = std::next(m.find(h.key));
      auto j = std::next(h.it);
      CHECK((n == m.end()) == (j == c.end()), "Map: the iterator at " << h.key << " is " << (j == c.end() ? "" : "not ") << "the last");
      if (n != m.end()) CHECK(j->first.key == n->first, "Map: after " << h.key << " the iterator comes to " << j->first.key);
    }
    kept += (int)held.size();
  }
  auto i = m.begin();
  for (auto& e : c) { CHECK(i != m.end() && e.first.key == i->first && same(e.second, i->second), "Map: the contents differ"); ++i; }
  CHECK(i == m.end(), "Map: elements are missing");
  g.nontrivial(kept > 3);
}
static void multimaps(Gen& g) {
  typedef cuhksz::MultiMap<Rec, Rec> M;
  Maker mk;
  std::multimap<Rec, Rec> in;
  std::list<std::pair<int, Rec> > m;
  int range = 2 + (int)g.draw(10);
  { Loop l(g, 10, 40); while (l.next()) { int k = (int)g.draw(range); in.insert(std::make_pair(Rec(k, 0), mk.make(k))); } }
  for (auto& e : in) m.push_back(std::make_pair(e.first.key, e.second));
  M c(in);
  struct H { std::list<std::pair<int, Rec> >::iterator m; Rec* p; M::iterator it; };
  std::vector<H> held;
  int kept = 0;
  Loop l(g, 8, 30);
  while (l.next()) {
    int k = (int)g.draw(range);
    switch (g.draw(5)) {
      case 0:
        NOTE("erase " << k);
        c.erase(Rec(k, 0));
        for (size_t i = 0; i < held.size();) if (held[i].m->first == k) held.erase(held.begin() + i); else i++;
        for (auto i = m.begin(); i != m.end();) if (i->first == k) i = m.erase(i); else ++i;
        break;
      case 1: c.find(Rec(k, 0)); c.count(Rec(k, 0)); break;
      case 2: look(g, c); break;
      case 3: if (held.size()) { auto& h = held[g.draw(held.size())]; NOTE("write through"); Rec w = mk.make(2); *h.p = w; h.m->second = w; } break;
      default: if (m.size() && held.size() < 8) {
        int at = (int)g.draw(m.size());
        NOTE("hold " << at);
        auto it = std::next(c.begin(), at);
        held.push_back({std::next(m.begin(), at), &it->second, it});
      }
    }
    for (auto& h : held) {
      CHECK(same(*h.p, h.m->second) && h.it->first.key == h.m->first && &h.it->second == h.p, "MultiMap: the reference to the value of " << h.m->first << " gives " << show(*h.p) << ", want " << show(h.m->second));
      auto n = std::next(h.m);
      auto j = std::next(h.it);
      CHECK((n == m.end()) == (j == c.end()), "MultiMap: the iterator at " << h.m->first << " is " << (j == c.end() ? "" : "not ") << "the last");
      if (n != m.end()) CHECK(same(j->second, n->second), "MultiMap: after " << h.m->first << " the iterator comes to another element");
    }
    kept += (int)held.size();
  }
  CHECK(c.size() == (int)m.size(), "MultiMap: size " << c.size() << ", want " << m.size());
  auto i = m.begin();
  for (auto& e : c) { CHECK(e.first.key == i->first && same(e.second, i->second), "MultiMap: the contents differ"); ++i; }
  g.nontrivial(kept > 3);
}
// ---- queues and stacks: references to the ends
template <class C, bool LIFO> static void ends(Gen& g, const char* what) {
  Maker mk;
  C c;
  std::list<Rec> m;
  struct H { std::list<Rec>::iterator m; Rec* p; };
  std::vector<H> held;
  int kept = 0;
  Loop l(g, 20, 200);
  auto& cq = *(cuhksz::Queue<Rec>*)&c;
  auto& cs = *(cuhksz::Stack<Rec>*)&c;
  while (l.next()) {
    u64 op = g.draw(8);
    if (op < 4) {
      Rec r = mk.make((int)g.draw(5));
      if (LIFO) cs.push(r); else cq.enqueue(r);
      m.push_back(r);
    } else if (op == 4 && m.size()) {
      auto out = LIFO ? std::prev(m.end()) : m.begin();
      NOTE("remove " << show(*out));
      Rec r = LIFO ? cs.pop() : cq.dequeue();
      CHECK(same(r, *out), what << ": removed " << show(r) << ", want " << show(*out));
      for (size_t i = 0; i < held.size();) if (held[i].m == out) held.erase(held.begin() + i); else i++;
      m.erase(out);
    } else if (op == 5) {
      C d(c);
      CHECK(d == c, what << ": a copy differs");
    } else if (m.size() && held.size() < 8) {
      bool first = !LIFO && g.flag();
      NOTE("hold the " << (first ? "first" : "last") << " of " << m.size());
      held.push_back({first ? m.begin() : std::prev(m.end()), LIFO ? &cs.top() : first ? &cq.first() : &cq.last()});
    }
    if (held.size() && g.draw(4) == 0) {
      auto& h = held[g.draw(held.size())];
      Rec w = mk.make(3);
      *h.p = w;
      *h.m = w;
      NOTE("write through");
    }
    for (auto& h : held) CHECK(same(*h.p, *h.m), what << ": the reference to " << show(*h.m) << " gives " << show(*h.p));
    kept += (int)held.size();
  }
  while (m.size()) {
    auto out = LIFO ? std::prev(m.end()) : m.begin();
    Rec r = LIFO ? cs.pop() : cq.dequeue();
    CHECK(same(r, *out), what << ": at the end " << show(r) << " is removed, want " << show(*out));
    m.erase(out);
  }
  g.nontrivial(kept > 3);
}
static void queue(Gen& g) { ends<cuhksz::Queue<Rec>, false>(g, "Queue"); }
static void stack(Gen& g) { ends<cuhksz::Stack<Rec>, true>(g, "Stack"); }
// ---- vectors: only what does not add elements and stays behind the element
static void vector(Gen& g) {
  Maker mk;
  cuhksz::Vector<Rec> c;
  std::vector<Rec> m;
  { Loop l(g, 10, 60); while (l.next()) { m.push_back(mk.make((int)g.draw(5))); c.push(m.back()); } }
  if (m.empty()) return;
  struct H { int at; Rec* p; };
  std::vector<H> held;
  int kept = 0;
  Loop l(g, 12, 50);
  while (l.next()) {
    int n = (int)m.size();
    switch (g.draw(7)) {
      case 0: if (n > 1) { NOTE("pop"); c.pop(); m.pop_back(); } break;
      case 1: if (n > 1) { int at = (int)g.draw(n); NOTE("erase " << at); c.erase(at); m.erase(m.begin() + at); for (size_t i = 0; i < held.size();) if (held[i].at >= at) held.erase(held.begin() + i); else i++; } break;
      case 2: { int at = (int)g.draw(n); NOTE("set " << at); Rec w = mk.make(1); if (g.flag()) c.set(at, w); else c[at] = w; m[at] = w; break; }
      case 3: look(g, c); break;
      case 4: { std::ostringstream o; o << c; c.get((int)g.draw(n)); break; }
      case 5: if (held.size()) { auto& h = held[g.draw(held.size())]; NOTE("write through " << h.at); Rec w = mk.make(2); *h.p = w; m[h.at] = w; } break;
      default: {
        int at = (int)g.draw(n);
        NOTE("hold " << at);
        if (held.size() < 8) held.push_back({at, at == 0 && g.flag() ? &c.first() : at == n - 1 && g.flag() ? &c.last() : g.flag() ? &c[at] : &*(c.begin() + at)});
      }
    }
    for (size_t i = 0; i < held.size();) if (held[i].at >= (int)m.size()) held.erase(held.begin() + i); else i++;
    for (auto& h : held) CHECK(same(*h.p, m[h.at]), "Vector: the reference to element " << h.at << " gives " << show(*h.p) << ", want " << show(m[h.at]));
    kept += (int)held.size();
  }
  for (size_t i = 0; i < m.size(); i++) CHECK(same(c[(int)i], m[i]), "Vector: element " << i << " is " << show(c[(int)i]));
  g.nontrivial(kept > 3);
}
// ---- JSON values
static void json(Gen& g) {
  typedef cuhksz::JSONObject J;
  bool object = g.flag();
  J c = J::Build(object ? J::Type::Object : J::Type::Array);
  std::map<int, Str> m;  // by key or index: the dump of the member
  struct H { int key; J* p; };
  std::vector<H> held;
  int kept = 0, serial = 0;
  auto name = [](int k) { return "k" + std::to_string(k); };
  auto value = [&](J& to) -> Str {
    int n = ++serial;
    switch (g.draw(4)) {
      case 0: to = n; return std::to_string(n);
      case 1: to = "s" + std::to_string(n); return "\"s" + std::to_string(n) + "\"";
      case 2: to = J::Array(n, true); return "[" + std::to_string(n) + ", true]";
      default: to = n % 2 == 0; return n % 2 == 0 ? "true" : "false";
    }
  };
  Loop l(g, 15, 80);
  while (l.next()) {
    int n = (int)m.size();
    switch (g.draw(7)) {
      case 0: case 1: {
        J v;
        Str s = value(v);
        if (object) { int k = (int)g.draw(12); NOTE("member " << k); c[name(k)] = v; m[k] = s; }
        else { NOTE("append"); c.append(v); m[n] = s; }
        break;
      }
      case 2:
        if (object) { int k = (int)g.draw(12); NOTE("look at member " << k); J& x = c[name(k)]; if (!m.count(k)) m[k] = "null"; CHECK(x.dump() == m[k], "JSON: member " << k << " is " << x.dump()); }
        else { int k = n + (int)g.draw(4); NOTE("grow to " << k + 1); J v; Str s = value(v); c[k] = v; for (int i = n; i < k; i++) m[i] = "null"; m[k] = s; }
        break;
      case 3: { J d(c); CHECK(d.dump() == c.dump() && d.size() == c.size(), "JSON: a copy differs"); break; }
      case 4: {
        if (n == 0 || held.size() >= 8) break;
        auto i = m.begin();
        std::advance(i, g.draw(n));
        NOTE("hold " << i->first);
        J* p;
        if (g.draw(3) == 0) {
          if (object) { p = 0; for (auto& e : c.ObjectRange()) if (e.first == name(i->first)) p = &e.second; CHECK(p, "JSON: member " << i->first << " is missing"); }
          else { auto r = c.ArrayRange(); auto b = r.begin(); std::advance(b, i->first); p = &*b; }
        } else p = object ? (g.flag() ? &c[name(i->first)] : &c.at(name(i->first))) : (g.flag() ? &c[i->first] : &c.at((unsigned)i->first));
        held.push_back({i->first, p});
        break;
      }
      default:
        if (held.size()) { auto& h = held[g.draw(held.size())]; NOTE("write through " << h.key); m[h.key] = value(*h.p); }
    }
    for (auto& h : held) {
      CHECK(h.p->dump() == m[h.key], "JSON: the reference to " << h.key << " gives " << h.p->dump() << ", want " << m[h.key]);
      const J& at = object ? c.at(name(h.key)) : c.at((unsigned)h.key);
      CHECK(&at == h.p, "JSON: the reference to " << h.key << " leads to another place");
    }
    kept += (int)held.size();
  }
  CHECK(object ? c.size() == (int)m.size() : c.length() == (int)m.size(), "JSON: " << (object ? c.size() : c.length()) << " members, want " << m.size());
  for (auto& e : m) CHECK((object ? c.at(name(e.first)) : c.at((unsigned)e.first)).dump() == e.second, "JSON: " << e.first << " differs");
  g.nontrivial(kept > 3);
}
PBT_MAIN({"list", 20000, list, 0}, {"sets", 15000, sets, 0}, {"multisets", 15000, multisets, 0}, {"maps", 15000, maps, 0}, {"multimaps", 15000, multimaps, 0},
         {"queue", 15000, queue, 0}, {"stack", 15000, stack, 0}, {"vector", 20000, vector, 0}, {"json", 15000, json, 0})
