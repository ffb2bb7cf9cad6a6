#include <map>
#include <set>
#include "graph/Edge.h"
#include "graph/Vertex.h"
#include <memory>
#include "vals.h"
using cuhksz::Edge;
using cuhksz::Vertex;

struct ME { int from, to, val; bool use; };      // model edge, keyed by edge id
struct MV { Vertex* p; int val; bool use; int id; };
struct World {
  std::map<int, MV> v;   // key: our own handle
  std::map<int, ME> e;   // key: edge id
  std::set<int> vids, eids;
  std::map<int, std::vector<int> > out, in;  // edge ids of each vertex, in the order listed when last seen
  int next;
  World() : next(0) {}
  int handle(Vertex* p) const {
    for (std::map<int, MV>::const_iterator i = v.begin(); i != v.end(); ++i)
      if (i->second.p == p) return i->first;
    return -1;
  }
};
static int pick_v(Gen& g, const World& w) {
  std::map<int, MV>::const_iterator i = w.v.begin();
  std::advance(i, g.draw(w.v.size()));
  return i->first;
}
static int pick_e(Gen& g, const World& w) {
  std::map<int, ME>::const_iterator i = w.e.begin();
  std::advance(i, g.draw(w.e.size()));
  return i->first;
}
static Edge* locate(const World& w, int id) {
  Vertex* f = w.v.at(w.e.at(id).from).p;
  for (std::list<Edge*>::iterator i = f->outEdges.begin(); i != f->outEdges.end(); ++i)
    if ((*i)->getID() == id) return *i;
  PBT_FAIL("edge " << id << " is not among the outgoing edges of its source");
}
// the edges seen before keep their order, and new ones come after them
static void in_order(const World& w, const std::list<Edge*>& now, std::vector<int>& seen, int h, const char* what) {
  std::vector<int> ids, old;
  for (std::list<Edge*>::const_iterator k = now.begin(); k != now.end(); ++k) ids.push_back((*k)->getID());
  for (size_t i = 0; i < seen.size(); i++)
    if (w.e.count(seen[i])) old.push_back(seen[i]);
  CHECK(ids.size() >= old.size() && std::equal(old.begin(), old.end(), ids.begin()),
        "the " << what << " edges of vertex " << h << " are not in the order they were added");
  seen = ids;
}
// registers the edges created since the last observation; returns how many
static void full(World& w, std::vector<ME> fresh) {
  std::set<Edge*> outs, ins;
  for (std::map<int, MV>::iterator i = w.v.begin(); i != w.v.end(); ++i) {
    Vertex* p = i->second.p;
    CHECK(p->getVal() == i->second.val && p->isValid() == i->second.use && p->getID() == i->second.id, "value, validity or id of vertex " << i->first);
    CHECK(p->getOutDegree() == (int)p->outEdges.size() && p->getInDegree() == (int)p->inEdges.size(), "degrees of vertex " << i->first);
    for (std::list<Edge*>::iterator k = p->outEdges.begin(); k != p->outEdges.end(); ++k) {
      Edge* e = *k;
      CHECK(outs.insert(e).second, "an edge is listed twice as outgoing");
      CHECK(e->getFrom() == p, "an outgoing edge of vertex " << i->first << " has another source");
      int to = w.handle(e->getTo());
      CHECK(to >= 0, "an edge leads to a vertex that does not exist");
      if (!w.e.count(e->getID())) {  // must be one of the new ones
        CHECK(w.eids.insert(e->getID()).second, "edge id " << e->getID() << " was used before");
        bool ok = false;
        for (size_t q = 0; q < fresh.size() && !ok; q++)
          if (fresh[q].from == i->first && fresh[q].to == to && fresh[q].val == e->getVal() && fresh[q].use == e->isValid()) {
            w.e[e->getID()] = fresh[q];
            fresh.erase(fresh.begin() + q);
            ok = true;
          }
        CHECK(ok, "an edge nobody created: from vertex " << i->first << " to vertex " << to << " value " << e->getVal());
      }
      const ME& m = w.e[e->getID()];
      CHECK(m.from == i->first && m.to == to && m.val == e->getVal() && m.use == e->isValid(), "ends, value or validity of edge " << e->getID());
    }
    for (std::list<Edge*>::iterator k = p->inEdges.begin(); k != p->inEdges.end(); ++k) {
      CHECK(ins.insert(*k).second, "an edge is listed twice as incoming");
      CHECK((*k)->getTo() == p, "an incoming edge of vertex " << i->first << " has another target");
    }
  }
  CHECK(outs == ins, "the outgoing and the incoming lists do not hold the same edges");
  CHECK(fresh.empty(), "an edge is missing: from vertex " << fresh[0].from << " to vertex " << fresh[0].to << " value " << fresh[0].val);
  CHECK(outs.size() == w.e.size(), outs.size() << " edges, expected " << w.e.size());
  for (std::map<int, MV>::iterator i = w.v.begin(); i != w.v.end(); ++i) {
    in_order(w, i->second.p->outEdges, w.out[i->first], i->first, "outgoing");
    in_order(w, i->second.p->inEdges, w.in[i->first], i->first, "incoming");
  }
}
// a copy lists its edges in the order of the original
static void same_order(const World& w, int src, int dst) {
  Vertex *p = w.v.at(src).p, *q = w.v.at(dst).p;
  std::list<Edge*>::iterator a = p->outEdges.begin(), b = q->outEdges.begin();
  for (; a != p->outEdges.end() && b != q->outEdges.end(); ++a, ++b) {
    Vertex* to = (*a)->getTo() == p ? q : (*a)->getTo();
    CHECK((*b)->getTo() == to && (*b)->getVal() == (*a)->getVal() && (*b)->isValid() == (*a)->isValid(),
          "the copy's outgoing edges are in another order");
  }
  std::vector<std::pair<Vertex*, int> > x, y;
  for (a = p->inEdges.begin(); a != p->inEdges.end(); ++a)
    if ((*a)->getFrom() != p) x.push_back(std::make_pair((*a)->getFrom(), (*a)->getVal()));
  for (b = q->inEdges.begin(); b != q->inEdges.end(); ++b)
    if ((*b)->getFrom() != q) y.push_back(std::make_pair((*b)->getFrom(), (*b)->getVal()));
  CHECK(x == y, "the copy's incoming edges are in another order");
}
static void drop_edges(World& w, int h) {
  for (std::map<int, ME>::iterator i = w.e.begin(); i != w.e.end();)
    if (i->second.from == h || i->second.to == h) w.e.erase(i++); else ++i;
}
static std::vector<ME> copied(const World& w, int from, int to) {  // the edges a copy gets
  std::vector<ME> f;
  for (std::map<int, ME>::const_iterator i = w.e.begin(); i != w.e.end(); ++i) {
    ME m = i->second;
    if (m.from != from && m.to != from) continue;
    if (m.from == from) m.from = to;
    if (m.to == from) m.to = to;
    f.push_back(m);
  }
  return f;
}
static void history(Gen& g) {
  World w;
  int steps = 0, maxe = 0, gone = 0;
  bool copies = g.chance(1, 3);
  Loop l(g, len_class(g, 50), 200);
  while (l.next()) {
    std::vector<ME> fresh;
    int copy_of = -1, copy_to = -1;
    u64 op = g.draw(14);
    if (w.v.empty() || op == 0 || op == 1) {
      MV m;
      m.use = true;
      m.val = 0;
      if (g.flag()) { m.val = g.int32(); m.p = new Vertex(m.val); } else m.p = new Vertex;
      m.id = m.p->getID();
      CHECK(w.vids.insert(m.id).second, "vertex id " << m.id << " was used before");
      NOTE("vertex " << w.next << " value " << m.val);
      w.v[w.next++] = m;
    } else if (op < 7) {
      int a = pick_v(g, w), b = g.chance(1, 5) ? a : pick_v(g, w);
      ME m = {a, b, 0, true};
      if (g.flag()) { m.val = (int)g.zrange(-5, 5); w.v[a].p->addEdge(*w.v[b].p, m.val); }
      else w.v[a].p->addEdge(*w.v[b].p);
      NOTE("edge " << a << " -> " << b << " value " << m.val);
      fresh.push_back(m);
    } else if (op == 7) {
      int a = pick_v(g, w);
      NOTE("destroy vertex " << a);
      delete w.v[a].p;
      drop_edges(w, a);
      w.v.erase(a);
      gone++;
    } else if (op == 8) {
      int a = pick_v(g, w);
      w.v[a].val = g.int32();
      w.v[a].p->setVal(w.v[a].val);
      NOTE("vertex " << a << " value " << w.v[a].val);
    } else if (op == 9) {
      int a = pick_v(g, w);
      w.v[a].use = g.flag();
      if (w.v[a].use) w.v[a].p->setValid(); else w.v[a].p->setInvalid();
    } else if (op == 10 && !w.e.empty()) {
      int id = pick_e(g, w);
      w.e[id].val = (int)g.zrange(-5, 5);
      locate(w, id)->setVal(w.e[id].val);
    } else if (op == 11 && !w.e.empty()) {
      int id = pick_e(g, w);
      w.e[id].use = g.flag();
      if (w.e[id].use) locate(w, id)->setValid(); else locate(w, id)->setInvalid();
    } else if (op == 12 && copies) {
      int a = pick_v(g, w), h = w.next++;
      NOTE("vertex " << h << " = copy of vertex " << a);
      fresh = copied(w, a, h);
      MV m = w.v[a];
      m.p = new Vertex(*w.v[a].p);
      m.id = m.p->getID();
      CHECK(w.vids.insert(m.id).second, "vertex id " << m.id << " was used before");
      w.v[h] = m;
      copy_of = a, copy_to = h;
    } else if (op == 13 && copies) {
      int a = pick_v(g, w), b = pick_v(g, w);
      bool touch = false;  // edges between the two: what an assignment does with them is not specified
      for (std::map<int, ME>::iterator i = w.e.begin(); i != w.e.end(); ++i)
        touch = touch || (i->second.from == a && i->second.to == b) || (i->second.from == b && i->second.to == a);
      if (touch && a != b) continue;
      NOTE("vertex " << a << " = vertex " << b);
      *w.v[a].p = *w.v[b].p;
      w.v[a].val = w.v[b].val;
      w.v[a].use = w.v[b].use;
      if (a != b) {
        drop_edges(w, a);
        fresh = copied(w, b, a);
        copy_of = b, copy_to = a;
      }
    } else if (w.v.size() >= 2) {
      int a = pick_v(g, w), b = pick_v(g, w);
      const Vertex &x = *w.v[a].p, &y = *w.v[b].p;
      CHECK((x == y) == (a == b) && (x != y) == (a != b), "identity of vertices " << a << " and " << b);
      CHECK((x < y) == (w.v[a].val < w.v[b].val), "order of vertices " << a << " and " << b);
    }
    steps++;
    full(w, fresh);
    if (copy_of >= 0) same_order(w, copy_of, copy_to);
    maxe = std::max(maxe, (int)w.e.size());
    if (w.e.size() >= 2) {
      int a = pick_e(g, w), b = pick_e(g, w);
      const Edge &x = *locate(w, a), &y = *locate(w, b);
      CHECK((x == y) == (a == b) && (x != y) == (a != b), "identity of edges");
      CHECK((x < y) == (w.e[a].val < w.e[b].val), "order of edges");
    }
  }
  while (!w.v.empty()) {
    int a = pick_v(g, w);
    NOTE("destroy vertex " << a);
    delete w.v[a].p;
    drop_edges(w, a);
    w.v.erase(a);
    full(w, std::vector<ME>());
  }
  if (gone) g.label("vertices destroyed among others");
  if (copies) g.label("with vertex copies");
  g.nontrivial(steps >= 4 && maxe >= 2);
}
// free-standing Edge objects
static void edges(Gen& g) {
  Vertex a(1), b(2);
  Vertex* v[2] = {&a, &b};
  std::vector<Edge*> e;
  struct M { Vertex *f, *t; int val; bool use; int id; };
  std::vector<M> m;
  std::set<int> ids;
  Loop l(g, 8, 60);
  while (l.next()) {
    u64 op = e.empty() ? 0 : g.draw(6);
    M x;
    if (op <= 1) {
      x.f = v[g.draw(2)], x.t = v[g.draw(2)], x.val = 0, x.use = true;
      if (g.flag()) { x.val = g.int32(); e.push_back(new Edge(x.f, x.t, x.val)); } else e.push_back(new Edge(x.f, x.t));
      x.id = e.back()->getID();
      CHECK(ids.insert(x.id).second, "edge id used before");
      m.push_back(x);
    } else if (op == 2) {
      size_t i = g.draw(e.size());
      x = m[i];
      e.push_back(new Edge(*e[i]));
      x.id = e.back()->getID();
      CHECK(ids.insert(x.id).second, "a copied edge has an id used before");
      m.push_back(x);
    } else if (op == 3) {
      size_t i = g.draw(e.size()), j = g.draw(e.size());
      *e[i] = *e[j];
      int id = m[i].id;
      m[i] = m[j];
      m[i].id = id;
    } else if (op == 4) {
      size_t i = g.draw(e.size());
      m[i].val = g.int32();
      e[i]->setVal(m[i].val);
    } else {
      size_t i = g.draw(e.size());
      m[i].use = g.flag();
      if (m[i].use) e[i]->setValid(); else e[i]->setInvalid();
    }
    for (size_t i = 0; i < e.size(); i++) {
      CHECK(e[i]->getFrom() == m[i].f && e[i]->getTo() == m[i].t && e[i]->getVal() == m[i].val && e[i]->isValid() == m[i].use && e[i]->getID() == m[i].id, "state of edge " << i);
      size_t j = g.draw(e.size());
      CHECK((*e[i] == *e[j]) == (i == j) && (*e[i] != *e[j]) == (i != j) && (*e[i] < *e[j]) == (m[i].val < m[j].val), "comparison of edges");
    }
  }
  CHECK(a.getOutDegree() == 0 && b.getInDegree() == 0, "a free-standing edge was attached to a vertex");
  g.nontrivial(e.size() >= 2);
  for (size_t i = 0; i < e.size(); i++) delete e[i];
}
// tens of thousands of vertices and edges at once
static void huge(Gen& g) {
  const size_t n = g.flag() ? 65500 + g.draw(100) : 1000 + g.draw(70000);
  const bool in = g.flag();
  Bulk b(g);
  std::vector<std::unique_ptr<Vertex> > v;
  std::vector<int> val;
  std::set<int> ids, eids;
  for (size_t i = 0; i < n; i++) {
    val.push_back((int)b.next(1000) - 500);
    v.emplace_back(new Vertex(val[i]));
    CHECK(ids.insert(v[i]->getID()).second, "the id of vertex " << i << " was used before");
  }
  NOTE(n << " vertices around a hub, edges " << (in ? "to" : "from") << " it");
  std::unique_ptr<Vertex> hub(new Vertex(1));
  CHECK(!ids.count(hub->getID()), "the id of the hub was used before");
  for (size_t i = 0; i < n; i++)
    if (in) v[i]->addEdge(*hub, val[i]); else hub->addEdge(*v[i], val[i]);
  const std::list<Edge*> l = in ? hub->inEdges : hub->outEdges;
  CHECK(l.size() == n && (in ? hub->getInDegree() : hub->getOutDegree()) == (int)n, "degree of the hub");
  size_t i = 0;
  for (std::list<Edge*>::const_iterator e = l.begin(); e != l.end(); ++e, ++i) {
    CHECK((in ? (*e)->getFrom() : (*e)->getTo()) == v[i].get() && (*e)->getVal() == val[i], "edge " << i << " of the hub");
    CHECK(eids.insert((*e)->getID()).second, "the id of edge " << i << " was used before");
    CHECK(v[i]->getVal() == val[i] && ids.count(v[i]->getID()), "vertex " << i);
  }
  hub.reset();
  for (i = 0; i < n; i++) CHECK(v[i]->getInDegree() == 0 && v[i]->getOutDegree() == 0, "vertex " << i << " keeps an edge to a destroyed one");
  g.nontrivial(true);
}
PBT_MAIN({"history", 80000, history, 0}, {"edges", 30000, edges, 0}, {"huge", 12, huge, 0})
