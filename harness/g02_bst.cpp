#include <map>
#include <set>
#include "graph/BST.h"
#include "vals.h"
using cuhksz::BST;
using cuhksz::BSTNode;

struct Ent {
  int rank, val;
  BSTNode* node;
  int where;  // index of the tree that holds it, or -1
};
struct World {
  std::vector<Ent> e;
  std::vector<BST> t;
  std::vector<int> count;
  bool unique;  // all ranks different: neighbours are determined
  unsigned turn = 0;
};
static int holder(const World& w, BSTNode* p) {
  for (size_t i = 0; i < w.e.size(); i++)
    if (w.e[i].node == p) return (int)i;
  return -1;
}
static void look(World& w, int t, int k) {
  BSTNode* f = w.t[t].find(k);
  bool present = false;
  for (size_t i = 0; i < w.e.size(); i++) present = present || (w.e[i].where == t && w.e[i].rank == k);
  if (!present) {
    CHECK(f == nullptr, "find(" << k << ") returned a node although none is stored");
    return;
  }
  CHECK(f != nullptr, "find(" << k << ") found nothing");
  int h = holder(w, f);
  CHECK(h >= 0 && w.e[h].where == t && w.e[h].rank == k, "find(" << k << ") returned a node that is not stored or has another rank");
  CHECK(f->getRank() == k && f->getVal() == w.e[h].val, "rank or value of the node found for " << k);
}
static void neighbours(World& w, int t, int i) {
  int rk = w.e[i].rank, lo = -1, hi = -1, ties = 0;
  for (size_t j = 0; j < w.e.size(); j++) {
    if ((int)j == i || w.e[j].where != t) continue;
    if (w.e[j].rank == rk) ties++;
    if (w.e[j].rank < rk && (lo < 0 || w.e[j].rank > w.e[lo].rank)) lo = (int)j;
    if (w.e[j].rank > rk && (hi < 0 || w.e[j].rank < w.e[hi].rank)) hi = (int)j;
  }
  // each of the two first in half of the calls, and the other after a query elsewhere in the tree
  BSTNode *p, *s;
  if (w.turn++ % 2) {
    p = w.t[t].pre(w.e[i].node);
    if (w.turn % 3 == 0) for (size_t j = 0; j < w.e.size(); j++) if (w.e[j].where == t && (int)j != i) { w.t[t].pre(w.e[j].node); break; }
    s = w.t[t].suf(w.e[i].node);
  } else {
    s = w.t[t].suf(w.e[i].node);
    if (w.turn % 3 == 0) for (size_t j = 0; j < w.e.size(); j++) if (w.e[j].where == t && (int)j != i) { w.t[t].suf(w.e[j].node); break; }
    p = w.t[t].pre(w.e[i].node);
  }
  int hp = p ? holder(w, p) : -1, hs = s ? holder(w, s) : -1;
  CHECK((!p || (hp >= 0 && w.e[hp].where == t && hp != i)) && (!s || (hs >= 0 && w.e[hs].where == t && hs != i)),
        "pre/suf of rank " << rk << " returned a node that is not stored");
  // equal ranks may be on either side
  bool pt = hp >= 0 && w.e[hp].rank == rk, st = hs >= 0 && w.e[hs].rank == rk;
  if (ties) CHECK(pt || st, "no node of the same rank next to one of " << ties + 1 << " nodes of rank " << rk);
  if (!pt) CHECK(lo < 0 ? hp < 0 : hp >= 0 && w.e[hp].rank == w.e[lo].rank,
                 "predecessor of rank " << rk << " is " << (hp < 0 ? std::string("none") : std::to_string(w.e[hp].rank))
                                        << ", expected " << (lo < 0 ? std::string("none") : std::to_string(w.e[lo].rank)));
  if (!st) CHECK(hi < 0 ? hs < 0 : hs >= 0 && w.e[hs].rank == w.e[hi].rank,
                 "successor of rank " << rk << " is " << (hs < 0 ? std::string("none") : std::to_string(w.e[hs].rank))
                                      << ", expected " << (hi < 0 ? std::string("none") : std::to_string(w.e[hi].rank)));
}
// walk the whole tree by suf from its first node: every stored node once, in order, and
// pre is the inverse
static void walk(World& w, int t) {
  BSTNode* c = nullptr;
  for (size_t i = 0; i < w.e.size() && !c; i++)
    if (w.e[i].where == t) c = w.e[i].node;
  if (!c) return;
  int steps = 0;
  while (BSTNode* p = w.t[t].pre(c)) {
    CHECK(p->getRank() <= c->getRank(), "predecessor of larger rank");
    c = p;
    CHECK(++steps <= w.count[t], "walking to the smallest node does not end");
  }
  std::set<BSTNode*> seen;
  bool plain = w.turn++ % 2;  // successors only
  BSTNode* back = nullptr;
  while (c) {
    back = c;
    int h = holder(w, c);
    CHECK(h >= 0 && w.e[h].where == t, "walking met a node that is not stored");
    CHECK(seen.insert(c).second, "walking met rank " << c->getRank() << " twice");
    BSTNode* s = w.t[t].suf(c);
    if (s) {
      CHECK(s->getRank() >= c->getRank(), "successor of smaller rank");
      if (!plain) CHECK(w.t[t].pre(s) == c, "pre(suf(x)) is not x at rank " << c->getRank());
    }
    c = s;
  }
  CHECK((int)seen.size() == w.count[t], "walking met " << seen.size() << " of " << w.count[t] << " nodes");
  if (!plain) return;
  for (; back; back = w.t[t].pre(back)) CHECK(seen.erase(back), "walking back met a node twice or one that is not stored");
  CHECK(seen.empty(), "walking back missed " << seen.size() << " of " << w.count[t] << " nodes");
}
static void finds(World& w, int t) {
  for (size_t i = 0; i < w.e.size(); i++) {
    look(w, t, w.e[i].rank);
    look(w, t, w.e[i].rank == INT_MAX ? INT_MIN : w.e[i].rank + 1);
  }
}
static int gen_rank(Gen& g, u64 style, int n) {
  switch (style) {
    case 0: return (int)g.zrange(-4, 5);
    case 1: return n;                       // ascending
    case 2: return -n;                      // descending
    case 3: return (n % 2 ? n : -n);
    case 4: return g.int32();
    default: return (int)g.draw(60);
  }
}
static void history(Gen& g) {
  World w;
  int nt = g.chance(1, 4) ? 2 : 1;
  w.t.resize(nt);
  w.count.resize(nt, 0);
  u64 style = g.draw(6), watch = g.draw(4), erase_bias = 1 + g.draw(3);
  int ins = 0, ers = 0, back = 0;
  Loop l(g, len_class(g, 100), 400);
  while (l.next()) {
    u64 op = g.draw(10);
    int t = (int)g.draw(nt);
    if (op < 2 + erase_bias && w.count[t]) {
      std::vector<int> in;
      for (size_t i = 0; i < w.e.size(); i++)
        if (w.e[i].where == t) in.push_back((int)i);
      int i = g.pick(in);
      NOTE("erase rank " << w.e[i].rank << " from tree " << t);
      w.t[t].erase(w.e[i].node);
      CHECK(w.e[i].node->getRank() == w.e[i].rank && w.e[i].node->getVal() == w.e[i].val, "erase changed the node");
      w.e[i].where = -1;
      w.count[t]--;
      ers++;
      if (g.chance(1, 2)) {  // memory of an erased node is its owner's again
        delete w.e[i].node;
        w.e.erase(w.e.begin() + i);
      }
    } else if (op < 8) {
      int i = -1;
      if (g.chance(1, 3)) {
        std::vector<int> out;
        for (size_t k = 0; k < w.e.size(); k++)
          if (w.e[k].where < 0) out.push_back((int)k);
        if (!out.empty()) i = g.pick(out), back++;
      }
      if (i < 0) {
        Ent e;
        e.rank = gen_rank(g, style, (int)w.e.size());
        e.val = g.int32();
        e.node = new BSTNode(e.rank, e.val);
        e.where = -1;
        w.e.push_back(e);
        i = (int)w.e.size() - 1;
      }
      NOTE("insert rank " << w.e[i].rank << " into tree " << t);
      w.t[t].insert(w.e[i].node);
      w.e[i].where = t;
      w.count[t]++;
      ins++;
    } else if (op == 8 && !w.e.empty()) {
      int i = (int)g.draw(w.e.size());
      if (g.flag()) { NOTE("find " << w.e[i].rank); look(w, t, w.e[i].rank); }
      else if (w.e[i].where >= 0) { NOTE("neighbours of " << w.e[i].rank); neighbours(w, w.e[i].where, i); }
    } else if (!w.e.empty()) {
      int i = (int)g.draw(w.e.size());
      w.e[i].val = g.int32();
      w.e[i].node->setVal(w.e[i].val);
    }
    if (watch == 0) finds(w, t);
    if (watch == 1 && g.chance(1, 4)) walk(w, t);
  }
  for (int t = 0; t < nt; t++) {
    finds(w, t);
    for (size_t i = 0; i < w.e.size(); i++)
      if (w.e[i].where == t && (w.e.size() < 40 || g.chance(1, 4))) neighbours(w, t, (int)i);
    walk(w, t);
    finds(w, t);
  }
  if (g.flag())  // empty the trees one by one
    for (size_t i = 0; i < w.e.size(); i++) {
      int t = w.e[i].where;
      if (t < 0) continue;
      NOTE("erase rank " << w.e[i].rank << " from tree " << t);
      w.t[t].erase(w.e[i].node);
      w.e[i].where = -1;
      w.count[t]--;
      finds(w, t);
    }
  for (size_t i = 0; i < w.e.size(); i++) delete w.e[i].node;
  if (back) g.label("reinserted a node");
  g.nontrivial(ins >= 3 && ers >= 1);
}
// many nodes
static void huge(Gen& g) {
  int n = g.flag() ? 250 + (int)g.draw(800) : 1000 + (int)g.draw(9000);
  Bulk b(g);
  u64 style = g.draw(4);
  if (style == 3) n = std::min(n, 3000);  // sorted insertion: the tree is as deep as it has nodes
  std::vector<BSTNode*> nodes;
  std::vector<int> order;
  for (int i = 0; i < n; i++) {
    int r = style == 0 ? (int)b.next(4000000000u) : style == 1 ? (int)b.next(n / 3 + 1) : style == 2 ? (int)b.next(3 * n) - n : i;
    nodes.push_back(new BSTNode(r, i));
    order.push_back(i);
  }
  NOTE(n << " nodes, style " << style);
  BST t;
  std::multimap<int, BSTNode*> m;
  for (auto p : nodes) {
    t.insert(p);
    m.insert(std::make_pair(p->getRank(), p));
  }
  for (int i = n - 1; i > 0; i--) std::swap(order[i], order[b.next(i + 1)]);
  int kill = (int)g.draw(n + 1);
  for (int i = 0; i < kill; i++) {
    BSTNode* p = nodes[order[i]];
    t.erase(p);
    auto r = m.equal_range(p->getRank());
    for (auto it = r.first; it != r.second; ++it)
      if (it->second == p) { m.erase(it); break; }
    if (i % 16 == 0) {
      BSTNode* f = t.find(p->getRank());
      CHECK(f != p, "an erased node was found");
      CHECK((f != nullptr) == (m.count(p->getRank()) > 0), "find(" << p->getRank() << ")");
    }
  }
  NOTE("erased " << kill);
  for (int i = 0; i < n; i++) {
    int k = nodes[i]->getRank();
    BSTNode* f = t.find(k);
    CHECK((f != nullptr) == (m.count(k) > 0), "find(" << k << ") with " << m.size() << " nodes stored");
    if (f) CHECK(f->getRank() == k, "find(" << k << ") returned rank " << f->getRank());
    if (f) CHECK(f->getVal() >= 0 && f->getVal() < n && nodes[f->getVal()] == f, "find(" << k << ") returned another node");
  }
  if (!m.empty()) {  // in-order walk
    BSTNode* c = m.begin()->second;
    size_t steps = 0;
    while (BSTNode* p = t.pre(c)) {
      CHECK(p->getRank() == c->getRank(), "the smallest rank has a predecessor of rank " << p->getRank());
      c = p;
      CHECK(++steps <= m.size(), "walking to the first node does not end");
    }
    std::vector<BSTNode*> seen;
    auto it = m.begin();
    for (; c; c = t.suf(c)) {
      CHECK(it != m.end(), "walking visits more than " << m.size() << " nodes");
      CHECK(c->getRank() == it->first, "walking met rank " << c->getRank() << ", expected " << it->first);
      seen.push_back(c);
      ++it;
    }
    CHECK(it == m.end(), "walking met " << seen.size() << " of " << m.size() << " nodes");
    std::sort(seen.begin(), seen.end());
    CHECK(std::unique(seen.begin(), seen.end()) == seen.end(), "walking met a node twice");
  }
  for (auto p : nodes) delete p;
  g.nontrivial(kill >= 1);
}
PBT_MAIN({"history", 200000, history, 0}, {"many_nodes", 400, huge, 0})
