#include "graph/Tree.h"
#include "vals.h"
using cuhksz::Node;
using cuhksz::Tree;

struct Ref {
  std::vector<int> par, h, val;
  std::vector<std::vector<int> > sons;
  std::vector<Node*> node;
  int lca(int a, int b) const {
    while (a != b) {
      if (h[a] < h[b]) std::swap(a, b);
      a = par[a];
    }
    return a;
  }
};
static void node_check(const Ref& r, int i) {
  Node* n = r.node[i];
  CHECK(n->getHeight() == r.h[i], "height of node " << i << " is " << n->getHeight() << ", expected " << r.h[i]);
  CHECK(n->getFa() == (i ? r.node[r.par[i]] : nullptr), "father of node " << i);
  CHECK(n->getDegree() == (int)r.sons[i].size(), "degree of node " << i << " is " << n->getDegree());
  CHECK(n->getID() == i * 3 + 1 && n->getVal() == r.val[i], "id or value of node " << i);
  std::vector<Node*> s = n->getSon(), e;
  for (size_t k = 0; k < r.sons[i].size(); k++) e.push_back(r.node[r.sons[i][k]]);
  CHECK(s == e, "sons of node " << i);
}
static void ancestors(const Ref& r, int i, int k) {
  int a = i;
  for (int q = 0; q < k; q++) a = r.par[a];
  CHECK(r.node[i]->getAncestor(k) == r.node[a], "ancestor " << k << " of node " << i << " (height " << r.h[i] << ")");
}
static void pair_check(Tree& t, const Ref& r, int a, int b) {
  int l = r.lca(a, b);
  Node* got = t.LCA(r.node[a], r.node[b]);
  CHECK(got == r.node[l], "LCA of nodes " << a << " (height " << r.h[a] << ") and " << b << " (height " << r.h[b] << ") is not node " << l);
  int d = r.h[a] + r.h[b] - 2 * r.h[l];
  int gd = t.getDistance(r.node[a], r.node[b]);
  CHECK(gd == d, "distance of nodes " << a << " and " << b << " is " << gd << ", expected " << d);
}
// objects made in memory that held other data before
static void fresh() {
  alignas(Tree) unsigned char a[sizeof(Tree)];
  alignas(Node) unsigned char b[sizeof(Node)];
  memset(a, 0x5a, sizeof a);
  memset(b, 0x5a, sizeof b);
  Tree* t = new (a) Tree;
  Node* n = new (b) Node(3);
  CHECK(t->getRoot() == nullptr, "a new tree has a root");
  CHECK(n->getHeight() == 0 && n->getFa() == nullptr && n->getDegree() == 0 && n->getVal() == 0 && n->getID() == 3 && n->getSon().empty(), "the state of a new node");
  n->~Node();
  t->~Tree();
}
static void tree(Gen& g, int n) {
  fresh();
  Tree t;
  Ref r;
  u64 shape = g.draw(8);
  NOTE(n << " nodes, shape " << shape);
  for (int i = 0; i < n; i++) {
    int p;
    if (i == 0) p = -1;
    else switch (shape) {
      case 0: p = (int)g.draw(i); break;
      case 1: p = i - 1; break;                                                // chain
      case 2: p = 0; break;                                                    // star
      case 3: p = (i - 1) / 2; break;                                          // binary
      case 4: p = i - 1 - (int)g.draw(std::min(i, 3)); break;                  // deep
      case 5: p = i == 1 ? 0 : i - 2; break;                                   // two long legs
      case 6: p = i <= n / 2 ? i - 1 : n / 2 > 0 ? (i == n / 2 + 1 ? (int)g.draw(n / 2 + 1) : i - 1) : 0; break;  // a leg on a leg
      default: p = i - 1 - (int)g.draw(std::min(i, 1 + (int)g.draw(6)));
    }
    r.par.push_back(p);
    r.h.push_back(i ? r.h[p] + 1 : 0);
    r.val.push_back(g.chance(1, 3) ? (int)g.zrange(-9, 9) : 0);
    r.sons.push_back(std::vector<int>());
    Node* nd = r.val[i] || g.flag() ? new Node(i * 3 + 1, r.val[i]) : new Node(i * 3 + 1);
    r.node.push_back(nd);
    if (i == 0) {
      if (g.chance(1, 4)) {  // whatever the node was told before, a root has no father and height 0
        nd->setFa(nd);
        nd->setHeight((int)g.range(1, 9));
      }
      t.setRoot(nd);
    } else {
      r.sons[p].push_back(i);
      t.addNode(nd, r.node[p]);
      if (n <= 40) NOTE("node " << i << " under " << p);
    }
    CHECK(t.getRoot() == r.node[0], "getRoot");
    if (g.chance(1, 8)) {  // while the tree is growing
      int a = (int)g.draw(i + 1), b = g.flag() ? i : (int)g.draw(i + 1);
      pair_check(t, r, a, b);
      pair_check(t, r, b, a);
      node_check(r, a);
    }
  }
  int depth = 0;
  for (int i = 0; i < n; i++) {
    if (n <= 100 || g.chance(1, 10)) node_check(r, i);
    depth = std::max(depth, r.h[i]);
    if (n <= 20)
      for (int k = 0; k <= r.h[i]; k++) ancestors(r, i, k);
  }
  if (n <= 20) {
    for (int a = 0; a < n; a++)
      for (int b = 0; b < n; b++) pair_check(t, r, a, b);
  } else {
    for (int q = 0; q < 60; q++) {
      int a = (int)g.draw(n), b = g.flag() ? (int)g.draw(n) : n - 1 - (int)g.draw(std::min(n, 5));
      pair_check(t, r, a, b);
      pair_check(t, r, b, a);
      ancestors(r, a, (int)g.draw(r.h[a] + 1));
      ancestors(r, b, r.h[b]);
    }
  }
  for (int i = 0; i < n; i++) delete r.node[i];
  if (depth >= 8) g.label("depth 8 or more");
  g.nontrivial(n >= 4);
}
// deep and large trees
static void huge(Gen& g) {
  int n = huge_size(g);
  u64 shape = g.draw(6);
  Bulk b(g);
  Tree t;
  Ref r;
  NOTE(n << " nodes, shape " << shape);
  int branch = (int)g.draw(n);
  for (int i = 0; i < n; i++) {
    int p;
    if (i == 0) p = -1;
    else switch (shape) {
      case 0: p = (int)b.next(i); break;
      case 1: p = i - 1; break;
      case 2: p = i - 1 - (int)b.next(std::min(i, 3)); break;
      case 3: p = i == branch + 1 ? (int)b.next(i) : i - 1; break;
      case 4: p = 0; break;
      default: p = i - 1 - (int)b.next(std::min(i, 50));
    }
    r.par.push_back(p);
    r.h.push_back(i ? r.h[p] + 1 : 0);
    r.val.push_back((int)b.next(100));
    r.sons.push_back(std::vector<int>());
    r.node.push_back(new Node(i * 3 + 1, r.val[i]));
    if (i == 0) t.setRoot(r.node[0]);
    else {
      r.sons[p].push_back(i);
      t.addNode(r.node[i], r.node[p]);
    }
  }
  for (int q = 0; q < 30; q++) {
    int x = (int)g.draw(n), y = g.flag() ? (int)g.draw(n) : n - 1 - (int)g.draw(std::min(n, 5));
    pair_check(t, r, x, y);
    pair_check(t, r, y, x);
    ancestors(r, y, (int)g.draw(r.h[y] + 1));
    ancestors(r, y, r.h[y]);
    node_check(r, x);
  }
  node_check(r, 0);
  node_check(r, n - 1);
  for (int i = 0; i < n; i++) delete r.node[i];
  g.nontrivial(true);
}
static void small(Gen& g) { tree(g, 1 + (int)g.draw(20)); }
static void big(Gen& g) { tree(g, 1 + (int)(g.draw(4) ? g.draw(200) : g.draw(2500))); }
PBT_MAIN({"small_trees", 150000, small, 0}, {"big_trees", 15000, big, 0}, {"huge_trees", 120, huge, 0})
