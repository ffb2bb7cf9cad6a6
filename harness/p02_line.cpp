// P02: Line, segment and Circle against their geometric definitions.
#include "geometry/Circle.h"
#include "geometry/Line.h"
#include "vals.h"
typedef long double LD;
typedef cuhksz::Point<2> P;
struct Q {
  double x, y;
};
static P pt(const Q& q) { return P(q.x, q.y); }
static std::string txt(const Q& q) {
  std::ostringstream os;
  os << std::setprecision(17) << "(" << q.x << ", " << q.y << ")";
  return os.str();
}
struct Scale {
  i64 lim;
  int e;
  Scale(Gen& g) {
    static const i64 L[] = {5, 5, 20, 1000, 1000000};
    lim = g.pick(L);
    e = g.chance(1, 2) ? 0 : (int)g.draw(80) - 40;
  }
  double val(Gen& g) const { return std::ldexp((double)g.zrange(-lim, lim), e); }
  Q q(Gen& g) const {
    Q r;
    r.x = val(g);
    r.y = val(g);
    return r;
  }
};
static cuhksz::Line mk(Gen& g, const Q& a, const Q& v) {
  cuhksz::Line l(pt(a), pt(v));
  switch (g.draw(4)) {
    case 0: return l;
    case 1: return cuhksz::Line(l);
    case 2: {
      // over an unrelated line, an empty one at the origin, or one that differs only a little
      double d = std::ldexp(1.0, -(int)g.range(20, 40));
      u64 k = g.draw(3);
      cuhksz::Line m = k == 0 ? cuhksz::Line(P(1, 2), P(3, 4)) : k == 1 ? cuhksz::Line(P(0, 0), P(0, 0))
                                                                        : cuhksz::Line(P(a.x + d, a.y), P(v.x, v.y - d));
      m = l;
      return m;
    }
    default: {
      cuhksz::Line& s = l;
      l = s;
      return l;
    }
  }
}
static LD hyp(LD x, LD y) { return std::sqrt(x * x + y * y); }
static void near_(double got, LD want, LD scale, const char* what) {
  CHECK(std::fabs((LD)got - want) <= 1e-12L * scale, what << " = " << got << ", expected " << (double)want);
}

static void f_line(Gen& g) {
  Scale s(g), sv = g.flag() ? s : Scale(g);
  Q a = s.q(g), v = sv.q(g), p;
  u64 how = g.draw(4);
  if (how == 0) {  // on the line
    i64 k = g.zrange(-5, 5);
    p.x = a.x + k * v.x;
    p.y = a.y + k * v.y;
  } else
    p = s.q(g);
  NOTE("A=" << txt(a) << " v=" << txt(v) << " P=" << txt(p));
  cuhksz::Line l = mk(g, a, v);
  LD wx = (LD)p.x - a.x, wy = (LD)p.y - a.y, len = hyp(v.x, v.y);
  LD scale = hyp(p.x, p.y) + hyp(a.x, a.y) + len;
  near_(l.len(), len, len, "len");
  LD dseg;
  const char* zone = "empty segment";
  if (len == 0) dseg = hyp(wx, wy);
  else {
    LD t = (wx * v.x + wy * v.y) / (len * len);
    zone = t < 0 ? "before the segment" : t > 1 ? "after the segment" : t == 0 || t == 1 ? "level with an end" : "inside";
    if (t < 0) t = 0;
    if (t > 1) t = 1;
    dseg = hyp(wx - t * v.x, wy - t * v.y);
    LD dline = std::fabs((LD)v.x * wy - (LD)v.y * wx) / len;
    near_(disToLine(pt(p), l), dline, scale, "disToLine");
  }
  g.label(zone);
  near_(disToSegment(pt(p), l), dseg, scale, "disToSegment");
  near_(l.len(), len, len, "len after queries");
  g.nontrivial(len > 0 && (wx != 0 || wy != 0));
}

static void f_intersection(Gen& g) {
  Scale s(g);
  bool own = g.chance(1, 3);  // directions of other magnitudes than the points
  Scale sv = own ? Scale(g) : s, sw = own ? Scale(g) : s;
  if (own) g.label("directions of their own magnitude");
  Q a = s.q(g), v = sv.q(g), b, w = sw.q(g);
  if (!own && g.chance(1, 3)) {  // meeting in a known point
    i64 i = g.zrange(-5, 5), j = g.zrange(-5, 5);
    b.x = a.x + i * v.x - j * w.x;
    b.y = a.y + i * v.y - j * w.y;
    g.label("lattice meeting point");
  } else if (g.chance(1, 6)) {
    b = a;
    g.label("common base point");
  } else
    b = s.q(g);
  if (g.chance(1, 8)) w.x = 0;
  if (g.chance(1, 8)) v.y = 0;
  LD c = (LD)v.x * w.y - (LD)v.y * w.x;
  NOTE("A=" << txt(a) << " v=" << txt(v) << " B=" << txt(b) << " w=" << txt(w));
  if (c == 0) return;  // parallel: outside the domain
  LD ux = (LD)b.x - a.x, uy = (LD)b.y - a.y;
  LD t = (ux * w.y - uy * w.x) / c, r = (ux * v.y - uy * v.x) / c;
  LD x = a.x + t * v.x, y = a.y + t * v.y;
  LD scale = hyp(a.x, a.y) + hyp(b.x, b.y) + hyp(t * v.x, t * v.y) + hyp(r * w.x, r * w.y);
  cuhksz::Line l = mk(g, a, v), m = mk(g, b, w);
  P q = getIntersection(l, m), q2 = getIntersection(m, l);
  near_(q[0], x, scale, "x of the intersection");
  near_(q[1], y, scale, "y of the intersection");
  near_(q2[0], x, scale, "x of the intersection (swapped)");
  near_(q2[1], y, scale, "y of the intersection (swapped)");
  near_(l.len(), hyp(v.x, v.y), hyp(v.x, v.y), "len after getIntersection");
  if (g.flag()) {
    LD d1 = disToLine(q, l), d2 = disToLine(q, m);
    CHECK(d1 <= 1e-11L * scale && d2 <= 1e-11L * scale, "the intersection is off a line by " << (double)d1 << ", " << (double)d2);
  }
  g.nontrivial();
}

static void f_circle(Gen& g) {
  const LD PIL = 3.14159265358979323846L;
  Scale s(g);
  Q o = {0, 0};
  LD r = 1;
  double rr = std::ldexp((double)g.range(0, s.lim), s.e) * (g.flag() ? 1 : 0.37);
  u64 form = g.draw(4);
  cuhksz::Circle c;
  if (form == 1) c = cuhksz::Circle(rr), r = rr;
  if (form == 2) o = s.q(g), c = cuhksz::Circle(pt(o));
  if (form == 3) o = s.q(g), r = rr, c = cuhksz::Circle(pt(o), rr);
  double rad = g.flag() ? (double)g.zrange(-16, 16) * (double)PIL / 8 : (double)g.zrange(-1000000, 1000000) / 1e5;
  if (g.flag()) c = cuhksz::Circle(c);
  NOTE("O=" << txt(o) << " r=" << (double)r << " rad=" << rad);
  // the library's pi has 8 digits
  LD area = PIL * r * r, per = 2 * PIL * r;
  CHECK(std::fabs(c.getArea() - area) <= 2e-8L * area, "area " << c.getArea() << ", expected " << (double)area);
  CHECK(std::fabs(c.getPerimeter() - per) <= 2e-8L * per, "perimeter " << c.getPerimeter() << ", expected " << (double)per);
  P p = c.getPoint(rad);
  LD scale = hyp(o.x, o.y) + r;
  near_(p[0], o.x + r * std::cos((LD)rad), scale, "x of getPoint");
  near_(p[1], o.y + r * std::sin((LD)rad), scale, "y of getPoint");
  P p2 = c.getPoint(rad);
  CHECK(p2[0] == p[0] && p2[1] == p[1], "getPoint twice gives different points");
  CHECK(std::fabs(c.getArea() - area) <= 2e-8L * area, "area changed by a query");
  g.nontrivial(form == 3 && r > 0);
}

PBT_MAIN({"distances", 2000000, f_line, 0}, {"intersection", 1500000, f_intersection, 0}, {"circle", 600000, f_circle, 0})
