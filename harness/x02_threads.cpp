// Threads: calls on distinct objects, and const calls on shared objects, made by several threads
// at once give the results they give alone, without data races (built with ThreadSanitizer).
#include <atomic>
#include <thread>
#include "jobs.h"
// std::lgamma also sets the C library's global signgam, which nothing reads
extern "C" double __wrap_lgamma(double x) { int s; return ::lgamma_r(x, &s); }
extern "C" float __wrap_lgammaf(float x) { int s; return ::lgammaf_r(x, &s); }
extern "C" long double __wrap_lgammal(long double x) { int s; return ::lgammal_r(x, &s); }
struct Plan { u64 seed; std::vector<int> job; };
static Str run_plan(const Plan& p, int rounds) {
  Str all;
  for (int k = 0; k < rounds; k++) {
    R r(p.seed);
    Out o;
    for (int j : p.job) { o << '[' << j << ' '; jobs[j](r, o); o << ']'; }
    all = o.str();
  }
  return all;
}
// all threads start at the same time
static void together(const std::vector<std::function<void()> >& f) {
  std::atomic<int> ready(0);
  std::vector<std::thread> t;
  int n = (int)f.size();
  for (auto& x : f) t.emplace_back([&ready, n, &x] { ready++; while (ready < n) std::this_thread::yield(); x(); });
  for (auto& x : t) x.join();
}
static void threads(Gen& g) {
  int n = 2 + (int)g.draw(3), rounds = 1 + (int)g.draw(4);
  bool same = g.flag();
  std::vector<Plan> p(n);
  for (int i = 0; i < n; i++) {
    p[i].seed = g.draw(1ull << 40);
    Loop l(g, 2, 6);
    if (same && i) { p[i].job = p[0].job; continue; }
    while (l.next()) p[i].job.push_back((int)g.draw(NJOBS));
    if (p[i].job.empty()) p[i].job.push_back((int)g.draw(NJOBS));
  }
  for (int i = 0; i < n; i++) {
    Str s;
    for (int j : p[i].job) s += Str(" ") + names[j];
    NOTE("thread " << i << ":" << s);
  }
  std::vector<Str> alone(n), got(n);
  // alone first or afterwards: nothing may depend on having run before
  bool first = g.flag();
  if (first) for (int i = 0; i < n; i++) alone[i] = run_plan(p[i], 1);
  std::vector<std::function<void()> > f;
  for (int i = 0; i < n; i++) f.push_back([&, i] { got[i] = run_plan(p[i], rounds); });
  together(f);
  if (!first) for (int i = 0; i < n; i++) alone[i] = run_plan(p[i], 1);
  for (int i = 0; i < n; i++) CHECK(alone[i] == got[i], "thread " << i << " gives\n" << got[i] << "\nalone it gives\n" << alone[i]);
  g.nontrivial(true);
}
// ---- objects that several threads read at once
struct Shared {
  cuhksz::Vector<Str> v;
  cuhksz::JSONObject j;
  cuhksz::Matrix<double> m, m2;
  cuhksz::Fraction f, f2;
  cuhksz::BigNum<40> b, b2;
  cuhksz::Point<3> p, p2;
  Str text, pattern, enc64, encurl;
  std::vector<double> data;
  std::vector<Str> words;
  cuhksz::stringCast<int> cast;
  cuhksz::List<Str> list;
  cuhksz::Queue<Str> queue;
  cuhksz::Stack<Str> stack;
  cuhksz::Set<Str> set;
  cuhksz::MultiSet<Str> mset;
  cuhksz::Map<Str, int> map;
  std::multimap<Str, int> pairs;
  std::unique_ptr<cuhksz::MultiMap<Str, int> > mmap;
  cuhksz::Line line, line2;
  int numbers[12];
  Shared(R& r)
      : m(3, 3), m2(3, 3), f((int)r.draw(50) - 25, 1 + (int)r.draw(9)), f2(1 + (int)r.draw(5), 7), b(Str("12345678901234")), b2((int64_t)r.draw(99999) - 50000), cast("42 x"), line(cuhksz::Point<2>(0, 1), cuhksz::GVector<2>(1, 2)), line2(line) {
    for (int i = 0; i < 8; i++) v.push(word(r)), data.push_back((double)r.draw(100)), words.push_back(word(r));
    for (int i = 0; i < 5; i++) j[word(r)] = bytes(r, 20);
    j["list"] = cuhksz::JSONObject::Array(1, 2.5, "x", true);
    for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) m[i][k] = (double)r.draw(5), m2[i][k] = (double)r.draw(5);
    for (int i = 0; i < 3; i++) p[i] = (double)r.draw(9), p2[i] = (double)r.draw(9);
    for (int i = 0; i < 12; i++) text += word(r);
    pattern = text.substr(text.size() / 2);
    enc64 = cuhksz::base64Encode(text);
    encurl = cuhksz::urlEncode(bytes(r, 60));
    for (auto& w : words) {
      list.push(w), queue.enqueue(w), stack.push(w), set.insert(w), mset.insert(w), mset.insert(w), map.set(w, (int)r.draw(100));
      pairs.insert(std::make_pair(w, (int)r.draw(9)));
      pairs.insert(std::make_pair(w, (int)r.draw(9)));
    }
    mmap.reset(new cuhksz::MultiMap<Str, int>(pairs));
    line = cuhksz::Line(cuhksz::Point<2>((double)r.draw(9), 1), cuhksz::GVector<2>(1, 2));
    line2 = cuhksz::Line(cuhksz::Point<2>((double)r.draw(9), 2), cuhksz::GVector<2>(1, -2));
    for (int& x : numbers) x = (int)r.draw(1000);
  }
};
enum { NREADS = 18 };
static void read_part(const Shared& s, int part, Out& o) {
  switch (part) {
    case 0: for (int i = 0; i < (int)s.v.size(); i++) o << s.v[i] << ' ' << s.v.get(i); o << s.v.first() << s.v.last(); for (auto& e : s.v) o << e << ' '; o << s.v.isEmpty() << s.v.size(); break;
    case 1: { cuhksz::Vector<Str> c(s.v); c.push("more"); c[0] = "changed"; o << c << (c == s.v) << s.v.size(); break; }
    case 2: o << s.j.dump() << s.j << s.j.isNull() << (int)s.j.getType(); for (auto& e : s.j.at("list").ArrayRange()) o << e.toString() << e.toInt() << e.toBool() << e.toDouble(); o << s.j.at("list").at(1).toFloat() << s.j.hasKey("list") << s.j.at("list").length() << s.j.size(); break;
    case 3: { cuhksz::JSONObject c(s.j); c["other"] = s.j.at("list"); c["list"] = 3; o << c.dump(); break; }
    case 4: { cuhksz::Matrix<double> c = s.m * s.m2 + s.m - s.m2; o << c.toString() << (s.m == s.m2) << s.m.toString(); c = s.m; c[0][0] = 77; c.reduce(); o << c.toString(); break; }
    case 5: o << s.f + s.f2 << s.f * s.f2 << s.f / s.f2 << s.f - s.f2 << (s.f < s.f2) << (s.f <= s.f2) << (s.f > s.f2) << (s.f == s.f2) << (s.f != s.f2) << (int)s.cast; break;
    case 6: o << (s.b + s.b2).toString() << (s.b * s.b2).toString() << (s.b - s.b2) << s.b + 5 << s.b * 3 << s.b - 7 << -s.b << s.b.abs() << (s.b < s.b2) << (s.b == s.b2) << s.b[0] << s.b.toString(); break;
    case 7: { cuhksz::Point<3> c = s.p + s.p2 * 2.0; o << c[0] << ' ' << s.p * s.p2 << ' ' << s.p << s.p - s.p2 << s.p / 2.0 << (s.p < s.p2) << (s.p >= s.p2) << (s.p == s.p2) << dot(s.p, s.p2); break; }
    case 8: o << cuhksz::kmpSearch(s.text, s.pattern) << cuhksz::editDistance(s.text, s.pattern); break;
    case 9: o << cuhksz::base64Decode(s.enc64) << cuhksz::base64Encode(s.text) << cuhksz::urlEncode(s.text) << cuhksz::urlDecode(s.encurl); break;
    case 10: o << cuhksz::mean(s.data) << ' ' << cuhksz::variance(s.data) << ' ' << cuhksz::stddev(s.data) << ' ' << cuhksz::sum(s.data) << ' ' << cuhksz::sample_variance(s.data) << ' ' << cuhksz::sample_stddev(s.data) << ' ' << cuhksz::mean(s.numbers, 12) << ' ' << cuhksz::variance(s.numbers, 12) << ' ' << cuhksz::stddev(s.data.data(), 8) << ' ' << cuhksz::sample_stddev(s.numbers, 12) << ' ' << cuhksz::sum(s.numbers, 12); break;
    case 11: o << s.list.first() << s.list.last() << s.list[3] << s.list.size() << s.list.isEmpty(); for (auto& e : s.list) o << e << ' '; { cuhksz::List<Str> c(s.list); c.pop(); c.sort(); for (auto& e : c) o << e; } break;
    case 12: o << s.queue.first() << s.queue.last() << s.queue.size() << s.stack.top() << s.stack.size(); { cuhksz::Queue<Str> q(s.queue); o << q.dequeue(); cuhksz::Stack<Str> k(s.stack); o << k.pop(); } break;
    case 13: for (auto& w : s.words) o << s.set.contains(w) << s.mset.contains(w) << s.mset.count(w); o << s.set.size() << s.mset.size() << s.set.isEmpty() << s.mset.isEmpty(); for (auto& e : s.set) o << e; for (auto& e : s.mset) o << e; break;
    case 14: for (auto& w : s.words) o << s.map.get(w) << s.mmap->count(w); o << s.map.size() << s.mmap->size() << s.map.isEmpty() << s.mmap->isEmpty(); for (auto& e : s.map) o << e.first << e.second; break;
    case 15: o << cuhksz::getIntersection(s.line, s.line2) << cuhksz::disToLine(cuhksz::Point<2>(3, 4), s.line2) << ' ' << cuhksz::disToSegment(cuhksz::Point<2>(3, 4), s.line2); break;
    case 16: for (auto& row : cuhksz::zip(s.words, s.words)) for (auto& e : row) o << e << ' '; break;
    default:
      for (auto& e : cuhksz::filterContainer(s.words, [](const Str& w) { return w.size() % 2 == 0; })) o << e << ' ';
      for (auto& e : cuhksz::mapAll(s.words, [](const Str& w) { return w.size(); })) o << e << ' ';
  }
}
static void readers(Gen& g) {
  R r(g.draw(1ull << 40));
  R r2 = r;
  Shared s(r), again(r2);
  int n = 2 + (int)g.draw(3), rounds = 1 + (int)g.draw(3);
  std::vector<std::vector<int> > part(n);
  for (int i = 0; i < n; i++) {
    Loop l(g, 3, 10);
    while (l.next()) part[i].push_back((int)g.draw(NREADS));
    Str t;
    for (int k : part[i]) t += " " + std::to_string(k);
    NOTE("reader " << i << ":" << t);
  }
  std::vector<Str> got(n);
  std::vector<std::function<void()> > f;
  for (int i = 0; i < n; i++)
    f.push_back([&, i] {
      for (int k = 0; k < rounds; k++) {
        Out o;
        for (int q : part[i]) read_part(s, q, o);
        got[i] = o.str();
      }
    });
  together(f);
  for (int i = 0; i < n; i++) {
    Out o;
    for (int q : part[i]) read_part(again, q, o);
    CHECK(o.str() == got[i], "reader " << i << " gives\n" << got[i] << "\nalone it gives\n" << o.str());
  }
  g.nontrivial(true);
}
// ---- calls made from within a callback of the library
struct Nest {
  long v;
  explicit Nest(long x = 1) : v(x) {}
  Nest operator*(const Nest& o) const {
    // a power, a search and a map in the middle of a power
    long e = (long)cuhksz::genericBinaryPow((int64_t)2, (int)(o.v % 5));
    long k = (long)cuhksz::kmpSearch("aabaabaaab", o.v % 2 ? "aaab" : "aba");
    return Nest((v * o.v + e - e + k - k) % 10007);
  }
  Nest& operator*=(const Nest& o) { return *this = *this * o; }
};
static void nested(Gen& g) {
  std::vector<int> v;
  Loop l(g, 5, 30);
  while (l.next()) v.push_back((int)g.draw(50));
  u64 seed = g.draw(1ull << 40);
  int job = (int)g.draw(NJOBS);
  NOTE("a callback that runs " << names[job] << ", " << v.size() << " elements");
  Plan p;
  p.seed = seed;
  p.job.push_back(job);
  Str want = run_plan(p, 1);
  int calls = 0;
  auto inner = [&](int x) { CHECK(run_plan(p, 1) == want, "the call within a callback gives another result"); calls++; return x * 2; };
  std::vector<int> m = cuhksz::mapAll(v, inner);
  CHECK(m.size() == v.size() && calls == (int)v.size(), "map called " << calls << " times for " << v.size() << " elements");
  for (size_t i = 0; i < v.size(); i++) CHECK(m[i] == v[i] * 2, "element " << i << " is " << m[i]);
  std::vector<int> f = cuhksz::filterContainer(v, [&](int x) {
    std::vector<int> k = cuhksz::filterContainer(v, [&](int y) { return y > x; });
    std::vector<int> q = cuhksz::mapAll(k, inner);
    return k.size() % 2 == 0;
  });
  std::vector<int> w;
  for (int x : v) { int k = 0; for (int y : v) k += y > x; if (k % 2 == 0) w.push_back(x); }
  CHECK(f == w, "the outer filter keeps " << f.size() << " elements, want " << w.size());
  int e = (int)g.draw(60);
  long b = 2 + (long)g.draw(20), want_p = 1;
  for (int i = 0; i < e; i++) want_p = want_p * b % 10007;
  Nest r = cuhksz::genericBinaryPow(Nest(b), e);
  CHECK(e == 0 || r.v == want_p, "power " << b << "^" << e << " with nested calls is " << r.v << ", want " << want_p);
  g.nontrivial(v.size() >= 2);
}
PBT_MAIN({"threads", 4000, threads, 0}, {"readers", 3000, readers, 0}, {"nested", 2500, nested, 0})
