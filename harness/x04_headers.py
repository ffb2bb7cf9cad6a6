"""X04: programs made of generated combinations of the library's headers.

A case is a program of one to three translation units; each includes a generated selection of
headers in a generated order (some twice, some through the headers that collect a module), uses
what they provide, and is compiled with a generated compiler, standard and optimisation level.
Oracle: the program compiles, links with the library and prints, for every use, exactly the line
that use prints in a program of its own.
"""
import concurrent.futures
import json
import os
import random
import subprocess
import time

# header -> statements that need nothing but it; say(double) prints a number
USES = {
    "algorithm/Filter.h": "std::vector<int> v; v.push_back(3); v.push_back(4); v.push_back(6); auto r = cuhksz::filterContainer(v, [](int x) { return x % 2 == 0; }); say(r.size()); say(r[1]);",
    "algorithm/Map.h": "std::vector<int> v; v.push_back(3); v.push_back(4); auto r = cuhksz::mapAll(v, [](int x) { return x * 2.5; }); say(r.size()); say(r[1]);",
    "algorithm/Zip.h": "std::vector<int> v(3, 7), w(2, 9); std::vector<std::vector<int> > r = cuhksz::zip(v, w); say(r.size()); say(r[1][1]);",
    "algorithm/algorithm_functions.h": "say(cuhksz::kmpSearch(\"abcabd\", \"abd\")); say(cuhksz::editDistance(\"this\", \"thus\"));",
    "base64/base64_functions.h": "say(cuhksz::base64Encode(\"hello\").size()); say(cuhksz::base64Decode(\"aGVsbG8=\")[4]);",
    "containers/List.h": "cuhksz::List<int> l; l.push(4); l.push_front(5); l.sort(); say(l.size()); say(l.first());",
    "containers/Map.h": "cuhksz::Map<int, double> m; m[3] = 1.5; m.set(4, 2.5); say(m.size()); say(m.get(4)); say(m.contains(5));",
    "containers/MultiMap.h": "cuhksz::MultiMap<int, int> m; say(m.size()); say(m.isEmpty()); say(m.count(3));",
    "containers/MultiSet.h": "cuhksz::MultiSet<int> s; s.insert(3); s.insert(3); say(s.size()); say(s.count(3));",
    "containers/Queue.h": "cuhksz::Queue<int> q; q.enqueue(3); q.enqueue(5); say(q.dequeue()); say(q.size());",
    "containers/Set.h": "cuhksz::Set<int> s; s.insert(3); s.insert(3); say(s.size()); say(s.contains(3));",
    "containers/Stack.h": "cuhksz::Stack<int> q; q.push(3); q.push(5); say(q.pop()); say(q.size());",
    "containers/Vector.h": "cuhksz::Vector<int> v; v.push(3); v.push(5); v.insert(1, 4); say(v.get(1)); say(v.size()); say(v == v);",
    "geometry/Circle.h": "cuhksz::Circle c(2.0); say(c.getArea()); say(c.getPoint(0)[0]);",
    "geometry/Line.h": "cuhksz::Line l(cuhksz::Point<2>(0, 0), cuhksz::Point<2>(3, 4)); say(l.len()); say(disToSegment(cuhksz::Point<2>(6, 8), l));",
    "geometry/Point.h": "cuhksz::Point<2> p(1, 2), q(3, 4); say((p + q)[1]); say(p == q);",
    "graph/BST.h": "cuhksz::BST b; cuhksz::BSTNode x(3, 30), y(5, 50); b.insert(&x); b.insert(&y); say(b.find(5)->getVal()); say(b.suf(&x) == &y);",
    "graph/Edge.h": "cuhksz::Vertex a(1), b(2); { cuhksz::Edge e(&a, &b, 4); say(e.getVal()); say(e.getTo() == &b); }",
    "graph/SegmentTree.h": "std::vector<int> v(5, 2); cuhksz::SegmentTree<int> t(v); t.addInterval(1, 3, 4); say(t.querySum(0, 4)); say(t.queryMax(0, 1));",
    "graph/Tree.h": "cuhksz::Tree* t = 0; say(t == 0); cuhksz::Node n(3, 4); say(n.getVal()); say(n.getID());",
    "graph/Vertex.h": "cuhksz::Vertex a(1), b(2); a.addEdge(b, 3); say(a.getOutDegree()); say(b.getInDegree());",
    "json/Json.h": "cuhksz::JSONObject j; j[\"a\"] = 3; j[\"b\"] = \"x\"; say(j.size()); say(cuhksz::loadJSON(\"[1, 2, {}]\").size());",
    "json/json_functions.h": "say(cuhksz::jsonEscape(\"a\\\"b\").size());",
    "math_utils/BigNum.h": "cuhksz::BigNum<20> a(123456), b(1000); say((a * b == cuhksz::BigNum<20>(123456000))); say(a < b);",
    "math_utils/Fraction.h": "cuhksz::Fraction a(1, 3), b(1, 6); say((a + b).getDenominator()); say(a > b);",
    "math_utils/Matrix.h": "cuhksz::Matrix<int> a(2, 2); a[0][0] = 2; a[1][1] = 3; say((a * a)[1][1]); say(pow(a, 3)[0][0]);",
    "math_utils/math_functions.h": "say(cuhksz::gcd(12, 18)); say(cuhksz::binaryPow(3, 5)); int d[] = {1, 2, 3}; say(cuhksz::mean(d, 3)); say(cuhksz::variance(d, 3)); say(cuhksz::binomial(6, 3));",
    "network/network_functions.h": "say(cuhksz::urlEncode(\"a b\").size()); say(cuhksz::urlDecode(\"%41\")[0]);",
    "random/BernoulliDistribution.h": "cuhksz::BernoulliDistribution d(1.0); say(d.next());",
    "random/BinomialDistribution.h": "cuhksz::BinomialDistribution d(5, 1.0); say(d.next());",
    "random/ChiSquaredDistribution.h": "cuhksz::ChiSquaredDistribution d(3); say(d.next() >= 0);",
    "random/Distribution.h": "cuhksz::Distribution<int>* d = 0; say(d == 0);",
    "random/ExponentialDistribution.h": "cuhksz::ExponentialDistribution d(3); say(d.next() >= 0);",
    "random/GammaDistribution.h": "cuhksz::GammaDistribution d(3, 2); say(d.next() >= 0);",
    "random/GeometricDistribution.h": "cuhksz::GeometricDistribution d(1.0); say(d.next());",
    "random/NegativeBinomialDistribution.h": "cuhksz::NegativeBinomialDistribution d(3, 1.0); say(d.next());",
    "random/NormalDistribution.h": "cuhksz::NormalDistribution d(3, 2); say(d.next() < 1000);",
    "random/PoissonDistribution.h": "cuhksz::PoissonDistribution d(3); say(d.next() >= 0);",
    "random/Random.h": "cuhksz::Random r(5), s(5); say(r.nextInt(10, 11)); say(r.nextDouble() < 1); s.nextInt(10, 11); say(s.nextDouble() < 1);",
    "random/StudentTDistribution.h": "cuhksz::StudentTDistribution d(30); say(d.next() < 1e6);",
    "random/UniformDistribution.h": "cuhksz::UniformDistribution d(3, 4); say(d.next() >= 3);",
    "random/UniformIntDistribution.h": "cuhksz::UniformIntDistribution d(3, 4); say(d.next());",
    "random/random_functions.h": "say(cuhksz::randomInt(4, 5)); say(cuhksz::randomDouble(1) < 1);",
    "string_utils/StringCast.h": "say((int)cuhksz::stringCast<int>(\"12345\")); say(cuhksz::stringCast<double>(\"2.5\")());",
    "string_utils/Trie.h": "cuhksz::Trie t; t.insert(\"red\"); t.insert(\"blue\"); int n = 0; for (auto w : t) n += w.size(); say(n);",
    "utils/error.h": "if (argc_ > 1000) { error(\"never\"); } say(1);",
}
COLLECT = {
    "algorithm.h": "algorithm/", "base64.h": "base64/", "containers.h": "containers/", "geometry.h": "geometry/",
    "graph.h": "graph/", "json.h": "json/", "math_utils.h": "math_utils/", "network.h": "network/",
    "random.h": "random/", "string_utils.h": "string_utils/", "utils.h": "utils/",
}
STD = ["string", "vector", "iostream", "algorithm", "cmath", "map", "list", "random", "cstdlib", "climits", "memory"]
ALL = sorted(USES) + sorted(COLLECT)


def provides(h):
    if h in USES:
        return [h]
    return [u for u in sorted(USES) if u.startswith(COLLECT[h])]


def unit_text(i, u):
    """A translation unit: u = {"inc": [...], "use": [...], "ns": 0..2}"""
    t = ""
    if u["ns"] == 2:
        t += "#include <bits/stdc++.h>\nusing namespace std;\n"
    for h in u["inc"]:
        t += "#include <%s>\n" % h[1:] if h[0] == "<" else "#include \"%s\"\n" % h
    if u["ns"] == 1:
        t += "namespace cuhksz {}\nusing namespace cuhksz;\n"
    t += "void begin_(int id);\nvoid say(double);\nextern int argc_;\n"
    for k, h in enumerate(u["use"]):
        t += "static void use_%d() {\n  begin_(%d);\n  %s\n}\n" % (k, ALL.index(h), USES[h])
    t += "void unit_%d() {\n%s}\n" % (i, "".join("  use_%d();\n" % k for k in range(len(u["use"]))))
    return t


def main_text(n):
    return ("#include <stdio.h>\nint argc_;\nvoid begin_(int id) { printf(\"\\n%d\", id); }\n"
            "void say(double d) { printf(\" %.17g\", d); }\n"
            + "".join("void unit_%d();\n" % i for i in range(n))
            + "int main(int c, char**) {\n  argc_ = c;\n"
            + "".join("  unit_%d();\n" % i for i in range(n)) + "  return 0;\n}\n")


def gen(rng):
    units = []
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        inc = [rng.choice(ALL) if rng.random() < 0.8 else rng.choice(sorted(COLLECT)) for _ in range(rng.choice([1, 2, 2, 3, 4, 6]))]
        use = []
        for h in inc:
            p = provides(h)
            use += p if len(p) <= 3 else rng.sample(p, 3)
        if rng.random() < 0.25:
            inc.insert(rng.randrange(len(inc) + 1), rng.choice(inc))
        if rng.random() < 0.25:
            inc.insert(rng.randrange(len(inc) + 1), "<" + rng.choice(STD))
        units.append({"inc": inc, "use": sorted(set(use)), "ns": rng.choice([0, 0, 0, 1, 1, 2])})
    if len(units) > 1 and rng.random() < 0.5:  # the same headers in two units
        units[1] = dict(units[0], inc=rng.sample(units[0]["inc"], len(units[0]["inc"])))
    return {"units": units, "cxx": rng.choice(["g++", "g++", "clang++"]),
            "std": rng.choice(["c++11", "c++11", "c++14", "c++17"]), "opt": rng.choice(["-O0", "-O0", "-O2"])}


class World:
    def __init__(self, repo, build):
        self.repo, self.build = repo, build
        self.inc = repo + "/src/include"
        self.lib = build + "/lib.a"
        self.n = 0

    def sh(self, cmd, t=240):
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=t)
            return r.returncode, r.stdout
        except subprocess.TimeoutExpired:
            return None, "time-out"

    def library(self, workers):
        src = sorted(os.path.join(d, f) for d, _, fs in os.walk(self.repo + "/src") for f in fs if f.endswith(".cpp"))
        obj = ["%s/l%d.o" % (self.build, i) for i in range(len(src))]
        with concurrent.futures.ThreadPoolExecutor(workers) as ex:
            rs = list(ex.map(lambda p: self.sh(["g++", "-std=c++11", "-include", "stdint.h", "-O1", "-w", "-I" + self.inc, "-c", p[0], "-o", p[1]]), zip(src, obj)))
        for r, o in rs:
            if r != 0:
                raise RuntimeError("the library does not compile:\n" + o[-2000:])
        self.sh(["ar", "rcs", self.lib] + obj)

    def run(self, prog, tag):
        """(None | message, {use: line})"""
        d = "%s/p%s" % (self.build, tag)
        os.makedirs(d, exist_ok=True)
        try:
            flags = ["-std=" + prog["std"], prog["opt"], "-w", "-I" + self.inc]
            texts = [unit_text(i, u) for i, u in enumerate(prog["units"])] + [main_text(len(prog["units"]))]
            objs = []
            for i, t in enumerate(texts):
                f = "%s/u%d.cpp" % (d, i)
                open(f, "w").write(t)
                rc, out = self.sh([prog["cxx"]] + flags + ["-c", f, "-o", f + ".o"])
                if rc is None:
                    return None, None
                if rc != 0:
                    return "a translation unit does not compile:\n" + out[-1500:] + "\n" + t, {}
                objs.append(f + ".o")
            rc, out = self.sh([prog["cxx"]] + objs + [self.lib, "-o", d + "/a.out"])
            if rc is None:
                return None, None
            if rc != 0:
                return "the units do not link:\n" + out[-1500:], {}
            rc, out = self.sh([d + "/a.out"], 60)
            if rc is None:
                return None, None
            if rc != 0:
                return "the program ended with status %s:\n%s" % (rc, out[-500:]), {}
            lines = {}
            for l in out.strip().split("\n"):
                if l.strip():
                    k, _, v = l.partition(" ")
                    lines.setdefault(ALL[int(k)], set()).add(v)
            return "", lines
        finally:
            subprocess.call(["rm", "-rf", d])


def judge(world, prog, alone, tag):
    """None: no result; '': fine; else what is wrong"""
    msg, lines = world.run(prog, tag)
    if msg is None or msg:
        return msg
    for u in prog["units"]:
        for h in u["use"]:
            got = lines.get(h, set())
            if len(got) != 1 or (h in alone and got != {alone[h]}):
                return "using %s prints %s, in a program of its own %s" % (h, sorted(got), alone.get(h))
    return ""


def shrink(world, prog, alone, cap):
    t0 = time.time()
    best, k = prog, [0]

    def fails(p):
        k[0] += 1
        return bool(judge(world, p, alone, "s%d" % k[0]))

    changed = True
    while changed and time.time() - t0 < cap:
        changed = False
        cand = []
        for i in range(len(best["units"])):
            if len(best["units"]) > 1:
                cand.append(dict(best, units=best["units"][:i] + best["units"][i + 1:]))
        for i, u in enumerate(best["units"]):
            for j in range(len(u["inc"])):
                inc = u["inc"][:j] + u["inc"][j + 1:]
                have = set(x for h in inc if h[0] != "<" for x in provides(h))
                nu = dict(u, inc=inc, use=[x for x in u["use"] if x in have])
                if inc:
                    cand.append(dict(best, units=best["units"][:i] + [nu] + best["units"][i + 1:]))
            for j in range(len(u["use"])):
                nu = dict(u, use=u["use"][:j] + u["use"][j + 1:])
                cand.append(dict(best, units=best["units"][:i] + [nu] + best["units"][i + 1:]))
            if u["ns"]:
                cand.append(dict(best, units=best["units"][:i] + [dict(u, ns=0)] + best["units"][i + 1:]))
        for key, v in (("cxx", "g++"), ("std", "c++11"), ("opt", "-O0")):
            if best[key] != v:
                cand.append(dict(best, **{key: v}))
        for c in cand:
            if time.time() - t0 > cap:
                break
            if fails(c):
                best = c
                changed = True
                break
    return best


def show(prog):
    return "%s %s %s: " % (prog["cxx"], prog["std"], prog["opt"]) + " | ".join(
        " ".join(u["inc"]) + (["", " (using namespace cuhksz)", " (after bits/stdc++.h and using namespace std)"][u["ns"]]) for u in prog["units"])


def run(pid, repo, build, seed, scale, cap, workers, replay_dir, replay=None):
    t0 = time.time()
    w = World(repo, build)
    w.library(workers)
    single = [{"units": [{"inc": [h], "use": provides(h), "ns": 0}], "cxx": "g++", "std": "c++11", "opt": "-O0"} for h in ALL]
    if replay:
        prog = json.loads([l for l in open(replay) if l.startswith("program ")][0][8:])
        alone = {}
        for p in single:
            if any(p["units"][0]["inc"][0] in u["use"] for u in prog["units"]):
                m, lines = w.run(p, "r")
                for h, v in (lines or {}).items():
                    alone[h] = sorted(v)[0]
        m = judge(w, prog, alone, "x")
        for i, u in enumerate(prog["units"]):
            print("// unit %d\n%s" % (i, unit_text(i, u)))
        print(("FAILS\n" + m) if m else "passes")
        return 1 if m else 0
    t_lib = time.time() - t0
    rng = random.Random(seed * 7919 + 13)
    n = int(110 * scale)
    progs = [gen(rng) for _ in range(n)]
    alone, viol, stats, samples, unconf = {}, [], {"single_header": 0, "combinations": 0}, [], 0
    labels = {}

    def violation(prog, msg):
        if not judge(w, prog, alone, "c1") or not judge(w, prog, alone, "c2"):
            return False
        s = shrink(w, prog, alone, 60)
        m = judge(w, s, alone, "c3") or msg
        path = "%s/%s-headers.replay" % (replay_dir, pid)
        with open(path, "w") as f:
            f.write("property %s\nprogram %s\n---\n%s\n%s\n" % (pid, json.dumps(s), m, "\n".join("// unit %d\n%s" % (i, unit_text(i, u)) for i, u in enumerate(s["units"]))))
        viol.append({"facet": "headers", "replay": path, "message": show(s) + "\n" + m[:1500]})
        return True

    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        for p, (msg, lines) in zip(single, ex.map(lambda q: w.run(q[1], "a%d" % q[0]), enumerate(single))):
            stats["single_header"] += 1
            if msg and not viol:
                if not violation(p, msg):
                    unconf += 1
            for h, v in (lines or {}).items():
                if p["units"][0]["inc"] == [h]:
                    alone[h] = sorted(v)[0]
        seen = set()
        lo = 0
        while lo < n and not viol and time.time() - t0 < cap:
            part = progs[lo:lo + 4 * workers]
            for p, msg in zip(part, ex.map(lambda q: judge(w, q[1], alone, "b%d" % q[0]), enumerate(part))):
                stats["combinations"] += 1
                key = json.dumps(p, sort_keys=True)
                if msg is None:
                    unconf += 1
                    continue
                if len(p["units"]) > 1 or len(p["units"][0]["inc"]) > 1:
                    seen.add(key)
                for l in (p["cxx"], p["std"], "%d units" % len(p["units"])):
                    labels[l] = labels.get(l, 0) + 1
                if len(samples) < 8:
                    samples.append({"facet": "combinations", "trace": show(p)})
                if msg and not viol:
                    if not violation(p, msg):
                        unconf += 1
            lo += 4 * workers
    ev = stats["single_header"] + stats["combinations"]
    return {"evaluations": ev, "nontrivial": len(seen), "distinct_nontrivial": len(seen), "samples": samples,
            "facets": {k: {"evaluations": v} for k, v in stats.items()}, "labels": labels, "unconfirmed": unconf,
            "time_cap_hit": lo < n and not viol, "search_wall_s": time.time() - t0 - t_lib, "violations": viol, "known": {}}
