#!/usr/bin/env python3
"""Runs the check of one property:  python3 run.py C01 [--tier quick|thorough]

Builds the harness and /repo's sources from the working tree (in a scratch
folder that is removed at the end), searches generated cases, optionally runs a
coverage-guided stage on the same property functions, writes
evidence/<id>.json, and ends with
  exit 0  the property held on everything explored,
  exit 1  and "VIOLATION property=<id> replay=<path>",
  exit 2  the check itself could not run (e.g. /repo does not compile).

  python3 run.py --replay replays/C01-x.replay     re-runs a saved failure
"""
import concurrent.futures as cf
import glob
import importlib.util, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")      # development only; checks use /repo
sys.path.insert(0, os.path.join(HERE, "tools"))
from checks import CHECKS, COMMON_ASSUMPTIONS      # noqa: E402

NCPU = 8
GXX = ["g++", "-std=c++11", "-include", "stdint.h", "-O1", "-g1", "-w", "-fno-omit-frame-pointer",
       "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_SANITIZE_VECTOR=1",
       "-ftrivial-auto-var-init=pattern", "-fwrapv"]
CLANG = ["clang++", "-std=c++11", "-include", "stdint.h", "-O1", "-g1", "-w",
         "-fno-omit-frame-pointer", "-fsanitize=address,fuzzer-no-link", "-D_GLIBCXX_ASSERTIONS",
         "-ftrivial-auto-var-init=pattern", "-fwrapv", "-DPBT_FUZZ"]
LINK = ["-Wl,--wrap=exit", "-Wl,--wrap=time", "-Wl,--wrap=__assert_fail"]
ASAN = ("detect_leaks=0:abort_on_error=0:exitcode=86:hard_rss_limit_mb=2500:malloc_fill_byte=165:"
        "max_malloc_fill_size=4096:detect_stack_use_after_return=0:allocator_may_return_null=0:"
        "handle_abort=1:quarantine_size_mb=16:strict_string_checks=0:detect_odr_violation=0")


TSAN = ("halt_on_error=1:abort_on_error=0:exitcode=86:report_thread_leaks=0:history_size=4:"
        "second_deadlock_stack=0:report_signal_unsafe=0:die_after_fork=0")


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          errors="replace", **kw)


def compile_all(chk, build, fuzz):
    """-> (pbt binary, fuzz binary or None); raises RuntimeError when the gcc build fails"""
    srcs = sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True))
    inc = ["-I" + REPO + "/src/include", "-I" + HERE + "/harness"]
    harness = HERE + "/harness/" + chk["src"]
    defs = chk.get("defs", [])
    gxx = GXX
    if chk.get("tsan"):
        gxx = ["-fsanitize=thread" if f == "-fsanitize=address" else f for f in GXX
               if "SANITIZE_VECTOR" not in f] + ["-pthread"]
    jobs = []
    for kind, cc in (("g", gxx),) + ((("c", CLANG),) if fuzz else ()):
        for n, s in enumerate([harness] + srcs):
            o = "%s/%s%03d.o" % (build, kind, n)
            jobs.append((kind, o, cc + defs + inc + ["-c", s, "-o", o]))
    bad = {"g": None, "c": None}

    def build_one(j):
        r = sh(j[2])
        if r.returncode and harness in j[2]:
            # generic code that now compiles for the built-in types only is judged on those
            p = sh(j[2] + ["-DVERIF_PLAIN"])
            if p.returncode == 0:
                log("note: the harness compiles for built-in element types only (%s)" % r.stdout[:300])
                return p
        return r
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for (kind, o, cmd), r in zip(jobs, ex.map(build_one, jobs)):
            if r.returncode:
                bad[kind] = bad[kind] or (" ".join(cmd) + "\n" + r.stdout[-3000:])
    if bad["g"]:
        raise RuntimeError("build failed:\n" + bad["g"])
    objs = lambda k: [o for kk, o, _ in jobs if kk == k]
    r = sh(["g++"] + [f for f in gxx if f.startswith("-fsanitize=") or f == "-pthread"] + objs("g") + LINK + chk.get("link", []) + ["-o", build + "/pbt"])
    if r.returncode:
        raise RuntimeError("link failed:\n" + r.stdout[-3000:])
    fz = None
    if fuzz and not bad["c"]:
        r = sh(["clang++", "-fsanitize=address,fuzzer"] + objs("c") + LINK + ["-o", build + "/fuzz"])
        if r.returncode == 0:
            fz = build + "/fuzz"
        else:
            log("note: fuzz link failed, coverage-guided stage skipped:", r.stdout[-800:])
    elif bad["c"]:
        log("note: clang build failed, coverage-guided stage skipped:", bad["c"][-800:])
    return build + "/pbt", fz


def fuzz_stage(pid, chk, fz, pbt, build, seed, secs, facets, replay_dir, env):
    """8 libFuzzer processes over the facets; -> (stats, violations)"""
    n = max(NCPU, len(facets)) if secs >= 30 else NCPU
    work = [(facets[i % len(facets)], i) for i in range(n)]
    if n > NCPU:
        secs = secs * NCPU / n
    def one(w):
        facet, i = w
        d = "%s/fz%d" % (build, i)
        os.makedirs(d + "/corpus", exist_ok=True)
        # seeds: deterministic pseudo-random byte strings so that structure is reached at once
        import random
        rnd = random.Random("%d/%d/%s" % (seed, i, facet))
        for k in range(24):
            with open("%s/corpus/s%d" % (d, k), "wb") as f:
                f.write(bytes(rnd.randrange(256) for _ in range(rnd.choice([8, 40, 150, 600, 2000]))))
        e = dict(env, PBT_FACET=facet)
        cmd = [fz, "-max_total_time=%d" % max(3, int(secs)), "-timeout=25", "-rss_limit_mb=3500",
               "-seed=%d" % (seed * 1000 + i + 1), "-print_final_stats=1", "-max_len=3000", "-len_control=20",
               "-use_value_profile=%d" % (i % 2), "-reload=0", "-artifact_prefix=%s/" % d, "-close_fd_mask=3",
               d + "/corpus"]
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               errors="replace", env=e, timeout=secs + 90, cwd=d)
            outp = r.stdout
        except subprocess.TimeoutExpired as x:
            outp = (x.stdout or b"").decode("utf8", "replace") if isinstance(x.stdout, bytes) else (x.stdout or "")
        m = re.search(r"stat::number_of_executed_units:\s*(\d+)", outp)
        ex = int(m.group(1)) if m else 0
        if not ex:
            h = re.findall(r"^#(\d+)\s", outp, re.M)
            ex = int(h[-1]) if h else 0
        c = re.findall(r"cov: (\d+)", outp)
        arts = [a for a in glob.glob(d + "/crash-*") + glob.glob(d + "/timeout-*") + glob.glob(d + "/oom-*")]
        return facet, ex, int(c[-1]) if c else 0, len(os.listdir(d + "/corpus")), arts
    stats, viol = {}, []
    with cf.ThreadPoolExecutor(NCPU) as exr:
        for facet, ex, cov, corp, arts in exr.map(one, work):
            s = stats.setdefault(facet, {"executions": 0, "edges_covered": 0, "corpus": 0, "unconfirmed_artifacts": 0})
            s["executions"] += ex
            s["edges_covered"] = max(s["edges_covered"], cov)
            s["corpus"] += corp
            for a in arts:
                if viol:
                    break
                out = build + "/bytes.json"
                if os.path.exists(out):
                    os.remove(out)
                r = sh([pbt, "--bytes", a, "--facet", facet, "--property", pid, "--replay-dir", replay_dir,
                        "--out", out, "--shrink-cap", "20"], env=env)
                try:
                    v = json.load(open(out))["violations"]
                except Exception:
                    v = []
                if v:
                    viol += v
                else:
                    s["unconfirmed_artifacts"] += 1
    return stats, viol


def main():
    t0 = time.time()
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i:i + 2]
    replay = None
    if a and a[0] == "--self-check":
        for t in ("g++", "clang++"):
            if not shutil.which(t):
                log("missing tool: " + t)
                return 2
        missing = [c["src"] for c in CHECKS.values() if not os.path.exists(HERE + "/harness/" + c["src"])]
        if missing:
            log("missing harnesses: %s" % missing)
            return 2
        print("%d checks" % len(CHECKS))
        return 0
    if a and a[0] == "--replay":
        replay = os.path.abspath(a[1])
        pid = re.search(r"^property (\S+)", open(replay).read(), re.M).group(1)
    else:
        pid = a[0]
    extra = a[1:] if not replay else []
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    chk = CHECKS[pid]
    os.makedirs(HERE + "/evidence", exist_ok=True)
    os.makedirs(HERE + "/replays", exist_ok=True)
    os.makedirs(HERE + "/build", exist_ok=True)
    build = tempfile.mkdtemp(prefix=pid + "-", dir=HERE + "/build")
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(2))
    try:
        return check(pid, chk, tier, seed, build, t0, replay, extra)
    except RuntimeError as e:
        log(str(e))
        return 2
    finally:
        shutil.rmtree(build, ignore_errors=True)


def check(pid, chk, tier, seed, build, t0, replay, extra):
    env = dict(os.environ, ASAN_OPTIONS=ASAN, TSAN_OPTIONS=TSAN, LC_ALL="C")
    env.pop("PBT_FACET", None)
    q = chk.get(tier, {})
    fuzz_s = q.get("fuzz_s", {"quick": 8, "thorough": 240}[tier])
    nofuzz = "--no-fuzz" in extra or replay or not fuzz_s
    if chk["src"].endswith(".py"):
        return check_py(pid, chk, tier, seed, build, t0, replay)
    if chk.get("c_locale"):
        # a locale of the C library with another decimal point; without it the harness uses C++ locales only
        os.makedirs(build + "/locale")
        r = sh(["localedef", "--no-archive", "-f", "UTF-8", "-i", "de_DE", build + "/locale/de_DE.UTF-8"]) \
            if shutil.which("localedef") else None
        if os.path.exists(build + "/locale/de_DE.UTF-8/LC_NUMERIC"):
            env["LOCPATH"] = build + "/locale"
        else:
            log("note: no C locale could be made:", r.stdout[-300:] if r else "no localedef")
    pbt, fz = compile_all(chk, build, not nofuzz)
    t_build = time.time() - t0
    replay_dir = HERE + "/replays"
    if replay:
        return subprocess.call([pbt, "--replay", replay], env=env)
    scale = q.get("scale", {"quick": 1, "thorough": 15}[tier])
    cap = q.get("cap", {"quick": 150, "thorough": 1500}[tier])
    out = build + "/result.json"
    cmd = [pbt, "--seed", str(seed), "--scale", str(scale), "--time-cap", str(cap), "--workers", str(NCPU),
           "--property", pid, "--replay-dir", replay_dir, "--out", out, "--shrink-cap", "20"]
    for x in extra:
        if x.startswith("--only="):
            cmd += ["--only", x[7:]]
    r = sh(cmd, env=env)
    if r.stdout.strip():
        log(r.stdout[-3000:])
    if r.returncode not in (0, 1) or not os.path.exists(out):
        raise RuntimeError("harness ended with %s\n%s" % (r.returncode, r.stdout[-2000:]))
    res = json.load(open(out))
    viol = res["violations"]
    fstats = {}
    if fz and not viol:
        lst = [l.split() for l in sh([pbt, "--list"], env=env).stdout.split("\n") if l.strip()]
        names = [l[0] for l in lst if l[2] == "-"]
        only = chk.get("fuzz_facets")
        if only:
            names = [n for n in names if n in only]
        names = [n for n in names if n not in chk.get("nofuzz_facets", [])]
        # bulk inputs are too slow to mutate byte by byte
        names = [n for n in names if not re.search(r"huge|large_|many_nodes|long_text", n)]
        if names:
            fstats, viol = fuzz_stage(pid, chk, fz, pbt, build, seed, fuzz_s, names, replay_dir, env)
    return report(pid, chk, tier, seed, res, viol, fstats, t0, t_build)


def check_py(pid, chk, tier, seed, build, t0, replay):
    """A harness whose cases are whole programs."""
    spec = importlib.util.spec_from_file_location(pid, HERE + "/harness/" + chk["src"])
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    os.environ["LC_ALL"] = "C"
    q = chk.get(tier, {})
    scale = q.get("scale", {"quick": 1, "thorough": 15}[tier])
    cap = q.get("cap", {"quick": 150, "thorough": 1500}[tier])
    res = mod.run(pid, REPO, build, seed, scale, cap, NCPU, HERE + "/replays", replay)
    if replay:
        return res
    return report(pid, chk, tier, seed, res, res["violations"], {}, t0, time.time() - t0 - res["search_wall_s"])


def report(pid, chk, tier, seed, res, viol, fstats, t0, t_build):
    known = []
    for kid, failing in sorted(res.get("known", {}).items()):
        known.append({"id": kid, "still_fails": failing})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": res["evaluations"],
            "distinct_nontrivial": res["distinct_nontrivial"],
            "rule": chk["rule"],
            "samples": res["samples"][:12] or [{"note": "no sample"}],
            "facets": res["facets"],
            "labels": res["labels"],
            "oracle": chk["oracle"],
            "coverage_guided": fstats,
            "coverage_guided_executions": sum(s["executions"] for s in fstats.values()),
            "unconfirmed_failures": res["unconfirmed"],
            "case_budget_exhausted_before_time_cap": not res["time_cap_hit"],
            "build_s": round(t_build, 1), "search_s": round(res["search_wall_s"], 1),
        },
        "assumptions": COMMON_ASSUMPTIONS + chk.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    if known:
        ev["coverage"]["known_findings"] = known
    tmp = HERE + "/evidence/%s.json.tmp" % pid
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, HERE + "/evidence/%s.json" % pid)
    listed = known_findings(pid)
    rc = 0
    for k in known:
        if k["still_fails"] and k["id"] in listed:
            print("KNOWN-FINDING: property=%s %s" % (pid, listed[k["id"]]))
        elif k["still_fails"]:
            viol.append({"facet": k["id"], "replay": HERE + "/known-findings.txt", "message": "not listed"})
    for v in viol:
        log("facet %s: %s" % (v["facet"], v["message"]))
        print("VIOLATION property=%s replay=%s" % (pid, v["replay"]))
        rc = 1
    print("%s %s: %s; %d cases, %d distinct non-trivial, %d fuzz executions, %.1fs (build %.1fs)" % (
        pid, tier, "VIOLATED" if rc else "held", res["evaluations"], res["distinct_nontrivial"],
        ev["coverage"]["coverage_guided_executions"], time.time() - t0, t_build))
    return rc


def known_findings(pid):
    r = {}
    try:
        for line in open(HERE + "/known-findings.txt"):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                r[m.group(2)] = m.group(3).strip()
    except FileNotFoundError:
        pass
    return r


if __name__ == "__main__":
    sys.exit(main())
