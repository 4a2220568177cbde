#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--unit NAME] [--build-only]

Builds the harnesses of one property from /repo's current working tree, runs
them under their instrumentation, and turns what the monitors observed into a
verdict: exit 0 (held on everything observed), exit 1 with a VIOLATION line,
or exit 3 (no verdict: the machinery itself failed).
"""
import argparse, concurrent.futures as cf, hashlib, json, os, re, shlex, signal, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
sys.path.insert(0, os.path.join(ROOT, "lib"))
import specs  # noqa: E402

GEN = os.path.join(BUILD, "gen")


def gen_config():
    """ristra-config.h, from the repository's own template."""
    on = {"RISTRA_DOUBLE_PRECISION", "RISTRA_ENABLE_PYTHON", "RISTRA_ENABLE_LUA",
          "RISTRA_ENABLE_EXCEPTIONS", "RISTRA_DBC_REQUIRE"}
    txt = open(os.path.join(REPO, "ristra/ristra-config.h.in")).read()
    txt = txt.replace("@RISTRA_TEST_TOLERANCE@", "1.0e-14")
    txt = re.sub(r"#cmakedefine (\w+)",
                 lambda m: "#ifndef %s\n#define %s\n#endif" % (m.group(1), m.group(1)) if m.group(1) in on
                 else "/* #undef %s */" % m.group(1), txt)
    d = os.path.join(GEN, "ristra")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "ristra-config.h")
    if not os.path.exists(p) or open(p).read() != txt:
        tmp = p + ".%d" % os.getpid()
        open(tmp, "w").write(txt)
        os.replace(tmp, p)


class Infra(Exception):
    pass


def beat(casef):
    """how far a running harness has come (see vmon.h)"""
    try:
        with open(casef, "rb") as f:
            f.seek(8184)
            return f.read(8)
    except OSError:
        return b""


def sh(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)


def compile_one(src, cxx, flags, tag):
    """Compile one translation unit; the object is keyed by its preprocessed text."""
    base = [cxx] + flags
    pp = subprocess.run(base + ["-E", "-P", src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if pp.returncode != 0:
        raise Infra("preprocessing %s failed:\n%s" % (src, pp.stderr.decode(errors="replace")[-4000:]))
    # -P drops line markers, which __LINE__ users and reports need: keep them out of the key only
    key = hashlib.sha256((" ".join(base) + src).encode() + pp.stdout).hexdigest()[:24]
    obj = os.path.join(BUILD, "obj", key + ".o")
    if not os.path.exists(obj):
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        tmp = obj + ".%d.tmp" % os.getpid()
        r = sh(base + ["-c", src, "-o", tmp])
        if r.returncode != 0:
            raise Infra("compiling %s [%s] failed:\n%s" % (src, tag, r.stdout.decode(errors="replace")[-6000:]))
        os.replace(tmp, obj)
    return obj


def build_unit(prop, u):
    v = specs.VARIANTS[u["variant"]]
    flags = v["flags"] + specs.COMMON_FLAGS(REPO, GEN, ROOT) + u.get("flags", [])
    objs = []
    for s in u["src"]:
        p = s if os.path.isabs(s) else (os.path.join(REPO, s[len("repo:"):]) if s.startswith("repo:")
                                        else os.path.join(ROOT, "harness", s))
        objs.append((p, flags))
    exe = os.path.join(BUILD, "bin", prop, u["name"])
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    return v, objs, exe


SAN = re.compile(r"(ERROR: AddressSanitizer[^\n]*|ERROR: LeakSanitizer[^\n]*|WARNING: ThreadSanitizer[^\n]*|"
                 r"runtime error: [^\n]*|terminate called[^\n]*|Assertion [^\n]*failed[^\n]*|"
                 r"WARNING: MemorySanitizer[^\n]*)")


def run_unit(prop, u, exe, seed, tier, logdir):
    v = specs.VARIANTS[u["variant"]]
    tag = "%s.s%d" % (u["name"], seed)
    out = os.path.join(logdir, tag + ".json")
    casef = os.path.join(logdir, tag + ".case")
    log = os.path.join(logdir, tag + ".log")
    scale = u.get("scale", 1.0) * (u.get("tscale", 4.0) if tier == "thorough" else 1.0)
    scratch = os.path.join(logdir, tag + ".scratch")
    os.makedirs(scratch, exist_ok=True)
    cmd = [exe, "--seed", str(seed), "--scale", "%g" % scale, "--tier", tier, "--out", out, "--casefile", casef]
    cmd += u.get("args", [])
    pre = list(v.get("wrap", []))
    env = dict(os.environ)
    env.update(specs.ENV)
    env.update(v.get("env", {}))
    env.update(u.get("env", {}))
    env["VMON_SCRATCH"] = scratch
    timeout = u.get("timeout", 120) * (3 if tier == "thorough" else 1)  # seconds without any progress
    limit = 700 if tier == "quick" else max(3 * timeout, 7200)
    res = {"unit": u["name"], "seed": seed, "variant": u["variant"], "cmd": cmd, "log": log, "viol": []}
    fatal = 0
    hangs = 0
    tries = 0
    while True:
        tries += 1
        for f in (out, casef):
            if os.path.exists(f):
                os.remove(f)
        t0 = time.time()
        with open(log, "wb") as lf:
            p = subprocess.Popen(pre + cmd, stdout=lf, stderr=subprocess.STDOUT, cwd=scratch, env=env,
                                 start_new_session=True)
            rc, slow, seen, moved = None, False, -1, time.time()
            while rc is None:
                try:
                    rc = p.wait(timeout=2)
                except subprocess.TimeoutExpired:
                    b = beat(casef)
                    if b != seen:
                        seen, moved = b, time.time()
                    slow = time.time() - t0 > limit
                    if slow or time.time() - moved > timeout:
                        os.killpg(p.pid, signal.SIGKILL)
                        p.wait()
                        break
        res["wall"] = time.time() - t0
        txt = open(log, errors="replace").read()
        case = ""
        if os.path.exists(casef):
            case = open(casef, "rb").read().split(b"\0")[0].decode(errors="replace")
        res["case"] = case
        if rc is None and slow:
            raise Infra("%s went on for more than %d s without finishing (machine too busy?)" % (tag, limit))
        if rc is None:
            hangs += 1
            if hangs < 2:
                continue
            res["viol"].append(("hang:" + u["name"], "no progress within %d s, twice; last case: %s" % (timeout, case)))
            return res
        if "FATAL: ThreadSanitizer: unexpected memory mapping" in txt or "FATAL: MemorySanitizer" in txt or \
                "LeakSanitizer has encountered a fatal error" in txt:
            fatal += 1
            if "LeakSanitizer has encountered" in txt:
                env["ASAN_OPTIONS"] = env.get("ASAN_OPTIONS", "") + ":detect_leaks=0"
            if fatal < 6:
                continue
            raise Infra("sanitizer runtime cannot start: " + txt[-800:])
        if rc == -9 and tries < 3:
            continue
        break
    res["rc"] = rc
    data = None
    if os.path.exists(out):
        try:
            data = json.load(open(out))
        except ValueError:
            data = None
    res["data"] = data
    if rc in (0, 10) and data is None:
        raise Infra("%s produced no summary (rc %s)\n%s" % (tag, rc, txt[-2000:]))
    if rc in (64, 70, 126, 127) and not SAN.search(txt):
        raise Infra("%s: harness failure rc=%s\n%s" % (tag, rc, txt[-3000:]))
    if rc == 10:
        for x in data["violations"]:
            res["viol"].append((x["key"], x["first"]))
    elif rc != 0:
        for x in re.finditer(r"^VMON-VIOLATION key=(.*?) :: (.*)$", txt, re.M):  # reported before it died
            res["viol"].append((x.group(1), x.group(2)))
        m = SAN.search(txt)
        what = m.group(1) if m else "process died (rc %s)" % rc
        fr = ""
        for fm in re.finditer(r"#\d+ 0x[0-9a-f]+ in ([^\n]*?) (/[^\s:]+):(\d+)", txt):
            if fm.group(2).startswith(REPO + "/"):
                fr = os.path.basename(fm.group(2))
                break
        if not fr:
            fm = re.search(re.escape(REPO) + r"/([^\s:]+):(\d+)", txt)
            fr = os.path.basename(fm.group(1)) if fm else ""
        kind = re.sub(r"0x[0-9a-f]+|\d+", "N", what)[:80]
        kind = re.sub(r"[^A-Za-z]+", "-", kind).strip("-")
        res["viol"].append(("crash:%s:%s:%s" % (u["name"], kind, fr),
                            "%s; case: %s" % (what, case)))
    return res


def known():
    """known-findings.txt: 'KNOWN property=<id> key=<key> <what>' suppresses exactly that key."""
    kn = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"KNOWN property=(\w+) key=(\S+) (.*)", line.strip())
            if m:
                kn.append(m.groups())
    return kn


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--tier", default="quick", choices=["quick", "thorough"])
    ap.add_argument("--unit")
    ap.add_argument("--build-only", action="store_true")
    ap.add_argument("--seeds")
    a = ap.parse_args()
    t0 = time.time()
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    gen_config()
    if a.setup:
        for v in sorted(set(u["variant"] for p in specs.PROPS.values() for u in p["units"])):
            x = specs.VARIANTS[v]
            r = sh([x["cxx"]] + x["flags"] + ["-x", "c++", "-c", "/dev/null", "-o", os.path.join(BUILD, "probe.o")])
            if r.returncode != 0:
                raise Infra("variant %s: the compiler does not work: %s" % (v, r.stdout.decode()))
        print("toolchain present; harnesses are built by each check from the current tree")
        return 0
    P = specs.PROPS[a.prop]
    units = [u for u in P["units"] if (a.tier == "thorough" or not u.get("thorough_only"))
             and (not a.unit or u["name"] == a.unit)]
    jobs = []
    plan = []
    todo = {}
    for u in units:
        v, objs, exe = build_unit(a.prop, u)
        plan.append((u, v, objs, exe))
        for (p, flags) in objs:
            todo[(p, v["cxx"], tuple(flags))] = u["name"]
    nw = int(os.environ.get("VERIF_JOBS", "8"))
    built = {}
    with cf.ThreadPoolExecutor(nw) as ex:
        futs = {k: ex.submit(compile_one, k[0], k[1], list(k[2]), t) for k, t in todo.items()}
        for k, f in futs.items():
            built[k] = f.result()

        def link(u, v, objs, exe):
            os_ = [built[(p, v["cxx"], tuple(fl))] for (p, fl) in objs]
            r = sh([v["cxx"]] + v["flags"] + os_ + ["-o", exe] + u.get("libs", []) + v.get("libs", []) + ["-lpthread"])
            if r.returncode != 0:
                raise Infra("linking %s failed:\n%s" % (exe, r.stdout.decode(errors="replace")[-4000:]))
        for f in [ex.submit(link, *x) for x in plan]:
            f.result()
    tb = time.time() - t0
    if a.build_only:
        print("built %d unit(s) of %s in %.1f s" % (len(plan), a.prop, tb))
        return 0
    logdir = os.path.join(BUILD, "log", a.prop)
    subprocess.run(["rm", "-rf", logdir])
    os.makedirs(logdir)
    results = []
    if a.seeds:
        seeds = [int(x) for x in a.seeds.split(",")]
    else:
        seeds = [seed] if a.tier == "quick" else [seed + 1000 * k for k in range(P.get("thorough_seeds", 3))]
    # units that run their own threads take the machine for themselves; the rest share it
    with cf.ThreadPoolExecutor(nw) as ex:
        fs = [ex.submit(run_unit, a.prop, u, exe, s, a.tier, logdir)
              for (u, v, o, exe) in plan for s in seeds if not u.get("exclusive")]
        for f in fs:
            results.append(f.result())
    for (u, v, o, exe) in plan:
        if u.get("exclusive"):
            for s in seeds:
                if any(k.startswith("hang:") for r in results for k, _ in r["viol"]):
                    continue  # a hang has been shown; do not spend the time limit on showing it again
                results.append(run_unit(a.prop, u, exe, s, a.tier, logdir))

    kn = known()
    viols, knownhits = [], []
    for r in results:
        for key, what in r["viol"]:
            hit = [k for k in kn if k[0] == a.prop and k[1] == key]
            if hit:
                knownhits.append((hit[0][1], hit[0][2]))
            else:
                viols.append((key, what, r))
    for k, w in sorted(set(knownhits)):
        print("KNOWN-FINDING: property=%s %s (%s)" % (a.prop, w, k))

    # evidence, from what the monitors reported on this run
    ev = sum((r.get("data") or {}).get("evaluations", 0) for r in results)
    di = 0
    seen_src = {}
    counters, samples, per = {}, [], []
    for r in results:
        d = r.get("data") or {}
        # several variants of one harness replay the same cases: count distinct cases once per workload and seed
        wl = next(u.get("workload", u["name"]) for u in units if u["name"] == r["unit"])
        kk = (wl, r["seed"])
        seen_src[kk] = max(seen_src.get(kk, 0), d.get("distinct", 0))
        for k, c in d.get("counters", {}).items():
            counters[k] = counters.get(k, 0) + c
        for s in d.get("samples", []):
            if s not in samples and len(samples) < 10:
                samples.append(s)
        per.append({"unit": r["unit"], "variant": r["variant"], "seed": r["seed"], "rc": r.get("rc"),
                    "cases": d.get("cases", 0), "oracle_evaluations": d.get("evaluations", 0),
                    "distinct": d.get("distinct", 0), "wall_s": round(r.get("wall", 0), 2)})
    di = sum(seen_src.values())
    e = {"property": a.prop, "tier": a.tier, "seed": seed, "level": "exploration",
         "coverage": {"evaluations": ev, "distinct_nontrivial": di, "rule": P["rule"],
                      "samples": samples or ["(no run completed)"],
                      "observed_events": counters, "runs": per,
                      "instrumentation": sorted(set(u["variant"] for u in units))},
         "assumptions": P.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
         "violations": len(viols)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", a.prop + ".json"), "w") as f:
        json.dump(e, f, indent=1)
        f.write("\n")

    if viols:
        rd = os.path.join(ROOT, "replay")
        os.makedirs(rd, exist_ok=True)
        seen = set()
        for key, what, r in viols:
            if key in seen:
                continue
            seen.add(key)
            name = "%s-%s" % (a.prop, re.sub(r"[^A-Za-z0-9_.-]+", "_", key)[:80])
            rp = os.path.join(rd, name + ".sh")
            with open(rp, "w") as f:
                f.write("#!/bin/sh\n# property %s, monitor key %s\n# observed: %s\n" %
                        (a.prop, key, what.replace("\n", " ")[:3000]))
                f.write("# rebuild and run the same unit on the same seed:\n")
                f.write("VERIF_SEED=%d exec python3 %s %s --tier %s --unit %s --seeds %d\n" %
                        (r["seed"], os.path.join(ROOT, "check.py"), a.prop, a.tier, r["unit"], r["seed"]))
                f.write("# --- log tail ---\n")
                for line in open(r["log"], errors="replace").read()[-6000:].splitlines():
                    f.write("# " + line + "\n")
            os.chmod(rp, 0o755)
            print("%s: %s: %s" % (a.prop, key, what[:700]))
            print("VIOLATION property=%s replay=%s" % (a.prop, rp))
        return 1
    print("%s held: %d oracle evaluations, %d distinct cases, %d runs, build %.0f s, total %.0f s" %
          (a.prop, ev, di, len(results), tb, time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Infra as x:
        print("NO VERDICT: %s" % x)
        sys.exit(3)
