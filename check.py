#!/usr/bin/env python3
"""Decides one property:  check.py PROPERTY [--tier quick|thorough] [--case N]

For every case of the property: regenerate the LLVM IR of the code under test from
/repo, execute the harness symbolically (all inputs within the bounds), let the SMT
solver decide every assertion on every path, and replay what it found on natively
compiled, unmodified code.  Exit 0: held on everything explored.  Exit 1: VIOLATION.
Exit 2: the check itself could not decide.
"""
import hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, threading, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import build
from props import PROPS

VERIF = build.VERIF
T0 = time.time()


class Undecided(Exception):
    pass


def sources_hash(files):
    h = hashlib.sha256()
    for root in files:
        if os.path.isfile(root):
            h.update(root.encode()); h.update(open(root, "rb").read())
            continue
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "__pycache__"))
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                if not os.path.islink(p):
                    h.update(open(p, "rb").read())
    return h.hexdigest()


def prepare(harnesses):
    """Builds engine, IR and replay binaries (in parallel); returns {harness: dir}."""
    jobs, res, errs = [], {}, []
    def job(f, *a):
        def g():
            try:
                f(*a)
            except Exception as e:
                errs.append(e)
        t = threading.Thread(target=g); t.start(); jobs.append(t)
    job(build.engine)
    for h, with_c in harnesses:
        src = os.path.join(VERIF, "harness", h + ".rs")
        out = os.path.join(VERIF, "build", "h", h)
        res[h] = out
        stamp = os.path.join(out, "stamp")
        key = sources_hash([os.path.join(build.REPO, "graphrox-rs", "src"), os.path.join(build.REPO, "graphrox-c", "src"), os.path.join(VERIF, "rt"),
                            os.path.join(VERIF, "harness"), os.path.join(VERIF, "lib", "build.py")])
        if os.path.exists(stamp) and open(stamp).read() == key:
            continue
        shutil.rmtree(out, ignore_errors=True)
        def all_of(src=src, out=out, c=with_c, stamp=stamp, key=key):
            ts, es = [], []
            def one(f, *a):
                try:
                    f(*a)
                except Exception as e:
                    es.append(e)
            for f, a in ((build.ir, (src, out, c)), (build.native, (src, out, "dev", c)), (build.native, (src, out, "release", c))):
                t = threading.Thread(target=one, args=(f,) + a); t.start(); ts.append(t)
            for t in ts:
                t.join()
            if es:
                raise es[0]
            open(stamp, "w").write(key)
        job(all_of)
    for t in jobs:
        t.join()
    if errs:
        raise Undecided(str(errs[0]))
    return res


def native(binary, fn, inputs, params, timeout=30):
    """Runs a recorded assignment on the real code; returns (verdict, text, logs)."""
    arg = ",".join("%s:%s" % (w, v) for w, v in inputs)
    d = tempfile.mkdtemp(prefix="vreplay")
    # replays may not take the machine's memory (the executor fails allocations far smaller than this)
    space = 4 if not params.get("vast") else params["vast"] + 12
    limit = None if os.path.basename(os.path.dirname(binary)) == "asan" else lambda: resource.setrlimit(resource.RLIMIT_AS, (space << 30, space << 30))
    try:
        r = subprocess.run([binary, fn, arg] + ["%s=%s" % kv for kv in params.items()], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, preexec_fn=limit)
    except subprocess.TimeoutExpired:
        return "hang", "no termination in %d s" % timeout, []
    finally:
        shutil.rmtree(d, ignore_errors=True)
    out = r.stdout.decode(errors="replace")
    logs = [l.split("\t")[1] for l in out.splitlines() if l.startswith("LOG\t")]
    if r.returncode == 10:
        ls = [l for l in out.splitlines() if l.startswith(("CHECK\t", "PANIC\t"))]
        return "fail", ls[-1] if ls else "check failed", logs
    if r.returncode < 0:
        return "fail", "killed by signal %d: %s" % (-r.returncode, r.stderr.decode(errors="replace")[-300:]), logs
    if r.returncode == 0:
        return "ok", "", logs
    return "diverged", out[-200:], logs


ASAN = {}


def asan_binary(h, with_c):
    if h not in ASAN:
        try:
            ASAN[h] = build.native_asan(os.path.join(VERIF, "harness", h + ".rs"), os.path.join(VERIF, "build", "h", h), with_c)
        except build.BuildError as e:
            print("note: no sanitizer build (%s)" % str(e)[:200]); ASAN[h] = None
    return ASAN[h]


def reproduce(case, d, inputs, params, memory):
    """Replays a counterexample; hash iteration order varies per process, so several times."""
    name = case["harness"]
    bins = [(p, os.path.join(d, p, name)) for p in ("dev", "release")]
    for rep in range(12):
        for p, b in bins:
            v, text, _ = native(b, case["fn"], inputs, params, 20 if rep == 0 else 5)
            if v in ("fail", "hang"):
                return p, text
    if memory:
        b = asan_binary(name, case.get("c", False))
        if b:
            for rep in range(4):
                v, text, _ = native(b, case["fn"], inputs, params, 60)
                if v in ("fail", "hang"):
                    return "asan", text
    return None


def known_findings():
    """finding: property=<id> fn=<harness fn> msg=<substring> — text   (fixed: lines suppress nothing)"""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) fn=(\S+) msg=\[(.*?)\] (.*)", l)
            if m:
                out.append(m.groups())
    return out


def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    only = int(args[args.index("--case") + 1]) if "--case" in args else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = PROPS[prop]
    if "run" in spec:                     # Python front end has a driver of its own
        return subprocess.call(["python3-vt", "-B", os.path.join(VERIF, "lib", spec["run"]), prop, tier, str(seed)])
    cases = []
    for i, c in enumerate(spec["cases"]):
        bounds = c.get(tier, c.get("quick"))
        if bounds is None or (only is not None and i != only):
            continue
        cases.append(dict(c, bounds=bounds, idx=i))
    dirs = prepare(sorted({(c["harness"], c.get("c", False)) for c in cases}))
    eng = os.path.join(VERIF, "build", "engine", "release", "llsym")
    budget = {"quick": 560, "thorough": 6 * 3600}[tier]
    tot = dict(paths=0, infeasible=0, forks=0, merges=0, instructions=0, queries=0, queries_int=0, sat=0, unsat=0, solver_ms=0, checks_solver=0, checks_trivial=0)
    slow, per, funcs, samples, notes = 0, [], set(), [], []
    found, undecided, known, validated, incomplete = [], [], [], 0, []
    for c in cases:
        left = budget - (time.time() - T0)
        lim = min(c.get("time", {"quick": 200, "thorough": 1500}[tier]), left)
        if lim < 5 or found:
            if not found:
                incomplete.append("%s: not started, time budget used up" % c["fn"])
            continue
        params = {k: v for k, v in c["bounds"].items() if k != "merge"}
        outp = os.path.join(VERIF, "build", "out-%s-%d.json" % (prop, c["idx"]))
        if os.path.exists(outp):
            os.remove(outp)
        cmd = [eng, os.path.join(dirs[c["harness"]], c["harness"] + ".ll"), c["fn"], "--out", outp, "--workers", str(os.cpu_count() or 8), "--time", str(int(lim)),
               "--merge", str(c["bounds"].get("merge", c.get("merge", 1)))]
        for k, v in params.items():
            cmd += ["--param", "%s=%d" % (k, v)]
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=lim + 90)
        except subprocess.TimeoutExpired:
            incomplete.append("%s %s: engine overran its time limit" % (c["fn"], params)); continue
        if not os.path.exists(outp):
            undecided.append("%s: engine ended with %d: %s" % (c["fn"], r.returncode, r.stdout.decode(errors="replace")[-300:])); continue
        j = json.load(open(outp))
        for k in tot:
            tot[k] += j[k]
        slow = max(slow, j["slowest_ms"])
        d = dirs[c["harness"]]
        for f, l, n in j["lines"]:
            if "graphrox-rs/" in f or "graphrox-c/" in f or "graphrox_rs" in f:
                funcs.add(n)
        per.append(dict(harness=c["fn"], bounds=params, merge=int(cmd[cmd.index("--merge") + 1]), paths=j["paths"], queries=j["queries"], solver_ms=j["solver_ms"], wall_ms=j["wall_ms"], reached=j["covers"], assertions=j["checks"]))
        real = [e for e in j["errors"] if not e.startswith("incomplete")]
        if len(real) != len(j["errors"]):
            incomplete.append("%s %s: time budget exhausted after %d paths" % (c["fn"], params, j["paths"]))
        # counterexamples
        seen = {}
        for v in j["violations"]:
            if seen.get(v["msg"], 0) >= 2 or len(found) >= 4:
                continue
            seen[v["msg"]] = seen.get(v["msg"], 0) + 1
            rep = reproduce(c, d, v["inputs"], params, v["kind"] not in ("check", "panic", "limit"))
            if rep is None:
                (incomplete if c.get("soft") and (v["kind"] == "limit" or params.get("vast")) else undecided).append("%s: counterexample did not reproduce natively: %s: %s inputs=%s" % (c["fn"], v["msg"], v["where"][:300], v["inputs"])); continue
            k = [f for f in known_findings() if f[0] == prop and f[1] == c["fn"] and f[2] in v["msg"]]
            if k:
                known.append(k[0][3]); continue
            found.append(dict(property=prop, harness=c["harness"], fn=c["fn"], params=params, message=v["msg"], where=v["where"], inputs=v["inputs"], observed="%s build: %s" % rep, with_c=c.get("c", False)))
        # paths the executor could not finish: see what the real code does there
        for x in j.get("failed", [])[:4]:
            rep = reproduce(c, d, x["inputs"], params, False)
            if rep:
                found.append(dict(property=prop, harness=c["harness"], fn=c["fn"], params=params, message=rep[1], where=x["msg"], inputs=x["inputs"], observed="%s build: %s" % rep, with_c=c.get("c", False)))
                break
        if real:
            (incomplete if c.get("soft") else undecided).append("%s: %s" % (c["fn"], "; ".join(real)[:600]))
        # vacuity
        missing = [x for x in c.get("covers", []) if not j["covers"].get(x)]
        if missing and not found and not c.get("soft"):
            undecided.append("%s: never reached: %s" % (c["fn"], missing))
        if not j["checks"] and not found and not c.get("soft"):
            undecided.append("%s: no assertion was reached" % c["fn"])
        # the model's paths, run on the real code
        for s in j["samples"][:c.get("replay", 24)]:
            for p in ("dev", "release"):
                for rep in range(3):
                    v, text, logs = native(os.path.join(d, p, c["harness"]), c["fn"], s["inputs"], params)
                    if v != "ok" or logs == s["log"]:
                        break
                if v in ("fail", "hang") and not any(s["inputs"] == q["inputs"] for q in j["violations"]):
                    k = [f for f in known_findings() if f[0] == prop and f[1] == c["fn"] and f[2] in text]
                    if k:
                        known.append(k[0][3])
                    elif not found:
                        found.append(dict(property=prop, harness=c["harness"], fn=c["fn"], params=params, message=text, where="replay of an explored path", inputs=s["inputs"], observed="%s build: %s" % (p, text), with_c=c.get("c", False)))
                elif v == "diverged" or (v == "ok" and logs != s["log"]):
                    if not found:
                        undecided.append("%s: the encoding disagrees with the real code on %s: %s vs %s" % (c["fn"], s["inputs"], s["log"], logs or text))
                else:
                    validated += 1
        for s in j["samples"][:3]:
            samples.append(dict(harness=c["fn"], bounds=params, inputs=["%s:%s" % (w, v) for w, v in s["inputs"]], observed=s["log"]))
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", wall_s=round(time.time() - T0, 2),
              coverage=dict(states=tot["paths"] + tot["forks"], transitions=tot["instructions"], traces_validated_against_impl=validated, samples=samples[:12],
                            technique="symbolic execution of the optimised LLVM IR of the code under test; every assertion on every path decided by Z3 %s" % (j.get("solver", "") if cases and per else ""),
                            functions_encoded=sorted(funcs), bounds=spec["bounds"], outside=spec.get("outside", ""), cases=per, complete=not incomplete and not undecided,
                            incomplete=incomplete, undecided=undecided, paths=tot["paths"], merges=tot["merges"], queries=tot["queries"], queries_integer_encoding=tot["queries_int"],
                            queries_sat=tot["sat"], queries_unsat=tot["unsat"], assertions_decided_by_solver=tot["checks_solver"], assertions_constant=tot["checks_trivial"],
                            solver_s=round(tot["solver_ms"] / 1000, 2), slowest_query_ms=slow),
              assumptions=spec.get("assumptions", []) + ASSUMPTIONS, violations=len(found))
    write_evidence(prop, ev)
    for k in sorted(set(known)):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    for n in incomplete:
        print("note: incomplete: " + n)
    if found:
        for i, v in enumerate(found[:4]):
            p = os.path.join(VERIF, "build", "replay-%s-%d.json" % (prop, i))
            json.dump(v, open(p, "w"), indent=1)
            print("counterexample: %s [%s]\n  inputs %s bounds %s\n  %s\n  at %s" % (v["message"], v["fn"], v["inputs"], v["params"], v["observed"], v["where"][:400]))
            if i == 0:
                print("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    if undecided:
        for u in undecided[:6]:
            print("undecided: " + u[:900])
        return 2
    print("%s: held (%d paths, %d queries, %.1f s solver, %d replays, %.1f s)" % (prop, tot["paths"], tot["queries"], tot["solver_ms"] / 1000, validated, time.time() - T0))
    return 0


ASSUMPTIONS = [
    "hash maps and sets behave as finite maps/sets; iteration is explored in insertion order and in reverse insertion order",
    "allocations above 64 MiB fail, smaller ones succeed",
    "rustc's optimised IR (opt-level 2, overflow checks and debug assertions on) represents the source; replay uses opt-level 0 and 3",
    "Z3 is sound on the queries posed; satisfying models are checked by an independent evaluator",
]


def write_evidence(prop, ev):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)


def replay(path):
    """check.py --replay FILE: runs a recorded counterexample again."""
    v = json.load(open(path))
    if v.get("python"):
        return subprocess.call(["python3-vt", "-B", os.path.join(VERIF, "lib", "pyrun.py"), "--replay", path])
    d = prepare([(v["harness"], v.get("with_c", False))])[v["harness"]]
    r = reproduce(dict(harness=v["harness"], fn=v["fn"], c=v.get("with_c", False)), d, v["inputs"], v["params"], True)
    print("reproduced: %s: %s" % r if r else "not reproduced")
    return 1 if r else 0


if __name__ == "__main__":
    try:
        rc = replay(sys.argv[2]) if sys.argv[1] == "--replay" else main()
    except (Undecided, build.BuildError) as e:
        print("undecided: %s" % str(e)[-3000:]); rc = 2
    sys.exit(rc)
