"""Decides a property of the Python wrapper:  python3-vt pyrun.py PROPERTY TIER SEED

Explores every path of the harness functions over the wrapper's real source with
symbolic inputs (pysym.py), and replays counterexamples, and a model of explored
paths, on the real wrapper with the real ctypes and the real C library.
"""
import json, multiprocessing, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [VERIF, HERE, os.path.join(VERIF, "harness")]
sys.dont_write_bytecode = True
import build, check, pysym, pywrap
from props import PROPS

DIR = os.path.join(build.REPO, "graphrox-py", "graphrox")
PYTHON = shutil.which("python3") or sys.executable


def explore(job):
    """Runs paths from a prefix, depth first, for a little while; returns what is left."""
    fn, params, prefix, until = job
    st = dict(queries=0, forks=0, checks=0, calls=0, solver_s=0.0)
    res = dict(paths=0, covers={}, viol=[], unsup=[], samples=[], called=set(), todo=[prefix], st=st)
    end = min(time.time() + 1.5, until)
    while res["todo"] and time.time() < end:
        p = pysym.run_path(DIR, getattr(pywrap, fn), params, res["todo"].pop(), st)
        res["paths"] += 1
        res["todo"] += p.todo
        for c in p.covers: res["covers"][c] = res["covers"].get(c, 0) + 1
        if len(res["viol"]) < 8: res["viol"] += p.viol
        if p.unsup: res["unsup"].append(p.unsup)
        if p.sample is not None and len(res["samples"]) < 3: res["samples"].append(p.sample)
        res["called"] |= p.called
    return res


def decide(pool, fn, params, limit):
    tot = dict(paths=0, covers={}, viol=[], unsup=[], samples=[], called=set(), queries=0, forks=0, checks=0, calls=0, solver_s=0.0, left=0)
    pending, queue, until = [], [[]], time.time() + limit
    while queue or pending:
        while queue and len(pending) < 64: pending.append(pool.apply_async(explore, ((fn, params, queue.pop(), until),)))
        done = [p for p in pending if p.ready()]
        if not done: time.sleep(0.01); continue
        pending = [p for p in pending if p not in done]
        for d in done:
            r = d.get()
            tot["paths"] += r["paths"]
            for c, n in r["covers"].items(): tot["covers"][c] = tot["covers"].get(c, 0) + n
            tot["viol"] += r["viol"]; tot["unsup"] += r["unsup"]; tot["samples"] += r["samples"]; tot["called"] |= r["called"]
            for k in ("queries", "forks", "checks", "calls", "solver_s"): tot[k] += r["st"][k]
            queue += r["todo"]
        if time.time() > until or len(tot["viol"]) > 40: tot["left"] += len(queue); queue = []
    return tot


def install(lib, where):
    """A copy of the package with the library it loads."""
    d = os.path.join(where, "graphrox")
    shutil.copytree(DIR, d, ignore=shutil.ignore_patterns("__pycache__", "*.so", "*.dll", "*.dylib"))
    for m in ("x86_64", "aarch64"): shutil.copy(lib, os.path.join(d, "graphrox-%s-unknown-linux-gnu.so" % m))
    return d


def native(pkg, lib, fn, inputs, params, stub=None, timeout=60):
    d = tempfile.mkdtemp(prefix="vpy")
    lib = os.path.join(pkg, sorted(f for f in os.listdir(pkg) if f.startswith("graphrox-x86_64"))[0])   # the one the package loads
    args = [PYTHON, "-B", os.path.join(VERIF, "harness", "pywrap.py"), pkg, lib, fn, json.dumps(inputs), json.dumps(params)]
    try:
        if stub:
            with open(os.path.join(d, "rec.json"), "w") as f: json.dump(stub, f)
            args.append(f.name)
        r = subprocess.run(args, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        return "fail", "no termination in %d s" % timeout
    finally:
        shutil.rmtree(d, ignore_errors=True)
    out = r.stdout.decode(errors="replace").strip()
    if r.returncode == 0 and out.endswith("DONE"): return "ok", ""
    if r.returncode == 3: return "diverged", out[-200:]
    return "fail", out[-300:] or "ended with %d: %s" % (r.returncode, r.stderr.decode(errors="replace")[-300:])


def reproduce(pkg, lib, fn, v, params):
    for _ in range(3):
        k, text = native(pkg, lib, fn, v["inputs"], params)
        if k == "fail": return "real library", text
    sigs = {n: (s, r == "f64") for n, (s, r) in pysym.SIG.items()}
    k, text = native(pkg, lib, fn, v["inputs"], params, dict(trace=v["trace"], refs=v["refs"], sigs=sigs))
    return ("library answering as in the model", text) if k == "fail" else None


def library():
    libdir = os.path.join(VERIF, "build", "pylib")
    stamp = os.path.join(libdir, "stamp")
    key = check.sources_hash([os.path.join(build.REPO, "graphrox-rs", "src"), os.path.join(build.REPO, "graphrox-c", "src"), os.path.join(VERIF, "harness", "pylib.rs"), os.path.join(VERIF, "lib", "build.py")])
    lib = os.path.join(libdir, "libpylib.so")
    if not (os.path.exists(stamp) and open(stamp).read() == key):
        shutil.rmtree(libdir, ignore_errors=True)
        lib = build.pylib(libdir)
        open(stamp, "w").write(key)
    return lib


def replay(path):
    v = json.load(open(path))
    lib, work = library(), tempfile.mkdtemp(prefix="vpkg")
    try: r = reproduce(install(lib, work), lib, v["fn"], v, v["params"])
    finally: shutil.rmtree(work, ignore_errors=True)
    print("reproduced: %s: %s" % r if r else "not reproduced")
    return 1 if r else 0


def main(prop, tier, seed):
    t0 = time.time()
    spec = PROPS[prop]
    lib = library()
    work = tempfile.mkdtemp(prefix="vpkg")
    budget = {"quick": 560, "thorough": 6 * 3600}[tier]
    found, undecided, incomplete, per, samples, called, validated = [], [], [], [], [], set(), 0
    tot = dict(paths=0, queries=0, forks=0, checks=0, calls=0, solver_s=0.0)
    known = []
    try:
        pkg = install(lib, work)
        with multiprocessing.get_context("fork").Pool(os.cpu_count() or 8) as pool:
            for c in spec["cases"]:
                params = c.get(tier, c.get("quick"))
                if params is None or found: continue
                limit = min(c.get("time", {"quick": 200, "thorough": 3000}[tier]), budget - (time.time() - t0))
                t = time.time()
                r = decide(pool, c["fn"], params, limit)
                for k in tot: tot[k] += r[k]
                called |= r["called"]
                per.append(dict(harness=c["fn"], bounds=params, paths=r["paths"], queries=r["queries"], assertions=r["checks"], reached=r["covers"], wall_ms=int((time.time() - t) * 1000)))
                if r["left"] and not r["viol"]: incomplete.append("%s %s: time budget exhausted after %d paths" % (c["fn"], params, r["paths"]))
                seen = {}
                for v in r["viol"]:
                    if seen.get(v["msg"], 0) >= 3 or len(found) >= 4: continue
                    seen[v["msg"]] = seen.get(v["msg"], 0) + 1
                    rep = reproduce(pkg, lib, c["fn"], v, params)
                    if rep is None:
                        undecided.append("%s: counterexample did not reproduce: %s inputs=%s" % (c["fn"], v["msg"], v["inputs"])); continue
                    k = [f for f in check.known_findings() if f[0] == prop and f[1] == c["fn"] and f[2] in v["msg"]]
                    if k: known.append(k[0][3]); continue
                    found.append(dict(property=prop, fn=c["fn"], params=params, message=v["msg"], inputs=v["inputs"], observed="%s: %s" % rep, trace=v["trace"], refs=v["refs"], python=True))
                missing = [x for x in c.get("covers", []) if not r["covers"].get(x)]
                if missing and not found and not (c.get("soft") and r["unsup"]): undecided.append("%s: never reached: %s" % (c["fn"], missing))
                if not r["checks"] and not found and not c.get("soft"): undecided.append("%s: no assertion was reached" % c["fn"])
                if r["unsup"]: (incomplete if c.get("soft") else undecided).append("%s: not covered by the encoding: %s" % (c["fn"], sorted(set(r["unsup"]))[:3]))
                step = max(1, len(r["samples"]) // c.get("replay", 16))
                picked = r["samples"][::step][:c.get("replay", 16)]
                from concurrent.futures import ThreadPoolExecutor
                with ThreadPoolExecutor(8) as ex: outs = list(ex.map(lambda s: native(pkg, lib, c["fn"], s, params), picked))
                for s, (k, text) in zip(picked, outs):
                    if k == "ok": validated += 1
                    elif k == "fail" and not found:
                        kf = [f for f in check.known_findings() if f[0] == prop and f[1] == c["fn"] and f[2] in text]
                        if kf: known.append(kf[0][3])
                        else: found.append(dict(property=prop, fn=c["fn"], params=params, message=text, inputs=s, observed="real library: " + text, trace=[], refs=[], python=True))
                samples += [dict(harness=c["fn"], bounds=params, inputs=["%s:%s" % tuple(x) for x in s]) for s in picked[:2]]
    finally:
        shutil.rmtree(work, ignore_errors=True)
    import z3
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", wall_s=round(time.time() - t0, 2),
              coverage=dict(states=tot["paths"] + tot["forks"], transitions=tot["calls"] + tot["queries"], traces_validated_against_impl=validated, samples=samples[:12],
                            technique="symbolic execution of the wrapper's Python source; every branch and assertion decided by Z3 %s" % z3.get_version_string(),
                            functions_encoded=["graphrox/__init__.py (every class and function reached)"] + sorted(called), bounds=spec["bounds"], outside=spec.get("outside", ""), cases=per,
                            complete=not incomplete and not undecided, incomplete=incomplete, undecided=undecided, paths=tot["paths"], queries=tot["queries"],
                            assertions_decided=tot["checks"], library_calls=tot["calls"], solver_s=round(tot["solver_s"], 2)),
              assumptions=spec.get("assumptions", []), violations=len(found))
    check.write_evidence(prop, ev)
    for k in sorted(set(known)): print("KNOWN-FINDING: property=%s %s" % (prop, k))
    for n in incomplete: print("note: incomplete: " + n)
    if found:
        for i, v in enumerate(found[:4]):
            p = os.path.join(VERIF, "build", "replay-%s-%d.json" % (prop, i))
            with open(p, "w") as f: json.dump(v, f, indent=1)
            print("counterexample: %s [%s]\n  inputs %s bounds %s\n  %s" % (v["message"], v["fn"], v["inputs"], v["params"], v["observed"]))
            if i == 0: print("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    if undecided:
        for u in undecided[:6]: print("undecided: " + u[:900])
        return 2
    print("%s: held (%d paths, %d queries, %d replays, %.1f s)" % (prop, tot["paths"], tot["queries"], validated, time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    if sys.argv[1] == "--replay": sys.exit(replay(sys.argv[2]))
    try: sys.exit(main(sys.argv[1], sys.argv[2], int(sys.argv[3])))
    except build.BuildError as e: print("undecided: %s" % str(e)[-3000:]); sys.exit(2)
