#!/opt/venv/bin/python
"""Decide one property:  run.py C01 [quick|thorough]   |   run.py --replay FILE"""
import os
import sys

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("MPLCONFIGDIR", "/tmp/symx-mpl")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("PXMCMC_REPO", "/repo")
sys.path.insert(0, REPO)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.dont_write_bytecode = True
sys.pycache_prefix = os.path.join(HERE, "evidence", ".pyc-none")

import importlib
import json
import multiprocessing as mp
import time


def histories(cfgs, most, variants=None):
    """The same configurations after others: variants in one parameter, the closest ones, a larger and a smaller one, and
    the configuration itself."""
    out = []
    n = len(cfgs)
    for i in sorted({round(k * (n - 1) / max(1, most - 1)) for k in range(most)} if n > most else range(n)):
        c = cfgs[i]
        near = sorted((j for j in range(n) if j != i),
                      key=lambda j: (sum(cfgs[j].get(k, None) != c.get(k, None) for k in set(c) | set(cfgs[j])), -j if i % 2 else j))
        pick = near[:4] + [j for j in (n - 1, 0) if j != i and j not in near[:4]]
        var = variants(c) if variants else []
        var = var[i % max(1, len(var)):] + var[:i % max(1, len(var))]
        out.append(dict(c, after=var + [cfgs[j] for j in pick][:max(2, 6 - len(var))] + [c]))
    return out


def load_check(pid):
    return importlib.import_module("checks." + pid)


def job(args):
    pid, hname, cfg, tier, limit = args
    from symx import core, harness, loader
    mod = load_check(pid)
    hd = mod.HARNESSES[hname]
    core.STATS.__init__()
    loader.start_monitor()
    t0 = time.time()
    kw = dict(hd.get("opts", {}))
    r = harness.Runner(pid, hname, hd["fn"], cfg, tier, time.time() + limit,
                       max_paths=kw.pop("max_paths", 6000), solver_ms=kw.pop("solver_ms", 20000 if tier == "quick" else 60000),
                       opts=kw)
    try:
        res = r.run()
    except BaseException as e:
        import traceback
        res = {"status": "inconclusive", "error": f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}", "found": None,
               "paths": r.paths, "asserts": r.asserts, "proved": r.proved, "tol_proved": r.tol_proved, "validated": r.validated,
               "mismatch": r.mismatch, "labels": r.labels, "samples": r.samples, "reached": 0, "notes": r.notes}
    res.update(harness=hname, config=cfg, wall=time.time() - t0, stats=core.STATS.as_dict(),
               functions=sorted(loader.EXECUTED))
    return res


def worker(j, conn):
    import resource
    os.setpgid(0, 0)
    from symx import core
    core.die_with_parent()
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    try:
        conn.send(job(j))
        conn.close()
    finally:
        os._exit(0)


def kill(p):
    import signal
    for f in (os.killpg, os.kill):
        try:
            f(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass


def schedule(jobs, deadline, limit, ncpu=8):
    """Run the jobs in forked processes, a few more than there are cores while some of them take long; a job that
    exceeds its time or memory stays without an answer.  After a violation the others get a little longer."""
    from multiprocessing.connection import wait
    ctx = mp.get_context("fork")
    done, running, todo, stop = {}, {}, list(enumerate(jobs))[::-1], deadline
    while (todo or running) and time.time() < stop:
        now = time.time()
        slow = sum(1 for _, t, _, _ in running.values() if now - t > 60)
        while todo and len(running) < ncpu + min(slow, 8):
            i, j = todo.pop()
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(j, w), daemon=True)
            p.start()
            w.close()
            running[r] = (i, now, p, r)
        for r in wait(list(running), 0.5):
            i, t, p, _ = running.pop(r)
            try:
                done[i] = r.recv()
            except (EOFError, OSError):
                pass            # the process died (out of memory)
            r.close()
            p.join(5)
            if i in done and done[i]["status"] == "violation" and not any(matches(e, done[i]["found"]) for e in known()):
                stop = min(stop, time.time() + 15)
        for r, (i, t, p, _) in list(running.items()):
            if time.time() - t > limit:
                kill(p)
                del running[r]
    for i, t, p, _ in running.values():
        kill(p)
    return done


def main(argv):
    if argv and argv[0] == "--replay":
        return replay(argv[1])
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else "quick"
    only = argv[2] if len(argv) > 2 else None
    t0 = time.time()
    mod = load_check(pid)
    limit = (420 if tier == "quick" else 3000)
    jobs = []
    for hname, hd in mod.HARNESSES.items():
        if only and hname != only:
            continue
        cfgs = hd.get("quick", [{}])
        if callable(cfgs):
            cfgs = cfgs()
        cfgs = list(cfgs)
        if tier == "thorough":
            more = hd.get("thorough", [])
            if callable(more):
                more = more()
            cfgs += [c for c in more if c not in cfgs]
        if hd.get("history", getattr(mod, "HISTORY", False)):
            cfgs += histories(cfgs, 10 if tier == "quick" else 40, hd.get("variants", getattr(mod, "VARIANTS", None)))
        for c in cfgs:
            jobs.append((pid, hname, c, tier, limit))
    # heavy imports once, before the workers fork (never the code under check)
    import numpy, scipy.stats, scipy.sparse, z3, pyssht, pys2let  # noqa
    import healpy, astropy.coordinates  # noqa
    for m in getattr(mod, "PREIMPORT", ()):
        importlib.import_module(m)
    from symx import harness, shims
    shims.install()
    results = []
    deadline = t0 + (780 if tier == "quick" else 7000)
    if os.environ.get("SYMX_SERIAL"):
        results = [job(j) for j in jobs]
    else:
        done = schedule(jobs, deadline, 300 if tier == "quick" else 3200)
        for i, j in enumerate(jobs):
            results.append(done.get(i) or {
                "status": "inconclusive", "error": "not finished", "found": None, "harness": j[1],
                "config": j[2], "paths": 0, "asserts": 0, "proved": 0, "tol_proved": 0, "validated": 0,
                "mismatch": 0, "labels": {}, "samples": [], "reached": 0, "notes": [], "wall": 0.0,
                "stats": {}, "functions": []})
    return finish(pid, tier, mod, results, t0)


def known():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


def matches(entry, rec):
    if entry.get("property") != rec["property"] or entry.get("status") != "known":
        return False
    return all(rec.get(k) == entry[k] for k in ("harness", "config", "assertion") if k in entry)


def finish(pid, tier, mod, results, t0):
    ev = os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    vio, kn, inc = [], [], []
    for r in results:
        if r["status"] == "violation":
            rec = r["found"]
            e = next((e for e in known() if matches(e, rec)), None)
            if e:
                kn.append(e)
                continue
            n = len(vio)
            path = os.path.join(ev, f"replay-{pid}-{n}.json")
            json.dump(rec, open(path, "w"), indent=1, default=str)
            vio.append((path, rec))
        elif r["status"] != "ok":
            inc.append(r)
    tot = lambda k: sum(r.get(k, 0) for r in results)
    st = lambda k: sum(r["stats"].get(k, 0) for r in results)
    funcs = sorted({f for r in results for f in r["functions"]})
    labels = {}
    for r in results:
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
    samples = [s for r in results for s in r["samples"]][:6]
    if not samples:
        samples = [{"harness": r["harness"], "config": r["config"], "status": r["status"]} for r in results[:3]]
    cov = {
        "states": tot("paths"), "transitions": tot("paths") + int(st("branches")),
        "traces_validated_against_impl": tot("validated"),
        "samples": samples,
        "functions_encoded": funcs, "bounds": getattr(mod, "BOUNDS", ""),
        "queries": int(st("queries")), "unsat": int(st("unsat")), "sat": int(st("sat")), "unknown": int(st("unknown")),
        "solver_s": round(st("solver_s"), 2), "assertions_decided": tot("asserts"), "assertions_proved": tot("proved"),
        "assertions_proved_within_tolerance": tot("tol_proved"), "assertion_labels": labels,
        "configurations": len(results), "second_solver_confirmations": int(st("cvc5_confirm")),
        "witness_mismatches": tot("mismatch"),
        "violations_found": [{"replay": p, "assertion": rec["assertion"], "observed": rec["observed"]} for p, rec in vio],
        "inconclusive": [{"harness": r["harness"], "config": r["config"], "why": r["error"]} for r in inc],
    }
    doc = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
           "level": getattr(mod, "LEVEL", "model_checking"), "coverage": cov, "wall_s": round(time.time() - t0, 2),
           "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + COMMON_ASSUMPTIONS,
           "violations": len(vio)}
    json.dump(doc, open(os.path.join(ev, f"{pid}.json"), "w"), indent=1, default=str)
    for e in {json.dumps(k, sort_keys=True): k for k in kn}.values():
        print(f"KNOWN-FINDING: property={pid} {e.get('what')}")
    for p, rec in vio:
        print(f"VIOLATION property={pid} replay={p}")
        print(f"  harness {rec['harness']} {rec['config']}: {rec['assertion']}: {rec['observed']}")
    for r in inc[:3 if vio else 12]:
        print(f"INCONCLUSIVE property={pid} harness={r['harness']} config={r['config']}: {r['error']}")
    for r in results:
        for n in r.get("notes", []):
            print(f"note {r['harness']} {r['config']}: {n}")
    print(f"{pid} {tier}: {len(results)} configurations, {tot('paths')} paths, {tot('asserts')} assertions, "
          f"{int(st('queries'))} queries, {tot('validated')} runs cross-checked, {time.time() - t0:.1f}s")
    if vio:
        return 1
    # a configuration without an answer narrows what was explored (and is listed as such); a harness
    # none of whose configurations has an answer leaves the property undecided
    for h in {r["harness"] for r in results}:
        if not any(r["status"] == "ok" or r["status"] == "violation" for r in results if r["harness"] == h):
            return 2
    return 0


COMMON_ASSUMPTIONS = [
    "floating-point numbers are treated as real numbers; rounding-level differences (1e-9 relative, inputs in [-8,8]) are ignored",
    "numpy/scipy.sparse semantics are those of the element-wise interpreter in symx/arr.py and symx/shims.py, cross-checked against the real package on a witness of the explored paths",
    "random draws are arbitrary reals (uniform draws in (0,1)); user-supplied operators are arbitrary functions",
]


def replay(path):
    rec = json.load(open(path))
    from symx import harness
    mod = load_check(rec["property"])
    fn = mod.HARNESSES[rec["harness"]]["fn"]
    f, h = harness.run_concrete(fn, rec["config"], rec["values"], rec["oracles"], 60)
    print("replay on the real package:", f)
    return 1 if f and f != "assumption" else 0


if __name__ == "__main__":
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc)
