#!/usr/bin/env python3
"""Runs the check of one property: run.py <property> [--replay FILE]

Builds the harness against the working tree of /repo, runs monitored workloads with seeds derived
from VERIF_SEED, and reports. Exit 0: held; 1: VIOLATION; 2: no verdict (error of the check).
"""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import jobs  # noqa: E402
import build  # noqa: E402

TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1"))
EVID = os.path.join(HERE, "evidence")
REPLAYS = os.path.join(HERE, "replays")
MEM = 6 << 30


class Inconclusive(Exception):
    pass


def limit():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_proc(job, env):
    """One monitored process. Returns a dict with what was observed."""
    e = dict(os.environ)
    e.update(env)
    e.update(job.get("env", {}))
    t0 = time.time()
    out = tempfile.TemporaryFile()
    err = tempfile.TemporaryFile()
    p = subprocess.Popen(job["cmd"], stdout=out, stderr=err, stdin=subprocess.DEVNULL, env=e,
                         cwd=job.get("cwd", HERE), start_new_session=True, preexec_fn=limit)
    timed_out = False
    try:
        p.wait(timeout=job["timeout"])
    except subprocess.TimeoutExpired:
        timed_out = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    out.seek(0)
    err.seek(0)
    return dict(job=job, rc=p.returncode, out=out.read().decode("utf8", "replace"),
                err=err.read().decode("utf8", "replace"), timed_out=timed_out, wall=time.time() - t0)


def run_all(todo, width):
    """Run jobs, at most `width` at a time; stop early once one reports a violation."""
    results, lock, stop = [], threading.Lock(), threading.Event()
    it = iter(todo)

    def worker():
        while not stop.is_set():
            with lock:
                job = next(it, None)
            if job is None:
                return
            r = run_proc(job, {})
            with lock:
                results.append(r)
            if jobs.classify(r)[0] == "violation":
                stop.set()

    ts = [threading.Thread(target=worker) for _ in range(width)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return results


def main():
    prop = sys.argv[1]
    spec = jobs.PROPS[prop]
    os.makedirs(EVID, exist_ok=True)
    ev = os.path.join(EVID, prop + ".json")
    if os.path.exists(ev):
        os.remove(ev)
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        rep = json.load(open(sys.argv[3]))
        build.flavours(rep["flavours"])
        if "prepare" in spec:
            print(spec["prepare"](rep["seed"], rep["tier"]) or "")
        if not rep["cmd"]:
            sys.exit(1)
        r = run_proc(dict(cmd=rep["cmd"], timeout=600, env=rep.get("env", {}), cwd=rep.get("cwd", HERE)), {})
        print(r["out"][-20000:], r["err"][-5000:])
        sys.exit(0 if r["rc"] == 0 else 1)
    t0 = time.time()
    try:
        build.flavours(spec["flavours"])
        broken = spec["prepare"](SEED, TIER) if "prepare" in spec else None
    except build.BuildError as e:
        print("build failed:\n" + str(e)[-6000:])
        sys.exit(2)
    t_build = time.time() - t0
    unhooked = build.unhooked(spec["flavours"])
    if unhooked:
        print("the sources do not compile with the hooks; threads are only scheduled at operations of the workload")
    todo = [] if broken else spec["jobs"](SEED, TIER)
    results = run_all(todo, int(os.environ.get("VERIF_JOBS", "8")))
    agg = jobs.aggregate(results)
    verdicts = [(jobs.classify(r), r) for r in results]
    viol = [(v, r) for v, r in verdicts if v[0] == "violation"]
    if broken:
        viol = [(("violation", "compile", broken[0], {}), dict(job=dict(cmd=[]), err=broken[1], out=""))]
    bad = [(v, r) for v, r in verdicts if v[0] == "error"]
    for line in agg["known"]:
        print(f"KNOWN-FINDING: property={prop} {line}")
    short = spec["nonvacuous"](agg) if not viol and not bad and not unhooked else None
    cov = dict(
        evaluations=agg["counts"].get(spec.get("unit", "executions"), 0),
        distinct_nontrivial=agg["most_distinct" if spec.get("same_cases") else "distinct"],
        rule=spec["rule"],
        samples=agg["samples"][:4],
        observed=agg["counts"],
        observed_max=agg["maxes"],
        processes=len(results),
    )
    doc = dict(property=prop, tier=TIER, seed=SEED, level=spec.get("level", "exploration"), coverage=cov,
               wall_s=round(time.time() - t0, 2), build_s=round(t_build, 2), violations=len(viol),
               assumptions=spec["assumptions"] + (["built without the scheduling hooks"] if unhooked else []))
    with open(ev, "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")
    if viol:
        (kind, cls, msg, extra), r = viol[0]
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, f"{prop}-{SEED}.json")
        with open(path, "w") as f:
            json.dump(dict(property=prop, flavours=spec["flavours"], oracle=cls, message=msg,
                           cmd=jobs.replay_cmd(r["job"]["cmd"], extra), env=r["job"].get("env", {}),
                           cwd=r["job"].get("cwd", HERE), seed=SEED, tier=TIER, trace=extra.get("trace", []),
                           stderr=r["err"][-4000:], stdout=r["out"][-2000:] if not extra.get("trace") else ""), f, indent=1)
        print(f"{cls}: {msg}")
        print(f"VIOLATION property={prop} replay={path}")
        sys.exit(1)
    if bad:
        for (kind, cls, msg, extra), r in bad[:3]:
            print(f"no verdict: {cls}: {msg}\n  {' '.join(r['job']['cmd'])}\n{r['err'][-1500:]}")
        sys.exit(2)
    if short:
        print(f"no verdict: too little was observed: {short}")
        sys.exit(2)
    print(f"{prop}: held; {cov['evaluations']} {spec.get('unit', 'executions')}, {cov['distinct_nontrivial']} distinct, {doc['wall_s']} s")


main()
