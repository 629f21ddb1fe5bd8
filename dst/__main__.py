"""Master: seeded search over simulated runs, minimisation, replay files, evidence."""
import atexit
import hashlib
import importlib
import json
import os
import queue
import shutil
import sys
import tempfile
import threading
import time

from . import proc

HERE = proc.HERE
PROPS = ["C%02d" % i for i in range(1, 11)] + ["C23", "C24", "C25"]
BARE = ("C25",)                         # whose simulated processes have not imported the package yet


class Pool:
    def __init__(self, n, scratch):
        self.jobs, self.n = queue.Queue(), n
        self.done = queue.Queue()
        self.stopping = False
        self.scratch = scratch
        self.threads = [threading.Thread(target=self.serve, args=(k,), daemon=True) for k in range(n)]
        for t in self.threads:
            t.start()

    def serve(self, k):
        w, kind = None, None
        try:
            while True:
                job = self.jobs.get()
                if job is None:
                    break
                bare = {"DST_BARE": "1"} if job["prop"] in BARE else {}
                if w is not None and bare != kind:
                    w.stop()
                    w = None
                if w is None:
                    w, kind = proc.Worker(os.path.join(self.scratch, "w%d" % k), extra=bare), bare
                    r = w.wait_ready()
                    if not r["ready"]:
                        self.done.put((job, {"error": r["error"], "boot": True, "i": job.get("i")}))
                        w.stop()
                        w = None
                        continue
                try:
                    out = w.ask(job)
                except OSError:
                    out = None
                if out is None:
                    out = {"error": "worker died", "i": job.get("i")}
                    w.stop()
                    w = None
                if job.get("fresh") and w is not None:
                    w.stop()
                    w = None
                self.done.put((job, out))
        finally:
            if w is not None:
                w.stop()

    def map(self, jobs):
        """Results in the order of the jobs."""
        for k, j in enumerate(jobs):
            j["k"] = k
            self.jobs.put(j)
        res = [None] * len(jobs)
        for _ in jobs:
            job, out = self.done.get()
            res[job["k"]] = out
        return res

    def stop(self):
        for _ in self.threads:
            self.jobs.put(None)
        for t in self.threads:
            t.join(30)


def kinds(out):
    if not out or "error" in out:
        return set()
    return {v["kind"] for v in out["result"]["violations"]}


def minimise(pool, P, prop, scn, kind, seconds):
    """Greedy: take the first smaller scenario that still shows the same kind of violation."""
    end = time.monotonic() + seconds
    tried = 0
    best = scn
    progress = True
    while progress and time.monotonic() < end:
        progress = False
        batch = []
        seen = 0
        gen = P.shrink(best)
        while time.monotonic() < end:
            batch = []
            for c in gen:
                batch.append(c)
                if len(batch) == pool.n:
                    break
            if not batch:
                break
            outs = pool.map([{"prop": prop, "scn": c} for c in batch])
            tried += len(batch)
            seen += len(batch)
            hit = next((c for c, o in zip(batch, outs) if kind in kinds(o)), None)
            if hit is not None:
                best, progress = hit, True
                break
            if seen > 600:
                break
    return best, tried


def known(prop):
    """Findings recorded (not repaired): a violation is one of them only if its text matches."""
    out = []
    try:
        with open(os.path.join(HERE, "known-findings.txt")) as f:
            for line in f:
                if line.startswith("finding: property=%s " % prop):
                    rest = line.split(None, 2)[2]
                    m, what = rest.split(" :: ", 1)
                    out.append((m.strip(), what.strip()))
    except FileNotFoundError:
        pass
    return out


def replay(path, pool):
    with open(path) as f:
        rec = json.load(f)
    prop = rec["property"]
    out = pool.map([{"prop": prop, "scn": rec["scenario"], "fresh": True}])[0]
    if "error" in out:
        print(out["error"])
        return 2
    hit = [v for v in out["result"]["violations"] if v["kind"] == rec["kind"]]
    print("replay %s: trace %s (recorded %s)" % (path, out["result"]["trace"], rec["trace"]))
    for v in out["result"]["violations"][:5]:
        print("  %s: %s" % (v["kind"], v["msg"]))
    if hit:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("not reproduced")
    return 0


def main():
    argv = sys.argv[1:]
    if not argv:
        print(__doc__)
        return 2
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    tier = "thorough" if tier == "thorough" else "quick"
    scratch = tempfile.mkdtemp(prefix="dst.", dir=os.environ.get("TMPDIR") or "/tmp")
    atexit.register(shutil.rmtree, scratch, ignore_errors=True)
    mpl = os.environ.get("MPLCONFIGDIR") or "/opt/vp/mplconfig"
    if os.path.isdir(mpl):
        shutil.copytree(mpl, os.path.join(scratch, "mpl"))
    else:
        os.makedirs(os.path.join(scratch, "mpl"))
    n = int(os.environ.get("DST_WORKERS", "0")) or min(8, os.cpu_count() or 4)
    pool = Pool(n, scratch)
    try:
        if argv[0] == "--replay":
            return replay(argv[1], pool)
        if argv[0] == "--determinism":
            from . import selftest
            return selftest.determinism(pool, argv[1:], seed)
        return check(argv[0], pool, seed, tier)
    finally:
        pool.stop()
        shutil.rmtree(scratch, ignore_errors=True)


def check(prop, pool, seed, tier):
    if prop not in PROPS:
        print("unknown property %s" % prop)
        return 2
    P = importlib.import_module("dst." + prop.lower())
    t0 = time.monotonic()
    plan = P.BUDGET[tier]                              # (runs, seconds)
    runs = int(os.environ.get("DST_RUNS", plan[0]))
    seconds = float(os.environ.get("DST_SECONDS", plan[1]))
    end = t0 + seconds
    print("property %s seed %d tier %s: up to %d simulated runs, %d workers, code from %s" % (prop, seed, tier, runs, pool.n, os.environ.get("DST_REPO", "/repo")), flush=True)
    sent = got = 0
    stats, cover, samples, viol, errors, walls, fast = {}, set(), [], [], [], [], []
    stop = False
    nontrivial = 0
    listed = known(prop)
    noted = {}
    while True:
        while not stop and sent < runs and sent - got < 2 * pool.n and time.monotonic() < end:
            pool.jobs.put({"prop": prop, "seed": seed, "i": sent, "tier": tier})
            sent += 1
        if got == sent:
            break
        job, out = pool.done.get()
        got += 1
        if "error" in out:
            errors.append((out.get("i"), out["error"]))
            if len(errors) >= 8 or out.get("boot"):
                stop = True
            continue
        r = out["result"]
        walls.append(out["wall"])
        for k, v in r["stats"].items():
            stats[k] = stats.get(k, 0) + v
        if r["cover"]:
            nontrivial += 1
        cover.update(r["cover"])
        if len(samples) < 400:
            samples.append((out["i"], out["scn"], r["trace"]))
        bad = []
        for v in r["violations"]:
            m = next((w for key, w in listed if key in v["kind"] + ": " + v["msg"]), None)
            if m:
                noted[m] = noted.get(m, 0) + 1
            else:
                bad.append(v)
        if bad:
            viol.append((out["i"], out["scn"], bad, r))
            if len(viol) >= 3:
                stop = True
    search = time.monotonic() - t0
    code = 0
    lines = []
    found = 0
    if viol:
        viol.sort(key=lambda v: v[0])
        for i, scn, bad, r in viol:
            kind = bad[0]["kind"]
            job = {"prop": prop, "scn": scn, "fresh": True}
            if bad[0].get("timeout"):
                job["timeout"] = 120.0
            again = pool.map([job])[0]
            if kind not in kinds(again):
                errors.append((i, "violation %r (%s) did not show again in a fresh process: %s" % (kind, bad[0]["msg"], again.get("error") or [v["msg"] for v in again["result"]["violations"]])))
                continue
            late = bad[0].get("timeout")
            if hasattr(P, "concrete") and not late:
                c = P.concrete(scn, again["result"])
                if c is not None and kind in kinds(pool.map([{"prop": prop, "scn": c}])[0]):
                    scn = c
            small, tried = (scn, 0) if late else minimise(pool, P, prop, scn, kind, P.BUDGET[tier][2] if len(plan) > 2 else 60)
            final = again if late else pool.map([{"prop": prop, "scn": small, "fresh": True}])[0]
            if kind not in kinds(final):
                small = scn
                final = again
            v = next(v for v in final["result"]["violations"] if v["kind"] == kind)
            rec = {"property": prop, "seed": seed, "tier": tier, "run": i, "kind": kind, "message": v["msg"], "trace": final["result"]["trace"],
                   "minimised_in": tried, "scenario": small}
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            name = "replays/%s-%s.json" % (prop, hashlib.sha256(json.dumps(rec, sort_keys=True).encode()).hexdigest()[:10])
            with open(os.path.join(HERE, name), "w") as f:
                json.dump(rec, f, indent=1)
            lines.append("run %d, seed %d: %s: %s" % (i, seed, kind, v["msg"]))
            lines.append("VIOLATION property=%s replay=%s" % (prop, name))
            code = 1
            found += 1
            break
    for m, c in noted.items():
        print("KNOWN-FINDING: property=%s %s (%d runs)" % (prop, m, c))
    wall = time.monotonic() - t0
    if errors and code == 0:
        code = 2
    ok = got - len(errors)
    if ok == 0 and code == 0:
        code = 2
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "violations": found, "wall_s": round(wall, 2),
          "coverage": {
              "evaluations": ok, "distinct_nontrivial": len(cover), "rule": P.RULE,
              "runs_with_something_new_or_old_to_judge": nontrivial,
              "samples": [{"run": i, "trace": t, "scenario": s} for i, s, t in sorted(samples, key=lambda x: x[0])[:3]],
              "simulated_runs_per_hour": int(ok / max(search, 1e-9) * 3600), "seeds": "VERIF_SEED=%d, runs 0..%d, each with its own derived seed" % (seed, max(sent - 1, 0)),
              "simulated_time_s": round(stats.pop("simulated seconds", 0.0), 3),
              "counts": dict(sorted((k, v) for k, v in stats.items())),
              "components": P.COMPONENTS if hasattr(P, "COMPONENTS") else {"real": "all of solidspy, numpy, scipy", "stub": "none"},
              "planned_runs": runs, "stopped_by_time": bool(sent < runs and not stop),
              "worker_seconds_per_run": round(sum(walls) / max(len(walls), 1), 4)},
          "assumptions": getattr(P, "ASSUMPTIONS", [])}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", ".%s.%d" % (prop, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", prop + ".json"))
    for i, e in errors[:3]:
        print("HARNESS ERROR in run %s: %s" % (i, e[-3000:]))
    print("%d runs in %.1f s (%d/h), %d distinct, %s" % (ok, search, ev["coverage"]["simulated_runs_per_hour"], len(cover), ", ".join("%s %s" % (k, v) for k, v in sorted(stats.items()))))
    for l in lines:
        print(l)
    if code == 0:
        print("property %s held on everything explored" % prop)
    sys.stdout.flush()
    return code


if __name__ == "__main__":
    sys.exit(main())
