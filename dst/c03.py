"""C03: results depend only on the arguments, never on the history of calls."""
import hashlib
import os
import random
import numpy as np
import scipy.sparse as sp

from . import env, models, ops, values

RULE = ("one case is a simulated session: a history of calls, in-place edits of the user's arrays, overwritten results and re-created objects, "
        "drawn from the seed; every call is compared with the same call alone in a pristine forked process. Non-trivial: at least two calls with an "
        "edit, an overwrite, a failing call or another call of the same function before them; distinct by the set of (function, what preceded it) pairs")


BUDGET = {"quick": (2600, 150, 60), "thorough": (60000, 3000, 300)}


def generate(rng, tier, i):
    nm = rng.choice([1, 2, 2, 3])
    specs = []
    for _ in range(nm):
        big = rng.random() < 0.12
        s = models.gen(rng, big=big)
        if specs and rng.random() < 0.45:      # look-alikes: same connectivity and size, other numbers
            s = dict(specs[-1])
            c = rng.choice(["mats", "jig", "shift", "bc", "loads", "size"])
            if c == "mats":
                s["E"] = rng.choice([1.0, 3.0, 7.0])
                s["nm"] = specs[-1]["nm"]
            elif c == "jig":
                s["jig"], s["seed"] = 0.2, rng.randrange(10**6)
            elif c == "shift":
                s["ox"] += 1.0
            elif c == "bc":
                s["bc"] = "clamp" if s["bc"] == "roll" else "roll"
            elif c == "loads":
                s["seed"] = rng.randrange(10**6)
            else:
                s["L"] *= 1.5
        specs.append(s)
    long = rng.random() < (0.02 if tier == "quick" else 0.06)
    n = rng.randint(60, 160) if long else rng.randint(4, 26)
    steps, calls = [], []
    small = rng.random()
    favour = rng.sample(ops.MESH + ops.SMALL, rng.choice([2, 3, 5]))
    for _ in range(n):
        x = rng.random()
        m = rng.randrange(nm)
        if calls and x < 0.16:
            steps.append({"edit": rng.choice(["nudge", "nudge", "swap", "coords", "mats", "loads", "cons", "conn", "matid", "reborn", "restore", "types", "collapse"]), "m": m, "s": rng.randrange(10**6)})
        elif calls and x < 0.28:
            steps.append({"scribble": rng.choice([0, 0, 1, 2, 3]), "s": rng.randrange(10**6)})
        elif calls and x < 0.50:
            steps.append(dict(rng.choice(calls[-6:])))
            if rng.random() < 0.5:
                steps[-1]["m"] = m
            elif rng.random() < 0.35 and not steps[-1].get("twin"):
                steps[-1]["twin"] = rng.choice([1e-4, 1e-6, 1e-7, 3e-8, -2.0, "cast", "order", "shape", "view"])
                if steps[-1]["op"] not in ops.SMALL and steps[-1]["twin"] == -2.0:
                    steps[-1]["twin"] = 1e-7
        elif x < 0.56:
            steps.append({"op": rng.choice(ops.FILE), "m": m, "s": rng.randrange(10**6)})
            if rng.random() < 0.5:
                steps[-1]["rel"] = rng.choice(["above", "inside", "elsewhere"])
        else:
            o = rng.choice(favour) if rng.random() < 0.6 else rng.choice(ops.MESH if rng.random() > small * 0.7 else ops.SMALL)
            steps.append({"op": o, "m": m, "s": rng.choice([rng.randrange(10**6), rng.randrange(3)])})
        if "op" in steps[-1]:
            calls.append(steps[-1])
            if steps[-1].get("twin") and rng.random() < 0.5:       # and then the original again
                steps.append({k: v for k, v in steps[-1].items() if k != "twin"})
    return {"prop": "C03", "models": specs, "steps": steps}


def edit(w, st):
    r = ops.RNG(st["s"])
    m = w.m[st["m"]]
    k = st["edit"]
    n = len(m["nodes"])
    if k == "nudge":                              # far below anything a rounded key would notice
        q = str(r.choice(["nodes", "mats", "loads"]))
        eps = 10.0 ** -r.integers(4, 8)
        if q == "nodes":
            m["nodes"][r.integers(0, n), 1:3] += r.uniform(-1, 1, 2) * eps
        elif len(m[q]):
            m[q][r.integers(0, len(m[q])), 1 if q == "loads" else 0] *= 1 + eps * r.choice([-1, 1])
    elif k == "swap":                             # the same numbers in other places
        q = str(r.choice(["nodes", "mats", "loads", "cons"]))
        if len(m[q]) > 1:
            a, b = r.choice(len(m[q]), 2, replace=False)
            c = slice(1, 3) if q == "nodes" else slice(1, None) if q == "loads" else slice(None)
            m[q][[a, b], c] = m[q][[b, a], c]
            if q == "cons":
                m["nodes"][:, 3:5] = m["cons"]
                w.live.pop(("num", st["m"]), None)
    elif k == "coords":
        m["nodes"][:, 1:3] *= r.uniform(0.7, 1.5)
        m["nodes"][:, 1] += r.uniform(-3, 3)
    elif k == "mats":
        m["mats"][r.integers(0, len(m["mats"])), 0] *= r.uniform(0.3, 3)
        if r.random() < 0.5 and m["kind"] in models.CONT:
            m["mats"][:, 1] = r.uniform(0.05, 0.4)
    elif k == "loads":
        if len(m["loads"]):
            m["loads"][r.integers(0, len(m["loads"])), 1:] = r.uniform(-2, 2, 2)
    elif k == "cons":
        a = r.integers(0, n)
        c = -1 if r.random() < 0.7 else 0
        m["cons"][a] = c
        m["nodes"][a, 3:5] = c
        w.live.pop(("num", st["m"]), None)
    elif k == "conn":
        e = m["elements"]
        a, b = r.integers(0, len(e), 2)
        e[[a, b], 1:] = e[[b, a], 1:]
    elif k == "matid":
        m["elements"][r.integers(0, len(m["elements"])), 2] = r.integers(0, len(m["mats"]))
    elif k == "types":                            # another element of the same width, where there is one
        t = {1: 1, 5: 6, 6: 5}.get(int(m["elements"][0, 1]))
        if t and m["mats"].shape[1] == 2 or t == 1:
            m["elements"][:, 1] = t if m["mats"].shape[1] == 2 else m["elements"][:, 1]
    elif k == "reborn":                           # new objects at, possibly, the old addresses
        for q in ("nodes", "cons", "elements", "mats", "loads"):
            old = m.pop(q)
            v = old.copy()
            del old
            m[q] = v
        m["nodes"][:, 1:3] += r.uniform(-1, 1, 2)
    elif k == "collapse":                         # a degenerate element
        e = m["elements"][r.integers(0, len(m["elements"])), 3:]
        a, b = r.choice(e, 2, replace=False)
        if r.random() < 0.5:
            m["nodes"][a, 1:3] = m["nodes"][b, 1:3]
        else:
            m["elements"][r.integers(0, len(m["elements"])), 3:5] = [a, a]
    elif k == "restore":
        w.m[st["m"]] = models.build(w.specs[st["m"]])


def arrays(v):
    if isinstance(v, np.ndarray):
        yield v
    elif sp.issparse(v):
        yield v.data
    elif isinstance(v, (tuple, list)):
        for x in v:
            yield from arrays(x)
    elif isinstance(v, dict):
        for x in v.values():
            yield from arrays(x)
    elif type(v).__name__ == "Triangulation":
        yield np.asarray(v.x)
        yield np.asarray(v.triangles)


def scribble(v, r):
    n = 0
    if isinstance(v, list):
        for j in range(len(v)):
            v[j] = -7
        return 1
    for a in arrays(v):
        if a.size and a.flags.writeable and a.dtype.kind in "fciu":
            a[...] = r.integers(-1, 4, a.shape) if a.dtype.kind in "iu" else r.uniform(-9, 9, a.shape)
            n += 1
    return n


def tied(v, args):
    mine = list(arrays(v))
    theirs = list(arrays(list(args)))
    for a in args:
        if isinstance(a, dict):
            theirs += list(arrays(list(a.values())))
    return any(np.may_share_memory(a, b) for a in mine for b in theirs)


def echo_files(kwargs):
    f = kwargs.get("folder")
    out = {}
    if f:
        for n in sorted(os.listdir(f)):
            if n.startswith("K"):
                with open(os.path.join(f, n), "rb") as h:
                    out[n] = h.read()
    return out


def simulate(scn, root):
    values.ROOT[0] = root
    w = ops.World(scn["models"], root)
    recs, results, bad = [], [], []
    for si, st in enumerate(scn["steps"]):
        if "edit" in st:
            edit(w, st)
            recs.append(None)
            for res in results:                   # results tied to an edited argument move with it
                if res["tied"]:
                    res["snap"] = None
            continue
        if "scribble" in st:
            recs.append(None)
            if results:
                res = results[-1 - st["scribble"] % len(results)]
                if not res["tied"] and res["live"] is not None:
                    if scribble(res["live"], ops.RNG(st["s"])):
                        for other in results:
                            if other["snap"] is not None and (other is res or tied(other["live"], [res["live"]])):
                                other["snap"] = None
            continue
        dotted, args, kwargs = ops.prepare(w, st)
        there = None
        if st.get("rel"):                         # the user has gone to another directory
            there, kwargs = ops.relative(kwargs, root, st["rel"])
            os.chdir(there)
        frozen = ops.freeze(dotted, args, kwargs)
        files = w.files(st.get("m", 0)) if dotted.split(".")[1] in ("solids_GUI", "readin", "echomod") else None
        before = values.given(args)
        res, txt, live = ops.invoke(dotted, args, kwargs)
        after = values.given(args)
        for j, (x, y) in enumerate(zip(before, after)):
            if x != y and ops.INPLACE.get(dotted) != j:
                bad.append({"kind": "argument changed", "step": si, "msg": "%s changed its argument %d" % (dotted, j)})
        if dotted == "preprocesor.echomod" and res[0] == "ok":
            res = ("ok", (res[1], values.snap(echo_files(kwargs))))
        ops.keep(w, st.get("m", 0), dotted, live)
        recs.append({"fn": dotted, "frozen": frozen, "files": files, "out": (res, txt), "cwd": there})
        results.append({"step": si, "fn": dotted, "live": live, "snap": values.snap(live), "tied": tied(live, args)})
    for res in results:
        if res["snap"] is not None and values.snap(res["live"]) != res["snap"] and not res["tied"]:
            bad.append({"kind": "earlier result changed", "step": res["step"], "msg": "the result of %s (step %d) changed after it was returned" % (res["fn"], res["step"])})
    return recs, bad


def alone(frozen, files, root, cwd):
    import pickle
    import shutil
    for n in os.listdir(root):
        shutil.rmtree(os.path.join(root, n))
    (res, txt) = ops.alone(frozen, files, root, cwd)
    dotted, args, kwargs = pickle.loads(frozen)
    if dotted == "preprocesor.echomod" and res[0] == "ok":
        res = ("ok", (res[1], values.snap(echo_files(kwargs))))
    return res, txt


def run(scn):
    st = {}
    with env.Scratch() as root:
        recs, bad = env.fork(simulate, scn, root)
        memo = {}
        for si, rec in enumerate(recs):
            if rec is None:
                continue
            key = hashlib.sha256(rec["frozen"] + repr((rec["cwd"], rec["files"])).encode()).digest()
            if key not in memo:
                memo[key] = env.fork(alone, rec["frozen"], rec["files"], root, rec["cwd"])
            ref = memo[key]
            if not ops.same_outcome(rec["out"], ref):
                bad.append({"kind": "depends on history", "step": si, "fn": rec["fn"],
                            "msg": "%s at step %d gave %s; alone it gives %s" % (rec["fn"], si, values.show(rec["out"][0]), values.show(ref[0]))})
            elif rec["out"][1] != ref[1]:
                bad.append({"kind": "depends on history", "step": si, "fn": rec["fn"], "msg": "%s at step %d printed %r; alone it prints %r" % (rec["fn"], si, rec["out"][1][:300], ref[1][:300])})
    cover, seen, hist = set(), {}, set()
    for si, (s, rec) in enumerate(zip(scn["steps"], recs)):
        if rec is None:
            k = s.get("edit") or "overwrite"
            st["history:" + k] = st.get("history:" + k, 0) + 1
            hist.add(k)
            continue
        ok = rec["out"][0][0]
        cover.add((rec["fn"], ok, tuple(sorted(hist)), min(seen.get(rec["fn"], 0), 2)))
        seen[rec["fn"]] = seen.get(rec["fn"], 0) + 1
        st["calls"] = st.get("calls", 0) + 1
        st["failing calls"] = st.get("failing calls", 0) + (ok == "exc")
        if ok == "exc":
            hist.add("failure")
    ncall = sum(r is not None for r in recs)
    return {"violations": bad, "stats": st, "cover": [values.digest(c) for c in cover if ncall > 1], "trace": values.digest([(r and r["out"]) for r in recs])}


def shrink(scn):
    """Smaller scenarios, most promising first."""
    s = scn["steps"]
    n = len(s)
    size = n // 2
    while size >= 1:
        for a in range(0, n, size):
            yield dict(scn, steps=s[:a] + s[a + size:])
        size //= 2
    for i, m in enumerate(scn["models"]):
        for key, v in (("nx", 1), ("ny", 1), ("jig", 0), ("perm", 0), ("nm", 1), ("nl", 1)):
            if m.get(key) != v:
                yield dict(scn, models=scn["models"][:i] + [dict(m, **{key: v})] + scn["models"][i + 1:])
