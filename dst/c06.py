"""C06: a solution out of equilibrium is never reported silently."""
import io
import logging
import re
import sys
import warnings

import numpy as np

from . import c02, env, models, ops, refmodel, values

BUDGET = {"quick": (10000, 120, 60), "thorough": (150000, 3000, 300)}
RULE = ("one case is one complete analysis (solids_auto or solids_GUI, one of up to 4 in a session) whose linear solver answers as scripted, judged by the residual of "
        "the returned displacements under an independently assembled stiffness. Non-trivial: residual above 1e-3 or below 1e-9; distinct by (entry, solver fault, decade "
        "of the residual, element kind, decade of stiffness, decade of load)")
COMPONENTS = {"real": "all of solidspy, numpy, scipy (the answering solver is scipy's until the fault is applied)", "stub": "the answer of the linear solver is altered by the simulator"}
ASSUMPTIONS = ["a message counts as a report when it names equilibrium together with a negation, on standard output, standard error, as a shown warning or a log record",
               "cases whose residual cannot be told from rounding of K u are not judged"]

REPORT = re.compile(r"(\bnot?\b|n't|out of|without|lack|lost|violat|fail|unbalanc|poor).{0,60}equilibri|equilibri.{0,60}(\bnot?\b|n't|violat|fail|error|lost)|unbalanced", re.I | re.S)


def generate(rng, tier, i):
    n = rng.choice([1, 1, 2, 3, 4])
    specs = []
    for _ in range(rng.choice([1, 1, 2])):
        s = models.gen(rng, units=rng.random() < 0.7)
        if rng.random() < 0.6:
            s["P"] = 10.0 ** rng.randint(-7, 9)
        if rng.random() < 0.06:
            s["P"] = 0.0
        if rng.random() < 0.08:
            s["bc"] = "none"
        if rng.random() < 0.04:
            s.update(k=rng.choice(["quad4", "tri3", "truss", "quad4"]), nx=rng.randint(8, 17), ny=rng.randint(8, 17))
        elif rng.random() < 0.04:
            s["pad"] = [rng.choice([0, 40, 400]), rng.choice([0, 4]), rng.choice([0, 20, 300])]
        specs.append(s)
    steps = []
    for _ in range(n):
        x = rng.random()
        if x < 0.15:
            f = {"how": "true"}
        elif x < 0.65:
            f = {"how": "off", "rho": 10.0 ** rng.choice([rng.uniform(-2.9, 0), rng.uniform(-2.9, -2), rng.uniform(-13, -9.2), rng.uniform(-9, -3), rng.uniform(0, 8)]),
                 "where": rng.choice(["one", "loaded", "far", "all", "pair", "last", "first"])}
        elif x < 0.8:
            f = {"how": rng.choice(["nan", "inf", "-inf"]), "where": rng.choice(["one", "all", "last", "first"])}
        else:
            f = {"how": rng.choice(["zero", "scaled", "negated", "stale", "stale", "swapped", "float32", "huge", "integers"]), "c": rng.choice([0.0, 0.5, 0.99, 1.01, 2.0, 1000.0])}
        f["s"] = rng.randrange(10**6)
        steps.append({"fn": rng.choice(["solids_auto", "solids_GUI"]), "m": rng.randrange(len(specs)), "strains": rng.random() < 0.3, "fault": f})
    return {"prop": "C06", "models": specs, "steps": steps}


def answer(f, A, b, x, last):
    """What the simulated solver hands back instead of x."""
    how, r = f["how"], ops.RNG(f["s"])
    if how == "true":
        return x
    b1 = np.asarray(b, dtype=float).ravel()
    n = b1.size
    if how == "off":
        scale = np.abs(b1).max() if n else 0.0
        scale = scale or 1.0
        res = np.zeros(n)
        w = f["where"]
        loaded = np.flatnonzero(b1)
        rest = np.flatnonzero(b1 == 0)
        if w == "all":
            res[:] = r.uniform(-1, 1, n)
        elif w == "pair" and n > 1:
            i, j = r.choice(n, 2, replace=False)
            res[i], res[j] = 1, -1
        else:
            pool = {"loaded": loaded, "far": rest, "last": np.array([n - 1]), "first": np.array([0])}.get(w, np.arange(n))
            pool = pool if pool.size else np.arange(n)
            res[int(pool[r.integers(0, pool.size)])] = r.choice([-1, 1])
        res *= f["rho"] * scale / (np.abs(res).max() or 1.0)
        M = A.toarray() if hasattr(A, "toarray") else np.asarray(A)
        try:
            return x + np.linalg.solve(M, res)
        except np.linalg.LinAlgError:
            return x + res
    y = np.array(x, dtype=float).ravel()
    if how in ("nan", "inf", "-inf"):
        v = float(how)
        w = f["where"]
        if w == "all":
            y[:] = v
        else:
            y[{"last": n - 1, "first": 0}.get(w, r.integers(0, n))] = v
        return y
    if how == "zero":
        return np.zeros(n)
    if how == "scaled":
        return f["c"] * y
    if how == "negated":
        return -y
    if how == "stale" and last is not None and last.shape == y.shape:
        return last.copy()
    if how == "swapped":
        return y[r.permutation(n)]
    if how == "float32":
        return y.astype(np.float32)
    if how == "huge":
        return y + 1e12 * (np.abs(y).max() or 1.0)
    if how == "integers":
        return np.round(y)
    return y


class Solver:
    """Stands in front of every linear solver of the package."""

    def __init__(self):
        self.fault, self.hits, self.last, self.deep = None, 0, None, 0

    def alter(self, A, b, x):
        self.deep += 1
        try:
            y = answer(self.fault, A, b, x, self.last)
        finally:
            self.deep -= 1
        self.hits += 1
        self.last = np.array(x, dtype=float).ravel()
        return y

    def wrap(self, name, fn):
        def direct(A, b, *a, **k):
            self.deep += 1
            try:
                x = fn(A, b, *a, **k)
            finally:
                self.deep -= 1
            if self.deep or self.fault is None or np.ndim(b) > 2:
                return x
            return self.alter(A, b, x)

        def factor(A, *a, **k):
            lu = fn(A, *a, **k)
            if self.deep or self.fault is None:
                return lu
            outer = self
            if name == "factorized":
                return lambda b: outer.alter(A, b, lu(b))

            class LU:
                def __getattr__(self, k):
                    return getattr(lu, k)

                def solve(self, b, *a, **k):
                    return outer.alter(A, b, lu.solve(b, *a, **k))
            return LU()
        return factor if name in ("splu", "factorized") else direct


class Log(logging.Handler):
    def __init__(self, to):
        super().__init__()
        self.to = to

    def emit(self, rec):
        self.to.append(rec.getMessage())


def session(scn, root):
    values.ROOT[0] = root
    w = ops.World(scn["models"], root)
    S = Solver()
    for mod, k, fn in c02.solver_seams():
        setattr(mod, k, S.wrap(k, fn))
    said = []
    logging.getLogger().addHandler(Log(said))
    warnings.showwarning = lambda m, *a, **k: said.append(str(m))
    out = []
    for st in scn["steps"]:
        m = w.m[st["m"]]
        kw = {"plot_contours": False, "compute_strains": bool(st["strains"] and m["kind"] in ("quad4", "tri3", "tri6"))}
        if st["fn"] == "solids_GUI":
            args = ()
            w.write_folder(st["m"])
            kw["folder"] = w.folder(st["m"])
        else:
            args = (dict({k: m[k].copy() for k in ("cons", "elements", "mats", "loads")}, nodes=m["nodes"][:, :3].copy()),)
        del said[:]
        so, se = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
        S.fault, S.hits = st["fault"], 0
        err, u = None, None
        try:
            u = getattr(env.mod("solids_GUI"), st["fn"])(*args, **kw)
        except Exception as e:
            err = e
        text = sys.stdout.getvalue() + "\n" + sys.stderr.getvalue() + "\n" + "\n".join(said)
        sys.stdout, sys.stderr = so, se
        S.fault = None
        if isinstance(u, tuple):
            u = u[0]
        out.append({"err": None if err is None else type(err).__name__ + ": " + values.text(err), "u": None if u is None else np.array(u, dtype=float), "text": text, "hits": S.hits})
    return out


def residual(m, u):
    """(relative residual in the weaker of two norms, in the stronger, relative rounding doubt)"""
    n = len(m["nodes"])
    K = refmodel.assemble(m)
    f = np.zeros((n, 2))
    for row in m["loads"]:
        f[int(row[0])] += row[1:3]
    free = np.flatnonzero(m["cons"].ravel() == 0)
    if not len(free):
        return None
    f = f.ravel()[free]
    Kf, uf = K[free], u.ravel()
    with np.errstate(all="ignore"):
        r = Kf @ uf - f
        doubt = (np.abs(Kf) @ np.abs(uf)).max() * 1e-13 if np.isfinite(uf).all() else 0.0
    if not np.isfinite(r).all():
        return np.inf, np.inf, 0.0
    fm = np.abs(f).max()
    if fm == 0:
        return (0.0, 0.0, 0.0) if not np.abs(r).max() > 0 else (np.inf, np.inf, 0.0 if np.abs(r).max() > 10 * doubt else np.inf)
    a, b = np.abs(r).max() / fm, np.linalg.norm(r / fm) / np.linalg.norm(f / fm)
    return min(a, b), max(a, b), doubt / fm


def run(scn):
    bad, st, cover = [], {}, []

    def count(k):
        st[k] = st.get(k, 0) + 1
    with env.Scratch() as root:
        out = env.fork(session, scn, root)
        built = [models.build(s) for s in scn["models"]]
        for si, (s, o) in enumerate(zip(scn["steps"], out)):
            m, f = built[s["m"]], s["fault"]
            count("analyses")
            if f["how"] != "true":
                count("solver answer: " + f["how"] if o["hits"] else "solver fault not delivered")
            if o["err"] is not None:
                count("raised " + o["err"].split(":")[0])
                continue
            res = residual(m, o["u"])
            if res is None:
                count("no equations")
                continue
            lo, hi, doubt = res
            said = REPORT.search(o["text"]) is not None
            name = "step %d: %s with solver answer %s" % (si, s["fn"], {k: v for k, v in f.items() if k != "s"})
            spec = scn["models"][s["m"]]
            key = (s["fn"], f["how"], f.get("where"), int(np.floor(np.log10(lo))) if 0 < lo < np.inf else str(lo), spec["k"], int(np.log10(spec["E"])), spec.get("P", 1.0))
            if lo - doubt > 1e-3:
                cover.append(values.digest(("out",) + key))
                count("out of balance")
                if not said:
                    bad.append({"kind": "silent", "step": si, "msg": "%s: relative residual %.3g of the returned displacements, but nothing says the system is not in equilibrium" % (name, lo)})
            elif hi + doubt < 1e-9:
                cover.append(values.digest(("in",) + key))
                count("in balance")
                if said:
                    bad.append({"kind": "false report", "step": si, "msg": "%s: relative residual %.3g, yet the user is told: %s" % (name, hi, REPORT.search(o["text"]).group(0))})
            else:
                count("in between, not judged")
    return {"violations": bad, "stats": st, "cover": cover, "trace": values.digest([(o["err"], o["text"].count("\n"), None if o["u"] is None else o["u"].tobytes()) for o in out])}


def shrink(scn):
    s = scn["steps"]
    for a in range(len(s)):
        if len(s) > 1:
            yield dict(scn, steps=s[:a] + s[a + 1:])
    for j, x in enumerate(s):
        if x["strains"]:
            yield dict(scn, steps=s[:j] + [dict(x, strains=False)] + s[j + 1:])
        if x["fault"]["how"] != "true":
            yield dict(scn, steps=s[:j] + [dict(x, fault={"how": "true", "s": 0})] + s[j + 1:])
    for i, m in enumerate(scn["models"]):
        for key, v in (("nx", 1), ("ny", 1), ("jig", 0), ("perm", 0), ("nm", 1), ("nl", 1), ("E", 1.0), ("P", 1.0)):
            if m.get(key, v) != v:
                yield dict(scn, models=scn["models"][:i] + [dict(m, **{key: v})] + scn["models"][i + 1:])
