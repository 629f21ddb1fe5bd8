"""C02: an aborted call surfaces its error and leaves no trace."""
import builtins
import hashlib
import sys
import numpy as np

from . import env, models, ops, points, seams, state, values

BUDGET = {"quick": (2600, 150, 60), "thorough": (60000, 3000, 300)}
RULE = ("one case is a simulated session in which 1-3 calls are aborted by an injected fault (interrupt or memory error at a chosen evaluation point, n-th array "
        "allocation failing, solver, user routine or file error, invalid model) and are followed by the repeated call and other calls, compared with a pristine "
        "process. Non-trivial: the fault really fired; distinct by (function, fault, place where it fired)")


class Boom(Exception):
    pass


class Cancelled(BaseException):
    pass


def generate(rng, tier, i):
    nm = rng.choice([1, 1, 2])
    specs = [models.gen(rng) for _ in range(nm)]
    for s in specs:
        if rng.random() < 0.6:
            s["nx"], s["ny"] = min(s["nx"], 2), min(s["ny"], 2)
    pool = ops.MESH * 2 + ops.SMALL + ["assembler", "solids_auto", "assembler", "DME"] + ops.FILE * 2
    steps = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        steps.append({"op": rng.choice(pool), "m": rng.randrange(nm), "s": rng.randrange(10**6)})
    for _ in range(rng.choice([1, 1, 2, 3])):
        o = {"op": rng.choice(pool), "m": rng.randrange(nm), "s": rng.randrange(10**6)}
        x = rng.random()
        if x < 0.5:
            f = {"type": "point", "frac": rng.random(), "exc": rng.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "TimeoutError", "SystemExit", "Cancelled", "Boom"])}
            if rng.random() < 0.15:
                f["frac"] = rng.choice([0.0, 0.999999])
            else:
                f["pick"] = rng.choice(["any", "place", "place", "shared"])
        elif x < 0.75:
            f = {"type": "alloc", "frac": rng.random()}
        elif x < 0.83:
            o["op"] = rng.choice(["static_sol", "solids_auto", "solids_GUI"])
            f = {"type": "solver", "exc": rng.choice(["LinAlgError", "RuntimeError", "ValueError", "MemoryError", "KeyboardInterrupt", "FloatingPointError", "Boom"])}
        elif x < 0.86:
            o["op"] = rng.choice(["solids_auto", "solids_GUI"])
            f = {"type": "console", "at": rng.randint(1, 12), "exc": rng.choice(["BrokenPipeError", "OSError", "ValueError", "KeyboardInterrupt", "UnicodeError", "Cancelled"])}
        elif x < 0.89:
            f = {"type": "stack", "depth": rng.randint(1, 14)}
        elif x < 0.93:
            o["op"] = rng.choice(["assembler", "retriever"])
            f = {"type": "callback", "at": rng.choice([1, 1, 2, 3]), "exc": rng.choice(["ValueError", "KeyError", "IndexError", "MemoryError", "KeyboardInterrupt", "Boom", "TypeError", "StopIteration"])}
        elif x < 0.965:
            o["op"] = rng.choice(["solids_GUI", "readin", "echomod"])
            f = {"type": "io", "faults": [{"on": rng.choice(["openr", "read"]) if o["op"] != "echomod" else rng.choice(["openw", "write", "close"]), "n": rng.randint(1, 4),
                                            "act": "err", "errno": rng.choice(["EIO", "EACCES", "EMFILE", "ENOMEM"]), "persist": 0}]}
        else:
            o["op"] = rng.choice(["solids_auto", "assembler", "DME", "strain_nodes", "solids_GUI", "loadasem"])
            f = {"type": "invalid", "how": rng.choice(["type", "flat", "flip", "nan", "load", "material", "node", "free"]), "s": rng.randrange(10**6)}
        if rng.random() < 0.07:
            o["op"] = "plot"
            f = {"type": "badplot"} if rng.random() < 0.4 else {"type": "point", "frac": rng.random(), "exc": rng.choice(["KeyboardInterrupt", "MemoryError", "Boom"])}
        steps.append(dict(o, fault=f))
        if rng.random() < 0.8:
            steps.append(dict(o))
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            steps.append({"op": rng.choice(pool) if rng.random() < 0.6 else o["op"], "m": rng.randrange(nm), "s": rng.randrange(10**6)})
    return {"prop": "C02", "models": specs, "steps": steps, "ion": rng.random() < 0.5}


EXC = {"LinAlgError": np.linalg.LinAlgError, "Boom": Boom, "Cancelled": Cancelled}


def exc(name):
    return EXC.get(name) or getattr(builtins, name)


class Raising:
    """A user element routine that fails at its n-th call."""

    def __init__(self, good, at, err):
        self.good, self.at, self.err, self.n, self.fired = good, at, err, 0, False

    def __call__(self, coord, params):
        self.n += 1
        if self.n == self.at:
            self.fired = True
            raise self.err
        return self.good(coord, params)


def call(dotted, args, kwargs):
    m, n = dotted.split(".")
    return getattr(env.mod(m), n)(*args, **kwargs)


def solver_seams():
    """Every name in the package through which a linear solver is called."""
    out = []
    for m in env.MODULES:
        mod = env.mod(m)
        for k in ("spsolve", "solve", "splu", "factorized", "lstsq", "static_sol"):
            f = mod.__dict__.get(k)
            if callable(f) and not getattr(f, "__module__", "").startswith("solidspy"):
                out.append((mod, k, f))
    import numpy.linalg
    import scipy.sparse.linalg
    import scipy.linalg
    for mod in (numpy.linalg, scipy.sparse.linalg, scipy.linalg):
        for k in ("spsolve", "solve", "splu", "factorized"):
            f = mod.__dict__.get(k)
            if callable(f):
                out.append((mod, k, f))
    return out


def spoil(w, mi, how, s):
    """A broken copy of a model, as a World of its own."""
    m = models.build(w.specs[mi])
    r = ops.RNG(s)
    e = r.integers(0, len(m["elements"]))
    if how == "type":
        m["elements"][e, 1] = 42
    elif how == "flat":
        c = m["elements"][e, 3:]
        m["nodes"][c, 1:3] = m["nodes"][c[0], 1:3]
    elif how == "flip":
        m["elements"][e, 3:] = m["elements"][e, 3:][::-1]
    elif how == "nan":
        m["nodes"][r.integers(0, len(m["nodes"])), 1] = np.nan
    elif how == "load":
        m["loads"] = np.vstack([m["loads"], [[len(m["nodes"]) + 3.0, 1, 1]]])
    elif how == "material":
        m["elements"][e, 2] = len(m["mats"]) + 1
    elif how == "node":
        m["elements"][e, -1] = len(m["nodes"]) + 2
    elif how == "free":
        m["cons"][:] = 0
        m["nodes"][:, 3:] = 0
    x = ops.World([], w.root)
    x.m = list(w.m)
    x.m[mi] = m
    x.specs = w.specs
    return x


def session(scn, root, stop=None):
    """Run the steps; with stop=(step): only measure the points / allocations of that step and return the count."""
    values.ROOT[0] = root
    w = ops.World(scn["models"], root)
    recs, bad, fired = [], [], []
    if scn.get("ion"):
        import matplotlib.pyplot as plt
        plt.ion()
    seams.arrays_on()
    seams.alloc()
    for si, st in enumerate(scn["steps"]):
        f = st.get("fault")
        ww = spoil(w, st["m"], f["how"], f["s"]) if f and f["type"] == "invalid" else w
        dotted, args, kwargs = ops.prepare(ww, st)
        if f and f["type"] == "callback" and dotted.startswith("assemutil"):
            good = kwargs.get("uel") or ops.Uel(2 * (args[0].shape[1] - 3), 7)
            kwargs["uel"] = good
        if f and f["type"] == "badplot":
            args, kwargs = misdraw(dotted, args, kwargs)
        frozen = ops.freeze(dotted, args, kwargs)
        files = w.files(st["m"]) if dotted.split(".")[1] in ("solids_GUI", "readin") else None
        before = values.given(args)
        g0 = state.look()
        err, live, inj, did = None, None, None, None
        out = sys.stdout
        sys.stdout = Quiet()
        quiet = sys.stdout
        try:
            if f is None or f["type"] in ("invalid", "badplot"):
                live = call(dotted, args, kwargs)
            elif f["type"] == "point":
                inj = exc(f["exc"])("injected")

                def act():
                    raise inj
                with points.Points(None if stop == si else f["k"], act) as p:
                    live = call(dotted, args, kwargs)
            elif f["type"] == "alloc":
                seams.alloc(counting=1, fail_at=-1 if stop == si else f["k"])
                live = call(dotted, args, kwargs)
            elif f["type"] == "solver":
                inj = exc(f["exc"])("injected")
                did = [0]
                seamlist = solver_seams()
                for mod, k, fn in seamlist:
                    def fake(*a, **kw):
                        did[0] += 1
                        raise inj
                    setattr(mod, k, fake)
                try:
                    live = call(dotted, args, kwargs)
                finally:
                    for mod, k, fn in seamlist:
                        setattr(mod, k, fn)
            elif f["type"] == "callback":
                inj = exc(f["exc"])("injected")
                did = Raising(kwargs["uel"], f["at"], inj) if "uel" in kwargs else None
                live = call(dotted, args, dict(kwargs, uel=did) if did else kwargs)
            elif f["type"] == "console":
                inj = exc(f["exc"])("injected")
                quiet.at, quiet.err = f["at"], inj
                live = call(dotted, args, kwargs)
            elif f["type"] == "stack":
                limit = sys.getrecursionlimit()
                shallow(f["depth"])
                try:
                    live = call(dotted, args, kwargs)
                finally:
                    sys.setrecursionlimit(limit)
            elif f["type"] == "io":
                did = seams.Files(root, f["faults"])
                with did:
                    live = call(dotted, args, kwargs)
        except BaseException as e:
            err = e
        nalloc, nfail, _ = seams.alloc_stat()
        seams.alloc()
        streams = sys.stdout is quiet
        sys.stdout = out
        if stop == si:
            return p.measured() if f["type"] == "point" else nalloc
        # did the fault happen?
        hit, where = False, None
        if f:
            if f["type"] == "point":
                hit, where = p.fired, p.where
            elif f["type"] == "alloc":
                hit, where = nfail > 0, nalloc
            elif f["type"] == "solver":
                hit = did[0] > 0
            elif f["type"] == "callback":
                hit = bool(did and did.fired)
            elif f["type"] == "io":
                hit = bool(did.stats)
            elif f["type"] == "console":
                hit = quiet.n >= f["at"]
            elif f["type"] == "stack":
                hit, where = err is not None, f["depth"]
            else:
                hit = True
        name = "step %d: %s" % (si, dotted)
        if hit:
            fired.append((dotted, f["type"], f.get("exc") or f.get("how") or "", str(where), type(err).__name__))
        kind = None
        if hit and f["type"] == "stack":
            kind = "aborted" if "RecursionError" in values.exc_chain(err) else None      # otherwise the pristine process must raise the same
        elif hit and f["type"] in ("point", "solver", "callback", "console"):
            if err is not inj:
                bad.append({"kind": "error lost", "step": si, "msg": "%s was aborted with %r%s but the caller saw %s" % (
                    name, inj, " at %s" % (where,) if where else "", "a result: " + values.show(values.snap(live)) if err is None else repr(err))})
            kind = "aborted"
        elif hit and f["type"] == "alloc" and err is not None:
            if "MemoryError" not in " ".join(values.exc_chain(err)):
                bad.append({"kind": "error lost", "step": si, "msg": "%s: array allocation %d failed but the caller saw %r" % (name, f["k"], err)})
            kind = "aborted"
        elif hit and f["type"] == "io" and err is not None:
            if "OSError" not in [c.__name__ for c in type(err).__mro__]:
                bad.append({"kind": "error lost", "step": si, "msg": "%s: a file call failed but the caller saw %r" % (name, err)})
            kind = "aborted"
        elif hit and f["type"] == "io":
            kind = "judged elsewhere"            # C01 and C07 say what a call may do about a failing file
        if kind is None and err is not None and not isinstance(err, Exception):
            bad.append({"kind": "error lost", "step": si, "msg": "%s raised %r" % (name, err)})
            kind = "aborted"
        after = values.given(args)
        for j, (x, y) in enumerate(zip(before, after)):
            if x != y and ops.INPLACE.get(dotted) != j:
                bad.append({"kind": "argument changed", "step": si, "msg": "%s%s changed its argument %d" % (name, " (aborted by %s)" % f["type"] if f else "", j)})
        if st["op"] == "plot":
            sys.modules["matplotlib.pyplot"].close("all")     # C10 judges the windows
            g0["figures"] = ()
        g1 = state.look()
        changed = state.diff(g0, g1)
        if not streams:
            changed.append("standard streams")
        if "threads" in changed and (g1["threads"] < g0["threads"] or f and f["type"] == "stack"):
            changed.remove("threads")              # fewer are no trace; and the library cannot wait for its threads either without a stack
        exname = repr(err)
        if kind is None:
            o = ("exc", type(err).__name__, values.text(err)) if err is not None else ("ok", values.snap(live))
            recs.append({"step": si, "fn": dotted, "frozen": frozen, "files": files, "out": (o, "")})
            if err is None:
                ops.keep(w, st["m"], dotted, live)
        else:
            recs.append(None)
        if changed and err is not None and "open files" in changed:
            err = inj = live = None                # a traceback may hold a file object: let it go as the caller would
            g1 = state.look()
            changed = [c for c in changed if c == "standard streams" and not streams or g0.get(c) != g1.get(c)]
        if changed:
            bad.append({"kind": "trace left", "step": si, "msg": "%s (%s) left changed: %s" % (name, exname, "; ".join("%s: %s -> %s" % (c, str(g0.get(c))[:150], str(g1.get(c))[:150]) for c in changed))})
        err = inj = live = None
    return recs, bad, fired


def misdraw(dotted, args, kwargs):
    """A plotting call that cannot work."""
    if dotted.endswith("plot_node_field"):
        return args, dict(kwargs, plt_type="surface")
    if dotted.endswith("fields_plot"):
        return (args[0], args[1], args[2][:-1]), kwargs
    if dotted.endswith("plot_truss"):
        return args, dict(kwargs, stresses=np.ones(len(args[1]) - 1))
    return args, dict(kwargs, compute_strains=False)


def shallow(n):
    """Leave the functions called from our caller n more frames."""
    f, d = sys._getframe(1), 0
    while f:
        f, d = f.f_back, d + 1
    sys.setrecursionlimit(d + n + 2)


class Quiet:
    at, err, n = 0, None, 0

    def write(self, s):
        self.n += 1
        if self.n == self.at:
            raise self.err
        return len(s)

    def flush(self):
        pass


def run(scn):
    with env.Scratch() as root:
        scn = dict(scn, steps=[dict(s, fault=dict(s["fault"])) if "fault" in s else s for s in scn["steps"]])
        try:
            for si, st in enumerate(scn["steps"]):
                f = st.get("fault")
                if f and f["type"] in ("point", "alloc") and "k" not in f:
                    n = env.fork(session, scn, root, si)
                    f["k"] = points.pick(n, f["frac"], f.get("pick", "any")) if f["type"] == "point" else 1 + int(f["frac"] * n) if n else 1
            recs, bad, fired = env.fork(session, scn, root)
        except env.Died as e:
            if e.code < 0 and any((st.get("fault") or {}).get("type") == "alloc" for st in scn["steps"]):
                # numpy and scipy themselves crash under some failed allocations (np.isclose reads what it could not allocate): not judged
                return {"violations": [], "stats": {"not judged: process crashed in a library under a failed allocation": 1}, "cover": [], "trace": "crash %d" % e.code, "scn": scn}
            return {"violations": [{"kind": "process died", "msg": "the process ended with %d instead of returning or raising" % e.code}],
                    "stats": {}, "cover": [], "trace": "died %d" % e.code, "scn": scn}
        memo = {}
        for rec in recs:
            if rec is None:
                continue
            key = hashlib.sha256(rec["frozen"] + repr(rec["files"]).encode()).digest()
            if key not in memo:
                memo[key] = env.fork(ops.alone, rec["frozen"], rec["files"], root)
            ref = memo[key]
            if not ops.same_outcome(rec["out"], ref):
                bad.append({"kind": "later call affected", "step": rec["step"], "msg": "step %d: %s gave %s; in a fresh process it gives %s" % (
                    rec["step"], rec["fn"], values.show(rec["out"][0]), values.show(ref[0]))})
    st = {"calls": len(recs), "aborted calls": sum(r is None for r in recs)}
    for f in fired:
        k = "fault %s %s" % (f[1], f[2])
        st[k] = st.get(k, 0) + 1
    return {"violations": bad, "stats": st, "cover": [values.digest(f) for f in fired], "trace": values.digest((fired, [r and r["out"] for r in recs])), "scn": scn}


def concrete(scn, result):
    return result["scn"]


def shrink(scn):
    s = scn["steps"]
    size = max(len(s) // 2, 1)
    while size >= 1:
        for a in range(0, len(s), size):
            if len(s) > size:
                yield dict(scn, steps=s[:a] + s[a + size:])
        size //= 2
    for j, st in enumerate(s):
        if "fault" in st:
            yield dict(scn, steps=s[:j] + [{k: v for k, v in st.items() if k != "fault"}] + s[j + 1:])
    for i, m in enumerate(scn["models"]):
        for key, v in (("nx", 1), ("ny", 1), ("jig", 0), ("perm", 0), ("nm", 1), ("nl", 1)):
            if m.get(key) != v:
                yield dict(scn, models=scn["models"][:i] + [dict(m, **{key: v})] + scn["models"][i + 1:])
