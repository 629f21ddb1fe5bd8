"""C05: user element routines are asked once per element and summed as answered."""
import functools
import random
import sys
import traceback
import numpy as np

from . import env, ops, sched, values

BUDGET = {"quick": (6000, 120, 60), "thorough": (300000, 3000, 300)}
RULE = ("one case is a simulated run of 1-3 caller threads assembling models with user element routines that misbehave as the seed says (reuse and later "
        "overwrite their output buffers, overwrite their coordinates, start other assemblies, let other threads run, raise at the k-th call); the oracle is "
        "the sum of the logged answers. Non-trivial: at least one such behaviour happened inside an assembly; distinct by (model shape, behaviours, outcome)")


class UserError(Exception):
    pass


class UserStop(BaseException):
    pass


ERRS = {"ValueError": ValueError, "KeyError": KeyError, "TypeError": TypeError, "StopIteration": StopIteration, "IndexError": IndexError,
        "AttributeError": AttributeError, "KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "UserError": UserError, "UserStop": UserStop,
        "ZeroDivisionError": ZeroDivisionError, "LinAlgError": np.linalg.LinAlgError, "SystemExit": SystemExit, "RuntimeError": RuntimeError,
        "NotImplementedError": NotImplementedError, "AssertionError": AssertionError, "OSError": OSError, "FloatingPointError": FloatingPointError}


def gen_mesh(rng):
    nn = rng.choice([2, 3, 5, 8, 14])
    per = min(rng.choice([1, 2, 2, 3, 4, 6, 9]), nn)
    return {"nn": nn, "per": per, "ne": rng.choice([1, 1, 2, 3, 6, 12]) if rng.random() < 0.95 else rng.choice([40, 60, 110, 300]), "dim": rng.choice([1, 2, 2, 2, 3]), "nd": rng.choice([1, 2, 2, 3, 4]),
            "fix": rng.choice([0.0, 0.2, 0.5, 0.8]), "nm": rng.choice([1, 2, 3]), "mc": rng.choice([1, 2, 4]), "seed": rng.randrange(10**6),
            "types": rng.choice([[99], [1], [5, 99], [1, 2, 3], [0], [7, 8]]), "degen": rng.random() < 0.1, "fcons": rng.random() < 0.3}


def gen_call(rng, nmesh, depth=0):
    c = {"how": rng.choice(["assembler", "assembler_dense", "sparse_assem", "dense_assem", "retriever", "dme"]), "m": rng.randrange(nmesh), "s": rng.randrange(10**6),
         "form": rng.choice(["object", "function", "method", "partial", "falsy", "unhashable"]),
         "out": rng.choice(["fresh", "reuse", "reuse", "same", "int", "fortran", "slice", "readonly", "scaled", "single", "mixed"]),
         "scribble": rng.random() < 0.4, "yield": rng.random() < 0.5}
    if rng.random() < 0.15:
        c["unit"] = [rng.choice([-18, -30, 20, 0, -18]), rng.choice([-18, -30, 20, 0])]
    elif rng.random() < 0.12 and c["out"] in ("fresh", "reuse", "fortran", "readonly"):
        c["odd"] = rng.choice([["inf", 0], ["nan", 0], ["nan", 1], ["-inf", 1], ["-0.0", 0]])
    if rng.random() < 0.25:
        c["raise"] = [rng.choice([1, 1, 2, 3, 5]), rng.choice(sorted(ERRS))]
    if depth < 2 and rng.random() < (0.3 if depth == 0 else 0.15):
        c["enter"] = [rng.choice([1, 1, 2, 4]), gen_call(rng, nmesh, depth + 1)]
        c["enter"][1].pop("raise", None)
        if rng.random() < 0.3:
            c["enter"][1]["builtin"] = 1
    return c


def generate(rng, tier, i):
    nm = rng.choice([1, 2, 3])
    nt = rng.choice([1, 1, 2, 3])
    meshes = [gen_mesh(rng) for _ in range(nm)]
    if nm > 1 and rng.random() < 0.4:
        meshes[1] = dict(meshes[0], seed=rng.randrange(10**6))
    large = [m for m in meshes if m["ne"] >= 40]
    for m in large:
        m.update(per=min(m["per"], 3), nd=min(m["nd"], 2))
    nt = 1 if large and nt > 2 else nt
    threads = []
    for _ in range(nt):
        th = []
        for _ in range(rng.choice([1, 2, 3, 4])):
            if th and rng.random() < 0.35:
                th.append(dict(th[-1], s=rng.randrange(10**6), same_routine=1))
            else:
                th.append(gen_call(rng, nm))
        threads.append(th)
    return {"prop": "C05", "meshes": meshes, "threads": threads, "gran": "line" if large else rng.choice(["line", "line", "ins"]),
            "sched": {"type": rng.choice(["random", "novel"]), "p": rng.choice([0.0, 0.02, 0.1, 0.4]), "max": rng.choice([3, 6, 9]), "seed": rng.randrange(2**31)}}


def build(s):
    r = ops.RNG(s["seed"])
    nn, per, ne = s["nn"], s["per"], s["ne"]
    nodes = np.column_stack([np.arange(nn).astype(float), r.uniform(-5, 5, (nn, s["dim"]))])
    els = np.zeros((ne, 3 + per), int)
    els[:, 0] = np.arange(ne)
    els[:, 1] = r.choice(s["types"], ne)
    els[:, 2] = r.integers(0, s["nm"], ne)
    for e in range(ne):
        els[e, 3:] = r.integers(0, nn, per) if s["degen"] else r.choice(nn, per, replace=False)
    cons = -(r.random((nn, s["nd"])) < s["fix"]).astype(int)
    if (cons == -1).all():
        cons[0, 0] = 0
    if s["fcons"]:
        cons = cons.astype(float)
    return {"nodes": nodes, "elements": els, "mats": r.uniform(0.5, 9, (s["nm"], s["mc"])), "cons": cons, "nd": s["nd"], "spec": s}


class Routine:
    """One user element routine with a log of what it was asked and what it answered."""

    def __init__(self, ctx, spec, nd, name):
        self.ctx, self.spec, self.nd, self.name = ctx, spec, nd, name
        self.log, self.calls, self.error, self.notes = [], 0, None, []
        self.rng = ops.RNG(spec["s"])
        self.K, self.M = np.zeros((nd, nd)), np.zeros((nd, nd))
        self.inner = []

    def __call__(self, *a, **kw):
        if kw or len(a) != 2:
            self.notes.append("called with %d positional and %s keyword arguments" % (len(a), sorted(kw)))
        coord, params = a[0], a[1]
        self.calls += 1
        n = self.calls
        self.log.append([np.array(coord, copy=True), np.array(params, copy=True), None, None, False, False])
        entry = self.log[-1]
        sp = self.spec
        if sp.get("raise") and sp["raise"][0] == n:
            self.error = ERRS[sp["raise"][1]]("user error %d" % n)
            self.ctx.count("callback raises %s" % sp["raise"][1])
            raise self.error
        if sp["scribble"] and isinstance(coord, np.ndarray) and coord.flags.writeable:
            coord[...] = 1e9
            self.ctx.count("callback overwrites coordinates")
        if sp["yield"]:
            self.ctx.point()
        if sp.get("enter") and sp["enter"][0] == n:
            self.ctx.count("callback starts another assembly")
            self.ctx.call(sp["enter"][1], self.name + ">")
        if sp["out"] == "scaled":
            k = self.rng.uniform(-1, 1, (self.nd, self.nd)) * 10.0 ** self.rng.integers(-14, 15, (self.nd, self.nd))
        else:
            k = self.rng.uniform(-1, 1, (self.nd, self.nd)) * 10.0 ** self.rng.integers(-3, 4)
        m = self.rng.uniform(0, 1, (self.nd, self.nd))
        if sp.get("unit") and sp["out"] not in ("int", "single", "mixed"):       # other units
            k, m = k * 10.0 ** sp["unit"][0], m * 10.0 ** sp["unit"][1]
        if sp.get("odd") and n == 1:
            (m if sp["odd"][1] else k)[self.rng.integers(0, self.nd), self.rng.integers(0, self.nd)] = float(sp["odd"][0])
        if sp["out"] == "int":
            k, m = np.rint(k * 1000).astype(int), np.rint(m * 10).astype(int)
        if sp["out"] in ("single", "mixed"):       # answers of one or of several kinds of number
            types = [np.float32] if sp["out"] == "single" else [np.float64, np.float64, np.float32, int]
            k, m = ((np.rint(1000 * x) if q is int else x).astype(q) for x, q in ((x, types[self.rng.integers(0, len(types))]) for x in (k, m)))
        if sp["out"] == "reuse":
            self.K[...], self.M[...] = k, m
            ok, om = self.K, self.M
            if n > 1:
                self.ctx.count("callback reuses its buffers")
        elif sp["out"] == "same":
            self.K[...] = k
            ok = om = self.K
            m = k
        elif sp["out"] == "fortran":
            ok, om = np.asfortranarray(k), np.asfortranarray(m)
        elif sp["out"] == "slice":
            big = np.full((2 * self.nd, 2 * self.nd), 77.0)
            big[::2, ::2] = k
            ok, om = big[::2, ::2], m
        else:
            ok, om = k, m
            if sp["out"] == "readonly":
                ok.flags.writeable = om.flags.writeable = False
        entry[2], entry[3] = np.array(k, float), np.array(m, float)
        entry[4:] = [np.asarray(ok).dtype == np.float32, np.asarray(om).dtype == np.float32]
        self.inner = [ok, om]
        if sp["yield"]:
            self.ctx.point()
        return ok, om

    def method(self, coord, params):
        return self(coord, params)

    def make(self):
        f = self.spec["form"]
        if f == "function":
            return lambda coord, params: self(coord, params)
        if f == "method":
            return self.method
        if f == "partial":
            return functools.partial(lambda extra, coord, params: self(coord, params), None)
        if f == "falsy":
            return Falsy(self)
        if f == "unhashable":
            return Unhashable(self)
        return self


class Falsy:
    def __init__(self, r):
        self.r = r

    def __call__(self, coord, params):
        return self.r(coord, params)

    def __len__(self):
        return 0


class Unhashable(Falsy):
    __hash__ = None

    def __eq__(self, o):
        return True

    def __len__(self):
        return 1


def number(m):
    bc = m["cons"].astype(int)
    free = bc == 0
    bc[free] = np.arange(free.sum())
    return bc, int(free.sum())


class Ctx:
    def __init__(self, scn):
        self.m = [build(s) for s in scn["meshes"]]
        self.bad, self.stats, self.sched, self.harness = [], {}, None, []
        self.done = []
        self.routines = {}

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def point(self):
        s = sched._active[0]
        if s is not None and s.n > 1 and s.me() is not None:
            s.point(s.me())

    def fail(self, kind, msg):
        self.bad.append({"kind": kind, "msg": msg})

    def call(self, c, name, tid=None):
        A = env.mod("assemutil")
        m = self.m[c["m"]]
        nd_el = m["nd"] * m["spec"]["per"]
        bc, neq = number(m)
        els, nodes, mats, cons = m["elements"], m["nodes"], m["mats"], m["cons"]
        before = [values.snap(x) for x in (els, nodes, mats, cons)]
        width = nd_el + c["s"] % 3
        opx = np.zeros((len(els), width), int)
        for e in range(len(els)):
            opx[e, :nd_el] = bc[els[e, 3:]].ravel()
        self.count("calls")
        if c["how"] == "dme":
            return self.dme(c, name, m, opx, bc, neq, nd_el, width)
        if c.get("same_routine") and tid in self.routines and self.routines[tid].nd == nd_el:
            r = self.routines[tid]
            if c["how"] != "retriever" and r.spec.get("raise"):
                r = Routine(self, c, nd_el, name)
        else:
            r = Routine(self, c, nd_el, name)
        self.routines[tid] = r
        r.log, r.error, r.notes, r.calls = [], None, [], 0
        u = r.make()
        op0 = opx.copy()
        got, err = None, None
        ele = c["s"] % len(els)
        try:
            if c["how"] == "assembler":
                got = A.assembler(els, mats, nodes, neq, opx, uel=u)
            elif c["how"] == "assembler_dense":
                got = A.assembler(els, mats, nodes, neq, opx, sparse=False, uel=u)
            elif c["how"] == "retriever":
                got = A.retriever(els, mats, nodes, ele, uel=u)
            else:
                got = getattr(A, c["how"])(els, mats, nodes, neq, opx, uel=u)
        except sched.Deadlock:
            raise
        except BaseException as e:
            err = e
        where = "%s %s on model %d" % (name, c["how"], c["m"])
        self.done.append((c["how"], c["out"], c["form"], bool(c["scribble"]), bool(c.get("enter")), c.get("raise") and c["raise"][1], type(err).__name__))
        if r.error is not None:
            if err is not r.error:
                self.fail("routine error lost", "%s: the routine raised %r; the caller saw %s" % (where, r.error, "a result" if err is None else repr(err)))
        elif err is not None:
            self.fail("unexpected error", "%s: %s" % (where, "".join(traceback.format_exception_only(err)).strip()))
        if [values.snap(x) for x in (els, nodes, mats, cons)] != before or not np.array_equal(opx, op0):
            self.fail("arguments changed", "%s changed the arrays it was given" % where)
        if r.notes:
            self.fail("routine called differently", "%s: %s" % (where, r.notes[0]))
        want = [ele] if c["how"] == "retriever" else range(len(els))
        keys = {}
        for e in want:
            k = (np.ascontiguousarray(nodes[els[e, 3:], 1:]).tobytes(), np.ascontiguousarray(mats[els[e, 2]]).tobytes())
            keys.setdefault(k, []).append(e)
        assign = []
        for n, (co, pa, *_) in enumerate(r.log):
            lst = keys.get((co.astype(float).tobytes(), np.atleast_1d(pa).astype(float).tobytes()))
            if not lst:
                self.fail("asked for something else", "%s: call %d of the routine had coordinates %s and parameters %s, which belong to no element still to be asked for" % (
                    where, n + 1, values.show(values.snap(co)), values.show(values.snap(pa))))
                return
            assign.append(lst.pop())
        if err is not None or got is None:
            return
        left = sum(map(len, keys.values()))
        if left:
            self.fail("elements not asked for", "%s: the routine was never asked for %d of %d elements" % (where, left, len(want)))
            return
        if c["how"] == "retriever":
            exp = (r.log[0][2], r.log[0][3])
            tol = tuple(1e-11 * np.abs(x) for x in exp)
        else:
            exp = np.zeros((2, neq, neq))
            tol = np.zeros((2, neq, neq))
            for e, (co, pa, k, q, k4, q4) in zip(assign, r.log):
                d = opx[e, :nd_el]
                for a in range(nd_el):
                    if d[a] != -1:
                        for b in range(nd_el):
                            if d[b] != -1:
                                exp[0, d[a], d[b]] += k[a, b]
                                exp[1, d[a], d[b]] += q[a, b]
                                tol[0, d[a], d[b]] += (1e-5 if k4 else 1e-11) * abs(k[a, b])          # answers in single precision may be summed as such
                                tol[1, d[a], d[b]] += (1e-5 if q4 else 1e-11) * abs(q[a, b])
        first = [values.snap(g) for g in got]
        for g, e, t, what in zip(got, exp, tol, ("stiffness", "mass")):
            g = np.asarray(g.toarray() if hasattr(g, "toarray") else g)
            with np.errstate(all="ignore"):
                ok = (np.abs(g - e) <= t) | (g == e) | np.isnan(e) & np.isnan(g) if g.shape == e.shape else None
            if ok is None or not ok.all():
                i = np.unravel_index(np.argmin(ok), e.shape) if g.shape == e.shape else None
                self.fail("not the sum of the answers", "%s: %s %s; the answers sum to %s" % (where, what, "has shape %s" % (g.shape,) if i is None else "entry %s is %r" % (tuple(map(int, i)), g[i]),
                                                                                          e.shape if i is None else repr(e[i])))
                return
        if c["how"] != "retriever":
            for x in [r.K, r.M] + r.inner:
                if x.flags.writeable:
                    x[...] = 31337
            if [values.snap(g) for g in got] != first:
                self.fail("result shares the routine's memory", "%s: the returned matrices changed when the routine reused its buffers afterwards" % where)

    def dme(self, c, name, m, opx, bc, neq, nd_el, width):
        A = env.mod("assemutil")
        where = "%s DME on model %d" % (name, c["m"])
        state = {"n": 0, "err": None, "seen": set()}
        types = set(map(int, m["elements"][:, 1]))

        def ndof(iet):
            state["n"] += 1
            state["seen"].add(int(iet))
            if c.get("raise") and c["raise"][0] == state["n"]:
                state["err"] = ERRS[c["raise"][1]]("user error")
                self.count("callback raises %s" % c["raise"][1])
                raise state["err"]
            if c["yield"]:
                self.point()
            if c.get("enter") and c["enter"][0] == state["n"]:
                self.count("callback starts another assembly")
                self.call(c["enter"][1], name + ">")
            return nd_el
        got, err = None, None
        try:
            got = A.DME(m["cons"], m["elements"], ndof_node=m["nd"], ndof_el_max=width, ndof_el=ndof)
        except sched.Deadlock:
            raise
        except BaseException as e:
            err = e
        self.done.append(("dme", c.get("raise") and c["raise"][1], type(err).__name__))
        if state["err"] is not None:
            if err is not state["err"]:
                self.fail("routine error lost", "%s: the routine raised %r; the caller saw %s" % (where, state["err"], "a result" if err is None else repr(err)))
            return
        if err is not None:
            self.fail("unexpected error", "%s: %r" % (where, err))
            return
        if not state["seen"] <= types:
            self.fail("asked for something else", "%s asked for types %s; the elements have %s" % (where, state["seen"], types))
        o, b, n = got
        o = np.asarray(o)
        if int(n) != neq or not np.array_equal(np.asarray(b), bc) or o.shape[0] != len(opx) or o.shape[1] < nd_el or not np.array_equal(o[:, :nd_el], opx[:, :nd_el]):
            self.fail("operator does not follow the routine", "%s: operator %s, expected %s" % (where, values.show(values.snap(o)), values.show(values.snap(opx))))


def simulate(scn):
    ctx = Ctx(scn)

    def body(t):
        def go():
            try:
                for k, c in enumerate(scn["threads"][t]):
                    ctx.call(c, "thread %d call %d" % (t, k), t)
            except sched.Deadlock:
                raise
            except BaseException:
                ctx.harness.append(traceback.format_exc())
        return go
    sw = []
    if len(scn["threads"]) == 1:
        body(0)()
    else:
        s = sched.Sched(len(scn["threads"]), scn["sched"], sched.code_objects(env.REPO), scn["gran"])
        ctx.sched = s
        s.run([body(t) for t in range(len(scn["threads"]))])
        sw = s.switches
        ctx.count("switches", len([x for x in sw if x[0] >= 0]))
        if s.dead:
            ctx.fail("calls do not finish", s.dead)
    if ctx.harness:
        raise env.HarnessError(ctx.harness[0])
    return ctx.bad, ctx.stats, sw, ctx.done


def run(scn):
    bad, st, sw, done = env.fork(simulate, scn)
    shape = [(m["per"], m["nd"], m["ne"], m["fix"] > 0) for m in scn["meshes"]]
    calls = [c for th in scn["threads"] for c in th]
    nontriv = any(c["scribble"] or c["out"] in ("reuse", "same") or c.get("raise") or c.get("enter") for c in calls) or len(sw) > len(scn["threads"])
    return {"violations": bad, "stats": st, "cover": [values.digest((shape, done, len(sw) > 2))] if nontriv else [], "trace": values.digest((bad, sorted(st.items()), sw, done)), "switches": sw}


def concrete(scn, result):
    if len(scn["threads"]) > 1 and "switches" in result:
        return dict(scn, sched={"type": "explicit", "sw": result["switches"]})
    return None


def shrink(scn):
    th = scn["threads"]
    if len(th) > 1:
        for t in range(len(th)):
            yield dict(scn, threads=th[:t] + th[t + 1:], sched={"type": "random", "p": 0.0, "seed": 0})
            yield dict(scn, threads=th[:t] + th[t + 1:])
    for t in range(len(th)):
        for k in range(len(th[t])):
            if len(th[t]) > 1:
                new = [list(x) for x in th]
                del new[t][k]
                yield dict(scn, threads=new)
            for key in ("raise", "enter"):
                if key in th[t][k]:
                    new = [list(x) for x in th]
                    new[t][k] = {a: b for a, b in th[t][k].items() if a != key}
                    yield dict(scn, threads=new)
            for key, v in (("scribble", False), ("yield", False), ("out", "fresh"), ("form", "object")):
                if th[t][k][key] != v:
                    new = [list(x) for x in th]
                    new[t][k] = dict(th[t][k], **{key: v})
                    yield dict(scn, threads=new)
    if scn["sched"]["type"] == "explicit":
        sw = scn["sched"]["sw"]
        size = len(sw) // 2
        while size >= 1:
            for a in range(0, len(sw), size):
                yield dict(scn, sched={"type": "explicit", "sw": sw[:a] + sw[a + size:]})
            size //= 2
    for i, m in enumerate(scn["meshes"]):
        for key, v in (("ne", 1), ("ne", 2), ("nm", 1), ("fix", 0.0), ("nd", 1), ("per", 2), ("dim", 1)):
            if m[key] > v:
                yield dict(scn, meshes=scn["meshes"][:i] + [dict(m, **{key: v})] + scn["meshes"][i + 1:])
