"""C23: a long session holds a bounded amount of everything."""
import atexit
import contextlib
import ctypes
import gc
import logging
import os
import sys
import tempfile
import threading
import warnings

import numpy as np

from . import c02, env, models, ops, points, sched, seams, state, values

BUDGET = {"quick": (1500, 150, 45), "thorough": (30000, 3000, 300)}
RULE = ("one case is a simulated session that repeats a cycle of 1-4 calls on ever new arguments, some of them aborted by an injected fault or failing, and measures after "
        "collecting garbage what is held: memory blocks, heap bytes, objects, files, threads, temporary files, hooks, and the steps a fixed probe call takes. Non-trivial: at least 100 "
        "repetitions were measured; distinct by (calls of the cycle, fault kinds, outcomes)")
ASSUMPTIONS = ["a session that still grows after some thousand repetitions is taken to grow for ever; caches of up to about two thousand entries pass",
               "memory handed out by C libraries other than through malloc is not seen"]
TOOL = 5
PLAN = {"warm": 110, "seg": 50, "late": 250, "lates": 9}


def generate(rng, tier, i):
    nm = rng.choice([1, 1, 2])
    specs = []
    for _ in range(nm):
        s = models.gen(rng)
        s["nx"], s["ny"] = rng.choice([(1, 1), (2, 1), (1, 2), (2, 2)])
        specs.append(s)
    cyc = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        o = {"op": rng.choice(ops.MESH + ops.SMALL + ops.MESH + ["solids_auto", "assembler"] + ops.FILE * 2), "m": rng.randrange(nm), "s": rng.randrange(10**6)}
        x = rng.random()
        if o["op"] != "plot" and x < 0.45:
            if x < 0.15:
                o["fault"] = {"type": "point", "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}
            elif x < 0.22:
                o["op"] = rng.choice(["static_sol", "solids_auto", "solids_GUI"])
                o["fault"] = {"type": "solver", "exc": rng.choice(["LinAlgError", "RuntimeError", "MemoryError", "KeyboardInterrupt"])}
            elif x < 0.28:
                o["op"] = rng.choice(["assembler", "retriever"])
                o["fault"] = {"type": "callback", "exc": rng.choice(["ValueError", "KeyError", "MemoryError", "KeyboardInterrupt"])}
            elif x < 0.36:
                o["op"] = rng.choice(["solids_GUI", "readin", "echomod"])
                e = o["op"] == "echomod"
                o["fault"] = {"type": "io", "on": rng.choice(["openw", "write", "close"] if e else ["openr", "read"]), "n": rng.randint(1, 4), "errno": rng.choice(["EIO", "EACCES", "EMFILE", "ENOMEM"])}
            else:
                o["op"] = rng.choice(["solids_auto", "assembler", "DME", "solids_GUI", "loadasem", "strain_nodes"])
                o["fault"] = {"type": "invalid", "how": rng.choice(["type", "nan", "load", "material", "node"])}
        o["every"] = rng.choice([1, 1, 1, 2])
        o["vary"] = rng.random() < 0.85
        cyc.append(o)
    return {"prop": "C23", "models": specs, "cycle": cyc, "probe": {"op": rng.choice(ops.MESH + ops.SMALL + ["solids_GUI"]), "m": 0, "s": rng.randrange(10**6)},
            "seed": rng.randrange(10**6), "mesh": rng.random() < 0.6}


class _Info(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks", "fordblks", "keepcost")]


_m2 = None


def heap():
    global _m2
    if _m2 is None:
        _m2 = ctypes.CDLL(None).mallinfo2
        _m2.restype = _Info
    i = _m2()
    return i.uordblks + i.hblkhd


def count_files(folders):
    n = 0
    for d in folders:
        try:
            n += len(os.listdir(d))
        except OSError:
            pass
    return n


class Sink:
    n = 0

    def write(self, s):
        self.n += len(s)
        return len(s)

    def flush(self):
        pass


def work(fn):
    """Steps inside solidspy a call takes: lines, jumps and function entries."""
    mon, ev = sys.monitoring, sys.monitoring.events
    n = [0]

    def hit(*a):
        n[0] += 1
    mon.use_tool_id(TOOL, "dst-work")
    mask = ev.LINE | ev.JUMP | ev.PY_START
    codes = sched.code_objects(env.REPO)
    for e in (ev.LINE, ev.JUMP, ev.PY_START):
        mon.register_callback(TOOL, e, hit)
    for c in codes:
        mon.set_local_events(TOOL, c, mask)
    try:
        try:
            fn()
        except Exception:
            pass
    finally:
        for c in codes:
            mon.set_local_events(TOOL, c, 0)
        for e in (ev.LINE, ev.JUMP, ev.PY_START):
            mon.register_callback(TOOL, e, None)
        mon.free_tool_id(TOOL)
    return n[0]


def measure(root):
    gc.collect()
    gc.collect()
    m = {}
    m["memory blocks"] = sys.getallocatedblocks()
    m["heap bytes"] = heap()
    m["objects"] = len(gc.get_objects())
    m["open files"] = len(os.listdir("/proc/self/fd"))
    m["threads"] = threading.active_count()
    m["temporary files"] = count_files([tempfile.gettempdir(), os.path.expanduser("~"), os.getcwd()])
    m["exit handlers"] = atexit._ncallbacks()
    m["warning filters"] = len(warnings.filters)
    m["search path"] = len(sys.path) + len(sys.meta_path) + len(sys.path_hooks)
    m["modules"] = len(sys.modules)
    m["environment"] = len(os.environ)
    m["log handlers"] = sum(len(getattr(l, "handlers", ())) for l in list(logging.root.manager.loggerDict.values()) + [logging.root])
    return m


LEAST = {"memory blocks": 0.6, "heap bytes": 24.0, "objects": 0.2}      # growth per repetition that counts


def one(scn, w, o, j, k, counts, tally):
    """One call of the cycle in repetition j."""
    f = o.get("fault")
    st = {"op": o["op"], "m": o["m"], "s": (o["s"] + 7919 * j) % 10**9 if o["vary"] else o["s"]}
    ww = c02.spoil(w, o["m"], f["how"], st["s"]) if f and f["type"] == "invalid" else w
    dotted, args, kwargs = ops.prepare(ww, st)
    err = live = None
    try:
        if f is None or f["type"] == "invalid":
            live = c02.call(dotted, args, kwargs)
        elif f["type"] == "point":
            key = (k, dotted)
            if key not in counts:
                with points.Points() as p:
                    try:
                        c02.call(dotted, args, kwargs)
                    finally:
                        counts[key] = max(p.n, 1)
            else:
                inj = c02.exc(f["exc"])("injected")

                def act():
                    raise inj
                with points.Points(1 + (j * 31 + o["s"]) % counts[key], act):
                    live = c02.call(dotted, args, kwargs)
        elif f["type"] == "solver":
            inj = c02.exc(f["exc"])("injected")

            def fake(*a, **kw):
                raise inj
            seamlist = c02.solver_seams()
            for mod, name, fn in seamlist:
                setattr(mod, name, fake)
            try:
                live = c02.call(dotted, args, kwargs)
            finally:
                for mod, name, fn in seamlist:
                    setattr(mod, name, fn)
        elif f["type"] == "callback":
            good = kwargs.get("uel") or ops.Uel(2 * (args[0].shape[1] - 3), 7)
            kwargs = dict(kwargs, uel=c02.Raising(good, 1 + j % 3, c02.exc(f["exc"])("injected")))
            live = c02.call(dotted, args, kwargs)
        elif f["type"] == "io":
            with seams.Files(w.root, [{"on": f["on"], "n": f["n"], "act": "err", "errno": f["errno"]}], seed=j):
                live = c02.call(dotted, args, kwargs)
    except BaseException as e:
        err = type(e).__name__
    if err is None:
        ops.keep(w, o["m"], dotted, live)
    if o["op"] == "plot":
        import matplotlib.pyplot as plt
        plt.close("all")
    tally.add((dotted, f["type"] if f else "", err or "ok"))


def session(scn, root):
    values.ROOT[0] = root
    tmp = os.path.join(root, "tmp")
    os.makedirs(tmp)
    os.chdir(tmp)
    tempfile.tempdir = tmp
    os.environ["TMPDIR"] = os.environ["TEMP"] = os.environ["TMP"] = tmp
    os.environ["HOME"] = tmp
    sys.stdout = Sink()
    seams.arrays_on()                              # past numpy's cache of blocks: what is held is held by somebody
    w = ops.World(scn["models"], root)
    base = [models.build(s) for s in scn["models"]]
    counts, tally = {}, set()
    calls = [0]

    def repeat(a, b):
        for j in range(a, b):
            for mi, b in enumerate(base):
                f = 1 + ((j * 617) % 9973) / 9973
                m = {k: v.copy() if hasattr(v, "copy") else v for k, v in b.items()}
                m["nodes"][:, 1:3] *= f
                m["mats"][:, 0] *= f
                m["loads"][:, 1:] *= f
                if scn.get("mesh"):        # other materials, restraints and element orders every time
                    r = ops.RNG(j)
                    m["mats"] = np.tile(m["mats"][:1], (600, 1))
                    m["elements"] = m["elements"][r.permutation(len(m["elements"]))]
                    m["elements"][:, 0] = range(len(m["elements"]))
                    m["elements"][:, 2] = r.integers(0, 600, len(m["elements"]))
                    hold = r.uniform(size=m["cons"].shape) < 0.15
                    hold[:, -1] |= r.integers(0, 2, len(hold)) == 0
                    if ((m["cons"] == 0) & ~hold).any():
                        m["cons"][hold] = -1
                        m["nodes"][:, 3:] = m["cons"]
                w.m[mi] = m
            for k, o in enumerate(scn["cycle"]):
                if j % o["every"] == 0:
                    one(scn, w, o, j, k, counts, tally)
                    calls[0] += 1

    pw = ops.World([dict(scn["models"][0])], root + "/probe")

    def probe():
        dotted, args, kwargs = ops.prepare(pw, scn["probe"])
        return work(lambda: c02.call(dotted, args, kwargs))
    p = PLAN
    plots = any(o["op"] == "plot" for o in scn["cycle"])
    warm, seg = (8, 8) if plots else (p["warm"], p["seg"])
    probe()
    work0 = probe()
    repeat(0, warm)
    marks = [measure(root) for _ in range(4)]
    own = {k: max(b[k] - a[k] for a, b in zip(marks[1:], marks[2:])) for k in marks[0]}        # what measuring itself costs
    marks = marks[-1:]
    at = warm
    for _ in range(3):
        repeat(at, at + seg)
        at += seg
        marks.append(measure(root))
    work1 = probe()
    bad = []

    def growing(ms, n):
        out = {}
        for key in ms[0]:
            d = [b[key] - a[key] - own[key] for a, b in zip(ms, ms[1:])]
            if all(x > 0 for x in d) and sum(d) / n / len(d) >= LEAST.get(key, 0.0):
                out[key] = sum(d) / n / len(d)
        return out
    early = growing(marks, seg)
    late = {}
    if early:
        n = p["late"] // (8 if plots else 1)
        lm = [measure(root)]
        for _ in range(p["lates"]):
            repeat(at, at + n)
            at += n
            lm.append(measure(root))
            late = growing(lm, n)
            late = {k: v for k, v in late.items() if k in early}
            if not late:
                break
        # what still grows at the end must do so at much of the rate of the beginning (a cache filling up does not)
        last = growing(lm[-3:], n) if len(lm) >= 3 else {}
        late = {k: v for k, v in late.items() if k in last and last[k] >= max(0.4 * min(early[k], v), 0.7 * v)}
        if late:
            bad.append({"kind": "keeps growing", "msg": "after %d calls in %d repetitions the session still grows, per repetition: %s" % (
                calls[0], at, ", ".join("%s %.3g" % kv for kv in sorted(late.items())))})
    work2 = probe()
    if work1 > 1.5 * work0 + 40 and work2 >= work1:
        if work2 < work1 + 0.2 * (work1 - work0):            # not growing any more (or not measured further): go on
            repeat(at, at + 300)
            at += 300
            work2 = probe()
        if work2 > work1 + 0.2 * (work1 - work0):
            bad.append({"kind": "work grows", "msg": "the same call of %s took %d steps at first, %d after %d repetitions and %d after %d" % (
                scn["probe"]["op"], work0, work1, warm + 3 * seg, work2, at)})
    return bad, sorted(tally), calls[0], at, bool(early), [[m[k] for k in sorted(m) if k not in ("heap bytes", "memory blocks", "objects")] for m in marks], work0, work1


def run(scn):
    with env.Scratch() as root:
        bad, tally, calls, reps, early, marks, w0, w1 = env.fork(session, scn, root, timeout=400, threads=False)
    st = {"calls": calls, "repetitions": reps, "sessions looked at longer": int(early)}
    for o in scn["cycle"]:
        if "fault" in o:
            k = "fault %s %s" % (o["fault"]["type"], o["fault"].get("exc") or o["fault"].get("how") or o["fault"].get("errno"))
            st[k] = st.get(k, 0) + reps // o["every"]
    return {"violations": bad, "stats": st, "cover": [values.digest(t) for t in tally] if reps >= 30 else [], "trace": values.digest((tally if not early else 0, [[b - a for a, b in zip(marks[0], m)] for m in marks[1:]], w0, w1))}


def shrink(scn):
    c = scn["cycle"]
    for j in range(len(c)):
        if len(c) > 1:
            yield dict(scn, cycle=c[:j] + c[j + 1:])
    for j, o in enumerate(c):
        if "fault" in o:
            yield dict(scn, cycle=c[:j] + [{k: v for k, v in o.items() if k != "fault"}] + c[j + 1:])
        if o["vary"]:
            yield dict(scn, cycle=c[:j] + [dict(o, vary=False)] + c[j + 1:])
    for i, m in enumerate(scn["models"]):
        for key, v in (("nx", 1), ("ny", 1), ("jig", 0), ("perm", 0), ("nm", 1), ("nl", 1)):
            if m.get(key) != v:
                yield dict(scn, models=scn["models"][:i] + [dict(m, **{key: v})] + scn["models"][i + 1:])
