"""C08: results ignore the environment and leave it untouched."""
import ctypes
import gc
import io
import locale
import os
import random
import resource
import signal
import sys
import tempfile
import time
import warnings

from . import c10, env, models, ops, sched, seams, state, values

BUDGET = {"quick": (3500, 150, 60), "thorough": (80000, 3000, 300)}
RULE = ("one case is one session of calls run twice, in a plain environment and in a drawn one (clock, hash seed, start locale, random state, working directory, locale, "
        "contents of uninitialised memory, user settings), compared call by call; and what each call left changed. Non-trivial: all; distinct by (function, what differed "
        "in the environment)")
COMPONENTS = {"real": "all of solidspy, numpy, scipy, CPython (second interpreter process for hash seed and start locale)",
              "stub": "wall and monotonic clock, entropy, fresh array memory (numpy allocator) and malloc fill"}

STARTS = [("0", {}), ("1", {}), ("2", {"TZ": "Asia/Kathmandu", "LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}), ("3", {"LC_ALL": "de_DE.ISO-8859-1"}),
          ("4", {"LC_ALL": "tr_TR.ISO-8859-9", "TZ": "America/Bogota"}), ("0", {"PYTHONOPTIMIZE": "2"}), ("5", {"PYTHONDEVMODE": "1", "PYTHONOPTIMIZE": "1", "LC_ALL": "POSIX"})]
LOCALES = [None, None, "C", "de_DE.ISO-8859-1", "de_DE.UTF-8", "tr_TR.ISO-8859-9"]


def generate(rng, tier, i):
    specs = [models.gen(rng) for _ in range(rng.choice([1, 1, 2]))]
    for s in specs:
        if rng.random() < 0.7:
            s["nx"], s["ny"] = min(s["nx"], 2), min(s["ny"], 2)
    pool = ops.MESH * 2 + ops.SMALL + ["solids_auto", "solids_GUI", "solids_GUI", "readin", "assembler", "strain_nodes", "static_sol", "energy", "bloch", "plot", "plot", "plot"]
    steps = [{"op": rng.choice(pool), "m": rng.randrange(len(specs)), "s": rng.randrange(10**6)} for _ in range(rng.choice([3, 5, 8]))]
    e = {"start": 0 if rng.random() < 0.5 else rng.randrange(len(STARTS))}
    if rng.random() < 0.6:
        y = rng.choice([0, 10**9, 2**31 - 1, 2**31, 4102444800, 951782400, 1_711_843_199])
        e["clock"] = {"start": y * 10**9, "step": rng.choice([0, 0, 1, 10**6, 10**12, -10**9]), "mono": rng.random() < 0.5,
                      "jumps": [[rng.randint(1, 8), rng.choice([-1, 1]) * rng.choice([1, 10**9, 86400 * 10**9, 400 * 86400 * 10**9])] for _ in range(rng.choice([0, 1, 2, 4]))]}
    if rng.random() < 0.6:
        e["random"] = rng.randrange(2**31)
    if rng.random() < 0.5:
        e["entropy"] = rng.randrange(1, 2**31)
    if rng.random() < 0.5:
        e["cwd"] = rng.choice(["/", "elsewhere", "job0", "decoys"])
    if rng.random() < 0.6:
        e["locale"] = rng.choice(LOCALES)
    if rng.random() < 0.75:
        e["memory"] = rng.choice([1, 1, 2, 3, 4, 5, 6])
        e["memseed"] = rng.randrange(2**31)
    if rng.random() < 0.3:
        e["malloc"] = rng.choice([0x55, 0xFF, 0x01])
    if rng.random() < 0.6:
        e["settings"] = rng.randrange(2**31)
    if rng.random() < 0.3:
        e["vars"] = rng.choice([{"HOME": "/nowhere", "COLUMNS": "7"}, {"DEBUG": "1", "OMP_NUM_THREADS": "3", "NUMPY_EXPERIMENTAL": "1"}, {"USER": "", "LANG": "fr_FR", "TMPDIR": "/nowhere"}])
    if rng.random() < 0.35:
        e["words"] = rng.randrange(2**31)
    if rng.random() < 0.4:
        e["machine"] = {"cpus": rng.choice([1, 2, 3, 64, None]), "host": rng.choice(["a", "node-17.cluster"]), "pid": rng.choice([2, 4194303])}
    if rng.random() < 0.3:
        e["full"] = True                           # nothing can be written anywhere
    if rng.random() < 0.6:
        e["schedule"] = rng.randrange(2**31)
    if rng.random() < 0.4:
        e["console"] = rng.choice(["ascii", "ascii", "terminal", "bare", "none"])
    return {"prop": "C08", "models": specs, "steps": steps, "env": e, "accents": rng.random() < 0.3}


def words():
    """Strings the code under test mentions: what it might look for in its surroundings."""
    seen = set()

    def take(v):
        if isinstance(v, str) and 0 < len(v) <= 40 and not any(c.isspace() for c in v) and v.isprintable():
            seen.add(v)
        elif isinstance(v, (tuple, list, set, frozenset)):
            for x in v:
                take(x)
        elif isinstance(v, dict):
            for x in list(v.items()):
                take(x)
    for c in sched.code_objects(env.REPO):
        for k in c.co_consts:
            take(k)
    for m in env.MODULES:
        for k, v in sorted(vars(env.mod(m)).items()):
            if not k.startswith("__"):
                take(v)
    return sorted(seen)


def surround(root, d, seed):
    """Files in the working and home directory, and variables, of any name the code mentions."""
    r = random.Random(seed)
    w = words()
    home = os.path.join(root, "home")
    os.makedirs(home, exist_ok=True)
    os.environ["HOME"] = home
    body = r.choice([" ".join(w), "\n".join(w) + "\n", "1\n", "0 0 0\n", "{}", "\n".join("%s = %s" % (x, r.choice(["1", "0", "true", "3.5"])) for x in w)])
    for x in w:
        name = x.split("/", 1)[1] if x.startswith(("~/", "./")) else x
        if name in ("", ".", "..") or "/" in name or name in models.FILES.values() or r.random() < 0.3:
            continue
        for f in {d, home}:
            p = os.path.join(f, name)
            if os.access(f, os.W_OK) and f.startswith(root) and not os.path.lexists(p):
                with open(p, "w", encoding="utf-8") as h:
                    h.write(body)
        if name.isidentifier() and name not in os.environ and not name.startswith(("LC_", "LD_", "PYTHON", "MPL", "LANG")) and r.random() < 0.7:
            os.environ[name] = r.choice(["1", "0", "", "true", "7", r.choice(w)])


def enter(e, root):
    """Turn this process into the drawn environment."""
    if "clock" in e:
        c = e["clock"]
        seams.clock(True, c["mono"], c["start"], c["step"], c["jumps"])
    else:
        seams.clock(True, False)
    seams.lib.dst_clock_limit(200000)
    seams.lib.dst_entropy(1, e.get("entropy", 0))
    if "random" in e:
        import numpy as np
        np.random.seed(e["random"])
        random.seed(e["random"])
        np.random.standard_normal()
    if "vars" in e:
        os.environ.update(e["vars"])
    os.makedirs(os.path.join(root, "elsewhere"), exist_ok=True)
    d = {"/": "/", "elsewhere": os.path.join(root, "elsewhere"), "job0": os.path.join(root, "job0"), "decoys": os.path.join(root, "decoys")}.get(e.get("cwd"), root)
    os.makedirs(d, exist_ok=True)
    os.chdir(d)
    if e.get("cwd") == "decoys":
        models.write(d, {n: "9 9 9 9 9\n" for n in models.FILES.values()})
    if "words" in e:
        surround(root, d, e["words"])
    done = []
    if e.get("locale"):
        try:
            locale.setlocale(locale.LC_ALL, e["locale"])
            done.append("locale " + e["locale"])
        except locale.Error:
            pass
    if "settings" in e:
        import numpy as np
        r = random.Random(e["settings"])
        np.seterr(**{k: r.choice(["ignore", "warn"]) for k in ("divide", "over", "under", "invalid")})
        np.set_printoptions(precision=r.randint(1, 12), threshold=r.randint(2, 50), suppress=r.random() < 0.5, linewidth=r.randint(20, 200))
        warnings.filterwarnings(r.choice(["ignore", "always", "once"]), category=r.choice([DeprecationWarning, UserWarning, Warning]))
        signal.signal(signal.SIGUSR1, lambda *a: None)
        if r.random() < 0.5:
            signal.signal(signal.SIGALRM, lambda *a: None)
        sys.setrecursionlimit(1000 + r.randint(0, 500))
        gc.set_threshold(r.randint(200, 2000))
        if r.random() < 0.3:
            gc.disable()
        os.umask(r.choice([0o022, 0o077, 0]))
    if "malloc" in e:
        ctypes.CDLL(None).mallopt(-6, e["malloc"])
    seams.arrays_on()
    seams.alloc(fill=e.get("memory", 0), seed=e.get("memseed", 0))
    return done


class Out(io.StringIO):
    def __init__(self, kind=None):
        super().__init__()
        self.kind = kind

    encoding = property(lambda self: "ascii" if self.kind == "ascii" else "utf-8")
    errors = "strict"

    def isatty(self):
        return self.kind == "terminal"

    def write(self, s):
        if self.kind == "ascii":
            s.encode("ascii")
        return super().write(s)


class Bare:
    """As little of a stream as print needs."""

    def __init__(self):
        self.text = []

    def write(self, s):
        self.text.append(s)

    def flush(self):
        pass

    def getvalue(self):
        return "".join(self.text)


def machine(m):
    """Another computer."""
    import multiprocessing
    import platform
    import socket
    n = m["cpus"]
    os.cpu_count = multiprocessing.cpu_count = lambda: n
    if hasattr(os, "process_cpu_count"):
        os.process_cpu_count = os.cpu_count
    os.sched_getaffinity = lambda pid: set(range(n or 1))
    os.getloadavg = lambda: (float(n or 1), 0.0, 0.0)
    os.getpid = lambda: m["pid"]
    socket.gethostname = platform.node = lambda: m["host"]


def tree(root):
    out = set()
    for top in (root, os.path.join(env.SCRATCH, "home"), os.path.join(env.SCRATCH, "cwd")):
        for d, ds, fs in os.walk(top):
            out.update(os.path.join(d, f) for f in fs)
    return out


def session(scn, e, root):
    values.ROOT[0] = root
    w = ops.World(scn["models"], os.path.join(root, "j\u00f6b") if scn["accents"] and scn["env"]["start"] != 2 else root)     # 2: names are ASCII there
    done = enter(e, root)
    if "machine" in e:
        machine(e["machine"])
    if e.get("full"):
        tempfile.tempdir = "/nowhere"
    outs, left, names = [], [], []
    t0 = seams.lib.dst_clock_now()
    limit = resource.getrlimit(resource.RLIMIT_FSIZE)
    for si, st in enumerate(scn["steps"]):
        dotted, args, kwargs = ops.prepare(w, st)
        names.append(dotted)
        folder = kwargs.get("folder")
        if scn["accents"] and folder:
            for n in ("nodes.txt", "mater.txt"):
                with open(os.path.join(folder, n), "rb") as f:
                    t = f.read()
                with open(os.path.join(folder, n), "wb") as f:
                    f.write("# m\u00f3dulo el\u00e1stico \u20ac\n".encode() + t)
        streams = sys.stdout, sys.stderr, sys.stdin
        kind = e.get("console")
        mine = [Bare(), Bare()] if kind == "bare" else [Out(kind), Out(kind)]
        if kind == "none":
            mine = [None, None]
        sys.stdout, sys.stderr = mine
        err = live = None
        m, n = dotted.split(".")
        g0 = state.look()
        g0["files"] = tree(root)
        try:
            if e.get("full") and n != "echomod" and not kwargs.get("savefigs"):
                resource.setrlimit(resource.RLIMIT_FSIZE, (0, limit[1]))
            live = getattr(env.mod(m), n)(*args, **kwargs)
        except Exception as x:
            err = x
        resource.setrlimit(resource.RLIMIT_FSIZE, limit)
        if st["op"] == "plot":
            import matplotlib.pyplot as plt
            if err is None:
                live = (live, [values.digest(plt.figure(k).get_label()) + values.digest(c10.shows(plt.figure(k))) for k in plt.get_fignums()])
            plt.close("all")
        res = ("ok", values.snap(live)) if err is None else ("exc", type(err).__name__, values.text(err))
        err = None
        g1 = state.look()
        g1["files"] = tree(root)
        if g0["files"] != g1["files"] and n not in ("echomod",):
            g0["files"], g1["files"] = (sorted(values.text(p) for p in a - b) for a, b in ((g0["files"], g1["files"]), (g1["files"], g0["files"])))
        else:
            g0["files"] = g1["files"]
        changed = [k for k in g1 if g0.get(k) != g1[k]]
        if "open files" in changed:
            gc.collect()
            g1 = dict(state.look(), files=g1["files"])
            changed = [k for k in g1 if g0.get(k) != g1[k]]
        sys.stdout, sys.stderr, sys.stdin = streams
        txt = "\n".join(l for l in mine[0].getvalue().splitlines() if "uration" not in l) if mine[0] else ""
        outs.append((res, values.text(txt)))
        if changed:
            left.append((si, dotted, ["%s: %s -> %s" % (k, str(g0.get(k))[:120], str(g1[k])[:120]) for k in changed]))
        if res[0] == "ok" and st["op"] != "plot":
            ops.keep(w, st["m"], dotted, live)
        live = None
        if "random" in e and si % 2:
            random.random()
    t1 = seams.lib.dst_clock_now()
    fired = {"clock reads": seams.lib.dst_clock_stat(0), "clock jumps": seams.lib.dst_clock_stat(1), "arrays filled": seams.alloc_stat()[2], "entropy requests": seams.lib.dst_entropy_calls()}
    if os.path.isdir("/"):
        os.chdir("/")
    return {"outs": outs, "left": left, "names": names, "did": done, "fired": fired, "span": (t1 - t0) / 1e9}


def remote(scn, e):
    with env.Scratch() as root:
        try:
            return env.fork(session, scn, e, root, schedule="%s" % e.get("schedule"))
        except env.Died as x:
            return {"died": x.code}
        except env.TimedOut:
            return {"died": "late"}


def run(scn):
    e = scn["env"]
    a = remote(scn, {})
    start = STARTS[e["start"]]
    b = remote(scn, e) if e["start"] == 0 else env.partner(start[0], start[1], "c08", "remote", scn, e)
    for r, which in ((a, "the plain environment"), (b, "environment %s" % e)):
        if "died" in r:
            why = {96: "a call read the clock 200000 times without end", "late": "a call did not end"}.get(r["died"], "the process ended with %s" % r["died"])
            return {"violations": [{"kind": "call does not end" if r["died"] in (96, "late") else "process died", "timeout": r["died"] == "late", "msg": "%s in %s" % (why, which)}],
                    "stats": {}, "cover": [], "trace": "died"}
    bad, st, cover = [], {"sessions": 2, "calls": 2 * len(a["outs"]), "simulated seconds": abs(a["span"]) + abs(b["span"])}, []
    for k, v in b["fired"].items():
        st[k] = st.get(k, 0) + v
    for k in e:
        if k != "start" and e[k] is not None:
            st["varied " + k] = 1
    if e["start"]:
        st["started with hash seed %s %s" % (start[0], " ".join("%s=%s" % x for x in start[1].items()))] = 1
    for d in b["did"]:
        st["set " + d] = 1
    for i, (x, y) in enumerate(zip(a["outs"], b["outs"])):
        cover.append(values.digest((a["names"][i], x[0][0], tuple(sorted(k for k in e if k != "memseed")), e["start"], e.get("memory"), e.get("locale"), e.get("cwd"), scn["accents"])))
        name = "step %d: %s" % (i, a["names"][i])
        if not ops.same_outcome(x, y):
            bad.append({"kind": "result differs", "step": i, "msg": "%s gave %s in environment %s and %s in the plain one" % (name, values.show(y[0]), e, values.show(x[0]))})
        elif x[1] != y[1] and e.get("console") != "none" and not ("settings" in e and scn["steps"][i]["op"] == "plot"):   # fields_plot prints arrays in the user's own number format
            bad.append({"kind": "report differs", "step": i, "msg": "%s printed %r in environment %s and %r in the plain one" % (name, y[1][:300], e, x[1][:300])})
    for which, r in (("the plain environment", a), ("environment %s" % e, b)):
        for si, fn, ch in r["left"]:
            bad.append({"kind": "environment changed", "step": si, "msg": "step %d: %s in %s left changed: %s" % (si, fn, which, "; ".join(ch))})
    return {"violations": bad, "stats": st, "cover": cover, "trace": values.digest((a["outs"], b["outs"], a["left"], b["left"]))}


def shrink(scn):
    s = scn["steps"]
    for a in range(len(s)):
        if len(s) > 1:
            yield dict(scn, steps=s[:a] + s[a + 1:])
    for k in scn["env"]:
        if k == "start":
            if scn["env"]["start"]:
                yield dict(scn, env=dict(scn["env"], start=0))
        else:
            yield dict(scn, env={q: v for q, v in scn["env"].items() if q != k})
    if scn["accents"]:
        yield dict(scn, accents=False)
    c = scn["env"].get("clock")
    if c and c["jumps"]:
        yield dict(scn, env=dict(scn["env"], clock=dict(c, jumps=[])))
    for i, m in enumerate(scn["models"]):
        for key, v in (("nx", 1), ("ny", 1), ("jig", 0), ("perm", 0), ("nm", 1), ("nl", 1)):
            if m.get(key, v) != v:
                yield dict(scn, models=scn["models"][:i] + [dict(m, **{key: v})] + scn["models"][i + 1:])
