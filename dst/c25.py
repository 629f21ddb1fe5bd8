"""C25: importing the package, in every way and under faults, changes nothing else and always yields the same package."""
import builtins
import hashlib
import importlib
import io
import locale
import logging
import os
import shutil
import sys
import warnings

from . import env, models, ops, seams, state, values

BUDGET = {"quick": (2500, 120, 60), "thorough": (60000, 3000, 300)}
RULE = ("one case is a session of a process that has not imported the package: a sequence of imports (any module first, any form, repeated, reloaded), some aborted by an interrupt at a line of module-level "
        "code or by a failing file call on the source, in a drawn environment (decoy modules in the working directory, missing optional libraries, closed or odd streams, locale, strict warnings), with calls in "
        "between. Non-trivial: an import was executed; distinct by (forms, faults, environment)")
COMPONENTS = {"real": "all of solidspy, the import system, numpy, scipy, matplotlib (these three imported before)", "stub": "absent optional libraries, standard streams"}
ASSUMPTIONS = ["numpy, scipy and matplotlib are already imported when the package is: what they do at import is not judged",
               "one thread imports (the interpreter's own import locks are not scheduled)"]
TOOL = 5
RELS = [None, "above", "inside", "elsewhere"]
MODS = ["solidspy"] + ["solidspy." + m for m in env.MODULES]


def generate(rng, tier, i):
    specs = [models.gen(rng)]
    specs[0]["nx"], specs[0]["ny"] = min(specs[0]["nx"], 2), min(specs[0]["ny"], 2)
    steps = []
    imported = False
    pool = ops.MESH + ops.SMALL + ops.FILE * 2
    for _ in range(rng.choice([2, 3, 4, 6])):
        x = rng.random()
        if not imported or x < 0.45:
            st = {"do": "import", "form": rng.choice(["import", "import", "as", "from", "star", "importlib"]), "mod": rng.choice(MODS)}
            y = rng.random()
            if y < 0.35:
                st["fault"] = {"type": "point", "frac": rng.random(), "exc": rng.choice(["KeyboardInterrupt", "MemoryError", "SystemExit"])}
            elif y < 0.5:
                st["fault"] = {"type": "io", "on": rng.choice(["openr", "read"]), "n": rng.randint(1, 14), "errno": rng.choice(["EIO", "EMFILE", "ENOMEM", "EINTR", "EACCES"])}
            steps.append(st)
            imported = imported or "fault" not in st
        elif x < 0.6:
            steps.append({"do": "reload", "mod": rng.choice(MODS)})
        elif x < 0.7:
            steps.append({"do": "forget"})
            imported = False
        else:
            steps.append({"do": "call", "op": rng.choice(pool), "m": 0, "s": rng.randrange(10**6), "rel": rng.choice(RELS)})
    steps.append({"do": "import", "form": "importlib", "mod": "all"})
    for _ in range(2):
        steps.append({"do": "call", "op": rng.choice(pool), "m": 0, "s": rng.randrange(10**6), "rel": rng.choice(RELS)})
    e = {"decoys": rng.random() < 0.5, "missing": rng.sample(["easygui", "meshio", "tkinter", "IPython", "pytest", "pandas", "sympy"], rng.choice([0, 0, 1, 3])),
         "stdin": rng.choice(["as is", "none", "closed"]), "stdout": rng.choice(["kept", "kept", "none", "failing"]), "locale": rng.choice([None, None, "C", "tr_TR.ISO-8859-9"]),
         "warnings": rng.choice([None, None, "error"]), "home": rng.choice([None, "/nowhere", ""]), "argv": rng.choice([None, [], ["x", "--help"], ["-c"]]),
         "settings": rng.randrange(1, 10**6) if rng.random() < 0.8 else None}
    return {"prop": "C25", "models": specs, "steps": steps, "env": e}


class Failing(io.StringIO):
    def write(self, s):
        if s:
            raise OSError(5, "simulated console failure")
        return 0


WATCHED = ("builtins", "os", "os.path", "numpy", "numpy.linalg", "scipy.sparse", "scipy.sparse.linalg", "matplotlib", "matplotlib.pyplot", "warnings", "locale", "time", "datetime",
           "random", "io", "math", "logging", "signal", "shutil", "tempfile", "json", "pickle", "threading", "builtins")


DEFAULTS = ("image.cmap", "mathtext.fontset", "text.color", "font.size", "xtick.color", "ytick.color", "axes.labelcolor", "axes.edgecolor", "axes.spines.right", "axes.spines.top")


def settings(seed):
    """Give the process settings of its own, so that an import that sets something is seen to set it."""
    import random
    import matplotlib
    import matplotlib.pyplot as plt
    import numpy as np
    r = random.Random(seed)
    kinds = ["warn", "raise", "call", "print", "log", "ignore"]
    np.seterr(**{k: r.choice(kinds) for k in ("divide", "over", "under", "invalid")})
    np.set_printoptions(precision=r.randint(2, 12), threshold=r.randint(5, 2000), suppress=r.random() < 0.5, linewidth=r.randint(40, 200))
    np.random.seed(r.randrange(2**32))
    np.setbufsize(16 * r.randint(100, 1000))
    random.seed(r.random())
    plt.rcParams.update({"image.cmap": r.choice(["hot", "gray"]), "mathtext.fontset": r.choice(["stix", "dejavusans"]), "text.color": "r", "font.size": r.randint(5, 11), "xtick.color": "g",
                         "ytick.color": "b", "axes.labelcolor": "m", "axes.edgecolor": "c", "axes.spines.right": True, "axes.spines.top": True})
    for k in sorted(matplotlib.rcParams):
        v = dict.__getitem__(matplotlib.rcParams, k)
        if k in DEFAULTS or k in ("backend", "interactive", "text.usetex", "toolbar") or k.startswith(("date.", "keymap.", "animation.", "webagg.")):
            continue
        try:
            if type(v) is bool:
                plt.rcParams[k] = r.random() < 0.5
            elif type(v) is float and v > 0:
                plt.rcParams[k] = v * r.choice([0.5, 1.0, 1.5])
            elif type(v) is int and v > 3:
                plt.rcParams[k] = v + r.randint(0, 3)
        except ValueError:
            pass
    if r.random() < 0.5:
        warnings.simplefilter(r.choice(["always", "once", "default", "ignore"]))
    if r.random() < 0.5:
        logging.root.setLevel(r.choice([10, 40]))
    if r.random() < 0.3:
        logging.disable(r.choice([20, 50]))
    os.umask(r.choice([0, 0o22, 0o77]))
    sys.setrecursionlimit(r.choice([1000, 1500, 5000]))
    sys.setswitchinterval(r.choice([0.005, 0.01, 0.1]))
    sys.set_int_max_str_digits(r.choice([0, 4300, 10000]))
    import decimal
    import gc
    decimal.getcontext().prec = r.randint(5, 40)
    if r.random() < 0.5:
        gc.set_threshold(r.randint(500, 900), 10, 10)
    if r.random() < 0.3:
        gc.disable()
    for k in ("MPLBACKEND", "OMP_NUM_THREADS", "PYTHONWARNINGS", "OPENBLAS_NUM_THREADS", "LANG"):
        if r.random() < 0.4:
            os.environ[k] = r.choice(["a", "1", "3"])
    if r.random() < 0.3:
        plt.ion()
    for _ in range(r.choice([0, 0, 1, 2])):
        plt.figure()


def look():
    import matplotlib
    s = state.look()
    s["matplotlib settings"] = {k: repr(dict.__getitem__(matplotlib.rcParams, k)) for k in matplotlib.rcParams if k not in DEFAULTS}
    s["plotting defaults"] = {k: repr(dict.__getitem__(matplotlib.rcParams, k)) for k in DEFAULTS}
    import atexit
    import matplotlib
    s["matplotlib backend"] = str(dict.__getitem__(matplotlib.rcParams, "backend"))
    s["root logger"] = (logging.root.level, tuple(map(repr, logging.root.handlers)), logging.root.manager.disable)
    s["exit handlers"] = atexit._ncallbacks()
    s["exception hook"] = id(sys.excepthook)
    s["import hooks"] = (tuple(map(repr, sys.meta_path)), tuple(map(repr, sys.path_hooks)))
    s["arguments"] = tuple(sys.argv)
    s["byte code"] = sys.dont_write_bytecode
    return s


def names():
    out = {}
    for m in WATCHED:
        mod = sys.modules.get(m)
        if mod is not None:
            for k, v in list(vars(mod).items()):
                if k != "_":
                    out[m, k] = id(v)
    return out


class Lines:
    """Count the executed lines of module-level code below a folder; act at the k-th."""

    def __init__(self, base, at=None, act=None):
        self.base, self.at, self.act, self.n, self.fired, self.where = base, at, act, 0, False, None

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(TOOL, "dst-import")

        def hit(code, line):
            if not code.co_filename.startswith(self.base):
                return mon.DISABLE
            self.n += 1
            if self.n == self.at and not self.fired:
                self.fired = True
                self.where = (os.path.basename(code.co_filename), line)
                self.act()
        mon.restart_events()
        mon.register_callback(TOOL, mon.events.LINE, hit)
        mon.set_events(TOOL, mon.events.LINE)
        return self

    def __exit__(self, *exc):
        mon = sys.monitoring
        mon.set_events(TOOL, 0)
        mon.register_callback(TOOL, mon.events.LINE, None)
        mon.free_tool_id(TOOL)
        return False


def forget():
    for m in [m for m in sys.modules if m == "solidspy" or m.startswith("solidspy.")]:
        del sys.modules[m]
    importlib.invalidate_caches()


def execute(form, mod, torn=False):
    g = {}
    if torn and form == "star":        # CPython does not bind modules it finds imported to a package imported anew
        form = "as"
    if form == "importlib":
        for m in MODS if mod == "all" else [mod]:
            importlib.import_module(m)
        return
    leaf = mod.split(".")[-1]
    src = {"import": "import " + mod, "as": "import %s as it" % mod, "from": "from solidspy import " + (leaf if leaf != "solidspy" else "solids_GUI"),
           "star": "from solidspy import *"}[form]
    exec(src, g)


def session(scn, root, measuring=None):
    values.ROOT[0] = root
    e = scn["env"]
    lib = os.path.join(root, "lib")
    shutil.copytree(os.path.join(env.REPO, "solidspy"), os.path.join(lib, "solidspy"), ignore=shutil.ignore_patterns("__pycache__"))
    cwd = os.path.join(root, "cwd")
    os.makedirs(cwd)
    os.chdir(cwd)
    if e["decoys"]:
        for m in env.MODULES + ("version", "_version", "solidspy_config", "settings", "config", "utils"):
            with open(os.path.join(cwd, m + ".py"), "w") as f:
                f.write("raise RuntimeError('a module of the user was imported instead')\n")
        models.write(cwd, {n: "9 9 9 9 9\n" for n in models.FILES.values()})
    forget()
    sys.path[:] = ["", lib] + [p for p in sys.path if p not in ("", env.REPO)]
    for m in e["missing"]:
        sys.modules[m] = None
    if e["home"] is not None:
        os.environ["HOME"] = e["home"]
    if e["argv"] is not None:
        sys.argv = list(e["argv"])
    if e["locale"]:
        try:
            locale.setlocale(locale.LC_ALL, e["locale"])
        except locale.Error:
            pass
    import numpy as np
    plain = np.geterr(), np.get_printoptions(), sys.get_int_max_str_digits()
    if e["settings"]:
        settings(e["settings"])
    if e["stdin"] == "none":
        sys.stdin = None
    elif e["stdin"] == "closed":
        sys.stdin = io.StringIO()
        sys.stdin.close()
    w = ops.World(scn["models"], root)
    bad, recs, trace = [], [], []
    torn = False
    if e["warnings"]:
        warnings.simplefilter("error")
    for si, st in enumerate(scn["steps"]):
        name = "step %d: %s %s" % (si, st["do"], st.get("form", "") + " " + st.get("mod", st.get("op", "")))
        if st["do"] == "forget":
            forget()
            torn = False
            recs.append(None)
            continue
        if st["do"] == "call":
            if not all(m in sys.modules for m in MODS):
                recs.append(None)
                continue
            po = dict(plain[1])
            with warnings.catch_warnings(), np.errstate(**plain[0]), np.printoptions(**po):
                warnings.simplefilter("ignore")
                dotted, args, kwargs = ops.prepare(w, st)
                there, kwargs = ops.relative(kwargs, root, st["rel"]) if st.get("rel") else (None, kwargs)
                frozen = ops.freeze(dotted, args, kwargs)
                files = w.files(0) if st["op"] in ("solids_GUI", "readin") else None
                os.chdir(there or cwd)
                res, txt, live = ops.invoke(dotted, args, kwargs)
                os.chdir(cwd)
                if res[0] == "ok":
                    ops.keep(w, 0, dotted, live)
                live = None
            recs.append({"fn": dotted, "frozen": frozen, "files": files, "out": (res, txt), "cwd": there})
            continue
        recs.append(None)
        if st["do"] == "reload" and not {st["mod"], "solidspy"} <= set(sys.modules):
            continue
        f = st.get("fault")
        inj = None
        err = None
        old = sys.stdout, sys.stderr
        mine = io.StringIO(), io.StringIO()
        sys.stdout = None if e["stdout"] == "none" else Failing() if e["stdout"] == "failing" else mine[0]
        sys.stderr = mine[1]
        fresh = not all(m in sys.modules for m in MODS)
        g0, n0 = look(), names()
        box = None
        try:
            if f and f["type"] == "point":
                inj = getattr(builtins, f["exc"])("injected")

                def act():
                    raise inj
                with Lines(lib + os.sep, None if measuring == si else f["k"], act) as box:
                    execute(st["form"], st["mod"], torn)
            elif f:
                box = seams.Files(lib, [{"on": f["on"], "n": f["n"], "act": "err", "errno": f["errno"]}])
                with box:
                    execute(st["form"], st["mod"], torn)
            elif st["do"] == "reload":
                importlib.reload(sys.modules[st["mod"]])
            else:
                execute(st["form"], st["mod"], torn)
        except BaseException as x:
            err = x
        g1, n1 = look(), names()
        sys.stdout, sys.stderr = old
        if measuring == si:
            return box.n
        hit = bool(f) and (box.fired if f["type"] == "point" else bool(box.stats))
        torn = torn or hit
        if hit and f["type"] == "point":
            if err is not inj:
                bad.append({"kind": "error lost", "msg": "%s was aborted by %r at %s but ended with %r" % (name, inj, box.where, err)})
        elif hit and f["type"] == "io":
            if err is not None and not any(c in ("OSError", "ImportError") for c in [k.__name__ for k in type(err).__mro__]):
                bad.append({"kind": "error lost", "msg": "%s: a file call failed (%s) but it ended with %r" % (name, f, err)})
        elif err is not None:
            bad.append({"kind": "import fails", "msg": "%s failed with %s: %s" % (name, type(err).__name__, values.text(err))})
        elif e["stdout"] == "kept" and (mine[0].getvalue() or mine[1].getvalue()):
            bad.append({"kind": "import prints", "msg": "%s printed %r" % (name, (mine[0].getvalue() + mine[1].getvalue())[:200])})
        trace.append((si, type(err).__name__, hit, box.where if hit and f["type"] == "point" else None, fresh))
        err = None
        if "open files" in state.diff(g0, g1):
            g1 = dict(g1, **{"open files": look()["open files"]})
        ran = fresh or st["do"] == "reload"
        changed = [k for k in g0 if g0[k] != g1.get(k) and k != "standard streams" and not (ran and k == "plotting defaults")]
        for k in ("matplotlib settings", "plotting defaults"):
            if g0[k] != g1[k]:
                g0[k], g1[k] = ({x: y for x, y in a.items() if b.get(x) != y} for a, b in ((g0[k], g1[k]), (g1[k], g0[k])))
        mod = sorted("%s.%s" % k for k in n0 if k in n1 and n0[k] != n1[k] or k not in n1)
        new = sorted("%s.%s" % k for k in n1 if k not in n0 and not (k[1].startswith("__") and k[1].endswith("__")) and not isinstance(getattr(sys.modules[k[0]], k[1], sys), type(sys)))
        if changed or mod or new:
            bad.append({"kind": "import changes the session", "msg": "%s changed %s" % (name, "; ".join(
                ["%s: %s -> %s" % (k, str(g0[k])[:100], str(g1.get(k))[:100]) for k in changed] + mod + new))})
    if e["warnings"]:
        warnings.resetwarnings()
    left = sorted(os.listdir(cwd))
    want = sorted([m + ".py" for m in env.MODULES + ("version", "_version", "solidspy_config", "settings", "config", "utils")] + list(models.FILES.values())) if e["decoys"] else []
    if [x for x in left if x not in want and not x.startswith("K")] or [x for x in want if x not in left]:
        bad.append({"kind": "import changes the session", "msg": "the working directory holds %s afterwards" % left})
    return recs, bad, trace


def run(scn):
    with env.Scratch() as root:
        scn = dict(scn, steps=[dict(s, fault=dict(s["fault"])) if "fault" in s else s for s in scn["steps"]])
        for si, st in enumerate(scn["steps"]):
            f = st.get("fault")
            if f and f["type"] == "point" and "k" not in f:
                n = fresh(session, scn, root, si)
                f["k"] = 1 + int(f["frac"] * n) if isinstance(n, int) and n else 1
        recs, bad, trace = fresh(session, scn, root)
        memo = {}
        for si, rec in enumerate(recs):
            if rec is None:
                continue
            key = hashlib.sha256(rec["frozen"] + repr((rec["cwd"], rec["files"])).encode()).digest()
            if key not in memo:
                for n in os.listdir(root):
                    shutil.rmtree(os.path.join(root, n))
                memo[key] = env.fork(alone, rec["frozen"], rec["files"], root, rec["cwd"])
            if not ops.same_outcome(rec["out"], memo[key]):
                bad.append({"kind": "another package", "msg": "step %d: %s gave %s; in a process that simply imported the package it gives %s" % (
                    si, rec["fn"], values.show(rec["out"][0]), values.show(memo[key][0]))})
    st = {"imports": len(trace), "aborted imports": sum(t[2] for t in trace), "calls": sum(r is not None for r in recs)}
    for t in trace:
        if t[2]:
            f = scn["steps"][t[0]]["fault"]
            k = "fault %s %s" % (f["type"], f.get("exc") or f["errno"])
            st[k] = st.get(k, 0) + 1
    for k, v in scn["env"].items():
        if v and v != "as is" and v != "kept":
            st["environment: " + k] = 1
    cover = [values.digest((scn["steps"][t[0]].get("form"), scn["steps"][t[0]].get("mod"), t[1:], tuple(sorted((k, str(v)) for k, v in scn["env"].items())))) for t in trace]
    return {"violations": bad, "stats": st, "cover": cover, "trace": values.digest((trace, [r and r["out"] for r in recs])), "scn": scn}


def alone(frozen, files, root, cwd):
    env.package()
    return ops.alone(frozen, files, root, cwd)


def fresh(fn, scn, root, *a):
    for n in os.listdir(root):
        shutil.rmtree(os.path.join(root, n))
    return env.fork(fn, scn, root, *a)


def concrete(scn, result):
    return result["scn"]


def shrink(scn):
    s = scn["steps"]
    for a in range(len(s)):
        if len(s) > 1:
            yield dict(scn, steps=s[:a] + s[a + 1:])
    plain = {"decoys": False, "missing": [], "stdin": "as is", "stdout": "kept", "locale": None, "warnings": None, "home": None, "argv": None, "settings": None}
    for k, v in plain.items():
        if scn["env"][k] != v:
            yield dict(scn, env=dict(scn["env"], **{k: v}))
