"""C07: echo and figure files are complete or the call raises."""
import hashlib
import io
import os
import pickle
import shutil
import sys
import warnings

import numpy as np

from . import env, models, ops, seams, values

BUDGET = {"quick": (1500, 170, 60), "thorough": (60000, 3000, 300)}
RULE = ("one case is one call that writes echo or figure files into a folder with earlier contents, under injected failures (open, write, close, full disk, death of the "
        "process) or harmless disturbances (short and interrupted writes), judged file by file. Non-trivial: a fault or disturbance really happened, or earlier contents "
        "had to be replaced; distinct by (call, what happened, to which file and call number, outcome)")
COMPONENTS = {"real": "all of solidspy, numpy, matplotlib, Pillow, CPython's file objects, the file system (scratch folder)",
              "stub": "results of open, read, write, close and rename system calls on the scratch folder as the simulator decides; wall clock and entropy simulated"}
ASSUMPTIONS = ["figure contents are compared byte for byte with the same call in a fresh, undisturbed process under the same simulated clock"]

ERR = ["EIO", "ENOSPC", "EDQUOT", "EACCES", "EMFILE", "EROFS", "EPERM", "ENOENT", "EFBIG"]
ECHO = {"KNODES.txt": 0, "KMATES.txt": 1, "KELEMS.txt": 2, "KLOADS.txt": 3}


def generate(rng, tier, i):
    specs = []
    for _ in range(rng.choice([1, 2])):
        s = models.gen(rng)
        s["nx"], s["ny"] = rng.choice([(1, 1), (2, 1), (2, 2), (4, 3), (6, 5)])
        if rng.random() < 0.15:
            s["nx"] = rng.choice([20, 60])
        s["E"] = rng.choice([1.0, 210e9, 1e-3, 35.75])
        specs.append(s)
    steps = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        fn = rng.choice(["echomod"] * 10 + ["plot_node_field", "plot_node_field", "plot_truss", "tri_plot"])
        st = {"fn": fn, "m": rng.randrange(len(specs)), "s": rng.randrange(10**6), "slash": rng.random() < 0.5, "ext": rng.choice(["png", "png", "pdf"]), "default": rng.random() < 0.2,
              "rel": rng.random() < 0.2, "names": rng.choice([None, None, None, "dup", "sub", "noext", "svg", "tuple", "upper", "space", "more"])}
        x = rng.random()
        if x < 0.45:
            on = rng.choice(["openw", "write", "write", "close"])
            st["fault"] = {"faults": [{"on": on, "n": rng.choice([1, 1, 2, 3, 4, rng.randint(1, 12)]), "act": "err", "errno": rng.choice(ERR), "persist": rng.choice([0, 0, 1]),
                                       "path": rng.choice(["", "", "KNODES", "KMATES", "KELEMS", "KLOADS"]) if fn == "echomod" else ""}]}
            if rng.random() < 0.2:
                st["fault"]["noise"] = [rng.choice([1, 7, 100]) if fn == "echomod" else 700, 10]
        elif x < 0.6:
            st["fault"] = {"budget": rng.choice([0, 1, 10, rng.randint(0, 3000), rng.randint(0, 60000)])}
        elif x < 0.75:
            on = rng.choice(["openw", "write", "write", "close"])
            st["fault"] = {"faults": [{"on": on, "n": rng.randint(1, 8), "act": rng.choice(["exit", "shortexit"]) if on == "write" else "exit", "arg": 98}]}
        elif x < 0.9:
            st["fault"] = {"noise": [rng.choice([0, 1, 3, 50, 1000] if fn == "echomod" else [0, 500, 4000]), rng.choice([0, 20, 50])]}
        steps.append(st)
        if "fault" in st and rng.random() < 0.6:
            steps.append({k: v for k, v in st.items() if k != "fault"})
    return {"prop": "C07", "models": specs, "steps": steps, "old": rng.choice(["none", "longer", "longer", "short", "long figures"]), "style": rng.randrange(30)}


def populate(root, scn):
    job = os.path.join(root, "job")
    os.makedirs(os.path.join(job, "sub"))
    models.write(job, models.render(models.build(scn["models"][0]), scn["style"]))
    for n in ("notes.txt", "KNODES.txt.bak", "sub/KNODES.txt", "nodes.txt~", "../KNODES.txt", "../other.txt", "KSTRESS.txt", "Kirchhoff.txt", "KNODES.tmp", "KNODES.txt~",
              "K.txt", "nodes.bak", ".hidden", "output9.pdf", "output10.png", "figure.png", "fig7.png", "fig7.pdf", "solution.pdf", "../output9.pdf", "readme.md"):
        with open(os.path.join(job, n), "w") as f:
            f.write("keep " + n)
    old = scn["old"]
    if old in ("longer", "short"):
        for n in ECHO:
            with open(os.path.join(job, n), "w") as f:
                f.write("7.00 7.00 7.00\n" * (3000 if old == "longer" else 1))
    if old == "long figures":
        for n in ("fig0.png", "fig1.png", "fig0.pdf", "output0.pdf", "output.pdf"):
            with open(os.path.join(job, n), "wb") as f:
                f.write(b"old" * 400000)
    return job


def tree(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for n in fs:
            p = os.path.join(d, n)
            with open(p, "rb") as f:
                out[os.path.relpath(p, root)] = (hashlib.sha256(f.read()).hexdigest(), os.stat(p).st_mode)
    return out


def prepare(scn, st, job):
    """(frozen call, files it writes relative to root)."""
    m = models.build(scn["models"][st["m"]])
    r = ops.RNG(st["s"])
    if st["fn"] == "echomod":
        folder = "" if st["rel"] else job + ("/" if st["slash"] else "")
        return ("preprocesor", "echomod", (m["nodes"], m["mats"], m["elements"], m["loads"]), {"folder": folder}), ["job/" + n for n in ECHO]
    base = "" if st["rel"] else job + "/"
    nn = len(m["nodes"])
    if st["fn"] == "plot_truss" and m["kind"] in ("truss", "spring"):
        if m["kind"] == "spring":
            m["mats"] = np.column_stack([m["mats"], np.ones(len(m["mats"]))])
        kw = {"savefigs": True, "stresses": r.uniform(-1, 2, len(m["elements"]))}
        name = "output.pdf"
        if not st["default"]:
            name = "fig0." + st["ext"]
            kw["filename"] = base + name
        return ("postprocesor", "plot_truss", (m["nodes"], m["elements"], m["mats"]), kw), ["job/" + name]
    if m["kind"] in ("truss", "spring"):
        m = models.build({**scn["models"][st["m"]], "k": "quad4", "nm": 1})
        nn = len(m["nodes"])
    if st["fn"] == "tri_plot":
        name = "solution_plot.pdf" if st["default"] else "fig0." + st["ext"]
        kw = {"savefigs": True}
        if not st["default"]:
            kw["filename"] = base + name
        return ("postprocesor", "tri_plot", ("mesh2tri", m["nodes"], m["elements"], r.uniform(-1, 1, nn)), kw), ["job/" + name]
    nc = int(r.integers(1, 3))
    kw = {"savefigs": True}
    names = ["output%d.pdf" % k for k in range(nc)]
    if not st["default"]:
        how = st.get("names")
        if how in ("dup", "more"):
            nc = max(nc, 2)
        names = ["fig%d.%s" % (k, "svg" if how == "svg" else st["ext"]) for k in range(nc)]
        if how == "dup":
            names[-1] = names[0]
        elif how == "sub":
            names[-1] = "sub/" + names[-1]
        elif how == "upper":
            names[0] = names[0].upper()
        elif how == "space":
            names = ["a figure %d, v1.2.%s" % (k, st["ext"]) for k in range(nc)]
        kw["filename"] = [base + n for n in names]
        if how == "noext":
            kw["filename"] = [base + "fig%d" % k for k in range(nc)]
            names = ["fig%d.png" % k for k in range(nc)]
        elif how == "tuple":
            kw["filename"] = tuple(kw["filename"])
        elif how == "more":
            kw["filename"].append(base + "unused.png")
    if r.random() < 0.3:
        kw["plt_type"] = "pcolor"
    return ("postprocesor", "plot_node_field", (r.uniform(-1, 1, (nn, nc)), m["nodes"], m["elements"]), kw), ["job/" + n for n in names]


def call(c):
    mod, fn, args, kw = c
    p = env.mod(mod)
    if fn == "tri_plot":
        import matplotlib.pyplot as plt
        plt.figure()
        args = (p.mesh2tri(args[1], args[2]), args[3])
    return getattr(p, fn)(*args, **kw)


def quiet(root):
    import matplotlib.pyplot as plt
    values.ROOT[0] = root
    warnings.simplefilter("ignore")
    sys.stdout = io.StringIO()
    seams.clock(True, False, step=0)
    seams.lib.dst_entropy(1, 5)
    plt.rcParams["savefig.dpi"] = 30.0
    plt.rcParams["svg.hashsalt"] = "x"
    plt.close("all")


def alone(c, root, want):
    """The files an undisturbed call writes in a fresh process."""
    quiet(root)
    os.chdir(os.path.join(root, "job"))
    call(c)
    out = {}
    for n in want:
        try:
            with open(os.path.join(root, n), "rb") as f:
                out[n] = f.read()
        except OSError:
            out[n] = None
    return out


def columns(c, root, want):
    """What each file holds when its column is plotted in a call of its own."""
    quiet(root)
    os.chdir(os.path.join(root, "job"))
    import matplotlib.pyplot as plt
    mod, fn, (field, nodes, elements), kw = c
    out = {}
    for k, n in enumerate(want):
        plt.close("all")
        seams.lib.dst_entropy(1, 5)
        p = "alone" + os.path.splitext(n)[1]
        env.mod(mod).plot_node_field(field[:, k].copy(), nodes, elements, **dict(kw, filename=[p]))
        with open(p, "rb") as f:
            out[n] = f.read()
        os.unlink(p)
    return out


def one(c, root, fault):
    """One call under its faults: (error, counters)."""
    err = None
    fault = fault or {}
    fs = seams.Files(root, fault.get("faults", ()), fault.get("noise"), fault.get("budget"), seed=11, limit=2000000)
    try:
        with fs:
            call(c)
    except BaseException as e:
        err = [t.__name__ for t in type(e).__mro__] + [values.text(e)]
        del e
    import gc
    gc.collect()
    return err, fs.stats


def session(scn, root):
    quiet(root)
    job = os.path.join(root, "job")
    os.chdir(job)
    out = []
    for si, st in enumerate(scn["steps"]):
        c, want = prepare(scn, st, job)
        before = tree(root)
        crash = any(f["act"] in ("exit", "shortexit") for f in (st.get("fault") or {}).get("faults", ()))
        died = False
        if crash:
            try:
                err, stats = env.fork(one, c, root, st["fault"])
            except env.Died as e:
                if e.code != 98:
                    raise
                died, err, stats = True, None, {"io:crash": 1}
        else:
            err, stats = one(c, root, st.get("fault"))
        after = tree(root)
        files = {}
        for n in want:
            try:
                with open(os.path.join(root, n), "rb") as f:
                    files[n] = f.read()
            except OSError:
                files[n] = None
        out.append({"step": si, "call": pickle.dumps(c, protocol=5), "want": want, "err": err, "died": died, "stats": stats, "files": files,
                    "changed": [n for n in before if n not in want and after.get(n) != before[n]], "new": [n for n in after if n not in before and n not in want],
                    "replaced": [n for n in want if n in before]})
    os.chdir("/")
    return out


def run(scn):
    bad, st, cover = [], {}, []
    with env.Scratch() as root:
        populate(root, scn)
        try:
            recs = env.fork(session, scn, root)
        except env.Died as e:
            if e.code != 97:
                raise
            return {"violations": [{"kind": "call does not end", "msg": "a call made more than 2000000 file calls"}], "stats": {}, "cover": [], "trace": "endless"}
        memo = {}
        for r in recs:
            step = scn["steps"][r["step"]]
            key = hashlib.sha256(r["call"]).digest()
            if r["err"] is None and not r["died"] and key not in memo:
                for n in os.listdir(root):
                    p = os.path.join(root, n)
                    shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
                os.makedirs(os.path.join(root, "job"))
                os.makedirs(os.path.join(root, "job", "sub"))
                c = pickle.loads(r["call"])
                memo[key] = env.fork(alone, c, root, r["want"])
                if c[1] == "plot_node_field":
                    memo[key]["columns"] = env.fork(columns, c, root, r["want"])
            for k, v in r["stats"].items():
                st[k] = st.get(k, 0) + v
            hard = {k for k in r["stats"] if k not in ("io:EINTR", "io:short-transfer", "io:crash")}
            st["calls"] = st.get("calls", 0) + 1
            st["returned" if r["err"] is None and not r["died"] else "died" if r["died"] else "raised"] = st.get("returned" if r["err"] is None and not r["died"] else "died" if r["died"] else "raised", 0) + 1
            c = pickle.loads(r["call"])
            name = "step %d: %s into %s, fault %s" % (r["step"], c[1], ", ".join(r["want"]), step.get("fault"))
            f0 = ((step.get("fault") or {}).get("faults") or [{}])[0]
            cover.append(values.digest((c[1], tuple(sorted(r["stats"])), f0.get("n"), f0.get("path"), f0.get("persist"), bool(r["replaced"]), scn["old"], r["err"] and r["err"][0], step["ext"], step["default"])))

            def v(kind, msg):
                bad.append({"kind": kind, "step": r["step"], "msg": name + ": " + msg})
            if r["changed"]:
                v("other file changed", "%s %s changed" % ("it died and" if r["died"] else "it raised and" if r["err"] else "it returned and", r["changed"]))
            if r["died"]:
                continue
            if r["err"] is not None:
                if not hard:
                    v("spurious error", "nothing failed%s, but it raised %s: %s" % (" (only short or interrupted transfers)" if r["stats"] else "", r["err"][0], r["err"][-1][:200]))
                elif "Exception" not in r["err"]:
                    v("spurious error", "it raised %s" % r["err"][0])
                continue
            if hard:
                v("failure swallowed", "%s happened but the call returned normally" % ", ".join(sorted(hard)))
            if r["new"]:
                v("stray file", "it left %s" % r["new"])
            ref = memo[key]
            for n in r["want"]:
                got = r["files"][n]
                if got is None:
                    v("file missing", "%s does not exist" % n)
                elif n.startswith("job/K"):
                    a = np.atleast_2d(np.asarray(c[2][ECHO[n[4:]]], dtype=float))
                    t = models.parse(got.decode("utf-8", "replace"))
                    if t is None or t.shape != a.shape or not (np.abs(t - a) <= 0.00501 + 1e-12 * np.abs(a)).all():
                        v("wrong contents", "%s does not hold the array it echoes (%s, %d bytes)" % (n, "unreadable" if t is None else "shape %s for %s" % (t.shape, a.shape) if t.shape != a.shape else "values differ", len(got)))
                if "columns" in ref and got is not None and ref["columns"].get(n) != got and ref[n] == got:
                    v("wrong contents", "%s (%d bytes) does not show its column: the column plotted alone gives %s bytes" % (n, len(got), ref["columns"].get(n) and len(ref["columns"][n])))
                if got is not None and got != ref[n]:
                    v("wrong contents", "%s (%d bytes) is not what an undisturbed process writes (%s bytes)" % (n, len(got), ref[n] and len(ref[n])))
    return {"violations": bad, "stats": st, "cover": cover, "trace": values.digest([(r["err"], r["died"], r["files"], sorted(r["stats"].items())) for r in recs])}


def shrink(scn):
    s = scn["steps"]
    for a in range(len(s)):
        if len(s) > 1:
            yield dict(scn, steps=s[:a] + s[a + 1:])
    for j, x in enumerate(s):
        if "fault" in x:
            yield dict(scn, steps=s[:j] + [{k: v for k, v in x.items() if k != "fault"}] + s[j + 1:])
            if "noise" in x["fault"] and len(x["fault"]) > 1:
                yield dict(scn, steps=s[:j] + [dict(x, fault={k: v for k, v in x["fault"].items() if k != "noise"})] + s[j + 1:])
        for key, v in (("rel", False), ("default", False), ("ext", "png")):
            if x.get(key) != v:
                yield dict(scn, steps=s[:j] + [dict(x, **{key: v})] + s[j + 1:])
    for i, m in enumerate(scn["models"]):
        for key, v in (("nx", 1), ("ny", 1), ("jig", 0), ("perm", 0), ("nm", 1), ("nl", 1)):
            if m.get(key, v) != v:
                yield dict(scn, models=scn["models"][:i] + [dict(m, **{key: v})] + scn["models"][i + 1:])
    if scn["old"] != "none":
        yield dict(scn, old="none")
