"""C01: a folder analysis answers for exactly the stored model, or raises."""
import gc
import hashlib
import io
import itertools
import os
import re
import shutil
import sys
import warnings

import numpy as np

from . import env, models, ops, refmodel, seams, state, values

BUDGET = {"quick": (9000, 150, 60), "thorough": (250000, 3000, 300)}
RULE = ("one case is one analysis of a folder in a session in which the folder is edited, damaged and replaced between and during analyses and file calls fail or are "
        "disturbed, judged by an independent finite element solver on every consistent reading of the files. Non-trivial: a valid model was answered for, or something "
        "failed, was damaged or was replaced; distinct by (element kind, what failed or was replaced at which file and call, state of the files, outcome)")
COMPONENTS = {"real": "all of solidspy, numpy, scipy, CPython's file objects, the file system (scratch folder)",
              "stub": "results of open, read and close system calls on the scratch folder as the simulator decides; replacement of files at chosen calls"}
ASSUMPTIONS = ["a model whose numbers are readable but which is not a well posed plane problem (scaled condition number above 1e8, unknown types, missing nodes) is not judged, except that a returned "
               "result must match if any consistent reading is well posed and none is unjudged",
               "files are replaced atomically (rename); contents rewritten in place while they are being read are outside the property"]

NAMES = ["nodes.txt", "mater.txt", "eles.txt", "loads.txt"]
KEY = {v: k for k, v in models.FILES.items()}
ERRS = ["EIO", "EACCES", "ENOENT", "EMFILE", "ENFILE", "ENOMEM", "ELOOP", "ESTALE", "EPERM"]
DAMAGE = ["cut", "cut", "cutline", "digit", "digit", "letter", "zeros", "empty", "dropline", "dupline", "blank", "crlf", "trailing", "column", "swapfile", "header", "twin"]


def gen_content(rng, nm):
    d = {"m": rng.randrange(nm), "style": rng.randrange(30)}
    if rng.random() < 0.35:
        d["damage"] = rng.choice(DAMAGE)
        d["s"] = rng.randrange(10**6)
    return d


def generate(rng, tier, i):
    specs = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        s = models.gen(rng)
        s["nx"], s["ny"] = rng.randint(1, 3), rng.randint(1, 3)
        s["dup"] = rng.random() < 0.15
        if rng.random() < 0.25:                    # other units
            s.update(E=10.0 ** rng.randint(-12, 12), P=10.0 ** rng.randint(-6, 6))
        if rng.random() < 0.2:
            s["nu"], s["nm"] = 0.3, rng.choice([2, 3])
        if s.get("pad") and rng.random() < 0.5:
            s.pop("pad")
        if rng.random() < 0.35:
            s.pop("pad", None)
            s.update(k=rng.choice(["quad4", "tri3", "tri6"]), bc="roll", nm=1, affine=[round(rng.uniform(-1, 1), 3) for _ in range(3)])
        elif rng.random() < 0.3 and specs:
            s = dict(specs[0], seed=rng.randrange(10**6), E=rng.choice([1.0, 7.0]))          # same shape, other numbers
            s.pop("affine", None)
        specs.append(s)
    large = rng.random()
    if large < 0.035:                              # a model of hundreds, rarely of more than a thousand nodes and loads
        nx, ny = (rng.randint(31, 36), rng.randint(32, 36)) if large < 0.006 else (rng.randint(10, 18), rng.randint(8, 16))
        specs[0].update(k=rng.choice(["quad4", "tri3", "quad4", "truss"]), nx=nx, ny=ny, nl=rng.choice([1, 3, nx * ny // 2, nx * ny]))
        specs[0].pop("affine", None)
        specs = specs[:2]
    elif large < 0.065:                            # long tables for a small model
        specs[0].pop("affine", None)
        specs[0].update(perm=1, pad=[rng.choice([0, 30, 300, 1500, 3000]), rng.choice([0, 5, 150]), rng.choice([0, 40, 400, 1500])])
    nm = len(specs)
    steps = []
    for _ in range(rng.choice([1, 2, 2, 3, 4]) if large >= 0.065 else rng.choice([1, 1, 2])):
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            x = rng.random()
            if x < 0.4:
                steps.append({"do": "model", "m": rng.randrange(nm), "style": rng.randrange(30), "keep": rng.random() < 0.4, "how": rng.choice(["write", "rename"])})
            elif x < 0.75:
                steps.append({"do": "file", "file": rng.choice(NAMES), "c": gen_content(rng, nm), "keep": rng.random() < 0.5, "how": rng.choice(["write", "rename"])})
            elif x < 0.83:
                steps.append({"do": "remove", "file": rng.choice(NAMES)})
            elif x < 0.93:
                steps.append({"do": "decoys", "m": rng.randrange(nm)})
            else:
                steps.append({"do": "chdir", "to": rng.choice(["decoy", "job", "root"])})
        r = {"do": "run", "strains": rng.random() < 0.4, "path": rng.choice(["abs", "abs", "slash", "rel", "empty"])}
        x = rng.random()
        if x < 0.2:
            on = rng.choice(["openr", "openr", "read"])
            r["faults"] = [{"on": on, "n": rng.choice([1, 1, 2, 3, 4, 5, 8]), "act": "err", "errno": rng.choice(ERRS if on == "openr" else ["EIO", "EIO", "ESTALE", "ENOMEM", "EISDIR"]),
                            "persist": rng.choice([0, 0, 1]), "path": rng.choice(["", ""] + NAMES)}]
        elif x < 0.55:
            r["faults"] = []
            if rng.random() < 0.4:                     # the whole model is replaced at one call
                on, nth, m, st = rng.choice(["openr", "openr", "read", "close"]), rng.randint(1, 6), rng.randrange(nm), rng.randrange(30)
                for n in NAMES:
                    r["faults"].append({"on": on, "n": nth, "act": "swap", "path": "", "file": n, "c": {"m": m, "style": st}})
            else:
                for _ in range(rng.choice([1, 1, 2, 3])):
                    r["faults"].append({"on": rng.choice(["openr", "openr", "read", "close"]), "n": rng.choice([1, 1, 2, 3, 4, 6]), "act": "swap", "path": rng.choice([""] + NAMES),
                                        "file": rng.choice(NAMES), "c": gen_content(rng, nm)})
        if rng.random() < 0.3:
            r["noise"] = [rng.choice([0, 1, 2, 5, 30]) if large >= 0.065 else rng.choice([0, 100, 1000]), rng.choice([0, 20, 60])]
        steps.append(r)
    return {"prop": "C01", "models": specs, "steps": steps, "style": rng.randrange(30)}


def build(spec):
    """A model; with 'affine' the loads are those of a displacement linear in the coordinates."""
    m = models.build(spec)
    if "affine" in spec:
        a, b, c = spec["affine"]
        root = np.flatnonzero(m["cons"][:, 1] == -1)
        left = m["nodes"][m["cons"][:, 0] == -1, 1]
        x, y = m["nodes"][:, 1] - left[0], m["nodes"][:, 2] - m["nodes"][root[0], 2]
        u = np.column_stack([a * x, b * x + c * y])
        f = (refmodel.assemble(m) @ u.ravel()).reshape(-1, 2)
        f[m["cons"] == -1] = 0
        m["loads"] = np.column_stack([np.arange(len(u)).astype(float), f])
    return m


_texts = {}


def content(specs, c, name):
    """The bytes of one file."""
    k = (repr(specs[c["m"]]), c.get("style", 0))
    if k not in _texts:
        if len(_texts) > 200:
            _texts.clear()
        _texts[k] = models.render(build(specs[c["m"]]), c.get("style", 0))
    t = _texts[k][name]
    how = c.get("damage")
    if not how:
        return t.encode()
    r = ops.RNG(c["s"])
    lines = t.split("\n")
    if how == "cut":
        t = t[:r.integers(0, len(t))]
    elif how == "cutline":
        t = "\n".join(lines[:r.integers(0, len(lines))]) + "\n"
    elif how in ("digit", "letter"):
        pos = [i for i, ch in enumerate(t) if ch.isdigit()]
        if pos:
            i = pos[r.integers(0, len(pos))]
            t = t[:i] + (str(r.integers(0, 10)) if how == "digit" else "x") + t[i + 1:]
    elif how == "zeros":
        i = r.integers(0, len(t))
        return t[:i].encode() + b"\0" * (len(t) - int(i))
    elif how == "empty":
        t = ["", "\n", "# nothing\n", "   \n \n"][r.integers(0, 4)]
    elif how == "dropline":
        i = r.integers(0, len(lines))
        t = "\n".join(lines[:i] + lines[i + 1:])
    elif how == "dupline":
        i = r.integers(0, len(lines))
        t = "\n".join(lines[:i + 1] + lines[i:])
    elif how == "blank":
        i = r.integers(0, len(lines))
        t = "\n".join(lines[:i] + ["", "   ", "# remark 1 2 3"] + lines[i:])
    elif how == "crlf":
        t = t.replace("\n", "\r\n")
    elif how == "trailing":
        t = "\n".join(l + "  " if l else l for l in lines)
    elif how == "column":
        i = r.integers(0, len(lines))
        lines[i] = " ".join(lines[i].split("#")[0].split()[:-1]) if r.random() < 0.5 else lines[i].split("#")[0] + " 1"
        t = "\n".join(lines)
    elif how == "swapfile":
        t = _texts[k][NAMES[r.integers(0, 4)]]
    elif how == "header":
        t = "id x y\n" + t
    elif how == "twin":
        t = t + "\n" + t
    return t.encode()


FLOAT = re.compile(r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?$")
INT = re.compile(r"[+-]?\d+$")


def read(data, ints):
    """What one file says: an array, 'bad' (no table of numbers) or 'odd' (not judged)."""
    if data is None:
        return "bad"
    rows, odd = [], False
    for line in re.split("\r\n|\n|\r", data.decode("latin-1")):
        cells = line.split("#", 1)[0].split()
        row = []
        for c in cells:
            if (INT if ints else FLOAT).match(c):
                row.append(float(c))
            else:
                try:
                    float(c)
                    odd = True
                    row.append(0.0)
                except ValueError:
                    return "bad"
        if row:
            rows.append(row)
    if len({len(r) for r in rows}) > 1:
        return "bad"
    if odd:
        return "odd"
    return np.array(rows) if rows else np.zeros((0, 3))


def reference(files):
    """('bad', why), ('unjudged', why) or ('valid', displacements, nodal strains or None, stresses or None, model) of one reading of the folder."""
    a = {}
    odd = None
    for n in NAMES:
        x = read(files.get(n), n == "eles.txt")
        if isinstance(x, str):
            if x == "bad":
                return ("bad", n)
            odd = n
        a[KEY[n]] = x
    if odd:
        return ("unjudged", odd)
    try:
        if a["nodes"].shape[1] != 5 or not len(a["nodes"]) or not len(a["elements"]) or not len(a["mats"]) or a["loads"].shape[1] != 3 or a["elements"].shape[1] < 5:
            raise refmodel.Invalid("shape")
        kinds = set(a["elements"][:, 1])
        need = 1 if kinds == {5} else 2
        if len(kinds) > 1 or a["mats"].shape[1] != need:
            raise refmodel.Invalid("kinds")
        if need == 2 and kinds != {6} and not (np.abs(a["mats"][:, 1]) < 0.49).all() or not (a["mats"][:, 0] > 0).all():
            raise refmodel.Invalid("material")
        if kinds == {6} and not (a["mats"][:, 1] > 0).all():
            raise refmodel.Invalid("material")
        u, K, f = refmodel.solve(a, maxcond=1e8)
        if kinds == {2}:                               # curved sides: the answer depends on the quadrature rule
            c = a["nodes"][a["elements"][:, 3:].astype(int), 1:3]
            if np.abs(c[:, 3:] - (c[:, :3] + c[:, [1, 2, 0]]) / 2).max() > 1e-9 * np.ptp(c, axis=(0, 1)).max():
                raise refmodel.Invalid("curved sides")
    except refmodel.Invalid as e:
        return ("unjudged", str(e))
    return ("valid", u, a)


def put(folder, name, data, how, keep):
    p = os.path.join(folder, name)
    try:
        st = os.stat(p)
    except OSError:
        st = None
    if how == "rename":
        with open(p + ".new", "wb") as f:
            f.write(data)
        os.rename(p + ".new", p)
    else:
        with open(p, "wb") as f:
            f.write(data)
    if keep and st:
        os.utime(p, ns=(st.st_atime_ns, st.st_mtime_ns))


def tree(folder):
    out = {}
    for d, ds, fs in os.walk(folder):
        for n in fs:
            p = os.path.join(d, n)
            s = os.stat(p)
            with open(p, "rb") as f:
                out[os.path.relpath(p, folder)] = (hashlib.sha256(f.read()).hexdigest(), s.st_mode, s.st_mtime_ns)
        for n in ds:
            out[os.path.relpath(os.path.join(d, n), folder) + "/"] = 0
    return out


def session(scn, root):
    values.ROOT[0] = root
    warnings.simplefilter("ignore")
    specs = scn["models"]
    job, decoy, alt = (os.path.join(root, d) for d in ("job", "decoy", "alt"))
    for d in (job, decoy, alt):
        os.makedirs(d)
    disk = {}
    out = []
    here = root
    os.chdir(root)
    for n in NAMES:
        disk[n] = content(specs, {"m": 0, "style": scn["style"]}, n)
        put(job, n, disk[n], "write", False)
        put(decoy, n, content(specs, {"m": len(specs) - 1, "style": 0}, n), "write", False)
    fn = env.mod("solids_GUI").solids_GUI
    for si, st in enumerate(scn["steps"]):
        do = st["do"]
        if do == "model":
            for n in NAMES:
                disk[n] = content(specs, st, n)
                put(job, n, disk[n], st["how"], st["keep"])
        elif do == "file":
            disk[st["file"]] = content(specs, st["c"], st["file"])
            put(job, st["file"], disk[st["file"]], st["how"], st["keep"])
        elif do == "remove":
            disk.pop(st["file"], None)
            try:
                os.unlink(os.path.join(job, st["file"]))
            except OSError:
                pass
        elif do == "decoys":
            for n in NAMES:
                t = content(specs, {"m": st["m"]}, n)
                for d in ("K" + {"nodes.txt": "NODES", "mater.txt": "MATES", "eles.txt": "ELEMS", "loads.txt": "LOADS"}[n] + ".txt", n + "~", n + ".bak", n.upper(), "." + n, n[:-4], n[:-4] + ".csv", n[:-4] + ".dat", "old/" + n):
                    os.makedirs(os.path.dirname(os.path.join(job, d)), exist_ok=True)
                    put(job, d, t, "write", False)
        elif do == "chdir":
            here = {"decoy": decoy, "job": job, "root": root}[st["to"]]
            os.chdir(here)
        if do != "run":
            continue
        faults = []
        for k, f in enumerate(st.get("faults", ())):
            f = dict(f)
            if f["act"] == "swap":
                data = content(specs, f["c"], f["file"])
                p = os.path.join(alt, "%d" % k)
                put(alt, "%d" % k, data, "write", False)
                f.update(a=p, b=os.path.join(job, f["file"]), data=data)
            if f.get("path"):
                f["path"] = "job/" + f["path"]
            faults.append(f)
        path = {"abs": job, "slash": job + "/", "rel": os.path.relpath(job, here), "empty": ""}[st["path"]]
        if path == "" and here != job:
            path = job
        before, fd0 = tree(job), state.fds()
        err = res = None
        so = sys.stdout
        sys.stdout = io.StringIO()
        fs = seams.Files(root, faults, st.get("noise"), seed=3 + si, limit=50000)
        try:
            with fs:
                res = fn(plot_contours=False, compute_strains=st["strains"], folder=path)
        except BaseException as e:
            err = ([t.__name__ for t in type(e).__mro__], values.text(e))
            del e
        sys.stdout = so
        gc.collect()
        fd1 = state.fds()
        cands = {n: [disk.get(n)] for n in NAMES}
        for k, f in enumerate(faults):
            if f["act"] == "swap" and fs.fired(k):
                cands[f["file"]].append(f["data"])
                before.pop(f["file"], None)
        after = tree(job)
        same = True
        for n in NAMES:
            p = os.path.join(job, n)
            now = open(p, "rb").read() if os.path.exists(p) else None
            if len(cands[n]) > 1 and now in cands[n]:
                disk[n] = now
            same = same and now == disk.get(n)
        out.append({"step": si, "err": err, "res": None if res is None else [np.array(x, dtype=float) for x in (res if isinstance(res, tuple) else (res,))], "stats": fs.stats, "cands": cands,
                    "fds": sorted(v for k, v in fd1.items() if fd0.get(k) != v), "folder": sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k) and k not in {f.get("file") for f in faults if f["act"] == "swap"}),
                    "hard": [k for k, f in enumerate(faults) if f["act"] == "err" and fs.fired(k)], "swapped": [k for k, f in enumerate(faults) if f["act"] == "swap" and fs.fired(k)],
                    "disk": same})
    os.chdir("/")
    return out


def matches(o, ref, strains, spec):
    """None, or how the answer differs from a valid reading."""
    u, a = ref[1], ref[2]
    got = o["res"][0]
    if got.shape != u.shape:
        return "displacements of %d nodes for %d" % (len(got), len(u))
    if not values.close(got, u, 2e-6):
        return "displacements differ (by up to %.3g of %.3g)" % (np.abs(got - u).max(), np.abs(u).max())
    if not strains:
        return None if len(o["res"]) == 1 else "more than displacements returned"
    if len(o["res"]) != 3:
        return "no strains and stresses returned"
    E, S = o["res"][1:]
    kind = a["elements"][0, 1]
    if E.shape != (len(u), 3) or S.shape != (len(u), 3):
        return "strains of shape %s" % (E.shape,)
    used = np.unique(a["elements"][:, 3:].astype(int))
    if len(used) < len(u):
        E, S = E[used], S[used]
    if kind == 3:
        with np.errstate(all="ignore"):
            Er, Sr = refmodel.tri3_nodal(dict(a, elements=a["elements"].astype(int)), u)
        if not values.close(E, Er[used], 2e-6) or not values.close(S, Sr[used], 2e-6):
            return "nodal strains or stresses differ"
    # a displacement linear in the coordinates has the same strain everywhere
    x = np.column_stack([np.ones(len(u)), a["nodes"][:, 1:3]])
    G = np.linalg.lstsq(x, u, rcond=None)[0]
    if kind in (1, 2, 3) and np.abs(x @ G - u).max() <= 1e-8 * np.abs(u).max() and len(a["mats"]) == 1:
        e = refmodel.affine_strain(G[1:].T)
        if not np.abs(E - e).max() <= 2e-6 * np.abs(e).max():
            return "strains %s where the displacement is linear with strain %s" % (E[np.argmax(np.abs(E - e).max(axis=1))], e)
        s = refmodel.plane_stress(*a["mats"][0]) @ e
        if not np.abs(S - s).max() <= 2e-6 * np.abs(s).max():
            return "stresses %s where they are %s everywhere" % (S[np.argmax(np.abs(S - s).max(axis=1))], s)
    if kind in (1, 2) and len(a["mats"]) == 1:
        if not values.close(S, E @ refmodel.plane_stress(*a["mats"][0]).T, 1e-6):
            return "stresses are not those of the strains"
    return None


def run(scn):
    bad, st, cover = [], {}, []

    def count(k, v=1):
        st[k] = st.get(k, 0) + v
    with env.Scratch() as root:
        try:
            out = env.fork(session, scn, root)
        except env.Died as e:
            if e.code == 97:
                return {"violations": [{"kind": "no progress", "msg": "an analysis made more than 50000 file calls under the simulated disk: it never finishes"}], "stats": {"livelock": 1}, "cover": [], "trace": "livelock"}
            return {"violations": [{"kind": "process died", "msg": "the process ended with %d" % e.code}], "stats": {}, "cover": [], "trace": "died %d" % e.code}
    memo = {}
    for o in out:
        s = scn["steps"][o["step"]]
        what = [{k: v for k, v in f.items()} for f in s.get("faults", ())]
        name = "step %d: analysis%s%s" % (o["step"], " with strains" if s["strains"] else "", ", faults %s" % what if what else "")
        count("analyses")
        for k, v in o["stats"].items():
            count(k, v)

        def v(kind, msg):
            bad.append({"kind": kind, "step": o["step"], "msg": name + ": " + msg})
        refs = []
        for combo in itertools.product(*[o["cands"][n] for n in NAMES]):
            if combo not in memo:
                memo[combo] = reference(dict(zip(NAMES, combo)))
            refs.append(memo[combo])
        kinds = {r[0] for r in refs}
        if o["err"] is not None:
            verdict = "raised " + o["err"][0][0]
            count("raised")
            if "Exception" not in o["err"][0]:
                v("odd error", "it raised %s" % o["err"][0][0])
            elif not o["hard"] and kinds == {"valid"}:
                odd_strain = s["strains"] and any(r[2]["elements"][0, 1] not in (1, 2, 3) for r in refs)
                if odd_strain:
                    count("strains of an unsupported element")
                else:
                    v("spurious error", "every consistent reading of the files is a sound model%s, but it raised %s: %s" % (
                        "" if not o["stats"] else " (%s happened)" % ", ".join(sorted(o["stats"])), o["err"][0][0], o["err"][1][:200]))
        else:
            verdict = "returned"
            if o["hard"]:
                v("failure swallowed", "%s happened but it returned a result" % [what[k]["on"] + " " + what[k]["errno"] for k in o["hard"]])
            why = None
            for r in refs:
                if r[0] == "valid":
                    why = matches(o, r, s["strains"], None)
                    if why is None:
                        break
            else:
                if "unjudged" in kinds:
                    count("not judged: readable but not a well posed model")
                elif kinds == {"bad"}:
                    v("result without a model", "%s is not a table of numbers, but it returned a result" % sorted({r[1] for r in refs}))
                else:
                    v("wrong result", "%s" % why + (" under every consistent reading of the files" if len(refs) > 1 else ""))
            if "valid" in kinds and not o["hard"]:
                count("answered for a sound model")
        if o["fds"]:
            v("file left open", "%s still open" % o["fds"])
        if o["folder"] or not o["disk"]:
            v("folder changed", "%s changed" % (o["folder"] or "the input files"))
        f0 = tuple((f["on"], f["n"], f["act"], f.get("errno"), f.get("path"), f.get("file"), (f.get("c") or {}).get("damage")) for k, f in enumerate(what) if k in o["hard"] + o["swapped"])
        hist = tuple(x.get("c", {}).get("damage", x["do"]) if x["do"] == "file" else x["do"] for x in scn["steps"][:o["step"]])[-2:]
        if kinds & {"valid"} or o["stats"] or "bad" in kinds:
            cover.append(values.digest((tuple(sorted(kinds)), f0, hist, s["strains"], s["path"], verdict, bool(s.get("noise")), scn["models"][0]["k"])))
    return {"violations": bad, "stats": st, "cover": cover, "trace": values.digest([(o["err"], None if o["res"] is None else [x.tobytes() for x in o["res"]], sorted(o["stats"].items()), o["swapped"]) for o in out])}


def shrink(scn):
    s = scn["steps"]
    size = max(len(s) // 2, 1)
    while size >= 1:
        for a in range(0, len(s), size):
            if len(s) > size:
                yield dict(scn, steps=s[:a] + s[a + size:])
        size //= 2
    for j, x in enumerate(s):
        if x["do"] == "run":
            if x.get("noise"):
                yield dict(scn, steps=s[:j] + [{k: v for k, v in x.items() if k != "noise"}] + s[j + 1:])
            fs = x.get("faults", [])
            for k in range(len(fs)):
                yield dict(scn, steps=s[:j] + [dict(x, faults=fs[:k] + fs[k + 1:])] + s[j + 1:])
            if x["strains"]:
                yield dict(scn, steps=s[:j] + [dict(x, strains=False)] + s[j + 1:])
            if x["path"] != "abs":
                yield dict(scn, steps=s[:j] + [dict(x, path="abs")] + s[j + 1:])
    for i, m in enumerate(scn["models"]):
        for key, v in (("nx", 1), ("ny", 1), ("jig", 0), ("perm", 0), ("nm", 1), ("nl", 1), ("dup", False)):
            if m.get(key, v) != v:
                yield dict(scn, models=scn["models"][:i] + [dict(m, **{key: v})] + scn["models"][i + 1:])
    if scn["style"]:
        yield dict(scn, style=0)
