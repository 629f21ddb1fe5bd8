"""C09: the folder the user chose is the folder that is analysed."""
import importlib
import importlib.abc
import importlib.util
import io
import os
import shutil
import sys
import types

import numpy as np

from . import env, models, refmodel, values

BUDGET = {"quick": (4000, 120, 60), "thorough": (100000, 3000, 300)}
RULE = ("one case is one analysis in a session of up to 6, with the user's dialog and prompt scripted, compared with the reference model of the folder that user chose "
        "(every other folder, the working directory included, usually holds a different complete model). Non-trivial: all; distinct by (what the dialog did, how the "
        "folder was written, what the folder holds, outcome)")
COMPONENTS = {"real": "all of solidspy, numpy, scipy, the file system (scratch folder)", "stub": "the easygui module (scripted dialog) and standard input (scripted answers)"}

NAMES = ["a", "b", "job 1", "j\u00f6b", "a.b", "nodes", "~b", "-x", "[z]", "deep/er", "A", "a ", " a", "b ", "jo\u0308b", "a\\b", "'a'", "\"b\"", "a;b", "job", "$x", "%61", "a.txt", "..a", "#a", "$V", "${V}", "[ab]", "a*", "{0}", "%s", "ab", "~", "a #b", "a,b", "a:b", "a|b", "a&b", "a\tb", "=a", "a=b", "b.a", "`b`", "(b)", "a.."]
TWINS = [["a", "a "], ["a", " a"], ["b", "b "], ["a", "A"], ["j\u00f6b", "jo\u0308b"], ["a", "'a'"], ["b", "\"b\""], ["a", "a;b"], ["a", "%61"], ["job 1", "job"], ["a", "#a"],
         ["$V", "a"], ["${V}", "a"], ["[ab]", "a"], ["a*", "ab"], ["a #b", "a"], ["a,b", "a"], ["a:b", "a"], ["a|b", "a"], ["a&b", "a"], ["a\tb", "a"], ["~", "a"], ["a=b", "a"], ["(b)", "b"], ["`b`", "b"], ["a.b", "a"], ["a..", "a"]]
EXCS = ["RuntimeError", "TypeError", "AttributeError", "OSError", "MemoryError", "LookupError", "AssertionError", "ValueError", "NameError", "TclError", "ImportError",
        "StopIteration", "UnicodeDecodeError", "NotImplementedError", "EOFError", "SyntaxError"]


class TclError(Exception):
    pass


def make(name, text="simulated"):
    import builtins
    if name == "TclError":
        return TclError(text)
    if name == "UnicodeDecodeError":
        return UnicodeDecodeError("utf-8", b"\xff", 0, 1, text)
    if name == "SystemExit":
        return SystemExit(3)
    return getattr(builtins, name)(text)


def generate(rng, tier, i):
    nf = rng.choice([2, 2, 3, 4])
    names = rng.sample(NAMES, nf)
    if rng.random() < 0.4:
        tw = list(rng.choice(TWINS))
        rng.shuffle(tw)
        names = tw + [n for n in names if n not in tw][:nf - 2]
    folders = []
    for n in names:
        s = models.gen(rng, kinds=("quad4", "tri3", "tri6", "truss", "spring"))
        s["nx"], s["ny"] = rng.randint(1, 2), rng.randint(1, 2)
        holds = rng.choice(["all"] * 7 + ["nodes.txt", "eles.txt", "mater.txt", "loads.txt", "empty", "absent"])
        folders.append({"name": n, "model": s, "holds": holds, "style": rng.randrange(30)})
    cwd_model = models.gen(rng, kinds=("quad4", "tri3", "truss"))
    steps = []
    installed = rng.choice(["yes", "yes", "yes", "no", "no", "broken"])
    for _ in range(rng.choice([1, 1, 2, 3, 4, 6])):
        t = rng.randrange(nf + 1)                      # nf: the current folder itself
        st = {"target": t, "decoy": rng.randrange(nf), "cwd": rng.choice(["top", "top", "top", "side", "folder"]), "strains": False}
        x = rng.random()
        if x < 0.12:
            st["via"] = "passed"
            st["dialog"] = {"do": "answer"}
        elif installed == "yes" and x < 0.5:
            st["via"] = "dialog"
            st["dialog"] = {"do": "answer", "slash": rng.random() < 0.15, "late": rng.random() < 0.2}
        elif installed == "yes" and x < 0.58:
            st["via"] = "dialog"
            st["dialog"] = {"do": "raise", "exc": rng.choice(["KeyboardInterrupt", "SystemExit"])}
        else:
            st["via"] = "prompt"
            st["dialog"] = rng.choice([{"do": "dismiss"}, {"do": "raise", "exc": rng.choice(EXCS)}, {"do": "raise", "exc": rng.choice(EXCS)}, {"do": "noattr"}])
            st["prompt"] = rng.choice(["answer"] * 8 + ["EOF", "KeyboardInterrupt"])
            st["late"] = rng.random() < 0.15
        st["write"] = rng.choice(["abs", "rel", "dot", "updown", "link", "linkabs"])
        st["slash"] = rng.choice([0, 0, 1, 1, 2])
        if rng.random() < 0.12:
            st["into"] = rng.choice(["nodes.txt", "eles.txt", "sub", "none", "none/sub", "nodes.", "."])     # one level too deep, or a misspelled name
        steps.append(st)
    return {"prop": "C09", "folders": folders, "cwd_model": cwd_model, "cwd_holds": rng.choice(["all", "all", "empty"]), "installed": installed,
            "import_exc": rng.choice(["ImportError", "RuntimeError", "TclError", "OSError", "AttributeError"]), "steps": steps}


class Keys:
    """Standard input: what the user types."""
    encoding, errors = "utf-8", "strict"

    def __init__(self, what):
        self.what, self.asked = what, 0

    def readline(self, *a):
        self.asked += 1
        w = self.what
        if callable(w):
            w = w()
        if isinstance(w, BaseException):
            raise w
        return w

    def read(self, *a):
        return self.readline()

    def __iter__(self):
        return self

    def __next__(self):
        l = self.readline()
        if not l:
            raise StopIteration
        return l

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def isatty(self):
        return True

    def flush(self):
        pass


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """An easygui that fails while it is imported."""

    def __init__(self, exc):
        self.exc = exc

    def find_spec(self, name, path=None, target=None):
        if name == "easygui":
            return importlib.util.spec_from_loader(name, self)

    def create_module(self, spec):
        return None

    def exec_module(self, m):
        raise make(self.exc)


def put(root, f, name=None):
    d = os.path.join(root, name or f["name"])
    if f["holds"] == "absent":
        return d
    os.makedirs(d, exist_ok=True)
    if f["holds"] == "empty":
        return d
    files = models.render(models.build(f["model"]), f["style"])
    files.pop(f["holds"], None)
    models.write(d, files)
    return d


def session(scn, root):
    values.ROOT[0] = root
    nf = len(scn["folders"])
    box = {"do": None, "asked": 0}
    gui = types.ModuleType("easygui")

    def diropenbox(*a, **k):
        box["asked"] += 1
        r = box["do"]()
        if isinstance(r, BaseException):
            raise r
        return r
    gui.diropenbox = diropenbox
    sys.modules.pop("easygui", None)
    if scn["installed"] == "no":
        sys.modules["easygui"] = None
    elif scn["installed"] == "yes":
        sys.modules["easygui"] = gui
    else:
        sys.meta_path.insert(0, Finder(scn["import_exc"]))
    for m in [m for m in sys.modules if m == "solidspy" or m.startswith("solidspy.")]:
        del sys.modules[m]
    entry = importlib.import_module("solidspy.solids_GUI")
    os.environ["V"] = "a"
    out = []
    for st in scn["steps"]:
        for n in os.listdir(root):
            shutil.rmtree(os.path.join(root, n))
        top = os.path.join(root, "top")
        os.makedirs(os.path.join(root, "side"))
        os.makedirs(top)
        cwdf = {"name": ".", "model": scn["cwd_model"], "holds": scn["cwd_holds"], "style": 0}
        late = st.get("late") or st["dialog"].get("late")
        dirs = []
        linked = st["write"].startswith("link") and st["target"] < nf and st["via"] != "dialog"
        far = os.path.join(root, "far", "off")
        base = far if linked else top
        for j, f in enumerate(scn["folders"]):
            at = base if j == st["target"] else top
            dirs.append(os.path.join(at, f["name"]))
            if not (late and j == st["target"]):
                put(at, f)
            elif st["target"] != st["decoy"]:
                put(at, dict(scn["folders"][st["decoy"]], holds="all"), f["name"])      # replaced while the user is choosing
        here = {"top": top, "side": os.path.join(root, "side"), "folder": dirs[st["decoy"]]}[st["cwd"]]
        os.makedirs(here, exist_ok=True)
        if st["cwd"] != "folder":
            put(here, cwdf, ".")
        if linked:       # HERE/lnk/.. is not HERE: what stands next to the link is another folder of the same name
            os.makedirs(os.path.join(far, "end"), exist_ok=True)
            os.symlink(os.path.join(far, "end"), os.path.join(here, "lnk"))
            f = scn["folders"][st["target"]]
            if st["decoy"] != st["target"] and not os.path.exists(os.path.join(here, f["name"])):
                put(here, dict(scn["folders"][st["decoy"]], holds="all"), f["name"])
        os.chdir(here)
        path = here if st["target"] == nf else dirs[st["target"]]

        def settle():
            if late and st["target"] < nf:
                for n in os.listdir(path) if os.path.isdir(path) else ():
                    if os.path.isfile(os.path.join(path, n)):
                        os.unlink(os.path.join(path, n))
                put(base, scn["folders"][st["target"]])
        w = st["write"]
        if linked:
            typed = os.path.join("lnk", "..", scn["folders"][st["target"]]["name"])
            if w == "linkabs":
                typed = os.path.join(here, typed)
        elif w == "abs" or w == "linkabs":
            typed = path
        else:
            typed = os.path.relpath(path, here)
            if w == "dot":
                typed = "./" + typed
            elif w == "updown":
                typed = os.path.join("..", os.path.basename(here), typed)
            if typed == "." and st["slash"] == 0:
                typed = ""
        if typed:
            typed += "/" * st["slash"]
        if st.get("into"):
            if st["into"] == "sub" and os.path.isdir(path):
                os.mkdir(os.path.join(path, "sub"))
            typed = os.path.join(typed, st["into"])
        inj = None
        d = st["dialog"]
        decoy = dirs[st["decoy"]]
        if d["do"] == "raise":
            exc = make(d["exc"])
            if d["exc"] in ("KeyboardInterrupt", "SystemExit"):
                inj = exc
            box["do"] = lambda: exc
        elif d["do"] == "dismiss":
            box["do"] = lambda: None
        elif d["do"] == "answer":
            def ok():
                settle()
                return os.path.join(path, st.get("into", "")) + ("/" if d.get("slash") else "") if st.get("into") else path + ("/" if d.get("slash") else "")
            box["do"] = ok if st["via"] == "dialog" else (lambda: decoy)
        gui.__dict__.pop("diropenbox", None)
        if d["do"] != "noattr":
            gui.diropenbox = diropenbox
        if st["via"] == "prompt":
            if st["prompt"] == "answer":
                def ans():
                    settle()
                    return typed + "\n"
                keys = Keys(ans)
            elif st["prompt"] == "EOF":
                keys = Keys("")
            else:
                inj = KeyboardInterrupt("simulated")
                keys = Keys(inj)
        else:
            keys = Keys(decoy + "\n")
        box["asked"] = 0
        so, si = sys.stdout, sys.stdin
        sys.stdout, sys.stdin = io.StringIO(), keys
        err = u = None
        try:
            if st["via"] == "passed":
                u = entry.solids_GUI(plot_contours=False, folder=typed)
            else:
                u = entry.solids_GUI(plot_contours=False)
        except BaseException as e:
            err = e
        sys.stdout, sys.stdin = so, si
        if isinstance(u, tuple):
            u = u[0]
        out.append({"exc": None if err is None else type(err).__name__, "ordinary": isinstance(err, Exception), "text": "" if err is None else values.text(err),
                    "injected": err is not None and err is inj, "u": None if u is None else np.array(u, dtype=float), "dialog": box["asked"], "prompt": keys.asked,
                    "typed": values.text(typed)})
    os.chdir("/")
    return out


def expected(scn, st):
    """The model the user chose, or None when that folder holds none."""
    nf = len(scn["folders"])
    d = st["decoy"]
    if st.get("into", ".") != ".":
        return None

    def at(j):
        f = scn["folders"][j]
        return f["model"] if f["holds"] == "all" else None
    if st["target"] < nf:
        late = st.get("late") or st["dialog"].get("late")
        if late and st["via"] == "passed" and st["target"] != d:
            return scn["folders"][d]["model"]
        return at(st["target"])
    if st["cwd"] == "folder":
        return at(d)
    return scn["cwd_model"] if scn["cwd_holds"] == "all" else None


def run(scn):
    bad, st, cover = [], {}, []
    with env.Scratch() as root:
        out = env.fork(session, scn, root)
    memo = {}

    def ref(spec):
        k = repr(spec)
        if k not in memo:
            memo[k] = refmodel.solve(models.build(spec))[0]
        return memo[k]
    for i, (s, o) in enumerate(zip(scn["steps"], out)):
        d = s["dialog"]
        dlg = "not installed" if scn["installed"] == "no" else "broken (%s)" % scn["import_exc"] if scn["installed"] == "broken" else \
            {"answer": "answers", "dismiss": "is dismissed", "noattr": "is unusable"}.get(d["do"], "raises " + d.get("exc", ""))
        name = "step %d: %s; dialog %s; %s%s" % (i, "folder %r passed" % o["typed"] if s["via"] == "passed" else "no folder passed", dlg,
                                                 "prompt %s " % s["prompt"] if s["via"] == "prompt" else "", "typed %r" % o["typed"] if s["via"] == "prompt" else "")
        st["analyses"] = st.get("analyses", 0) + 1
        k = "dialog " + dlg
        st[k] = st.get(k, 0) + 1
        stop = None
        if s["via"] == "dialog" and d["do"] == "raise":
            stop = d["exc"]
        elif s["via"] == "prompt" and s["prompt"] != "answer":
            stop = "EOFError" if s["prompt"] == "EOF" else s["prompt"]
        want = None if stop else expected(scn, s)
        cover.append(values.digest((s["via"], dlg, s.get("prompt"), s["write"] if s["via"] != "dialog" else "", s["slash"] if s["via"] != "dialog" else d.get("slash"), s["cwd"],
                                    s["target"] == len(scn["folders"]), "stop" if stop else "nothing" if want is None else want["k"], o["exc"], bool(s.get("late") or d.get("late")), s.get("into"))))
        got = "raised %s: %s" % (o["exc"], o["text"][:200]) if o["exc"] else "returned displacements of %d nodes" % len(o["u"])
        if stop:
            if o["exc"] != stop or (stop != "EOFError" and not o["injected"]):
                bad.append({"kind": "request swallowed", "step": i, "msg": "%s: the user asked to stop (%s) but the call %s" % (name, stop, got)})
        elif want is None:
            if not (o["exc"] and o["ordinary"]):
                bad.append({"kind": "no model", "step": i, "msg": "%s: that folder holds no complete model, but the call %s" % (name, got)})
        elif o["exc"]:
            bad.append({"kind": "not analysed", "step": i, "msg": "%s: that folder holds a complete model, but the call %s" % (name, got)})
        else:
            r = ref(want)
            if o["u"].shape != r.shape or not values.close(o["u"], r, 1e-6):
                bad.append({"kind": "wrong folder", "step": i, "msg": "%s: the displacements are not those of the chosen folder's model (%s)" % (name, got)})
    return {"violations": bad, "stats": st, "cover": cover, "trace": values.digest([(o["exc"], o["text"], None if o["u"] is None else o["u"].tobytes(), o["dialog"], o["prompt"]) for o in out])}


def shrink(scn):
    s = scn["steps"]
    for a in range(len(s)):
        if len(s) > 1:
            yield dict(scn, steps=s[:a] + s[a + 1:])
    for j, x in enumerate(s):
        for key, v in (("late", False), ("into", "."), ("slash", 0), ("cwd", "top"), ("write", "abs")):
            if x.get(key) not in (None, v):
                yield dict(scn, steps=s[:j] + [dict(x, **{key: v})] + s[j + 1:])
    for i, f in enumerate(scn["folders"]):
        m = f["model"]
        for key, v in (("nx", 1), ("ny", 1), ("jig", 0), ("perm", 0), ("nm", 1), ("nl", 1)):
            if m.get(key, v) != v:
                yield dict(scn, folders=scn["folders"][:i] + [dict(f, model=dict(m, **{key: v}))] + scn["folders"][i + 1:])
