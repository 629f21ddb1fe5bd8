"""C10: each plot shows its own field in its own windows only."""
import io
import os
import pickle
import sys
import warnings

import numpy as np

from . import env, models, ops, points, seams, values

BUDGET = {"quick": (1200, 170, 60), "thorough": (40000, 3000, 300)}
RULE = ("one case is one plotting call in a session in which the user opens, closes, renames and draws in windows and earlier plots succeed or fail part-way; its windows "
        "are compared with the same call in a fresh process and with the data given, every other window with what it showed before. Non-trivial: all; distinct by (call, "
        "options, how its windows were named, what was open, how it ended)")
COMPONENTS = {"real": "all of solidspy, numpy, matplotlib (Agg canvas)", "stub": "the screen"}

WINDOWS = ["Horizontal displacement", "Vertical displacement", "w1", "w2", "w3", "Stress tau-xy", "Strain epsilon-xx"]


def gen_plot(rng, nm):
    fn = rng.choice(["plot_node_field"] * 6 + ["fields_plot"] * 2 + ["plot_truss"] * 3 + ["solids_auto"])
    st = {"do": "plot", "fn": fn, "m": rng.randrange(nm), "s": rng.randrange(10**6)}
    if fn == "plot_node_field":
        st["cols"] = rng.choice([0, 1, 1, 2, 2, 3])
        st["type"] = rng.choice(["contourf", "contourf", "pcolor"])
        st["levels"] = rng.choice([None, None, 5, 20])
        st["data"] = rng.choice(["plain", "plain", "plain", "const", "zero", "ints", "tiny"])
    if fn == "plot_truss":
        st["stress"] = rng.random() < 0.7
        st["pos"] = rng.choice([(), ("max_val",), ("min_val", "max_val")])
    if fn in ("fields_plot", "solids_auto"):
        st["strains"] = rng.random() < 0.35
    if fn in ("plot_node_field", "plot_truss"):
        st["names"] = rng.choice(["none", "none", "new", "win", "win", "num", "num"])
        st["titles"] = rng.random() < 0.4
        st["save"] = rng.random() < 0.12
        st["ext"] = rng.choice(["png", "svg"])
    x = rng.random()
    if x < 0.22:
        st["fail"] = rng.choice(["point", "point", "point", "levels", "length", "type", "file", "openw", "element"])
        st["frac"] = rng.random()
        st["pick"] = rng.choice(["any", "place", "place", "shared"])
        if st["fail"] in ("file", "openw"):
            st["save"] = True
    return st


def generate(rng, tier, i):
    specs = []
    for k in ("quad4", "truss"):
        s = models.gen(rng, kinds=(rng.choice(["quad4", "tri3", "tri6", "quad9"]),) if k != "truss" else ("truss",))
        s["nx"], s["ny"] = rng.randint(1, 2), rng.randint(1, 2)
        if rng.random() < 0.3:
            s["u"] = rng.choice([1e-6, 1e-4, 1e-3, 1e3, 1e6])          # the unit of length
        specs.append(s)
    specs.append(dict(specs[0], ox=specs[0]["ox"] + rng.choice([0, 1]), L=round(specs[0]["L"] * rng.choice([1, 2, 0.7]), 3), jig=rng.choice([0, specs[0]["jig"]])))     # the same mesh elsewhere
    steps = []
    for _ in range(rng.choice([2, 3, 4, 5, 7])):
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            steps.append({"do": rng.choice(["open", "open", "name", "subplots", "close", "close", "closeall", "draw", "draw", "rename", "renumber", "current", "clear", "loose", "on", "off", "high"]),
                          "s": rng.randrange(10**6)})
        if rng.random() < 0.2:
            steps.append({"do": "edit", "m": rng.randrange(3), "s": rng.randrange(10**6)})
        steps.append(gen_plot(rng, 2))
    return {"prop": "C10", "models": specs, "steps": steps}


def user(st):
    """What the user does in other windows."""
    import matplotlib.pyplot as plt
    from matplotlib.figure import Figure
    r = ops.RNG(st["s"])
    nums = plt.get_fignums()
    pick = int(nums[r.integers(0, len(nums))]) if nums else None
    do = st["do"]
    if do == "open":
        plt.figure()
        plt.plot(r.uniform(size=3))
    elif do == "high":
        plt.figure(int(r.integers(2, 40)))
        plt.plot(r.uniform(size=3))
    elif do == "name":
        plt.figure(WINDOWS[r.integers(0, len(WINDOWS))])
        plt.plot(r.uniform(size=4), "o")
    elif do == "subplots":
        f, a = plt.subplots(1, 2)
        a[0].plot(r.uniform(size=3))
        a[1].imshow(r.uniform(size=(3, 3)))
        plt.sca(a[0])
    elif do == "close" and pick:
        plt.close(pick)
    elif do == "closeall":
        if r.random() < 0.4:
            plt.close("all")
    elif do == "draw" and pick:
        plt.figure(pick)
        plt.plot(r.uniform(size=5))
        plt.title("mine %d" % r.integers(100))
    elif do == "rename" and pick:
        plt.figure(pick).set_label(WINDOWS[r.integers(0, len(WINDOWS))])
    elif do == "renumber" and pick:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            plt.figure(pick).number = int(r.integers(1, 12))
    elif do == "current" and pick:
        f = plt.figure(pick)
        if f.axes:
            plt.sca(f.axes[r.integers(0, len(f.axes))])
    elif do == "clear" and pick:
        plt.figure(pick).clf()
    elif do == "loose":
        Figure().add_subplot().plot([1, 2])
    elif do == "on":
        plt.ion()
    elif do == "off":
        plt.ioff()


def n(x):
    x = np.ma.filled(np.ma.asarray(x, dtype=float), np.nan)
    return (x.shape, x.astype(float).tobytes())


def art(a):
    """What an artist shows."""
    from matplotlib.collections import Collection
    from matplotlib.contour import ContourSet
    from matplotlib.image import AxesImage
    from matplotlib.lines import Line2D
    from matplotlib.patches import Patch
    from matplotlib.text import Text
    d = [type(a).__name__, a.get_visible(), a.get_alpha()]
    if isinstance(a, Line2D):
        d += [n(a.get_xdata()), n(a.get_ydata()), repr(a.get_color()), float(a.get_linewidth()), str(a.get_linestyle()), str(a.get_marker())]
    elif isinstance(a, Collection):
        d += [tuple((n(p.vertices), None if p.codes is None else p.codes.tobytes()) for p in a.get_paths()), n(a.get_facecolor()), None if a.get_array() is None else n(a.get_array()),
              tuple(map(repr, a.get_clim())), a.get_cmap().name]
        if isinstance(a, ContourSet):
            d += [n(a.levels), float(a.zmin), float(a.zmax)]
        if hasattr(a, "_triangulation"):
            t = a._triangulation
            d += [n(t.x), n(t.y), n(t.get_masked_triangles())]
    elif isinstance(a, AxesImage):
        d += [n(a.get_array())]
    elif isinstance(a, Text):
        d += [a.get_text(), float(a.get_fontsize()), repr(a.get_color())]
    elif isinstance(a, Patch):
        d += [repr(a.get_facecolor())]
    return tuple(d)


def shows(fig):
    """Everything one window shows, as plain data."""
    out = []
    for ax in fig.axes:
        kids = [art(c) for c in ax.lines] + [art(c) for c in ax.collections] + [art(c) for c in ax.images] + [art(c) for c in ax.texts] + [len(ax.patches), len(ax.tables), len(ax.artists)]
        out.append((type(ax).__name__, tuple(kids), ax.get_title(), ax.get_xlabel(), ax.get_ylabel(), tuple(map(float, ax.get_xlim() + ax.get_ylim())), str(ax.get_aspect()), repr(ax.get_facecolor()), ax.get_xscale(), ax.get_yscale(), ax.axison,
                    tuple(art(t) for t in (ax.title, ax.xaxis.label, ax.yaxis.label))))
    return (tuple(out), tuple(art(t) for t in fig.texts), len(fig.lines), len(fig.images), len(fig.subfigs))


def fields(fig):
    """Plain description of the fields and lines in a window, for the check against the data."""
    from matplotlib.collections import Collection
    out = {"fields": [], "lines": [], "titles": []}
    for ax in fig.axes:
        if ax.get_label() == "<colorbar>":
            continue
        out["titles"].append(ax.get_title())
        for c in ax.collections:
            if isinstance(c, Collection) and hasattr(c, "zmin"):
                out["fields"].append(("contour", float(c.zmin), float(c.zmax), [float(x) for x in c.levels], [(np.array(p.vertices), None if p.codes is None else np.array(p.codes)) for p in c.get_paths()]))
            elif hasattr(c, "_triangulation"):
                t = c._triangulation
                out["fields"].append(("mesh", np.ma.filled(np.ma.asarray(c.get_array(), float), np.nan), np.array(t.x), np.array(t.y), np.array(t.get_masked_triangles())))
            elif getattr(c, "get_array", lambda: None)() is not None:
                out["fields"].append(("mesh", np.ma.filled(np.ma.asarray(c.get_array(), float), np.nan)))
        for l in ax.lines:
            out["lines"].append(np.array(l.get_xydata(), float))
    return out


def windows():
    import matplotlib.pyplot as plt
    from matplotlib._pylab_helpers import Gcf
    return {k: (m.canvas.figure.get_label(), id(m.canvas.figure), shows(m.canvas.figure)) for k, m in sorted(Gcf.figs.items())}


def prepare(scn, st, root, nums, live):
    """(module, function, args, kwargs, names) of a plotting step; names is None, or the windows it asks for."""
    r = ops.RNG(st["s"])
    mi = st["m"] if st["fn"] == "solids_auto" or "m" not in st else (1 if st["fn"] == "plot_truss" else 0)
    if mi == 0 and r.random() < 0.5:
        mi = len(scn["models"]) - 1 if len(scn["models"]) > 2 else 0
    if mi not in live:
        live[mi] = models.build(scn["models"][mi])
        live[mi]["nodes"][:, 1:3] *= scn["models"][mi].get("u", 1.0)
    m = dict(live[mi])                     # the user goes on with the same arrays
    if r.random() < 0.5 or st.get("fail") == "element":
        m = {k: v.copy() if isinstance(v, np.ndarray) else v for k, v in m.items()}
    nn = len(m["nodes"])
    fail = st.get("fail")
    names = None
    kw = {}
    if st["fn"] == "solids_auto":
        m["nodes"] = m["nodes"][:, :3].copy()
        m["nodes"][:, 1:3] /= scn["models"][mi].get("u", 1.0)     # the solver rejects elements with a tiny Jacobian
        data = {k: m[k] for k in ("nodes", "cons", "elements", "mats", "loads")}
        if m["kind"] in ("quad4", "tri3", "tri6"):
            kw["compute_strains"] = bool(st["strains"])
        names = WINDOWS_OF(st.get("strains") and m["kind"] in ("quad4", "tri3", "tri6")) if m["kind"] != "truss" else []
        return "solids_GUI", "solids_auto", (data,), kw, names
    if st["fn"] == "fields_plot":
        if fail == "element":
            m["elements"][:, 1] = 99
        disp = r.uniform(-1, 1, (nn, 2))
        if st["strains"]:
            kw = {"E_nodes": r.uniform(-1, 1, (nn, 3)), "S_nodes": r.uniform(-9, 9, (nn, 3))}
        if fail == "length":
            disp = disp[:-1]
        return "postprocesor", "fields_plot", (m["elements"], m["nodes"], disp), kw, WINDOWS_OF(st["strains"])
    if st["fn"] == "plot_truss":
        cnt = 1
        args = (m["nodes"], m["elements"], m["mats"])
        if st["stress"]:
            s = r.uniform(-3, 5, len(m["elements"]))
            kw["stresses"] = s[:-1] if fail == "length" else s
        for k in st["pos"]:
            kw[k] = {"max_val": 6.0, "min_val": 0.25}[k]
        if fail == "element":
            m["elements"][-1, -1] = nn + 3
    else:
        cnt = max(st["cols"], 1)
        shape = (nn,) if st["cols"] == 0 else (nn, st["cols"])
        f = r.uniform(-1, 1, shape)
        if st["data"] == "const":
            f[...] = 3.5
        elif st["data"] == "zero":
            f[...] = 0
        elif st["data"] == "ints":
            f = r.integers(-5, 6, shape)
        elif st["data"] == "tiny":
            f *= 1e-9
        if fail == "length":
            f = f[:-1]
        if fail == "element":
            m["elements"][:, 1] = 99
        args = (f, m["nodes"], m["elements"])
        if st["type"] != "contourf":
            kw["plt_type"] = st["type"]
        if fail == "type":
            kw["plt_type"] = "surface"
        if st["levels"] is not None:
            kw["levels"] = st["levels"]
        if fail == "levels":
            kw["levels"] = [3.0, 1.0, 2.0]
            kw.pop("plt_type", None)
    w = st["names"]
    if w != "none":
        if w == "new":
            names = ["fresh %d" % k for k in r.choice(1000, cnt, replace=False)]
        elif w == "win":
            names = [WINDOWS[k] for k in r.choice(len(WINDOWS), cnt, replace=False)]
        else:
            pool = sorted(set(nums) | {1, 2, 3, 4, 5, 17})
            names = [int(pool[k]) for k in r.choice(len(pool), cnt, replace=False)]
        kw["figtitle"] = names if st["fn"] == "plot_node_field" else names[0]
    if st["titles"]:
        t = ["title %d" % k for k in r.choice(1000, cnt, replace=False)]
        kw["title"] = t if st["fn"] == "plot_node_field" else t[0]
    if st["save"]:
        kw["savefigs"] = True
        fs = [os.path.join(root, "f%d.%s" % (k, st["ext"])) for k in range(cnt)]
        if fail == "file":
            fs[-1] = os.path.join(root, "nowhere", "f.png")
        kw["filename"] = fs if st["fn"] == "plot_node_field" else fs[0]
    return "postprocesor", st["fn"], args, kw, names


def WINDOWS_OF(strains):
    w = ["Horizontal displacement", "Vertical displacement"]
    return w + ["Strain epsilon-xx", "Strain epsilon-yy", "Strain gamma-xy", "Stress sigma-xx", "Stress sigma-yy", "Stress tau-xy"] if strains else w


def run_call(frozen):
    mod, fn, args, kw = pickle.loads(frozen)
    return getattr(env.mod(mod), fn)(*args, **kw)


def alone(frozen, root):
    """The same call in a fresh process: what each window shows."""
    values.ROOT[0] = root
    os.chdir(root)
    warnings.simplefilter("ignore")
    sys.stdout = io.StringIO()
    run_call(frozen)
    return [(lab, s) for k, (lab, _, s) in windows().items()]


def session(scn, root, stop=None):
    import matplotlib.pyplot as plt
    values.ROOT[0] = root
    os.chdir(root)
    warnings.simplefilter("ignore")
    sys.stdout = io.StringIO()
    recs, live = [], {}
    for si, st in enumerate(scn["steps"]):
        if st["do"] == "edit":             # the user moves the nodes of a model
            if st["m"] in live:
                r = ops.RNG(st["s"])
                live[st["m"]]["nodes"][:, 1 + r.integers(0, 2)] *= r.uniform(0.5, 2)
            continue
        if st["do"] != "plot":
            user(st)
            continue
        mod, fn, args, kw, names = prepare(scn, st, root, plt.get_fignums(), live)
        frozen = pickle.dumps((mod, fn, args, kw), protocol=5)
        before = windows()
        a0 = values.snap((args, kw))
        err = None
        p = None
        fail = st.get("fail")
        f = getattr(env.mod(mod), fn)
        try:
            if fail == "point":
                exc = KeyboardInterrupt("injected")

                def act():
                    raise exc
                with points.Points(None if stop == si else st["k"], act) as p:
                    f(*args, **kw)
            elif fail == "openw":
                with seams.Files(root, [{"on": "openw", "n": 1, "act": "err", "errno": "EACCES", "persist": 1}]):
                    f(*args, **kw)
            else:
                f(*args, **kw)
        except BaseException as e:
            err = type(e).__name__ + ": " + values.text(e)
        if stop == si:
            return p.measured()
        after = windows()
        # which windows was the call entitled to?
        new = [k for k in after if k not in before]
        mine, lost = [], []
        if names is None:
            mine = new
        else:
            for w in names:
                if isinstance(w, str):
                    k0 = [k for k in before if before[k][0] == w]
                    k1 = [k for k in after if after[k][0] == w]
                    mine += k0[:1] or k1[:1]
                    if not k0 and len(k1) == 0:
                        lost.append(w)
                else:
                    mine.append(w)
                    if w not in after:
                        lost.append(w)
        from matplotlib._pylab_helpers import Gcf
        recs.append({"step": si, "fn": fn, "kw": {k: v for k, v in kw.items() if k in ("figtitle", "plt_type", "levels", "savefigs")}, "frozen": frozen, "err": err, "names": names,
                     "mine": mine, "lost": lost, "extra": [k for k in new if k not in mine], "args": a0 == values.snap((args, kw)),
                     "touched": [k for k in before if k not in mine and (k not in after or after[k][0] != before[k][0] or after[k][2] != before[k][2])],
                     "moved": [k for k in before if k not in mine and k in after and after[k][1] != before[k][1]],
                     "shown": [(after[k][0], after[k][2]) for k in mine if k in after], "open": len(before), "labels": {k: v[0] for k, v in before.items()},
                     "plain": [fields(Gcf.figs[k].canvas.figure) for k in mine if k in after], "injected": bool(p and p.fired), "where": p and p.where})
    return recs


def want(scn, frozen):
    """What the call was given, component by component."""
    mod, fn, args, kw = pickle.loads(frozen)
    if fn == "plot_node_field":
        f = args[0]
        return [("field", np.asarray(c, float), kw.get("plt_type", "contourf"), args[1], args[2], kw["title"][k] if "title" in kw else "") for k, c in enumerate([f] if f.ndim == 1 else list(f.T))]
    if fn == "fields_plot":
        fs = [args[2]] + [kw[k] for k in ("E_nodes", "S_nodes") if k in kw]
        return [("field", np.asarray(c, float), "contourf", args[1], args[0], None) for g in fs for c in g.T]
    if fn == "plot_truss":
        n, e = args[0], args[1]
        return [("truss", n[np.minimum(e[:, 3:5], len(n) - 1), 1:3], kw.get("title", ""))]
    return None


def corners(e):
    """The boundary of an element, node by node."""
    q = [int(v) for v in e[3:]]
    return {1: q[:4], 3: q[:3], 2: [q[k] for k in (0, 3, 1, 4, 2, 5)] if len(q) > 5 else q, 4: [q[k] for k in (0, 4, 1, 5, 2, 6, 3, 7)] if len(q) > 7 else q}[int(e[1])]


def area(x, y):
    x, y = np.asarray(x) - np.mean(x), np.asarray(y) - np.mean(y)
    return 0.5 * float(np.dot(x, np.roll(y, -1)) - np.dot(y, np.roll(x, -1)))


def filled(vertices, codes):
    """Area of the polygons of a filled path; holes run the other way."""
    starts = [0] if codes is None else [k for k, c in enumerate(codes) if c == 1]
    ends = starts[1:] + [len(vertices)]
    return abs(sum(area(vertices[a:b, 0], vertices[a:b, 1]) for a, b in zip(starts, ends) if b - a > 2))


def covers(w, f):
    """None when the plotted field f covers the mesh and has the values of the nodes at the nodes; otherwise what is wrong."""
    from matplotlib.path import Path
    nodes, elements, v = w[3], w[4], w[1]
    whole = sum(abs(area(nodes[c, 1], nodes[c, 2])) for c in map(corners, elements))
    used = np.unique([k for e in elements for k in e[3:]])
    if f[0] == "mesh":
        _, a, x, y, t = f
        part = sum(abs(area(x[k], y[k])) for k in t)
        if len(x) != len(nodes) or not (np.array_equal(x, nodes[:, 1]) and np.array_equal(y, nodes[:, 2])):
            return "it is not at the nodes of the mesh"
        if not np.isin(used, t).all():
            return "it leaves out nodes %s" % [int(k) for k in used if k not in t][:5]
    else:
        levels, paths = f[3], f[4]
        part = sum(filled(*p) for p in paths)
        if np.abs(np.subtract.outer(levels, v[used])).min() < 1e-6 * max(np.ptp(v), 1e-300):
            part = max(part, whole)              # values on a level: triangles that are flat there may have no band
    if abs(part - whole) > 1e-6 * whole:
        return "it covers an area of %g of the mesh's %g" % (part, whole)
    if f[0] == "contour" and len(paths) == len(levels) - 1:
        span = np.ptp(v)
        box = max(np.ptp(nodes[used, 1]), np.ptp(nodes[used, 2]))
        if span < 1e-12 * max(abs(v).max(), 1e-300):
            return None
        for k in used:
            near = np.abs(np.asarray(levels) - v[k]).min()
            if near < 1e-6 * span:
                continue
            j = int(np.searchsorted(levels, v[k])) - 1
            if not 0 <= j < len(paths):
                return "the value of node %d is outside its levels" % k
            at, (vs, cs) = nodes[k, 1:3], paths[j]
            if not len(vs):
                return "nothing shows the value of node %d" % k
            vs = (vs - at) / box                # about the node, in units of the mesh
            if np.abs(vs).max(axis=1).min() < 1e-6:
                continue
            if not Path(vs, cs).contains_point((0.0, 0.0)) and not edge_near(vs, cs):
                return "the value of node %d is not shown at its place" % k
    return None


def edge_near(vs, cs):
    """Does an edge of the path run through the origin?"""
    for k in range(len(vs) - 1):
        if cs is not None and cs[k + 1] == 1:
            continue
        a, b = vs[k], vs[k + 1]
        d = b - a
        t = np.clip(-np.dot(a, d) / max(np.dot(d, d), 1e-300), 0, 1)
        if np.hypot(*(a + t * d)) < 1e-6:
            return True
    return False


def same_field(w, p):
    if w[0] == "truss":
        got = sorted(tuple(map(tuple, np.sort(l, axis=0).tolist())) for l in p["lines"])
        return got == sorted(tuple(map(tuple, np.sort(l, axis=0).tolist())) for l in w[1]) and not p["fields"]
    if len(p["fields"]) != 1 or p["lines"]:
        return False
    f = p["fields"][0]
    if f[0] == "contour":
        inside = w[1][np.unique([k for e in w[4] for k in e[3:]])]         # with or without nodes outside the mesh
        return w[2] == "contourf" and any(f[1] == x.min() and f[2] == x.max() for x in (w[1], inside))
    return w[2] == "pcolor" and f[1].shape == w[1].shape and np.array_equal(f[1], w[1])


def run(scn):
    bad, st, cover = [], {}, []

    def count(k):
        st[k] = st.get(k, 0) + 1
    with env.Scratch() as root:
        scn = dict(scn, steps=[dict(s) for s in scn["steps"]])
        for si, s in enumerate(scn["steps"]):
            if s.get("fail") == "point" and "k" not in s:
                k = env.fork(session, scn, root, si)
                s["k"] = points.pick(k, s["frac"], s.get("pick", "any"))
        recs = env.fork(session, scn, root)
        for r in recs:
            step = scn["steps"][r["step"]]
            name = "step %d: %s(%s)%s, %d windows open" % (r["step"], r["fn"], ", ".join("%s=%r" % x for x in sorted(r["kw"].items())), " (failed: %s)" % r["err"] if r["err"] else "", r["open"])
            count("plots")
            count("plots that failed" if r["err"] else "plots that succeeded")
            if step.get("fail"):
                count("fault " + step["fail"])

            def v(kind, msg):
                bad.append({"kind": kind, "step": r["step"], "msg": name + ": " + msg})
            cover.append(values.digest((r["fn"], r["kw"].get("plt_type"), step.get("names"), step.get("cols"), min(r["open"], 6), step.get("fail"), (r["err"] or "").split(":")[0],
                                        str(r["where"]), len(r["mine"]), tuple(sorted(set(r["labels"].values()) & set(WINDOWS))))))
            if r["touched"]:
                v("other window drawn in", "windows %s, which it had no business with, changed (its own: %s)" % (r["touched"], r["names"] if r["names"] is not None else "new ones"))
            if not r["args"]:
                v("argument changed", "its arguments changed")
            count_expected = len(r["names"]) if r["names"] is not None else len(want(scn, r["frozen"]) or [])
            if r["names"] is None and len(r["mine"]) > count_expected or r["extra"]:
                v("stray window", "opened windows %s nobody asked for" % (r["extra"] or r["mine"]))
            if r["err"]:
                if not step.get("fail"):
                    v("plot failed", "a proper plot failed")
                elif r["injected"] and not r["err"].startswith("KeyboardInterrupt"):
                    v("error lost", "it was interrupted but raised %s" % r["err"])
                continue
            if step.get("fail") == "point" and r["injected"]:
                v("error lost", "it was interrupted but returned")
                continue
            if r["lost"]:
                v("window missing", "no window %s" % r["lost"])
                continue
            if r["names"] is None and len(r["mine"]) != count_expected:
                v("window missing", "%d new windows for %d components" % (len(r["mine"]), count_expected))
                continue
            w = want(scn, r["frozen"])
            if w is not None:
                left = list(r["plain"])
                for c, x in enumerate(w):
                    ok = next((p for p in (left if r["names"] is None else [r["plain"][c]]) if same_field(x, p)), None)
                    if ok is None:
                        v("wrong field", "no window shows exactly component %d (%s); the windows show %s" % (
                            c, "range %g..%g" % (x[1].min(), x[1].max()), [[f[:3] if f[0] == "contour" else "mesh of %d" % len(f[1]) for f in p["fields"]] + ["%d lines" % len(p["lines"])] for p in r["plain"]]))
                        break
                    if x[0] == "field":
                        how = covers(x, ok["fields"][0])
                        if how:
                            v("wrong field", "component %d: %s" % (c, how))
                            break
                        if x[5] is not None and ok["titles"] != [x[5]]:
                            v("wrong title", "component %d has the title %r, not %r" % (c, ok["titles"], x[5]))
                            break
                    elif x[2] is not None and ok["titles"] != [x[2]]:
                        v("wrong title", "the truss has the title %r, not %r" % (ok["titles"], x[2]))
                    if r["names"] is None:
                        left = [p for p in left if p is not ok]
            if step.get("fail") in (None, "point"):
                ref = env.fork(alone, r["frozen"], root)
                a = [s for _, s in r["shown"]]
                b = [s for _, s in ref]
                if r["names"] is not None:
                    bl = dict(ref) if all(isinstance(x, str) for x in r["names"]) else None
                    if bl is not None:
                        b = [bl.get(x) for x in r["names"]]
                    else:
                        order = sorted(r["names"])
                        b = [b[order.index(x)] for x in r["names"]] if len(b) == len(order) else b
                if sorted(map(repr, a)) != sorted(map(repr, b)) if r["names"] is None else a != b:
                    k = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), "?")
                    v("differs from a fresh process", "window %s shows %s; in a fresh process %s" % (k, first_diff(a, b)[0], first_diff(a, b)[1]))
    return {"violations": bad, "stats": st, "cover": cover, "trace": values.digest([(r["fn"], r["err"], r["shown"], r["touched"]) for r in recs]), "scn": scn}


def first_diff(a, b):
    if type(a) is type(b) and isinstance(a, (tuple, list)) and len(a) == len(b):
        for x, y in zip(a, b):
            if x != y:
                return first_diff(x, y)
    return repr(a)[:200], repr(b)[:200]


def concrete(scn, result):
    return result["scn"]


def shrink(scn):
    s = scn["steps"]
    size = max(len(s) // 2, 1)
    while size >= 1:
        for a in range(0, len(s), size):
            if len(s) > size:
                yield dict(scn, steps=s[:a] + s[a + size:])
        size //= 2
    for j, x in enumerate(s):
        if x["do"] == "plot":
            for key, v in (("cols", 1), ("titles", False), ("save", False), ("strains", False), ("data", "plain"), ("levels", None)):
                if x.get(key, v) != v and not (key == "save" and x.get("fail") in ("file", "openw")):
                    yield dict(scn, steps=s[:j] + [dict(x, **{key: v})] + s[j + 1:])
    for i, m in enumerate(scn["models"]):
        for key, v in (("nx", 1), ("ny", 1), ("jig", 0), ("perm", 0), ("nm", 1)):
            if m.get(key, v) != v:
                yield dict(scn, models=scn["models"][:i] + [dict(m, **{key: v})] + scn["models"][i + 1:])
