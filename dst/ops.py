"""The workload: every public non-plotting operation of the package, with arguments drawn from a seed."""
import contextlib
import io
import os
import pickle
import numpy as np
import scipy.sparse as sp

from . import env, models, values

RNG = lambda s: np.random.Generator(np.random.PCG64(s))


class Uel:
    """A pure user element: answers are a fixed function of coordinates and material row."""

    def __init__(self, nd, seed):
        r = RNG(seed)
        self.a = r.uniform(-1, 1, (nd, nd))
        self.a = self.a + self.a.T
        self.b = r.uniform(0, 1, (nd, nd))

    def __call__(self, coord, params):
        c = float(np.sum(coord * np.arange(1, coord.size + 1).reshape(coord.shape)))
        p = float(np.sum(params))
        return self.a * (1 + c) + p * self.b, self.b * p + self.a * c


class NdofEl:
    """Degrees of freedom of user elements."""

    def __init__(self, table):
        self.t = table

    def __call__(self, iet):
        return self.t[int(iet)]


class World:
    """The user's objects in one simulated process: models, folders and the results got so far."""

    def __init__(self, specs, root):
        self.m = [models.build(s) for s in specs]
        self.specs = specs
        self.root = root
        self.live = {}

    def folder(self, i):
        return os.path.join(self.root, "job%d" % i)

    def write_folder(self, i, style=0):
        os.makedirs(self.folder(i), exist_ok=True)
        models.write(self.folder(i), models.render(self.m[i], style))

    def files(self, i):
        out = {}
        f = self.folder(i)
        for n in sorted(os.listdir(f)):
            with open(os.path.join(f, n), "rb") as h:
                out[os.path.join(f, n)] = h.read()
        return out


# --------------------------------------------------------------- own numbering (no code under test)
def numbering(m):
    cons = m["cons"]
    bc = cons.astype(int).copy()
    free = bc == 0
    bc[free] = np.arange(free.sum())
    els = m["elements"]
    op = np.zeros((len(els), 18), dtype=int)
    for e in range(len(els)):
        d = bc[els[e, 3:]].ravel()
        op[e, :len(d)] = d
    return op, bc, int(free.sum())


def number(w, i):
    """The numbering a script would have at hand: the latest result of DME, or the right one for the model as drawn."""
    got = w.live.get(("num", i))
    if got is not None and got[0].shape[0] == len(w.m[i]["elements"]) and got[1].shape[0] == len(w.m[i]["nodes"]):
        return got
    try:
        return numbering(w.m[i])
    except IndexError:
        return numbering(models.build(w.specs[i]))


def spd(n, r, k=1.0):
    a = np.diag(np.full(n, 3.0)) + np.diag(np.full(n - 1, -1.0), 1) + np.diag(np.full(n - 1, -1.0), -1) if n > 1 else np.array([[3.0]])
    d = r.uniform(0.5, 2, n)
    return k * a * np.sqrt(np.outer(d, d))


def _elem(r, kind):
    """Coordinates of a well shaped element."""
    base = {"tri3": [[0, 0], [1, 0], [0, 1]], "quad4": [[-1, -1], [1, -1], [1, 1], [-1, 1]],
            "tet4": [[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]], "bar": [[0, 0], [1, 0]]}
    if kind in base:
        b = np.array(base[kind], float)
    elif kind == "tri6":
        b = np.array([[0, 0], [1, 0], [0, 1], [.5, 0], [.5, .5], [0, .5]])
    elif kind in ("quad8", "quad9"):
        b = np.array([[-1, -1], [1, -1], [1, 1], [-1, 1], [0, -1], [1, 0], [0, 1], [-1, 0], [0, 0]])[:8 if kind == "quad8" else 9].astype(float)
    elif kind == "hex8":
        b = np.array([[-1, -1, -1], [1, -1, -1], [1, 1, -1], [-1, 1, -1], [-1, -1, 1], [1, -1, 1], [1, 1, 1], [-1, 1, 1]], float)
    d = b.shape[1]
    c = b * r.uniform(0.5, 3) + r.uniform(-0.08, 0.08, b.shape) + r.uniform(3, 5, d)
    return c


def _params(r, n):
    return np.concatenate([[r.uniform(0.5, 50), r.uniform(0.05, 0.4)], r.uniform(0.5, 2, n)])[:2 + n]


SHAPES2 = {"tri3": "shape_tri3", "tri6": "shape_tri6", "quad4": "shape_quad4", "quad9": "shape_quad9", "quad8": "shape_quad8"}
UELS = {"elast_tri3": ("tri3", 2), "elast_tri6": ("tri6", 2), "elast_quad4": ("quad4", 2), "elast_quad9": ("quad9", 2), "elast_quad8": ("quad8", 2),
        "elast_axi_quad9": ("quad9", 2), "elast_tet4": ("tet4", 2), "elast_hex8": ("hex8", 2), "truss2D": ("bar", 2), "beam2DU": ("bar", 2), "beam2D": ("bar", 3)}


def _mesh(w, i, r):
    return w.m[i]


OPS = {}


def op(f):
    OPS[f.__name__] = f
    return f


@op
def eqcounter(w, i, r):
    m = w.m[i]
    return "assemutil.eqcounter", (m["cons"],), {}


@op
def DME(w, i, r):
    m = w.m[i]
    if r.random() < 0.2:
        return "assemutil.DME", (m["cons"], m["elements"]), {"ndof_el": NdofEl({k: 2 * (m["elements"].shape[1] - 3) for k in range(20)}),
                                                            "ndof_el_max": int(2 * (m["elements"].shape[1] - 3) + r.integers(0, 5))}
    if r.random() < 0.1:
        e = m["elements"].copy()
        e[-1, 1] = 77
        return "assemutil.DME", (m["cons"], e), {}
    return "assemutil.DME", (m["cons"], m["elements"]), {}


@op
def ele_fun(w, i, r):
    return "assemutil.ele_fun", (int(r.integers(0, 10)),), {}


@op
def retriever(w, i, r):
    m = w.m[i]
    kw = {"uel": Uel(2 * (m["elements"].shape[1] - 3), int(r.integers(100)))} if r.random() < 0.3 else {}
    return "assemutil.retriever", (m["elements"], m["mats"], m["nodes"][:, :3], int(r.integers(0, len(m["elements"])))), kw


@op
def assembler(w, i, r):
    m = w.m[i]
    o, bc, neq = number(w, i)
    kw = {}
    if r.random() < 0.35:
        kw["sparse"] = False
    if r.random() < 0.2:
        kw["uel"] = Uel(2 * (m["elements"].shape[1] - 3), int(r.integers(100)))
    els = m["elements"]
    if r.random() < 0.08:
        els = els.copy()
        els[len(els) // 2, r.integers(1, 3)] = 55
    name = "assembler" if "sparse" in kw or r.random() < 0.6 else ("sparse_assem" if r.random() < 0.5 else "dense_assem")
    if name != "assembler":
        kw.pop("sparse", None)
    return "assemutil." + name, (els, m["mats"], m["nodes"][:, :3], neq, o), kw


@op
def loadasem(w, i, r):
    m = w.m[i]
    o, bc, neq = number(w, i)
    return "assemutil.loadasem", (m["loads"], bc, neq), {}


@op
def static_sol(w, i, r):
    k = w.live.get(("K", i))
    if k is not None and r.random() < 0.6:
        return "solutil.static_sol", (k, r.uniform(-1, 1, k.shape[0])), {}
    n = int(r.integers(2, 25))
    a = spd(n, r, 10.0 ** r.integers(-3, 6))
    if r.random() < 0.1:
        a[-1] = 0
        a[:, -1] = 0
    b = r.uniform(-1, 1, n)
    x = r.random()
    if x < 0.45:
        return "solutil.static_sol", (sp.csr_matrix(a), b), {}
    if x < 0.9:
        return "solutil.static_sol", (a, b), {}
    return "solutil.static_sol", (sp.coo_matrix(a), b), {}


@op
def complete_disp(w, i, r):
    m = w.m[i]
    o, bc, neq = number(w, i)
    s = w.live.get(("u", i))
    if s is None or len(s) != neq:
        s = r.uniform(-1, 1, neq)
    return "postprocesor.complete_disp", (bc, m["nodes"], s), {}


@op
def strain_nodes(w, i, r):
    m = w.m[i]
    u = w.live.get(("U", i))
    if u is None:
        u = r.uniform(-1, 1, (len(m["nodes"]), 2))
    return "postprocesor.strain_nodes", (m["nodes"], m["elements"], m["mats"], u), {}


@op
def stress_truss(w, i, r):
    m = w.m[i]
    if m["kind"] != "truss":
        return eqcounter(w, i, r)
    return "postprocesor.stress_truss", (m["nodes"], m["elements"], m["mats"], r.uniform(-1, 1, (len(m["nodes"]), 2))), {}


@op
def eigvals(w, i, r):
    a = r.uniform(-5, 5, (2, 2))
    a = a + a.T
    if r.random() < 0.2:
        a[0, 1] = a[1, 0] = 0
    return "postprocesor.eigvals", (a,), {"tol": 1e-4} if r.random() < 0.2 else {}


@op
def principal_dirs(w, i, r):
    f = r.uniform(-5, 5, (int(r.integers(1, 12)), 3))
    if r.random() < 0.3:
        f[r.integers(0, len(f))] = 0
    return "postprocesor.principal_dirs", (f,), {}


@op
def energy(w, i, r):
    k = w.live.get(("K", i))
    if k is None or r.random() < 0.4:
        k = spd(int(r.integers(1, 12)), r)
    return "postprocesor.energy", (r.uniform(-1, 1, k.shape[0]), k), {}


@op
def mesh2tri(w, i, r):
    m = w.m[i]
    if m["kind"] in models.STRUCT:
        return eqcounter(w, i, r)
    return "postprocesor.mesh2tri", (m["nodes"], m["elements"]), {}


@op
def eletype(w, i, r):
    return "femutil.eletype", (int(r.integers(0, 10)),), {}


@op
def shape(w, i, r):
    k = str(r.choice(list(SHAPES2) + ["tet4", "hex8"]))
    p = r.uniform(0.05, 0.4, 3)
    if k in SHAPES2:
        return "femutil." + SHAPES2[k], (float(p[0]), float(p[1])), {}
    return "femutil.shape_" + k, tuple(map(float, p)), {}


class Shape:
    """Stands for a shape function of the code under test in pickled arguments."""

    def __init__(self, name):
        self.name = name

    def __call__(self, *a):
        return getattr(env.mod("femutil"), self.name)(*a)


@op
def elast_diff(w, i, r):
    x = r.random()
    p = tuple(map(float, r.uniform(0.05, 0.4, 3)))
    if x < 0.5:
        k = str(r.choice(list(SHAPES2)))
        return "femutil.elast_diff_2d", (p[0], p[1], _elem(r, k), Shape(SHAPES2[k])), {}
    if x < 0.75:
        k = str(r.choice(["quad4", "quad9", "tri3"]))
        c = _elem(r, k)
        if r.random() < 0.15:
            c[:, 0] -= 20
        return "femutil.elast_diff_axi", (p[0], p[1], c, Shape(SHAPES2[k])), {}
    k = str(r.choice(["tet4", "hex8"]))
    return "femutil.elast_diff_3d", p + (_elem(r, k),), {"interp": Shape("shape_" + k)} if k == "tet4" or r.random() < .5 else {}


@op
def jacoper(w, i, r):
    k = str(r.choice(list(SHAPES2)))
    c = _elem(r, k)
    d = r.uniform(-1, 1, (2, len(c)))
    if r.random() < 0.15:
        d[1] = d[0]
    return "femutil.jacoper", (d, c), {}


@op
def material(w, i, r):
    n = str(r.choice(["umat", "elast_mat_2d", "elast_mat_axi", "elast_mat"]))
    p = _params(r, 0)
    return "femutil." + n, (tuple(map(float, p)) if r.random() < 0.5 else p,), {}


@op
def str_el(w, i, r):
    k = str(r.choice(["tri3", "tri6", "quad4"]))
    c = _elem(r, k)
    return "femutil.str_el%d" % len(c), (c, r.uniform(-1, 1, 2 * len(c))), {}


@op
def gauss(w, i, r):
    x = r.random()
    if x < 0.3:
        return "gaussutil.gauss_1d", (int(r.integers(0, 12)),), {}
    if x < 0.6:
        a = (int(r.integers(1, 7)),)
        return "gaussutil.gauss_nd", a, {} if r.random() < 0.5 else {"ndim": int(r.integers(1, 4))}
    if x < 0.8:
        return "gaussutil.gauss_tri", (), {"order": int(r.integers(0, 9))} if r.random() < 0.8 else {}
    return "gaussutil.gauss_tet", (), {"order": int(r.integers(0, 12))} if r.random() < 0.8 else {}


@op
def uel(w, i, r):
    n = str(r.choice(list(UELS) + ["spring"]))
    if n == "spring":
        return "uelutil.spring", (_elem(r, "bar"), float(r.uniform(0.5, 9))), {}
    k, base = UELS[n]
    c = _elem(r, k)
    extra = 1 if k != "bar" and r.random() < 0.4 else 0
    if n == "truss2D" and r.random() < 0.4:
        extra = 1
    p = _params(r, base - 2 + extra)
    if k != "bar" and r.random() < 0.1:
        c[-1] = c[0]
        if k in ("quad4", "quad9", "quad8"):
            c[:] = c[0]
    return "uelutil." + n, (c, p), {}


FAMILIES = [[("uel", "elast_tri3"), ("uel", "elast_tri6"), ("str_el", "tri3"), ("str_el", "tri6"), ("gauss_tri", None)],
            [("uel", "elast_quad4"), ("uel", "elast_quad9"), ("uel", "elast_hex8"), ("uel", "elast_axi_quad9"), ("str_el", "quad4"), ("gauss_nd", None), ("gauss_1d", None)],
            [("uel", "truss2D"), ("uel", "beam2D"), ("uel", "beam2DU")],
            [("mat", "umat"), ("mat", "elast_mat_2d"), ("mat", "elast_mat_axi"), ("mat", "elast_mat")],
            [("shape", k) for k in ("tri3", "tri6", "quad4", "quad9", "quad8")], [("shape", k) for k in ("tet4", "hex8")],
            [("diff", k) for k in SHAPES2], [("diff", k) for k in SHAPES2] + [("uel", "elast_tri3"), ("uel", "elast_quad4"), ("uel", "elast_quad8")]]


@op
def family(w, i, r):
    """Relatives: calls that go through the same inner functions with other arguments (i picks the family)."""
    f = FAMILIES[i % len(FAMILIES)]
    what, k = f[int(r.integers(len(f)))]
    if what == "uel":
        shape_, base = UELS[k]
        return "uelutil." + k, (_elem(r, shape_), _params(r, base - 2)), {}
    if what == "str_el":
        c = _elem(r, k)
        return "femutil.str_el%d" % len(c), (c, r.uniform(-1, 1, 2 * len(c))), {}
    if what == "mat":
        return "femutil." + k, (tuple(map(float, _params(r, 0))),), {}
    if what == "shape":
        return "femutil.shape_" + k, tuple(map(float, r.uniform(0.05, 0.4, 2 if k in SHAPES2 else 3))), {}
    if what == "diff":
        p = r.uniform(0.05, 0.4, 2)
        return "femutil.elast_diff_2d", (float(p[0]), float(p[1]), _elem(r, k), Shape(SHAPES2[k])), {}
    if what == "gauss_tri":
        return "gaussutil.gauss_tri", (), {"order": int(r.integers(1, 8))}
    if what == "gauss_nd":
        return "gaussutil.gauss_nd", (int(r.integers(1, 7)),), {"ndim": int(r.integers(1, 4))}
    return "gaussutil.gauss_1d", (int(r.integers(1, 11)),), {}


@op
def rect_grid(w, i, r):
    return "preprocesor.rect_grid", (float(r.uniform(0.5, 9)), float(r.uniform(0.5, 9)), int(r.integers(1, 7)), int(r.integers(1, 7))), {}


def _gmsh(w, i, r):
    """cells, cell_data and points as meshio gives them."""
    nx, ny = int(r.integers(1, 4)), int(r.integers(1, 4))
    X, Y = np.meshgrid(np.linspace(0, 1, nx + 1), np.linspace(0, 1, ny + 1))
    pts = np.column_stack([X.ravel(), Y.ravel(), np.zeros(X.size)])
    ids = np.arange(X.size).reshape(ny + 1, nx + 1)
    quads = np.array([[ids[j, a], ids[j, a + 1], ids[j + 1, a + 1], ids[j + 1, a]] for j in range(ny) for a in range(nx)])
    tris = np.concatenate([quads[:, [0, 1, 2]], quads[:, [0, 2, 3]]])
    lines = np.array([[ids[0, a], ids[0, a + 1]] for a in range(nx)] + [[ids[-1, a], ids[-1, a + 1]] for a in range(nx)]
                     + [[ids[a, 0], ids[a + 1, 0]] for a in range(ny)])
    tag = np.array([300] * nx + [400] * nx + [500] * ny)
    cells = {"quad": quads, "triangle": tris, "line": lines}
    data = {"quad": {"gmsh:physical": r.integers(100, 102, len(quads))}, "triangle": {"gmsh:physical": r.integers(100, 102, len(tris))},
            "line": {"gmsh:physical": tag}}
    return pts, cells, data


@op
def ele_writer(w, i, r):
    pts, cells, data = _gmsh(w, i, r)
    k = str(r.choice(["quad", "triangle", "line"]))
    return "preprocesor.ele_writer", (cells, data, k, int(r.integers(100, 103)), 1 if k == "quad" else 3, int(r.integers(0, 3)), int(r.integers(0, 5))), {}


@op
def node_writer(w, i, r):
    pts, cells, data = _gmsh(w, i, r)
    return "preprocesor.node_writer", (pts, {}), {}


@op
def boundary_conditions(w, i, r):
    pts, cells, data = _gmsh(w, i, r)
    n = np.zeros((len(pts), 5))
    n[:, 0] = np.arange(len(pts))
    n[:, 1:3] = pts[:, :2]
    return "preprocesor.boundary_conditions", (cells, data, int(r.choice([300, 400, 500])), n, int(r.integers(-1, 1)), -1), {}


@op
def loading(w, i, r):
    pts, cells, data = _gmsh(w, i, r)
    return "preprocesor.loading", (cells, data, int(r.choice([300, 400, 500])), float(r.uniform(-2, 2)), float(r.uniform(-2, 2))), {}


@op
def reassign(w, i, r):
    n = int(r.integers(4, 12))
    perm = r.permutation(n)
    k = int(r.integers(1, n // 2 + 1))
    ima = sorted(map(int, perm[:k]))
    rest = sorted(map(int, perm[k:]))
    ref = [int(r.choice([q for q in rest if q < x] or rest)) for x in ima]
    return "blochutil.reassign_dof_bloch", (n, ima, ref), {}


@op
def bloch(w, i, r):
    coords = np.array([[0, 0], [1, 0], [0, 1], [1, 1]]) * float(r.uniform(0.5, 2))
    return "blochutil.bloch_transform_mat", (r.uniform(-3, 3, 2), coords, 8, [0, 0, 0], [1, 2, 3], [0, 1] * 3, [2, 3, 4, 5, 6, 7], {0: [0, 1]},
                                             {1: [2, 3], 2: [4, 5], 3: [6, 7]}, [0, 1] * 4), {}


@op
def solids_auto(w, i, r):
    m = w.m[i]
    data = {"nodes": m["nodes"][:, :3], "cons": m["cons"], "elements": m["elements"], "mats": m["mats"], "loads": m["loads"]}
    return "solids_GUI.solids_auto", (data,), {"plot_contours": False, "compute_strains": bool(r.random() < 0.5 and m["kind"] in ("quad4", "tri3", "tri6"))}


@op
def solids_GUI(w, i, r):
    w.write_folder(i, int(r.integers(0, 30)))
    m = w.m[i]
    return "solids_GUI.solids_GUI", (), {"plot_contours": False, "folder": w.folder(i) + ("/" if r.random() < .5 else ""),
                                         "compute_strains": bool(r.random() < 0.5 and m["kind"] in ("quad4", "tri3", "tri6"))}


@op
def readin(w, i, r):
    w.write_folder(i, int(r.integers(0, 30)))
    return "preprocesor.readin", (), {"folder": w.folder(i) + "/"}


@op
def echomod(w, i, r):
    m = w.m[i]
    os.makedirs(w.folder(i), exist_ok=True)
    return "preprocesor.echomod", (m["nodes"], m["mats"], m["elements"], m["loads"]), {"folder": w.folder(i) + "/"}


@op
def plot(w, i, r):
    """Anything that draws (its windows are looked at and closed by the caller)."""
    m = w.m[i]
    x = r.random()
    strains = bool(r.random() < 0.4 and m["kind"] in ("quad4", "tri3", "tri6"))
    nn = len(m["nodes"])
    if x < 0.2:
        w.write_folder(i, int(r.integers(0, 30)))
        return "solids_GUI.solids_GUI", (), {"folder": w.folder(i), "compute_strains": strains}
    if x < 0.45:
        data = {"nodes": m["nodes"][:, :3], "cons": m["cons"], "elements": m["elements"], "mats": m["mats"], "loads": m["loads"]}
        return "solids_GUI.solids_auto", (data,), {"compute_strains": strains}
    if x < 0.65:
        kw = {"E_nodes": r.uniform(-1, 1, (nn, 3)), "S_nodes": r.uniform(-1, 1, (nn, 3))} if strains else {}
        return "postprocesor.fields_plot", (m["elements"], m["nodes"], r.uniform(-1, 1, (nn, 2))), kw
    if m["kind"] in models.STRUCT:
        mats = m["mats"] if m["mats"].shape[1] > 1 else np.column_stack([m["mats"], np.ones(len(m["mats"]))])
        kw = {"stresses": r.uniform(-1, 2, len(m["elements"]))} if r.random() < 0.7 else {}
        return "postprocesor.plot_truss", (m["nodes"], m["elements"], mats), kw
    kw = {"plt_type": "pcolor"} if r.random() < 0.4 else {"levels": int(r.integers(2, 30))} if r.random() < 0.4 else {}
    return "postprocesor.plot_node_field", (r.uniform(-1, 1, (nn, int(r.integers(1, 3)))), m["nodes"], m["elements"]), kw


def relative(kwargs, root, how):
    """The folder of a call named from another working directory: (directory to be in, arguments)."""
    f = kwargs.get("folder")
    if not f or not os.path.isabs(f):
        return None, kwargs
    tail = "/" if f.endswith("/") else ""
    f = f.rstrip("/")
    cwd = os.path.dirname(f) if how == "above" else f if how == "inside" else os.path.join(root, "elsewhere")
    os.makedirs(cwd, exist_ok=True)
    return cwd, dict(kwargs, folder=os.path.relpath(f, cwd) + tail)


MESH = ["eqcounter", "DME", "retriever", "assembler", "loadasem", "static_sol", "complete_disp", "strain_nodes", "stress_truss", "energy", "mesh2tri", "solids_auto"]
SMALL = ["ele_fun", "eigvals", "principal_dirs", "eletype", "shape", "elast_diff", "jacoper", "material", "str_el", "gauss", "uel", "rect_grid",
         "ele_writer", "node_writer", "boundary_conditions", "loading", "reassign", "bloch"]
FILE = ["solids_GUI", "readin", "echomod"]
INPLACE = {"preprocesor.boundary_conditions": 3}     # documented in-place argument


def prepare(w, o):
    """(dotted name, args, kwargs) of one op of a scenario."""
    dotted, args, kwargs = OPS[o["op"]](w, o.get("m", 0), RNG(o["s"]))
    if o.get("twin"):
        args = tuple(twin(a, o["twin"]) for a in args)
        if o["twin"] == "cast":
            kwargs = {k: twin(v, "cast") if k in ("order", "ndim") else v for k, v in kwargs.items()}
    return dotted, args, kwargs


def twin(a, how):
    """Almost the same argument: other numbers far below print precision, or the same value as another type."""
    if how == "cast":
        if type(a) is int:
            return float(a)
        if isinstance(a, np.ndarray) and a.dtype.kind == "f" and (a == np.round(a)).all():
            return a.astype(int)
        return np.array(a) if type(a) is tuple and a and all(type(x) is float for x in a) else a
    if how == "order":
        return np.asfortranarray(a) if isinstance(a, np.ndarray) and a.ndim == 2 else a
    if how == "shape":                             # the same numbers in other rows and columns
        return a.reshape(a.shape[::-1]) if isinstance(a, np.ndarray) and a.ndim == 2 else a
    if how == "view":                              # the same bytes as other numbers
        return np.ascontiguousarray(a).view(np.int32) if isinstance(a, np.ndarray) and a.dtype == np.int64 and a.ndim else a
    f = 1 + how
    if type(a) is float:
        return a * f
    if isinstance(a, np.ndarray) and a.dtype.kind == "f":
        return a * f
    if type(a) is tuple and a and all(type(x) is float for x in a):
        return tuple(x * f for x in a)
    return a


def invoke(dotted, args, kwargs, capture=True):
    """Outcome of a call: snapshot, printed text without durations, and the live value."""
    m, n = dotted.split(".")
    fn = getattr(env.mod(m), n)
    out = io.StringIO()
    cm = contextlib.redirect_stdout(out) if capture else contextlib.nullcontext()
    live = None
    try:
        with cm:
            live = fn(*args, **kwargs)
        res = ("ok", values.snap(live))
    except Exception as e:
        res = ("exc", type(e).__name__, values.text(e))
    txt = "\n".join(l for l in out.getvalue().splitlines() if "uration" not in l)
    return res, values.text(txt), live


def keep(w, i, dotted, live):
    """Later operations of the workload use the results of earlier ones, as a script would."""
    if live is None:
        return
    if dotted == "assemutil.DME":
        w.live[("num", i)] = live
    elif dotted.endswith(("assembler", "_assem")):
        w.live[("K", i)] = live[0]
    elif dotted == "solutil.static_sol":
        w.live[("u", i)] = live
    elif dotted == "postprocesor.complete_disp":
        w.live[("U", i)] = live


def freeze(dotted, args, kwargs):
    return pickle.dumps((dotted, args, kwargs), protocol=5)


def alone(frozen, files, root, cwd=None):
    """In a pristine process: the same call on the same arguments and files."""
    env.clean_home()
    values.ROOT[0] = root
    for p, data in (files or {}).items():
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data)
    dotted, args, kwargs = pickle.loads(frozen)
    if cwd:
        os.makedirs(cwd, exist_ok=True)
        os.chdir(cwd)
    if kwargs.get("folder"):
        os.makedirs(kwargs["folder"], exist_ok=True)
    res, txt, _ = invoke(dotted, args, kwargs)
    return res, txt


def same_outcome(a, b):
    """(result, text) pairs."""
    if a[0][0] != b[0][0]:
        return False
    if a[0][0] == "exc":
        return a[0] == b[0]
    return values.same(a[0][1], b[0][1])
