"""Finite element models made by the simulator itself (no code under test involved)."""
import os
import numpy as np

CONT = ("quad4", "tri3", "tri6", "quad9")
STRUCT = ("truss", "spring")
TYPE = {"quad4": 1, "tri6": 2, "tri3": 3, "quad9": 4, "spring": 5, "truss": 6, "beamu": 7, "beam": 8}


def gen(rng, kinds=CONT + STRUCT, big=False, units=False):
    """Draw the description of a model."""
    k = rng.choice(list(kinds))
    hi = 3 if k in ("tri6", "quad9") else 4
    s = {"k": k, "nx": rng.randint(1, hi), "ny": rng.randint(1, hi), "L": round(rng.uniform(0.8, 6), 3), "H": round(rng.uniform(0.8, 6), 3),
         "ox": round(rng.uniform(-5, 5), 2), "oy": round(rng.uniform(-5, 5), 2), "jig": rng.choice([0, 0, 0.1, 0.2]),
         "seed": rng.randrange(10**6), "nm": rng.choice([1, 1, 2, 3]), "E": rng.choice([1.0, 2.5, 10.0, 1000.0]),
         "bc": rng.choice(["clamp", "roll", "clamp"]), "nl": rng.choice([1, 2, 3, 4, 1, 2, 3, 4, 5, 7, 9]), "perm": rng.choice([0, 0, 1])}
    if rng.random() < 0.1:                     # rows that share their node, nodes and materials beyond those of the grid
        s["pad"] = [rng.choice([0, 0, 2, 7]), rng.choice([0, 0, 2]), rng.choice([0, 2, 5, 9])]
    if big:
        s["nx"], s["ny"] = rng.randint(4, 9), rng.randint(4, 9)
    if units:
        s["E"] = 10.0 ** rng.randint(-8, 13)
    return s


def build(spec):
    """nodes (n,5) [id x y bcx bcy], cons (n,2), elements, mats, loads as fresh arrays."""
    k, nx, ny, L, H = spec["k"], spec["nx"], spec["ny"], spec["L"], spec["H"]
    r = np.random.Generator(np.random.PCG64(spec["seed"]))
    sub = 2 if k in ("tri6", "quad9") else 1
    gx, gy = nx * sub + 1, ny * sub + 1
    X, Y = np.meshgrid(np.linspace(0, L, gx), np.linspace(0, H, gy))
    if spec.get("jig") and not spec.get("affine_grid"):
        # move the corner grid; nodes between corners stay in the middle (straight sides)
        cx, cy = nx + 1, ny + 1
        dx = r.uniform(-1, 1, (cy, cx)) * spec["jig"] * L / nx
        dy = r.uniform(-1, 1, (cy, cx)) * spec["jig"] * H / ny
        if spec.get("edges", 1):
            dx[:, 0] = dx[:, -1] = 0
            dy[0, :] = dy[-1, :] = 0
        if sub == 1:
            X, Y = X + dx, Y + dy
        else:
            def fine(d):
                f = np.zeros((gy, gx))
                f[::2, ::2] = d
                f[1::2, ::2] = (d[1:, :] + d[:-1, :]) / 2
                f[::2, 1::2] = (d[:, 1:] + d[:, :-1]) / 2
                f[1::2, 1::2] = (d[1:, 1:] + d[:-1, :-1] + d[1:, :-1] + d[:-1, 1:]) / 4
                if k == "tri6":      # the diagonal (a, c) carries the centre node
                    f[1::2, 1::2] = (d[1:, 1:] + d[:-1, :-1]) / 2
                return f
            X, Y = X + fine(dx), Y + fine(dy)
    left = np.zeros((gy, gx), bool)
    left[:, 0] = True
    ids = np.arange(gx * gy).reshape(gy, gx)
    n = gx * gy
    x, y = X.ravel() + spec["ox"], Y.ravel() + spec["oy"]
    conn = []
    for j in range(ny):
        for i in range(nx):
            a, b, c, d = ids[j * sub, i * sub], ids[j * sub, (i + 1) * sub], ids[(j + 1) * sub, (i + 1) * sub], ids[(j + 1) * sub, i * sub]
            if k == "quad4":
                conn.append([a, b, c, d])
            elif k == "tri3":
                conn += [[a, b, c], [a, c, d]]
            elif k == "quad9":
                jj, ii = 2 * j, 2 * i
                conn.append([a, b, c, d, ids[jj, ii + 1], ids[jj + 1, ii + 2], ids[jj + 2, ii + 1], ids[jj + 1, ii], ids[jj + 1, ii + 1]])
            elif k == "tri6":
                jj, ii = 2 * j, 2 * i
                m = ids[jj + 1, ii + 1]
                conn += [[a, b, c, ids[jj, ii + 1], ids[jj + 1, ii + 2], m], [a, c, d, m, ids[jj + 2, ii + 1], ids[jj + 1, ii]]]
            else:                                     # bars: bottom, left, both diagonals
                conn += [[a, b], [a, c], [b, d]]
                if i == 0:
                    conn.append([a, d])
                if i == nx - 1:
                    conn.append([b, c])
                else:
                    conn.append([b, c])
                if j == ny - 1:
                    conn.append([d, c])
    ne = len(conn)
    els = np.zeros((ne, 3 + len(conn[0])), dtype=int)
    els[:, 0] = np.arange(ne)
    els[:, 1] = TYPE[k]
    els[:, 3:] = conn
    nm = spec["nm"]
    els[:, 2] = r.integers(0, nm, ne) if nm > 1 else 0
    E = spec["E"] * r.uniform(0.5, 2, nm)
    if k == "spring":
        mats = E[:, None].copy()
    elif k in ("truss", "beamu"):
        mats = np.column_stack([E, r.uniform(0.5, 2, nm)])
    elif k == "beam":
        mats = np.column_stack([E, r.uniform(0.5, 2, nm), r.uniform(0.5, 2, nm)])
    else:
        mats = np.column_stack([E, r.uniform(0.05, 0.4, nm)])
    if spec.get("nu") and k in CONT:
        mats[:, 1] = spec["nu"]
    if spec.get("dens"):
        mats = np.column_stack([mats, r.uniform(0.5, 2, nm)])
    nd = spec.get("ndof", 2)
    cons = np.zeros((n, nd), dtype=int)
    lf = left.ravel()
    if spec["bc"] == "roll" and k in CONT:
        cons[lf, 0] = -1
        cons[0, 1] = -1
    elif spec["bc"] == "none":
        pass
    else:
        cons[lf] = -1
    free = np.flatnonzero((cons == 0).all(axis=1))
    nl = min(spec["nl"], len(free))
    ln = np.sort(r.choice(free, nl, replace=False)) if nl else np.zeros(0, int)
    if spec.get("dup") and nl:
        ln = np.append(ln, ln[0])
    P = spec.get("P", 1.0)
    loads = np.column_stack([ln.astype(float)] + [r.uniform(-1, 1, len(ln)) * P for _ in range(nd)])
    if spec.get("pad"):                    # more rows: nodes nothing is attached to, loads on the same nodes, materials of single elements
        pn, pm, pl = spec["pad"]
        x, y = np.append(x, r.uniform(-9, 9, pn)), np.append(y, r.uniform(-9, 9, pn))
        cons = np.vstack([cons, np.full((pn, nd), -1)])
        n += pn
        if pm:
            els[:, 2] = r.integers(0, nm + pm, ne)
            mats = np.vstack([mats] + [mats[:1] * r.uniform(0.5, 1, (1, mats.shape[1])) for _ in range(pm)])
        if pl and nl:
            more = loads[r.integers(0, nl, pl)]
            more[:, 1:] *= r.uniform(-0.3, 0.3, (pl, nd)) * 10.0 ** r.integers(-2, 1, (pl, 1))
            loads = np.vstack([loads, more])
    if spec.get("perm"):
        p = r.permutation(n)              # new number of old node i
        inv = np.argsort(p)
        x, y, cons = x[inv], y[inv], cons[inv]
        els[:, 3:] = p[els[:, 3:]]
        loads[:, 0] = p[loads[:, 0].astype(int)]
        if spec.get("shuffle", 1):
            q = r.permutation(ne)
            els = els[q]
            els[:, 0] = np.arange(ne)
    nodes = np.column_stack([np.arange(n).astype(float), x, y, cons.astype(float)])
    return {"nodes": nodes, "cons": cons, "elements": els, "mats": mats, "loads": loads, "kind": k, "ndof": nd}


FILES = {"nodes": "nodes.txt", "mats": "mater.txt", "elements": "eles.txt", "loads": "loads.txt"}


def render(model, style=0):
    """The four files of a folder as text; numbers survive the round trip exactly."""
    out = {}
    for key, name in FILES.items():
        a = np.atleast_2d(model[key])
        sep = (" ", "  ", "\t", " ")[style % 4]
        lines = []
        for row in a:
            cells = []
            for j, v in enumerate(row):
                isint = key == "elements" or (key == "nodes" and (j == 0 or j > 2)) or (key == "loads" and j == 0)
                cells.append("%d" % v if isint else repr(float(v)))
            lines.append(sep.join(cells))
        head = ["# %s" % key] if style % 3 == 1 else []
        tail = "" if style % 5 == 2 else "\n"
        if style % 3 == 2:
            lines = [l + "   # row" for l in lines]
        out[name] = "\n".join(head + lines) + tail
    return out


def write(folder, files):
    for name, txt in files.items():
        with open(os.path.join(folder, name), "w") as f:
            f.write(txt)


def parse(text):
    """Rows of numbers of one file; None when it is not a rectangular table of numbers."""
    rows = []
    for line in text.splitlines():
        line = line.split("#", 1)[0].split()
        if line:
            try:
                rows.append([float(c) for c in line])
            except ValueError:
                return None
    if rows and len({len(r) for r in rows}) != 1:
        return None
    return np.array(rows)
