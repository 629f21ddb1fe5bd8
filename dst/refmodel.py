"""A small, independent finite element solver: the reference model of C01 (and helper oracles elsewhere)."""
import numpy as np


def plane_stress(E, nu):
    return E / (1 - nu**2) * np.array([[1, nu, 0], [nu, 1, 0], [0, 0, (1 - nu) / 2]])


def _shape(kind, r, s):
    """Derivatives of the shape functions, (2, n)."""
    if kind == 1:
        xs = np.array([[-1, -1], [1, -1], [1, 1], [-1, 1]])
        return np.array([[a * (1 + b * s) / 4 for a, b in xs], [b * (1 + a * r) / 4 for a, b in xs]])
    if kind == 3:
        return np.array([[-1.0, 1, 0], [-1, 0, 1]])
    if kind == 2:
        t = 1 - r - s
        return np.array([[1 - 4 * t, 4 * r - 1, 0, 4 * (t - r), 4 * s, -4 * s], [1 - 4 * t, 0, 4 * s - 1, -4 * r, 4 * r, 4 * (t - s)]])
    if kind == 4:
        l = lambda q: np.array([q * (q - 1) / 2, 1 - q * q, q * (q + 1) / 2])
        d = lambda q: np.array([q - 0.5, -2 * q, q + 0.5])
        pos = [(0, 0), (2, 0), (2, 2), (0, 2), (1, 0), (2, 1), (1, 2), (0, 1), (1, 1)]
        return np.array([[d(r)[i] * l(s)[j] for i, j in pos], [l(r)[i] * d(s)[j] for i, j in pos]])
    raise ValueError(kind)


_g3 = np.sqrt(0.6)
_GAUSS = {
    1: [(a, b, 1.0) for a in (-3**-0.5, 3**-0.5) for b in (-3**-0.5, 3**-0.5)],
    4: [(a, b, u * v) for a, u in ((-_g3, 5 / 9), (0, 8 / 9), (_g3, 5 / 9)) for b, v in ((-_g3, 5 / 9), (0, 8 / 9), (_g3, 5 / 9))],
    3: [(1 / 3, 1 / 3, 0.5)],
    2: [(1 / 6, 1 / 6, 1 / 6), (2 / 3, 1 / 6, 1 / 6), (1 / 6, 2 / 3, 1 / 6)],
}


def bmat(kind, r, s, xy):
    dN = _shape(kind, r, s)
    J = dN @ xy
    det = J[0, 0] * J[1, 1] - J[0, 1] * J[1, 0]
    if not det > 0:
        raise ValueError("badly shaped element")
    inv = np.array([[J[1, 1], -J[0, 1]], [-J[1, 0], J[0, 0]]]) / det
    g = inv @ dN
    B = np.zeros((3, 2 * xy.shape[0]))
    B[0, ::2] = g[0]
    B[1, 1::2] = g[1]
    B[2, ::2] = g[1]
    B[2, 1::2] = g[0]
    return B, det


def stiffness(kind, xy, mat):
    if kind in (1, 2, 3, 4):
        C = plane_stress(mat[0], mat[1])
        K = 0
        for r, s, w in _GAUSS[kind]:
            B, det = bmat(kind, r, s, xy)
            K = K + w * det * (B.T @ C @ B)
        return K
    v = xy[1] - xy[0]
    L = np.hypot(*v)
    if not L > 0:
        raise ValueError("zero length")
    t = np.concatenate([-v, v]) / L
    if kind == 5:
        return mat[0] * np.outer(t, t)
    if kind == 6:
        return mat[0] * mat[1] / L * np.outer(t, t)
    raise ValueError("element type")


WIDTH = {1: 4, 2: 6, 3: 3, 4: 9, 5: 2, 6: 2}


class Invalid(Exception):
    """Not a valid, well posed model: nothing is promised about it except (maybe) an error."""


def assemble(m):
    nodes, els, mats = m["nodes"], m["elements"].astype(int), m["mats"]
    n = nodes.shape[0]
    K = np.zeros((2 * n, 2 * n))
    for e in els:
        c = e[3:]
        if e[1] not in WIDTH or len(c) != WIDTH[e[1]] or c.min() < 0 or c.max() >= n or not 0 <= e[2] < len(mats) or len(set(c)) < len(c):
            raise Invalid("element %s" % e)
        try:
            k = stiffness(int(e[1]), nodes[c, 1:3], mats[e[2]])
        except ValueError as err:
            raise Invalid(str(err))
        d = np.column_stack([2 * c, 2 * c + 1]).ravel()
        K[np.ix_(d, d)] += k
    return K


def solve(m, maxcond=1e9):
    """Nodal displacements (n, 2), or Invalid."""
    nodes, loads = m["nodes"], m["loads"]
    n = nodes.shape[0]
    cons = nodes[:, -2:] if nodes.shape[1] >= 5 else m["cons"]
    if not np.isin(cons, (0, -1)).all():
        raise Invalid("constraint flags")
    used = np.asarray(cons).reshape(n, -1)[:, :2].max(axis=1) == 0
    c = m["elements"][:, 3:].astype(int)
    if c.min() < 0 or c.max() >= n:
        raise Invalid("missing nodes")
    used[c] = True
    if not used.all():                         # nodes nothing is attached to stay where they are
        l = loads[:, 0].astype(int)
        if (l != loads[:, 0]).any() or len(l) and (l.min() < 0 or l.max() >= n):
            raise Invalid("load on missing node")
        new = np.cumsum(used) - 1
        e = m["elements"].astype(int)
        e[:, 3:] = new[c]
        keep = used[l]
        lo = loads[keep].copy()
        lo[:, 0] = new[l[keep]]
        u = np.zeros((n, 2))
        u[used] = solve(dict(m, nodes=nodes[used], elements=e, loads=lo, cons=np.asarray(cons)[used]), maxcond)[0]
        return u, None, None
    K = assemble(m)
    f = np.zeros(2 * n)
    for row in loads:
        i = int(row[0])
        if i < 0 or i >= n or row[0] != i:
            raise Invalid("load on missing node")
        f[2 * i] += row[1]
        f[2 * i + 1] += row[2]
    free = np.flatnonzero(np.asarray(cons).reshape(n, -1)[:, :2].ravel() == 0)
    u = np.zeros(2 * n)
    if not len(free):
        raise Invalid("no equations")
    Kf = K[np.ix_(free, free)]
    d = np.sqrt(np.abs(np.diag(Kf)))
    if not (d > 0).all() or not np.isfinite(Kf).all():
        raise Invalid("singular")
    Ks = Kf / np.outer(d, d)
    w = np.linalg.eigvalsh(Ks)
    if not w[0] > w[-1] / maxcond:
        raise Invalid("ill posed")
    u[free] = np.linalg.solve(Ks, f[free] / d) / d
    return u.reshape(n, 2), K, f.reshape(n, 2)


def affine_strain(G):
    """Strain of u = G x (G is 2x2)."""
    return np.array([G[0, 0], G[1, 1], G[0, 1] + G[1, 0]])


def tri3_nodal(m, u):
    """Element strains of 3-noded triangles averaged at the nodes, and stresses likewise."""
    nodes, els, mats = m["nodes"], m["elements"], m["mats"]
    n = nodes.shape[0]
    E, S, cnt = np.zeros((n, 3)), np.zeros((n, 3)), np.zeros(n)
    for e in els:
        c = e[3:]
        B, _ = bmat(3, 1 / 3, 1 / 3, nodes[c, 1:3])
        eps = B @ u[c].ravel()
        sig = plane_stress(*mats[e[2]][:2]) @ eps
        E[c] += eps
        S[c] += sig
        cnt[c] += 1
    return E / cnt[:, None], S / cnt[:, None]
