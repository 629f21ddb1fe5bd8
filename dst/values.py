"""Canonical, comparable snapshots of the values the code under test takes and returns."""
import hashlib
import re
import numpy as np

_ADDR = re.compile(r"0x[0-9a-fA-F]{4,}")
ROOT = ["\0none"]          # scratch folder of the current run, hidden in messages


def text(s):
    s = str(s)
    return _ADDR.sub("0x", s.replace(ROOT[0], "<ROOT>"))


def exc_chain(e):
    out = []
    while e is not None and len(out) < 8:
        out.append(type(e).__name__)
        e = e.__cause__ or (None if e.__suppress_context__ else e.__context__)
    return out


def snap(v, depth=0):
    """A nested tuple describing v by value."""
    if depth > 12:
        return ("deep", type(v).__name__)
    if v is None or isinstance(v, (bool, int, str, bytes)) and type(v) in (bool, int, str, bytes):
        return v
    if type(v) is float:
        return ("f", v)
    if type(v) is complex:
        return ("c", v)
    if isinstance(v, BaseException):
        return ("exc", type(v).__name__, text(v))
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ("ndo", v.shape, tuple(snap(x, depth + 1) for x in v.ravel().tolist()))
        return ("nd", v.dtype.str, v.shape, np.ascontiguousarray(v).tobytes())
    if isinstance(v, np.generic):
        return ("np", v.dtype.str, np.asarray(v).tobytes())
    mod = type(v).__module__ or ""
    if mod.startswith("scipy.sparse"):
        c = v.copy().tocsr()
        c.sum_duplicates()
        c.sort_indices()
        return ("sp", type(v).__name__, tuple(v.shape), snap(c.indptr.astype(np.int64)),
                snap(c.indices.astype(np.int64)), snap(c.data))
    if type(v) in (tuple, list):
        return (type(v).__name__, tuple(snap(x, depth + 1) for x in v))
    if isinstance(v, dict):
        return ("dict", tuple((snap(k, depth + 1), snap(x, depth + 1)) for k, x in v.items()))
    if isinstance(v, (set, frozenset)):
        return ("set", tuple(sorted(map(repr, v))))
    if type(v).__name__ == "Triangulation":
        return ("tri", snap(np.asarray(v.x)), snap(np.asarray(v.y)), snap(np.asarray(v.triangles)))
    if callable(v):
        return ("fn", getattr(v, "__name__", type(v).__name__))
    if hasattr(v, "_fields"):
        return ("nt", tuple(snap(x, depth + 1) for x in v))
    return ("obj", type(v).__name__)


def given(args):
    """The arguments of a call, including whether their arrays can be written to."""
    def flags(v):
        if isinstance(v, np.ndarray):
            return v.flags.writeable
        if isinstance(v, dict):
            return tuple(flags(x) for x in v.values())
        if type(v) in (tuple, list):
            return tuple(flags(x) for x in v)
        return flags(v.data) if (type(v).__module__ or "").startswith("scipy.sparse") else None
    return [(snap(a), flags(a)) for a in args]


def arr(s):
    """The array behind an ("nd", ...) snapshot."""
    return np.frombuffer(s[3], dtype=np.dtype(s[1])).reshape(s[2])


def value(s):
    """Numeric content of a snapshot as an array, or None."""
    if isinstance(s, tuple) and s and s[0] == "nd":
        return arr(s)
    if isinstance(s, tuple) and s and s[0] == "np":
        return np.frombuffer(s[2], dtype=np.dtype(s[1]))
    if isinstance(s, tuple) and s and s[0] in ("f", "c"):
        return np.array([s[1]])
    if type(s) in (int, bool):
        return np.array([s])
    return None


def dense(s):
    """Dense array of an ("sp", ...) or ("nd", ...) snapshot."""
    if s[0] == "nd":
        return arr(s)
    import scipy.sparse as sp
    return sp.csr_matrix((arr(s[5]), arr(s[4]), arr(s[3])), shape=s[2]).toarray()


def close(a, b, rtol=1e-9):
    """Arrays equal up to rtol of the largest magnitude, NaN and infinities at the same places."""
    if a.shape != b.shape:
        return False
    if a.dtype.kind in "OSUV" or b.dtype.kind in "OSUV":
        return a.tobytes() == b.tobytes()
    if a.dtype.kind in "biu" and b.dtype.kind in "biu":
        return bool(np.array_equal(a, b))
    fa, fb = np.isfinite(a), np.isfinite(b)
    if not np.array_equal(fa, fb):
        return False
    if not np.array_equal(np.isnan(a), np.isnan(b)):
        return False
    inf = ~fa & ~np.isnan(a)
    if inf.any() and not np.array_equal(a[inf], b[inf]):
        return False
    if not fa.any():
        return True
    x, y = a[fa], b[fb]
    scale = max(np.abs(x).max(), np.abs(y).max())
    return bool(np.abs(x - y).max() <= rtol * scale)


def same(a, b, rtol=1e-9):
    """Do two snapshots describe the same value (round-off aside)?"""
    if a == b:
        return True
    if type(a) is tuple and type(b) is tuple:
        if a and b and a[0] == b[0] and a[0] in ("nd", "np") and a[1][1] != b[1][1]:
            return False
        va, vb = value(a), value(b)
        if va is not None and vb is not None:
            return a[0] == b[0] and close(va, vb, rtol)
        if a and b and a[0] == "sp" and b[0] == "sp":
            if a[1:3] != b[1:3]:
                return False
            if a[3] == b[3] and a[4] == b[4]:
                return same(a[5], b[5], rtol)
            return close(dense(a), dense(b), rtol)
        if len(a) != len(b):
            return False
        return all(same(x, y, rtol) for x, y in zip(a, b))
    return False


def show(s, limit=300):
    """Short readable form of a snapshot."""
    def f(s):
        if isinstance(s, tuple) and s:
            v = value(s)
            if v is not None:
                return "array%s%s" % (v.shape, np.array2string(v.ravel()[:6], precision=6)) if v.size > 1 else str(v.ravel()[0] if v.size else "[]")
            if s[0] == "sp":
                return "%s%s data %s" % (s[1], s[2], f(s[5]))
            if s[0] == "exc":
                return "%s(%s)" % (s[1], s[2])
            if s[0] in ("tuple", "list"):
                return "(" + ", ".join(f(x) for x in s[1]) + ")"
            return "(" + ", ".join(f(x) for x in s) + ")"
        return repr(s)
    r = f(s)
    return r if len(r) <= limit else r[:limit] + "..."


def digest(x):
    return hashlib.sha256(repr(x).encode()).hexdigest()[:16]
