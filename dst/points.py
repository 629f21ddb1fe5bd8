"""The instants at which CPython can deliver an interrupt inside the code under test.

CPython looks at pending signals when a function starts, at backward jumps and after calls return. Those are the
points counted here, in every code object of solidspy, except in the cleanup bodies of try statements (where no Python
program can keep its promises)."""
import ast
import sys

from . import env, sched

TOOL = 3
_skip = {}


def skipped(filename):
    """Lines inside except and finally bodies."""
    if filename not in _skip:
        out = set()
        try:
            with open(filename) as f:
                tree = ast.parse(f.read())
            for n in ast.walk(tree):
                if isinstance(n, ast.Try):
                    for part in n.handlers + n.finalbody:
                        out.update(range(part.lineno, part.end_lineno + 1))
        except (OSError, SyntaxError):
            pass
        _skip[filename] = out
    return _skip[filename]


class Points:
    """Count the points of the calls made inside the context; at the k-th one (or several), call act()."""

    def __init__(self, at=None, act=None, everywhere=False):
        self.at = () if at is None else (at,) if isinstance(at, int) else tuple(at)
        self.places = {} if at is None else None
        self.act, self.n, self.fired, self.where, self.everywhere = act, 0, 0, None, everywhere

    def __enter__(self):
        mon, ev = sys.monitoring, sys.monitoring.events
        mon.use_tool_id(TOOL, "dst-points")
        codes = sched.code_objects(env.REPO)
        lines = {}
        for c in codes:
            sk = () if self.everywhere else skipped(c.co_filename)
            m = {}
            for a, b, l in c.co_lines():
                for o in range(a, b, 2):
                    m[o] = l in sk
            lines[c] = m

        def hit(code, off):
            if lines[code].get(off):
                return
            self.n += 1
            if self.places is not None:
                self.places.setdefault((id(code), off), [self.n, 0])[1] = self.n
            if self.n in self.at:
                self.fired += 1
                self.where = (code.co_qualname, off)
                self.act()
        mon.register_callback(TOOL, ev.PY_START, hit)
        mon.register_callback(TOOL, ev.JUMP, lambda c, o, d: hit(c, o) if d < o else None)
        mon.register_callback(TOOL, ev.C_RETURN, lambda c, o, f, a: hit(c, o))
        mon.register_callback(TOOL, ev.CALL, lambda c, o, f, a: None)
        for c in codes:
            mon.set_local_events(TOOL, c, ev.PY_START | ev.JUMP | ev.CALL)
        return self

    def __exit__(self, *exc):
        mon = sys.monitoring
        for c in sched.code_objects(env.REPO):
            mon.set_local_events(TOOL, c, 0)
        for e in (mon.events.PY_START, mon.events.JUMP, mon.events.C_RETURN, mon.events.CALL):
            mon.register_callback(TOOL, e, None)
        mon.free_tool_id(TOOL)
        return False

    def measured(self):
        """What was passed: the number of points, the first and last time at each place, and which places touch what outlives the call."""
        near = set().union(*sched._shared.values())
        pl = list(self.places.items())
        return {"n": self.n, "places": [v for _, v in pl], "near": [i for i, ((c, o), _) in enumerate(pl) if (c, -1 - o) in near]}


def pick(m, frac, how="any"):
    """A point: any, the first or last one of some place, or one near shared state (and the next ones)."""
    if not m or not m["n"]:
        return 1
    f = frac * 0.9999999
    if how == "any" or not m["places"]:
        return 1 + int(f * m["n"])
    which = m["places"]
    x = f * len(which)
    if how == "shared" and m["near"]:
        x = f * len(m["near"])
        i = m["near"][int(x)]
        i = min(i + int((x * 13) % 3), len(which) - 1)
    else:
        i = int(x)
    return which[i][int((x * 7) % 1 * 3) == 2]
