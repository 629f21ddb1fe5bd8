"""Deterministic scheduling of real threads, and instrumentation points inside the code under test."""
import gc
import os
import random
import sys
import threading
import types
import _thread

TOOL = 4
_active = [None]                       # the Sched of this simulated process, if any
_real = {}


# ------------------------------------------------------------------ points inside the code under test
_codes = {}
_shared = {}


def code_objects(root):
    """Every code object compiled from a file below root/solidspy (found once, in the pristine image)."""
    if root in _codes:
        return _codes[root]
    base = os.path.realpath(os.path.join(root, "solidspy")) + os.sep
    seen, out = set(), []

    def walk(c):
        if id(c) in seen:
            return
        seen.add(id(c))
        out.append(c)
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                walk(k)

    for o in gc.get_objects():
        if isinstance(o, types.FunctionType):
            c = o.__code__
            if "solidspy" in c.co_filename and os.path.realpath(c.co_filename).startswith(base):
                walk(c)
    out.sort(key=lambda c: (c.co_filename, c.co_firstlineno, c.co_qualname))
    _codes[root] = out
    _shared[root] = shared_lines(out)
    return out


SETTERS = {"seterr", "errstate", "set_printoptions", "printoptions", "chdir", "filterwarnings", "simplefilter", "catch_warnings", "setlocale", "environ", "rcParams", "seed",
           "stdout", "stderr", "redirect_stdout", "umask", "setrecursionlimit", "signal", "path", "modules", "figure", "__dict__"}
PLAIN = (types.ModuleType, types.FunctionType, types.BuiltinFunctionType, type, int, float, complex, str, bytes, tuple, frozenset, type(None), type(...))


def shared_lines(codes):
    """Places that touch what outlives a call (only to decide where schedules are interesting): {(code, line or offset)}."""
    import dis
    spaces, fresh = {}, set()
    for m in list(sys.modules.values()):
        f = getattr(m, "__file__", None)
        if f and "solidspy" in f:
            spaces[os.path.realpath(f)] = vars(m)
    mutable = {}
    for o in gc.get_objects():
        if isinstance(o, types.FunctionType) and "solidspy" in o.__code__.co_filename:
            c = o.__code__
            names = c.co_varnames[:c.co_argcount]
            d = o.__defaults__ or ()
            mutable[id(c)] = {n for n, v in zip(names[len(names) - len(d):], d) if not isinstance(v, PLAIN)} | {n for n, v in (o.__kwdefaults__ or {}).items() if not isinstance(v, PLAIN)}
    for c in codes:
        g = spaces.get(os.path.realpath(c.co_filename), {})
        line = None
        lines, by = set(), {}
        for i in dis.get_instructions(c):
            line = i.positions.lineno if i.positions and i.positions.lineno else line
            by.setdefault(line, []).append(i.offset)
            op, a = i.opname, i.argval
            if op.startswith("LOAD_GLOBAL") or op == "LOAD_NAME":
                v = g.get(a)
                hit = a in g and (not isinstance(v, PLAIN) or isinstance(v, types.FunctionType) and bool(vars(v)))
            elif op in ("STORE_GLOBAL", "DELETE_GLOBAL", "STORE_DEREF", "DELETE_DEREF", "STORE_ATTR", "DELETE_ATTR"):
                hit = True
            elif op.startswith("LOAD_FAST"):
                hit = not mutable.get(id(c), set()).isdisjoint(a if isinstance(a, tuple) else (a,))
            else:
                hit = op in ("LOAD_ATTR", "LOAD_METHOD", "IMPORT_NAME") and (op == "IMPORT_NAME" or a in SETTERS)
            if hit:
                lines.add(line)
        for l in lines:
            fresh.add((id(c), l))
            fresh.update((id(c), -1 - o) for o in by.get(l, ()))
    return fresh


def refresh(root):
    """The code under test was (re)imported."""
    _codes.pop(root, None)
    c = code_objects(root)
    if _active[0] is not None and not _active[0].watching:
        _active[0].codes = c


# ------------------------------------------------------------------ locks
class SimLock:
    """threading.Lock / RLock made by the code under test: cooperative while a simulation runs."""
    reentrant = False

    def __init__(self):
        self._l = _real["RLock"]() if self.reentrant else _real["Lock"]()
        self.owner, self.count = None, 0

    def _me(self):
        s = _active[0]
        return s.me() if s else None

    def acquire(self, blocking=True, timeout=-1):
        t = self._me()
        if t is None:
            return self._l.acquire(blocking, timeout)
        s = _active[0]
        s.point(t)
        while self.count and not (self.reentrant and self.owner == t):
            if not blocking or timeout is not None and timeout >= 0 and s.expire(t):
                return False
            s.block(t, self)
        self.owner, self.count = t, self.count + 1
        return True

    def release(self):
        t = self._me()
        if t is None:
            return self._l.release()
        if not self.count:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if not self.count:
            self.owner = None
            _active[0].wake(self)
        _active[0].point(t)

    def locked(self):
        return bool(self.count) or (not self.reentrant and self._l.locked())

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        t = self._me()
        return self.owner == t if t is not None else getattr(self._l, "_is_owned", lambda: self._l.locked())()

    def _at_fork_reinit(self):
        pass


class SimRLock(SimLock):
    reentrant = True

    def _release_save(self):
        if self._me() is None:
            return None, self._l._release_save()
        n = self.count
        self.count = 1
        self.release()
        return n, None

    def _acquire_restore(self, saved):
        if saved[0] is None:
            return self._l._acquire_restore(saved[1])
        self.acquire()
        self.count = saved[0]


def patch_locks():
    if threading.Lock is not SimLock:
        _real.update(Lock=threading.Lock, RLock=threading.RLock)
    threading.Lock, threading.RLock = SimLock, SimRLock


def patched():
    return threading.Lock is SimLock


def unpatch_locks():
    threading.Lock, threading.RLock = _real["Lock"], _real["RLock"]


# ------------------------------------------------------------------ threads the code under test starts itself
def _start(self):
    s = _active[0]
    t = s.me() if s else None
    if t is None:
        return _real["start"](self)
    k = s.adopt()
    self._dst, run = (s, k), self.run

    def body():
        s.idents[_thread.get_ident()] = k
        s.gate[k].acquire()
        try:
            if not s.dead:
                run()
        except (SystemExit, Deadlock):
            pass
        except BaseException:
            self._invoke_excepthook(self)
        finally:
            s.leave(k, self)
    self.run = body
    i = _thread.get_ident()
    del s.idents[i]                         # the hand-shake of the two real threads is not part of the schedule
    try:
        _real["start"](self)
    finally:
        s.idents[i] = t
    s.point(t)


def _join(self, timeout=None):
    s, k = getattr(self, "_dst", (None, None))
    t = s.me() if s is not None and s is _active[0] else None
    if t is not None and s.state[k] != "done":
        s.point(t)
        while s.state[k] != "done":
            if timeout is not None:
                s.expire(t)
                if s.state[k] != "done":
                    return
                break
            s.block(t, self)
    return _real["join"](self, None if t is not None else timeout)         # it has ended or is about to


def _is_alive(self):
    s, k = getattr(self, "_dst", (None, None))
    return _real["is_alive"](self) if s is None else s.state[k] != "done"


def _sleep(d):
    s = _active[0]
    t = s.me() if s else None
    if t is None or s.n == 1:
        return _real["sleep"](d)
    s.expire(t, 1)


def patch_threads():
    import concurrent.futures.thread as cft
    import queue
    import time
    patch_locks()
    T = threading.Thread
    if "start" not in _real:
        _real.update(start=T.start, join=T.join, is_alive=T.is_alive, sleep=time.sleep, alloc=threading._allocate_lock, sq=queue.SimpleQueue)
    T.start, T.join, T.is_alive, time.sleep, threading._allocate_lock, queue.SimpleQueue = _start, _join, _is_alive, _sleep, SimLock, queue._PySimpleQueue
    cft._global_shutdown_lock = SimLock()


def unpatch_threads():
    import queue
    import time
    unpatch_locks()
    T = threading.Thread
    T.start, T.join, T.is_alive, time.sleep, threading._allocate_lock, queue.SimpleQueue = (_real[k] for k in ("start", "join", "is_alive", "sleep", "alloc", "sq"))


class Deadlock(BaseException):
    pass


class Sched:
    def __init__(self, n, policy, codes=(), gran="line", max_events=3_000_000):
        self.n = self.mains = n
        self.policy, self.codes, self.gran, self.max = policy, codes, gran, max_events
        self.gate = [_thread.allocate_lock() for _ in range(n)]
        for g in self.gate:
            g.acquire()
        self.over = _thread.allocate_lock()
        self.over.acquire()
        self.state = ["new"] * n        # new, ready, blocked, done
        self.wait = [None] * n
        self.count = [0] * n
        self.idents = {}
        self.switches = []
        self.events = 0
        self.dead = None
        self.rng = random.Random(policy.get("seed", 0))
        self.p = policy.get("p", 0.0)
        self.plan = {}
        self.visits = {}
        self.watching = False
        self.adopted = 0
        self.near = None                # only these places count ("shared")
        self.quiet = 0                  # points during which the present thread is left alone
        self.seen = {}                  # code objects in the order in which the threads entered them
        self.hot = set(policy.get("hot", ()))
        if policy["type"] == "explicit":
            for t, k, to in policy["sw"]:
                self.plan[(t, k)] = to
        if policy["type"] == "few":      # a few preemptions placed anywhere in the expected length
            for _ in range(policy["d"]):
                self.plan[(self.rng.randrange(n), 1 + self.rng.randrange(policy["len"]))] = None

    def me(self):
        return self.idents.get(_thread.get_ident())

    # ---- called by threads
    def others(self, t):
        return [i for i in range(self.n) if i != t and self.state[i] == "ready"]

    def point(self, t, hot=True, loc=None):
        if self.dead:
            raise Deadlock()
        self.count[t] += 1
        self.events += 1
        if self.events > self.max:
            self.dead = "more than %d steps" % self.max
            raise Deadlock()
        k = (t, self.count[t])
        typ = self.policy["type"]
        if typ in ("novel", "shared"):   # the less often a thread has been at this line, the likelier it stops there
            if self.quiet:
                self.quiet -= 1
                return
            if self.near is not None and loc not in self.near:
                return
            v = self.visits[t, loc] = self.visits.get((t, loc), 0) + 1
            if self.rng.random() < self.p / v:
                o = self.others(t)
                if o:
                    self.quiet = int(2 ** self.rng.uniform(0, self.policy["max"]))
                    self.go(t, o[self.rng.randrange(len(o))])
        elif typ in ("random", "focus", "hold"):
            if self.quiet:
                self.quiet -= 1
                return
            if not hot or self.rng.random() >= self.p:
                return
            o = self.others(t)
            if o:
                if typ == "hold":
                    self.quiet = int(2 ** self.rng.uniform(0, self.policy["max"]))
                self.go(t, o[self.rng.randrange(len(o))])
        elif k in self.plan:
            o = self.others(t)
            to = self.plan[k]
            if o:
                if to is None:
                    to = o[self.rng.randrange(len(o))]
                if to in o:
                    self.go(t, to)

    def go(self, t, to):
        self.switches.append([t, self.count[t], to])
        self.gate[to].release()
        self.gate[t].acquire()
        if self.dead:
            raise Deadlock()

    def forced(self, t):
        """t cannot go on: somebody else must."""
        self.count[t] += 1
        o = self.others(t)
        if not o:
            return None
        to = self.plan.get((t, self.count[t])) if self.policy["type"] == "explicit" else None
        if to not in o:
            to = o[self.rng.randrange(len(o))] if self.policy["type"] != "explicit" else o[0]
        self.switches.append([t, self.count[t], to])
        return to

    def block(self, t, lock):
        self.state[t], self.wait[t] = "blocked", lock
        to = self.forced(t)
        if to is None:
            self.die("deadlock: threads %s wait for locks nobody will release" % [i for i in range(self.n) if self.state[i] == "blocked"])
            raise Deadlock()
        self.gate[to].release()
        self.gate[t].acquire()
        if self.dead:
            raise Deadlock()

    def expire(self, t, times=50):
        """A timed lock attempt: others get their chance, then it gives up."""
        for _ in range(times):
            o = self.others(t)
            if not o:
                break
            self.count[t] += 1
            self.go(t, o[self.rng.randrange(len(o))])
        return True

    def wake(self, lock):
        for i in range(self.n):
            if self.state[i] == "blocked" and self.wait[i] is lock:
                self.state[i], self.wait[i] = "ready", None

    def die(self, why):
        self.dead = why
        for i in range(self.n):
            if self.state[i] in ("ready", "blocked") and i != self.me():
                try:
                    self.gate[i].release()
                except RuntimeError:
                    pass

    # ---- driver
    def body(self, t, fn):
        self.idents[_thread.get_ident()] = t
        self.gate[t].acquire()
        try:
            if not self.dead:
                fn()
        except Deadlock:
            pass
        finally:
            self.state[t] = "done"
            self.idents.pop(_thread.get_ident(), None)
            if self.dead:
                for i in range(self.n):
                    if self.state[i] != "done":
                        try:
                            self.gate[i].release()
                        except RuntimeError:
                            pass
                if all(s == "done" for s in self.state[:self.mains]):
                    self.finish()
            elif all(s == "done" for s in self.state[:self.mains]):
                self.finish()
            else:
                to = self.forced(t)
                if to is None:
                    self.die("deadlock: threads %s wait for locks nobody will release" % [i for i in range(self.n) if self.state[i] == "blocked"])
                else:
                    self.gate[to].release()

    def finish(self):
        try:
            self.over.release()
        except RuntimeError:
            pass

    def adopt(self):
        """A thread more, started by the code under test."""
        g = _thread.allocate_lock()
        g.acquire()
        self.gate.append(g)
        self.state.append("ready")
        self.wait.append(None)
        self.count.append(0)
        self.n += 1
        self.adopted += 1
        self.watch()
        return self.n - 1

    def leave(self, k, th):
        """An adopted thread ends."""
        self.state[k] = "done"
        self.idents.pop(_thread.get_ident(), None)      # the number may be given to another thread
        if self.dead or all(s == "done" for s in self.state[:self.mains]):
            return
        if self.mains == 1 and all(s == "done" for s in self.state[1:]):
            self.unwatch()
            self.events = 0
        self.wake(th)
        to = self.forced(k)
        if to is None:
            self.die("deadlock: threads %s wait for what nobody will do" % [i for i in range(self.n) if self.state[i] == "blocked"])
        else:
            self.gate[to].release()

    def watch(self):
        """Scheduling points at every line (instruction) of the code under test."""
        if self.watching:
            return
        self.watching = True
        mon = sys.monitoring
        ev = mon.events
        mon.use_tool_id(TOOL, "dst-sched")
        idents, get = self.idents, _thread.get_ident

        focus = None
        if self.policy["type"] == "focus":
            focus = {id(c) for c in self.rng.sample(self.codes, min(self.policy["k"], len(self.codes)))}

        def hit(code, *a):
            t = idents.get(get())
            if t is not None:
                if self.hot:
                    self.point(t, self.seen.setdefault(id(code), len(self.seen)) in self.hot)
                else:
                    self.point(t, focus is None or id(code) in focus, (id(code), -1 - a[0] if ins else a[0]))
        ins = self.gran == "ins"
        if self.policy["type"] == "shared":
            self.near = set().union(*_shared.values()) or None
        kind = ev.INSTRUCTION if self.gran == "ins" else ev.LINE
        mon.register_callback(TOOL, kind, hit)
        if self.gran != "ins":
            mon.register_callback(TOOL, ev.PY_START, hit)
        for c in self.codes:
            mon.set_local_events(TOOL, c, kind | (0 if self.gran == "ins" else ev.PY_START))

    def unwatch(self):
        if self.watching:
            self.watching = False
            for c in self.codes:
                sys.monitoring.set_local_events(TOOL, c, 0)
            sys.monitoring.free_tool_id(TOOL)

    def run(self, fns):
        outer = _active[0]
        threads = [threading.Thread(target=self.body, args=(i, f), daemon=True) for i, f in enumerate(fns)]
        start, join = (_real["start"], _real["join"]) if outer is not None else (threading.Thread.start, threading.Thread.join)
        i = _thread.get_ident()
        t = outer.idents.pop(i, None) if outer is not None else None
        patch_threads()
        self.watch()
        _active[0] = self
        self.state = ["ready"] * self.n
        for th in threads:
            start(th)
        first = self.plan.get((-1, 0), None)
        if first is None:
            first = self.rng.randrange(self.n) if self.policy["type"] != "explicit" else 0
        self.switches.append([-1, 0, first])
        self.gate[first].release()
        self.over.acquire()
        _active[0] = outer
        self.unwatch()
        for th in threads:
            join(th, 10)
        if outer is None:
            unpatch_threads()
        elif t is not None:
            outer.idents[i] = t
        return self


def single(fn, args, root, seed):
    """fn(*args) in a process of one thread; threads the code under test starts join it under one schedule drawn from the seed."""
    rng = random.Random(seed)
    pol = {"type": rng.choice(["random", "novel", "shared"]), "p": rng.choice([0.0, 0.02, 0.2, 0.5]), "max": rng.choice([3, 6, 9]), "seed": rng.randrange(2**31)}
    s = Sched(1, pol, code_objects(root), rng.choice(["line", "line", "ins"]))
    s.state[0] = "ready"
    s.idents[_thread.get_ident()] = 0
    patch_threads()
    _active[0] = s
    try:
        return fn(*args)
    finally:
        _active[0] = None
        s.unwatch()
        unpatch_threads()
        if s.dead and s.adopted:
            raise Deadlock(s.dead)
