"""ctypes face of the preloaded simulated operating system (../shim/shim.c)."""
import ctypes
import errno

KIND = {"openr": 0, "openw": 1, "read": 2, "write": 3, "close": 4, "rename": 5, "unlink": 6, "fsync": 7, "trunc": 8}
ACT = {"err": 1, "short": 2, "swap": 3, "exit": 4, "shortexit": 5}
lib = None


def load():
    global lib
    l = ctypes.CDLL(None)
    l.dst_loaded                                   # AttributeError: the shim is not preloaded
    L, I, U, S = ctypes.c_long, ctypes.c_int, ctypes.c_uint64, ctypes.c_char_p
    q = ctypes.c_int64
    for n, r, a in (("dst_io_root", None, [S]), ("dst_io_reset", None, [U]), ("dst_io_enable", None, [I]), ("dst_io_noise", None, [I, I]),
                    ("dst_io_budget", None, [L]), ("dst_io_limit", None, [L]), ("dst_io_rule", I, [I, L, I, L, I, S, S, S]),
                    ("dst_io_fired", L, [I]), ("dst_io_stat", L, [I]), ("dst_io_count", L, [I]), ("dst_io_log", S, []),
                    ("dst_clock", None, [I, I, q, q]), ("dst_clock_jump", None, [L, q]), ("dst_clock_limit", None, [L]), ("dst_clock_stat", L, [I]), ("dst_clock_now", q, []),
                    ("dst_entropy", None, [I, U]), ("dst_entropy_calls", L, []),
                    ("dst_np_handler", ctypes.c_void_p, []), ("dst_alloc", None, [I, U, I, L]), ("dst_alloc_stat", L, [I])):
        f = getattr(l, n)
        f.restype, f.argtypes = r, a
    lib = l
    return l


def b(s):
    return s.encode() if isinstance(s, str) else s


class Files:
    """Scripted file faults below root, on while the context is entered."""

    def __init__(self, root, faults=(), noise=None, budget=None, seed=0, limit=200000):
        self.root, self.faults, self.noise, self.budget, self.seed, self.limit = root, list(faults), noise, budget, seed, limit

    def __enter__(self):
        lib.dst_io_root(b(self.root))
        lib.dst_io_reset(self.seed)
        lib.dst_io_limit(self.limit)
        for f in self.faults:
            arg = f.get("arg", 0)
            if f["act"] == "err":
                arg = getattr(errno, f["errno"])
            lib.dst_io_rule(KIND[f["on"]], f.get("n", 1), ACT[f["act"]], arg, int(f.get("persist", 0)),
                            b(f.get("path", "")), b(f.get("a", "")), b(f.get("b", "")))
        if self.noise:
            lib.dst_io_noise(*self.noise)
        if self.budget is not None:
            lib.dst_io_budget(self.budget)
        lib.dst_io_enable(1)
        return self

    def __exit__(self, *exc):
        lib.dst_io_enable(0)
        self.stats = self.read()
        return False

    def read(self):
        st = {}
        for i, f in enumerate(self.faults):
            n = lib.dst_io_fired(i)
            k = "io:%s:%s" % (f["on"], f.get("errno", f["act"]))
            if n:
                st[k] = st.get(k, 0) + n
        for i, k in enumerate(("io:EINTR", "io:short-transfer", "io:disk-full")):
            if lib.dst_io_stat(i):
                st[k] = lib.dst_io_stat(i)
        return st

    def fired(self, i):
        return lib.dst_io_fired(i)

    @staticmethod
    def log():
        return lib.dst_io_log().decode(errors="replace")


def clock(on=True, mono=True, start=1_700_000_000_000_000_000, step=1_000_000, jumps=()):
    lib.dst_clock(int(on), int(mono), start, step)
    for at, d in jumps:
        lib.dst_clock_jump(at, d)


# ------------------------------------------------------------ array memory (NEP 49)
_caps = {}


def arrays_on():
    """Route this thread's numpy array memory through the simulated allocator."""
    import numpy._core._multiarray_umath as mu
    if "fn" not in _caps:
        api = ctypes.pythonapi
        api.PyCapsule_GetPointer.restype = ctypes.c_void_p
        api.PyCapsule_GetPointer.argtypes = [ctypes.py_object, ctypes.c_char_p]
        api.PyCapsule_New.restype = ctypes.py_object
        api.PyCapsule_New.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_void_p]
        tab = ctypes.cast(api.PyCapsule_GetPointer(mu._ARRAY_API, None), ctypes.POINTER(ctypes.c_void_p))
        _caps["fn"] = ctypes.PYFUNCTYPE(ctypes.py_object, ctypes.py_object)(tab[304])
        _caps["name"] = ctypes.c_char_p(b"mem_handler")
        _caps["cap"] = api.PyCapsule_New(lib.dst_np_handler(), _caps["name"], None)
    _caps["old"] = _caps["fn"](_caps["cap"])


def arrays_off():
    if "old" in _caps:
        _caps["fn"](_caps.pop("old"))


def alloc(fill=0, seed=0, counting=0, fail_at=-1):
    lib.dst_alloc(fill, seed, counting, fail_at)


def alloc_stat():
    return lib.dst_alloc_stat(0), lib.dst_alloc_stat(1), lib.dst_alloc_stat(2)
