"""Inside a worker: the pristine process image, forked simulated processes and scratch folders."""
import ast
import json
import os
import pickle
import resource
import select
import shutil
import signal
import sys
import time
import traceback

from . import seams, values

REPO = os.environ.get("DST_REPO", "/repo")
SCRATCH = os.environ.get("DST_SCRATCH", "/tmp")
MODULES = ("preprocesor", "assemutil", "solutil", "postprocesor", "blochutil", "uelutil", "femutil", "gaussutil", "solids_GUI")


TIMEOUT = [60.0]
_partners = {}


class HarnessError(Exception):
    pass


class Died(Exception):
    """The simulated process ended without an answer."""

    def __init__(self, status):
        self.status = status
        self.code = os.WEXITSTATUS(status) if os.WIFEXITED(status) else -os.WTERMSIG(status)
        super().__init__("simulated process ended with %d" % self.code)


class TimedOut(Exception):
    pass


def libraries():
    """The libraries the code under test names in its imports."""
    base = os.path.join(REPO, "solidspy")
    out = set()
    for d, ds, fs in os.walk(base):
        for n in fs:
            if n.endswith(".py") and "tests" not in d:
                try:
                    with open(os.path.join(d, n), encoding="utf-8") as f:
                        tree = ast.parse(f.read())
                except (OSError, SyntaxError, ValueError):
                    continue
                for x in ast.walk(tree):
                    if isinstance(x, ast.Import):
                        out.update(a.name for a in x.names)
                    elif isinstance(x, ast.ImportFrom) and x.module and not x.level:
                        out.add(x.module)
                        out.update(x.module + "." + a.name for a in x.names)
    return sorted(m for m in out if m.split(".")[0] not in ("solidspy", "pytest", "easygui"))


def boot(bare=False):
    """Import the libraries and, unless bare, the code under test, once, as a fresh user process would."""
    os.environ.setdefault("MPLBACKEND", "Agg")
    import threading                                   # noqa: F401
    import concurrent.futures.thread                   # noqa: F401
    sys.path.insert(0, REPO)
    import numpy, scipy.sparse.linalg, scipy.linalg, numpy.linalg  # noqa: F401,E401
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot  # noqa: F401
    if bare:
        import importlib
        for m in libraries():
            try:
                importlib.import_module(m)
            except Exception:
                pass
    else:
        package()
    seams.load()
    import gc
    gc.collect()
    gc.freeze()                                        # forked children share these pages


def package():
    import importlib
    from . import sched
    nested = sched.patched()
    sched.patch_locks()
    try:
        for m in MODULES:
            mod = importlib.import_module("solidspy." + m)
            if not os.path.realpath(mod.__file__).startswith(os.path.realpath(REPO) + os.sep):
                raise HarnessError("imported %s instead of %s" % (mod.__file__, REPO))
    finally:
        if not nested:
            sched.unpatch_locks()
    sched.refresh(REPO)


def mod(name):
    return sys.modules["solidspy." + name]


def fork(fn, *args, timeout=None, threads=True, schedule=None):
    """Run fn(*args) in a forked copy of this (pristine) process and return its pickled result."""
    timeout = timeout or TIMEOUT[0]
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            os.setpgid(0, 0)
            os.close(r)
            signal.signal(signal.SIGINT, signal.default_int_handler)      # as when a user starts Python, however this program was started
            for n in ("SIGTERM", "SIGHUP", "SIGQUIT", "SIGUSR1", "SIGUSR2", "SIGALRM", "SIGCHLD"):
                signal.signal(getattr(signal, n), signal.SIG_DFL)
            signal.pthread_sigmask(signal.SIG_SETMASK, ())
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 28, 1 << 28))
            dn = os.open(os.devnull, os.O_RDWR)
            os.dup2(dn, 0)
            os.dup2(dn, 1)
            if not os.environ.get("DST_DEBUG"):
                os.dup2(dn, 2)
            else:
                import faulthandler
                faulthandler.dump_traceback_later(20)
            os.close(dn)
            try:
                from . import sched
                if threads:
                    seed = schedule if schedule is not None else json.dumps(args[0], sort_keys=True, default=str) if args and isinstance(args[0], dict) else ""
                    out = ("ok", sched.single(fn, args, REPO, "one" + seed))
                else:
                    out = ("ok", fn(*args))
            except sched.Deadlock:
                out = ("late", None)
            except BaseException:
                out = ("error", traceback.format_exc())
            data = pickle.dumps(out, protocol=5)
            n = 0
            while n < len(data):
                n += os.write(w, data[n:n + (1 << 20)])
            code = 0
        except BaseException:
            pass
        finally:
            os._exit(code)
    os.close(w)
    end = time.monotonic() + timeout
    chunks = []
    try:
        while True:
            left = end - time.monotonic()
            if left <= 0 or not select.select([r], [], [], left)[0]:
                raise TimedOut()
            c = os.read(r, 1 << 20)
            if not c:
                break
            chunks.append(c)
    finally:
        os.close(r)
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
        _, status = os.waitpid(pid, 0)
    data = b"".join(chunks)
    try:
        tag, val = pickle.loads(data)
    except Exception:
        raise Died(status)
    if tag == "late":
        raise TimedOut()
    if tag == "error":
        raise HarnessError("in simulated process:\n" + val)
    return val


def clean_home():
    """An empty home, temporary and working directory, as on a machine the package never ran on."""
    for n in ("home", "cwd"):
        d = os.path.join(SCRATCH, n)
        os.makedirs(d, exist_ok=True)
        for x in os.listdir(d):
            p = os.path.join(d, x)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p, ignore_errors=True)
            else:
                os.unlink(p)
    os.makedirs(os.path.join(SCRATCH, "home", "tmp"))
    os.chdir(os.path.join(SCRATCH, "cwd"))


class Scratch:
    """A folder for one simulated run, always at the same path within a worker."""

    def __init__(self, name="run"):
        self.path = os.path.join(SCRATCH, name)

    def __enter__(self):
        clean_home()
        shutil.rmtree(self.path, ignore_errors=True)
        os.makedirs(self.path)
        self.path = os.path.realpath(self.path)
        values.ROOT[0] = self.path
        return self.path

    def __exit__(self, *exc):
        shutil.rmtree(self.path, ignore_errors=True)
        values.ROOT[0] = "\0none"
        return False


def partner(hashseed, extra, module, func, *args):
    """Run dst.module.func(*args) in a worker whose interpreter started with another hash seed and environment."""
    from . import proc
    key = (hashseed, tuple(sorted(extra.items())))
    if key not in _partners:
        w = proc.Worker(os.path.join(SCRATCH, "partner%d" % len(_partners)), hashseed, dict({"MPLCONFIGDIR": os.environ["MPLCONFIGDIR"]}, **extra))
        r = w.wait_ready()
        if not r["ready"]:
            raise HarnessError(r["error"])
        _partners[key] = w
    out = _partners[key].ask({"call": (module, func), "args": args})
    if out is None or "error" in out:
        raise HarnessError("partner: %s" % (out and out["error"]))
    return out["value"]
