"""What a call must leave as it found it: process-wide settings and open files."""
import decimal
import gc
import hashlib
import locale
import logging
import os
import random
import resource
import signal
import sys
import threading
import warnings


def fds():
    out = {}
    for n in os.listdir("/proc/self/fd"):
        try:
            out[n] = os.readlink("/proc/self/fd/" + n)
        except OSError:
            pass
    return out


def _h(x):
    return hashlib.sha256(repr(x).encode()).hexdigest()[:12]


def look(plots=True):
    import numpy as np
    s = {}
    st = np.random.get_state(legacy=False)
    s["numpy global random state"] = _h((st["bit_generator"], st["state"]["key"].tobytes() if "key" in st["state"] else st["state"], st["state"].get("pos"), st["has_gauss"], st["gauss"]))
    s["random module state"] = _h(random.getstate())
    s["numpy error handling"] = tuple(sorted(np.geterr().items())) + (repr(np.geterrcall()),)
    s["numpy print options"] = repr(sorted((k, str(v)) for k, v in np.get_printoptions().items()))
    s["numpy buffer size"] = np.getbufsize()
    s["warning filters"] = repr(warnings.filters)
    s["showwarning"] = (id(warnings.showwarning), id(warnings._showwarnmsg_impl) if hasattr(warnings, "_showwarnmsg_impl") else 0)
    s["environment"] = _h(sorted(os.environ.items()))
    s["working directory"] = os.getcwd()
    s["umask"] = _umask()
    s["signal handlers"] = tuple(repr(signal.getsignal(x)) for x in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGUSR1, signal.SIGCHLD, signal.SIGFPE))
    s["signal mask"] = repr(sorted(signal.pthread_sigmask(signal.SIG_BLOCK, ())))
    s["limits"] = tuple(resource.getrlimit(x) for x in (resource.RLIMIT_NOFILE, resource.RLIMIT_STACK, resource.RLIMIT_AS, resource.RLIMIT_CPU))
    s["logging"] = (logging.root.level, repr(logging.root.handlers), logging.root.manager.disable, logging.lastResort is None, logging.raiseExceptions)
    s["alarm"] = signal.getitimer(signal.ITIMER_REAL)[0] > 0
    s["standard streams"] = (id(sys.stdout), id(sys.stderr), id(sys.stdin))
    s["locale"] = locale.setlocale(locale.LC_ALL)
    s["decimal context"] = repr(decimal.getcontext())
    s["recursion limit"] = sys.getrecursionlimit()
    s["garbage collector"] = (gc.isenabled(), gc.get_threshold())
    s["switch interval"] = sys.getswitchinterval()
    s["int digits"] = sys.get_int_max_str_digits()
    s["hooks"] = (id(sys.excepthook), id(sys.displayhook), id(threading.excepthook), repr(sys.gettrace()), repr(sys.getprofile()))
    s["sys.path"] = tuple(sys.path)
    s["threads"] = threading.active_count()
    s["open files"] = tuple(sorted(fds().items()))
    if plots:
        import matplotlib
        import matplotlib.pyplot as plt
        s["matplotlib settings"] = _h(sorted((k, repr(v)) for k, v in matplotlib.rcParams.items() if k not in ("backend", "backend_fallback", "interactive")))
        s["interactive"] = matplotlib.is_interactive()
        s["figures"] = tuple(plt.get_fignums())
    return s


def _umask():
    with open("/proc/self/status") as f:
        for line in f:
            if line.startswith("Umask"):
                return line.strip()


def diff(a, b, ignore=()):
    return [k for k in a if a[k] != b.get(k) and k not in ignore]
