"""Starting workers."""
import ctypes
import os
import subprocess
import sys

from .worker import recv, send

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def _no_aslr():
    try:
        ctypes.CDLL(None).personality(0x0040000)
    except Exception:
        pass


class Worker:
    def __init__(self, scratch, hashseed="0", extra=None):
        self.scratch = scratch
        os.makedirs(os.path.join(scratch, "home", "tmp"), exist_ok=True)
        e = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "LD_PRELOAD", "MPL"))}
        e.update(LD_PRELOAD=os.path.join(HERE, "build", "libdst.so"), PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1",
                 PYTHONPATH=HERE, PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"), MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
                 DST_SCRATCH=scratch, MPLCONFIGDIR=os.path.join(os.path.dirname(scratch), "mpl"), HOME=os.path.join(scratch, "home"), TMPDIR=os.path.join(scratch, "home", "tmp"), LC_ALL="C.UTF-8", TZ="UTC",
                 PYTHONMALLOC="default", GLIBC_TUNABLES="glibc.malloc.tcache_count=0", LOCPATH=os.path.join(HERE, "build", "loc"))
        e.update(extra or {})
        self.p = subprocess.Popen([sys.executable, "-B", "-u", "-m", "dst.worker"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  env=e, cwd=scratch, preexec_fn=_no_aslr)
        self.ready = None

    def wait_ready(self):
        if self.ready is None:
            self.ready = recv(self.p.stdout) or {"ready": False, "error": "worker ended at start"}
        return self.ready

    def ask(self, job):
        send(self.p.stdin, job)
        return recv(self.p.stdout)

    def stop(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            self.p.wait(5)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
