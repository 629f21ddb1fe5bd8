"""A worker: a pristine process image that forks one simulated process after another."""
import hashlib
import importlib
import os
import pickle
import random
import struct
import sys
import time
import traceback


def rng_for(seed, prop, i):
    return random.Random(int.from_bytes(hashlib.sha256(("%s/%s/%s" % (seed, prop, i)).encode()).digest()[:8], "big"))


def send(f, obj):
    d = pickle.dumps(obj, protocol=5)
    f.write(struct.pack("<Q", len(d)) + d)
    f.flush()


def recv(f):
    h = f.read(8)
    if len(h) < 8:
        return None
    n = struct.unpack("<Q", h)[0]
    d = b""
    while len(d) < n:
        c = f.read(n - len(d))
        if not c:
            return None
        d += c
    return pickle.loads(d)


def handle(job):
    from . import env
    t = time.monotonic()
    out = {"i": job.get("i")}
    try:
        if "call" in job:
            m, f = job["call"]
            out["value"] = getattr(importlib.import_module("dst." + m), f)(*job["args"])
        else:
            P = importlib.import_module("dst." + job["prop"].lower())
            scn = job.get("scn")
            if scn is None:
                scn = P.generate(rng_for(job["seed"], job["prop"], job["i"]), job["tier"], job["i"])
            out["scn"] = scn
            if job.get("timeout"):
                env.TIMEOUT[0] = job["timeout"]
            try:
                out["result"] = P.run(scn)
            except env.TimedOut:
                out["result"] = {"violations": [{"kind": "no progress", "msg": "the simulated process did not finish within %d s" % env.TIMEOUT[0], "timeout": True}],
                                 "stats": {}, "cover": [], "trace": "timeout"}
    except BaseException:
        out["error"] = traceback.format_exc()
    out["wall"] = time.monotonic() - t
    return out


def main():
    inp = os.fdopen(os.dup(0), "rb")
    outp = os.fdopen(os.dup(1), "wb")
    dn = os.open(os.devnull, os.O_RDWR)
    os.dup2(dn, 0)
    os.dup2(2, 1)
    os.close(dn)
    try:
        from . import env
        env.boot(bool(os.environ.get("DST_BARE")))
        send(outp, {"ready": True})
    except BaseException:
        send(outp, {"ready": False, "error": traceback.format_exc()})
        return
    while True:
        job = recv(inp)
        if job is None:
            break
        send(outp, handle(job))
    inp.close()
    outp.close()


if __name__ == "__main__":
    main()
