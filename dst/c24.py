"""C24: calls made in the middle of another call - from a handler in the same thread, or in a forked child."""
import hashlib
import os
import pickle
import select
import shutil
import threading

from . import c03, env, models, ops, points, values

BUDGET = {"quick": (9000, 130, 60), "thorough": (250000, 3000, 300)}
RULE = ("one case is a call during which, at 1-3 instants drawn from the seed, further calls are made: by a handler in the same thread, in a child process forked there, in a child forked by "
        "another thread, or in a forked child that also finishes the interrupted call. Non-trivial: an instant was reached; distinct by (outer function, inner functions, manner, place)")
COMPONENTS = {"real": "all of solidspy, numpy, scipy, os.fork", "stub": "delivery of the signal (the handler is called where CPython would run it)"}
ASSUMPTIONS = ["handlers run where CPython checks for signals inside solidspy code; numpy and scipy calls are not split",
               "a call that has not finished after 12 s is taken to be stuck"]
LIMIT = 12


def generate(rng, tier, i):
    nm = rng.choice([1, 1, 2])
    specs = []
    for _ in range(nm):
        s = models.gen(rng)
        s["nx"], s["ny"] = min(s["nx"], 3), min(s["ny"], 2)
        specs.append(s)
    if nm == 2 and rng.random() < 0.6:                 # a look-alike
        specs[1] = dict(specs[0], seed=rng.randrange(10**6), E=rng.choice([1.0, 3.0, 7.0]))
    pool = ops.MESH * 2 + ops.SMALL + ["assembler", "solids_auto", "DME", "strain_nodes"] + ops.FILE

    def o(k=None):
        return {"op": k or rng.choice(pool), "m": rng.randrange(nm), "s": rng.choice([rng.randrange(10**6), rng.randrange(4)])}
    outer = o()
    inner = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        x = rng.random()
        inner.append(dict(outer) if x < 0.15 else o(outer["op"]) if x < 0.55 else o())
    return {"prop": "C24", "models": specs, "before": [o(outer["op"]) for _ in range(rng.choice([0, 0, 1]))], "outer": outer, "inner": inner,
            "how": rng.choice(["handler"] * 5 + ["fork", "thread", "thread", "both"]), "pick": rng.choice(["any", "place", "place", "shared"]), "at": sorted(rng.random() for _ in range(rng.choice([1, 1, 2, 3])))}


def prepared(w, os_):
    out = []
    for o in os_:
        out.append(ops.prepare(w, o))
    return out


def in_child(fn):
    """Run fn in a child forked right here; its answer, or None when it is stuck or died."""
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            d = pickle.dumps(fn(), protocol=5)
            while d:
                d = d[os.write(wr, d):]
        finally:
            os._exit(0)
    os.close(wr)
    return collect(r, pid)


def collect(r, pid):
    data = b""
    while select.select([r], [], [], LIMIT)[0]:
        c = os.read(r, 1 << 20)
        if not c:
            break
        data += c
    os.close(r)
    os.kill(pid, 9)
    os.waitpid(pid, 0)
    try:
        return pickle.loads(data)
    except Exception:
        return None


def session(scn, root, measuring):
    values.ROOT[0] = root
    w = ops.World(scn["models"], root)
    before = prepared(w, scn["before"])
    outer = ops.prepare(w, scn["outer"])
    inner = prepared(w, scn["inner"])
    calls = [outer] + inner
    for j, c in enumerate(calls):                      # every echo to a folder of its own
        if c[0] == "preprocesor.echomod":
            c[2]["folder"] = os.path.join(root, "echo%d" % j) + "/"
            shutil.rmtree(c[2]["folder"], ignore_errors=True)
            os.makedirs(c[2]["folder"])
    frozen = [ops.freeze(*c) for c in calls]
    files = {}
    for o in [scn["outer"]] + scn["inner"]:
        if o["op"] in ops.FILE and os.path.isdir(w.folder(o["m"])):
            files.update(w.files(o["m"]))
    snaps = [values.given(c[1]) for c in calls]
    for c in before:
        ops.invoke(*c)
    got, where, notes = [], [], []
    me = os.getpid()

    def nested():
        if os.getpid() != me:
            p.at = ()
        out = []
        for j, c in enumerate(inner):
            res, txt, _ = ops.invoke(*c)
            out.append((j + 1, (res, txt)))
        return out
    if measuring:
        with points.Points(everywhere=True) as p:
            ops.invoke(*outer)
        return p.measured()
    child = []
    how = scn["how"]
    if how == "thread":
        reached, go = threading.Event(), threading.Event()

    def act():
        where.append(p.where)
        if how == "handler":
            got.extend(nested())
        elif how == "fork":
            a = in_child(nested)
            if a is None:
                notes.append("the calls in a child forked at %s did not finish" % (p.where,))
            else:
                got.extend(a)
        elif how == "both" and os.getpid() == me and not child:
            r, wr = os.pipe()
            pid = os.fork()
            if pid:
                os.close(wr)
                child.append((r, pid))
            else:
                os.close(r)
                child.append((wr, 0))
        elif how == "thread":
            reached.set()
            go.wait()
            go.clear()
    p = points.Points(scn["ks"], act, everywhere=True)
    if how != "thread":
        with p:
            res, txt, _ = ops.invoke(*outer)
        got.append((0, (res, txt)))
        if child and os.getpid() != me:
            try:
                d = pickle.dumps([(0, (res, txt))] + nested(), protocol=5)
                while d:
                    d = d[os.write(child[0][0], d):]
            finally:
                os._exit(0)
        if child:
            a = collect(*child[0])
            if a is None:
                notes.append("the interrupted call and the calls after it did not finish in a child forked at %s" % (p.where,))
            else:
                got.extend(a)
            got.extend(nested())
    else:
        done = []

        def body():
            res, txt, _ = ops.invoke(*outer, capture=False)
            done.append((0, (res, txt)))
            reached.set()
        with p:
            t = threading.Thread(target=body)
            t.start()
            while True:
                reached.wait()
                reached.clear()
                if done:
                    break
                a = in_child(nested)
                if a is None:
                    notes.append("the calls in a child forked while another thread was at %s did not finish" % (p.where,))
                else:
                    got.extend(a)
                go.set()
            t.join()
        got.extend(done)
    for j, c in enumerate(calls):
        for k, a in enumerate(c[1]):
            if values.given([a])[0] != snaps[j][k] and ops.INPLACE.get(c[0]) != k:
                notes.append("argument %d of %s was changed" % (k, c[0]))
    for i, (j, (res, txt)) in enumerate(got):
        if calls[j][0] == "preprocesor.echomod" and res[0] == "ok":
            got[i] = (j, (("ok", (res[1], values.snap(c03.echo_files(calls[j][2])))), txt))
    return got, where, notes, frozen, files, [c[0] for c in calls]


def alone(frozen, files, root):
    return c03.alone(frozen, files, root, None)


def run(scn):
    with env.Scratch() as root:
        if "ks" not in scn:
            n = env.fork(session, scn, root, True, threads=False)
            scn = dict(scn, ks=sorted({points.pick(n, f, scn.get("pick", "any")) for f in scn["at"]}))
        bad = []
        try:
            got, where, notes, frozen, files, names = env.fork(session, scn, root, False, threads=False, timeout=LIMIT if scn["how"] == "handler" else 4 * LIMIT)
        except env.TimedOut:
            return {"violations": [{"kind": "no progress", "msg": "%s did not finish with %s made at its points %s (%s)" % (
                scn["outer"]["op"], [o["op"] for o in scn["inner"]], scn["ks"], scn["how"])}], "stats": {}, "cover": [], "trace": "stuck", "scn": scn}
        for t in notes:
            bad.append({"kind": "no progress" if "finish" in t else "argument changed", "msg": t})
        memo = {}
        for j, out in got:
            key = hashlib.sha256(frozen[j]).digest()
            if key not in memo:
                memo[key] = env.fork(alone, frozen[j], files, root, threads=False)
            if not ops.same_outcome(out, memo[key]):
                bad.append({"kind": "outer call affected" if j == 0 else "inner call affected", "msg": "%s %s (%s, points %s at %s) gave %s; alone it gives %s" % (
                    names[j], "interrupted by %s" % names[1:] if j == 0 else "inside %s" % names[0], scn["how"], scn["ks"], where, values.show(out[0]), values.show(memo[key][0]))})
    st = {"calls": len(got), "manner: " + scn["how"]: 1, "instants": len(where)}
    cover = [values.digest((names[0], tuple(names[1:]), scn["how"], tuple(map(str, where))))] if where else []
    return {"violations": bad, "stats": st, "cover": cover, "trace": values.digest((got, where, notes)), "scn": scn}


def concrete(scn, result):
    return result["scn"]


def shrink(scn):
    if scn["before"]:
        yield dict(scn, before=[])
    for j in range(len(scn["inner"])):
        if len(scn["inner"]) > 1:
            yield dict(scn, inner=scn["inner"][:j] + scn["inner"][j + 1:])
    for j in range(len(scn.get("ks", ()))):
        if len(scn["ks"]) > 1:
            yield dict(scn, ks=scn["ks"][:j] + scn["ks"][j + 1:])
    for i, m in enumerate(scn["models"]):
        for key, v in (("nx", 1), ("ny", 1), ("jig", 0), ("perm", 0), ("nm", 1), ("nl", 1)):
            if m.get(key) != v:
                yield {k: v2 for k, v2 in dict(scn, models=scn["models"][:i] + [dict(m, **{key: v})] + scn["models"][i + 1:]).items() if k != "ks"}
