"""C04: concurrent calls from several threads do not influence each other."""
import hashlib
import sys

from . import c03, env, models, ops, sched, state, values

BUDGET = {"quick": (4500, 150, 60), "thorough": (40000, 3000, 300)}
RULE = ("one case is one interleaving of 2-4 simulated caller threads (real threads, one released at a time; who runs next is decided at every line or "
        "bytecode instruction of solidspy by the seed), each doing 1-5 calls; each result is compared with the same call alone in a pristine process. "
        "Non-trivial: at least one preemption inside a call; distinct by the sequence of switches taken")


def generate(rng, tier, i):
    nm = rng.choice([1, 2, 2, 3])
    specs = [models.gen(rng) for _ in range(nm)]
    for sp in specs:
        if rng.random() < 0.75:
            sp["nx"], sp["ny"] = min(sp["nx"], 2), min(sp["ny"], rng.choice([1, 2]))
    if nm > 1 and rng.random() < 0.5:
        specs[1] = dict(specs[0], E=specs[0]["E"] * 3, seed=rng.randrange(10**6), ox=specs[0]["ox"] + 1)
    if rng.random() < 0.08:
        specs[0] = dict(specs[0], bc="none")
    nt = rng.choice([2, 2, 2, 3, 4])
    favour = [rng.choice(ops.MESH), rng.choice(ops.SMALL), rng.choice(ops.MESH + ops.SMALL + ["assembler", "solids_auto"])]
    threads = []
    for t in range(nt):
        th = []
        for _ in range(rng.choice([1, 1, 2, 3, 5])):
            x = rng.random()
            o = rng.choice(favour) if x < 0.6 else rng.choice(ops.MESH) if x < 0.78 else rng.choice(ops.SMALL) if x < 0.93 else rng.choice(ops.FILE)
            th.append({"op": o, "m": rng.randrange(nm), "s": rng.choice([rng.randrange(10**6), rng.randrange(2)])})
        threads.append(th)
    if rng.random() < 0.3:
        f = rng.randrange(len(ops.FAMILIES))
        threads = [[{"op": "family", "m": f, "s": rng.randrange(10**6)} for _ in range(rng.choice([1, 2, 4, 8]))] for t in range(nt)]
    elif rng.random() < 0.3:               # everybody does the same thing at once
        o = rng.choice(["solids_auto", "solids_auto", "solids_GUI", "echomod", rng.choice(ops.MESH), rng.choice(ops.SMALL)])
        threads = [[{"op": o, "m": rng.randrange(nm), "s": rng.randrange(10**6)} for _ in range(rng.choice([1, 2, 2]))] for t in range(nt)]
    x = rng.random()
    seed = rng.randrange(2**31)
    if rng.random() < 0.3:
        pol = {"type": rng.choice(["novel", "shared"]), "p": rng.choice([0.1, 0.3, 0.6]), "max": rng.choice([3, 6, 9, 12, 14]), "seed": seed}
    elif x < 0.3:
        span = rng.choice([2, 5, 15, 40])
        pol = {"type": "hold", "max": rng.choice([4, 7, 12]), "p": rng.choice([0.02, 0.1, 0.3]), "seed": seed,
               "hot": sorted(rng.sample(range(span), rng.choice([1, 2]))) if rng.random() < 0.7 else []}
    elif x < 0.5:
        pol = {"type": "random", "p": rng.choice([0.002, 0.01, 0.05, 0.2, 0.5]), "seed": seed}
    elif x < 0.78:
        pol = {"type": "focus", "k": rng.choice([1, 2, 4, 8]), "p": rng.choice([0.02, 0.1, 0.3, 0.6]), "seed": seed}
    else:
        pol = {"type": "few", "d": rng.choice([1, 2, 3, 5, 8]), "len": rng.choice([20, 60, 200, 1000, 5000]), "seed": seed}
    return {"prop": "C04", "models": specs, "threads": threads, "sched": pol, "gran": rng.choice(["line", "line", "ins"])}


class Sink:
    def write(self, s):
        return len(s)

    def flush(self):
        pass


def simulate(scn, root):
    values.ROOT[0] = root
    base = ops.World(scn["models"], root)
    nt = len(scn["threads"])
    recs = [[] for _ in range(nt)]
    fails = []
    out, sys.stdout = sys.stdout, Sink()
    worlds = []
    for t in range(nt):
        w = ops.World([], root + "/t%d" % t)
        w.m, w.specs = base.m, base.specs
        worlds.append(w)
    before = values.given([dict(m) for m in base.m])

    def body(t):
        def go():
            w = worlds[t]
            try:
                for st in scn["threads"][t]:
                    dotted, args, kwargs = ops.prepare(w, st)
                    frozen = ops.freeze(dotted, args, kwargs)
                    files = w.files(st["m"]) if dotted.split(".")[1] in ("solids_GUI", "readin") else None
                    rec = {"fn": dotted, "frozen": frozen, "files": files, "out": None}
                    recs[t].append(rec)
                    res, txt, live = ops.invoke(dotted, args, kwargs, capture=False)
                    if dotted == "preprocesor.echomod" and res[0] == "ok":
                        res = ("ok", (res[1], values.snap(c03.echo_files(kwargs))))
                    rec["out"] = (res, "")
                    if st["op"] != "family":
                        ops.keep(w, st["m"], dotted, live)
            except sched.Deadlock:
                raise
            except BaseException:
                import traceback
                fails.append(traceback.format_exc())
        return go

    codes = sched.code_objects(env.REPO)
    s = sched.Sched(nt, scn["sched"], codes, scn["gran"])
    g0 = state.look()
    s.run([body(t) for t in range(nt)])
    g1 = state.look()
    sys.stdout = out
    if fails:
        raise env.HarnessError(fails[0])
    bad = []
    for i, x in enumerate(values.given([dict(m) for m in base.m])):
        if x != before[i]:
            bad.append({"kind": "shared arrays changed", "msg": "the arrays of model %d shared by the threads were changed" % i})
    if s.dead:
        bad.append({"kind": "calls do not finish", "msg": s.dead})
    elif state.diff(g0, g1):
        bad.append({"kind": "process changed", "msg": "after all calls had ended these had changed: %s" % "; ".join("%s: %s -> %s" % (k, str(g0[k])[:120], str(g1.get(k))[:120]) for k in state.diff(g0, g1))})
    return recs, bad, s.switches, s.events


def run(scn):
    with env.Scratch() as root:
        recs, bad, switches, events = env.fork(simulate, scn, root)
        memo = {}
        for t, th in enumerate(recs):
            for k, rec in enumerate(th):
                if rec["out"] is None:
                    continue
                key = hashlib.sha256(rec["frozen"] + repr(rec["files"]).encode()).digest()
                if key not in memo:
                    memo[key] = env.fork(c03.alone, rec["frozen"], rec["files"], root, None)
                ref = memo[key]
                if not ops.same_outcome(rec["out"], ref):
                    bad.append({"kind": "threads influence each other", "msg": "thread %d, call %d: %s gave %s; alone it gives %s" % (
                        t, k, rec["fn"], values.show(rec["out"][0]), values.show(ref[0]))})
    pre = [x for x in switches if x[0] >= 0]
    st = {"calls": sum(map(len, recs)), "scheduling points": events, "switches": len(pre), "runs %s" % scn["sched"]["type"]: 1, "runs per %s" % scn["gran"]: 1,
          "threads": len(recs), "failing calls": sum(r["out"] is not None and r["out"][0][0] == "exc" for th in recs for r in th)}
    return {"violations": bad, "stats": st, "cover": [values.digest((switches, scn["threads"]))] if len(pre) >= len(recs) else [],
            "trace": values.digest((switches, events, [[r["out"] for r in th] for th in recs])), "switches": switches}


def concrete(scn, result):
    return dict(scn, sched={"type": "explicit", "sw": result["switches"]})


def shrink(scn):
    th = scn["threads"]
    for t in range(len(th)):
        for k in range(len(th[t])):
            new = [list(x) for x in th]
            del new[t][k]
            yield dict(scn, threads=new)
    if scn["sched"]["type"] == "explicit":
        sw = scn["sched"]["sw"]
        n = len(sw)
        size = n // 2
        while size >= 1:
            for a in range(0, n, size):
                yield dict(scn, sched={"type": "explicit", "sw": sw[:a] + sw[a + size:]})
            size //= 2
            if n > 400 and size < n // 64:
                break
    for i, m in enumerate(scn["models"]):
        for key, v in (("nx", 1), ("ny", 1), ("jig", 0), ("perm", 0), ("nm", 1), ("nl", 1)):
            if m.get(key) != v:
                yield dict(scn, models=scn["models"][:i] + [dict(m, **{key: v})] + scn["models"][i + 1:])
