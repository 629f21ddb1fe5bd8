"""Is one seed one execution? The same runs in other workers and another order must leave the same traces."""
import random

from .__main__ import PROPS


def determinism(pool, argv, seed, n=40):
    code = 0
    for prop in argv or PROPS:
        first = pool.map([{"prop": prop, "seed": seed, "i": i, "tier": "quick"} for i in range(n)])
        order = list(range(n))
        random.Random(seed).shuffle(order)
        again = pool.map([{"prop": prop, "seed": seed, "i": i, "tier": "quick"} for i in order])
        other = {i: o for i, o in zip(order, again)}
        scns = pool.map([{"prop": prop, "scn": o["scn"], "fresh": k % 10 == 0} for k, o in enumerate(first)])
        bad = []
        for i, a in enumerate(first):
            b, c = other[i], scns[i]
            if any("error" in x for x in (a, b, c)):
                bad.append((i, "harness error"))
            elif not (a["result"]["trace"] == b["result"]["trace"] == c["result"]["trace"]):
                bad.append((i, a["result"]["trace"], b["result"]["trace"], c["result"]["trace"]))
        print("%s: %d runs executed three times (two orders, recorded scenario; fresh workers for every tenth): %s" % (prop, n, "all traces equal" if not bad else "DIFFERENT: %s" % bad[:5]), flush=True)
        code = code or bool(bad)
    return int(code)
