#!/usr/bin/env python3
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
pure = ("A pure function of its numeric input: no schedule, clock, I/O, fault or other party appears in its "
        "quantifier, so simulation with fault injection would only be input generation under another name. ")
extra = {
 "C11": "Element matrices are closed formulas of coordinates and material.",
 "C12": "Element matrices are closed formulas of coordinates and material.",
 "C13": "Tables and polynomials only.",
 "C14": "Numbering is a function of the mesh; C01 and C05 exercise it against reference models but do not decide it for all inputs.",
 "C15": "A sum over a list; C01's reference model covers it only for models stored in files.",
 "C16": "A function of the mesh; C05 compares both assemblers with one model but only under callback behaviours.",
 "C17": "A function of mesh and field; C01 checks it only on its stored models.",
 "C18": "Closed formulas.",
 "C19": "A linear-algebra identity.",
 "C20": "A function of mesh arrays.",
 "C21": "A function of one element or one code.",
 "C22": "Approximation theory over real inputs.",
}
DST = {}
p = os.path.join(here, "tools", "claims.json")
if os.path.exists(p):
    DST = json.load(open(p))
checks = []
for q in props:
    if q["id"] in DST:
        c = DST[q["id"]]
        checks.append(dict(property=q["id"],
            quick_cmd="sh ./check %s" % q["id"],
            thorough_cmd="VERIF_TIER=thorough sh ./check %s" % q["id"],
            technique=c["technique"], level="exploration", level_note=c["level_note"]))
na = []
for q in props:
    if q["id"] in DST: continue
    if q["id"] in extra:
        na.append(dict(property=q["id"], reason=pure + extra[q["id"]]))
    else:
        na.append(dict(property=q["id"], reason="check under construction in this session"))
m = dict(version=1, setup_cmd="sh ./setup.sh", checks=checks, not_applicable=na,
         notes="No hooks in /repo: every seam is reached from outside (LD_PRELOAD shim, NEP 49 allocator handler, sys.monitoring, module stubs).")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
