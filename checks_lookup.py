"""V04: behaviours of Lookup.tla replayed into the real file layer."""
import json, os
from vlib import *


def v04(c):
    build("vfsh")
    c.assumptions = ["a file system with symbolic links; the disk does not change while it is looked up",
                     "roots added later do not lie below a root already known (KNOWN_FINDINGS.txt)"]
    n = NCPU
    num = 700 if c.quick else 12000
    jobs = []
    for k in range(n):
        cfg = c.path(f"{k}.cfg")
        write_cfg(cfg, {"Depth": 30 if k % 2 else 50},
                  invariants=["OwnerMostSpecific", "OpenFound", "OrderIrrelevant", "Emit"])
        jobs.append(lambda k=k, cfg=cfg: simulate(c.work, "Lookup.tla", cfg, num,
                                                  derive_seed(c.seed, "V04", k), 100))
    behs = []
    for b, g in parallel(jobs):
        behs += b
        c.add("states", g); c.add("transitions", g)
    p = c.path("lookup.ndjson")
    with open(p, "w") as f:
        f.write("\n".join(behs) + "\n")
    done = 0
    kinds = {}
    for b in behs:
        for o in json.loads(b):
            k = o["op"] + ":" + o["kind"] if "kind" in o else o["op"]
            kinds[k] = kinds.get(k, 0) + 1
    for res in parallel([lambda k=k: run_batch(c, [BIN + "/vfsh", "lookup", p, str(k), str(n)], "lookup")
                         for k in range(n)]):
        crashed = any("crashed" in r for r in res)
        d = sum(r.get("done", 0) for r in res)
        done += d
        if not crashed and not d:
            raise ToolError("nothing replayed")
        for m in [r for r in res if "mismatch" in r][:2]:
            w = m["detail"]["why"]
            c.violation(f"{w.get('what')} {w.get('path')}: want {w.get('want')} got {w.get('got')}",
                        {"behaviour": json.loads(behs[m["mismatch"]]), "detail": m["detail"],
                         "how": "vfsh lookup FILE 0 1"})
    if not c.violations and done != len(behs):
        raise ToolError(f"replayed {done} of {len(behs)}")
    c.cov["traces_validated_against_impl"] = done
    c.cov["steps_by_kind"] = kinds
    c.sample(behs[0])
    for k in known_findings(c.prop):
        r = run_batch(c, [BIN + "/vfsh", "lookup", os.path.join(VERIF, k["file"]), "0", "1"], "lookup")
        if any("mismatch" in x for x in r):
            c.known.append(f"{k['id']}: {k['what']}")


TABLE = {"V04": (v04, "model_checking")}
