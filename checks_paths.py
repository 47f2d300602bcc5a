"""V06: PathAlg.tla against the path functions of the file layer."""
import itertools, json
from vlib import *

SUBJ = ["a", "b", "B", "aB", ".a", "aba"]


def v06(c):
    build("vfsh")
    c.assumptions = ["platform conventions of the platform the checks run on (case matters on Linux)",
                     "path texts over the alphabet / . a b, patterns over literals ? * ** [..] [!..]"]
    base = {"Alphabet": "<-cAlphabet", "Names": "<-cNames", "SegParts": "<-cSegParts",
            "SubjectNames": "<-cSubjects", "MaxLen": 7 if c.quick else 9, "MaxComps": 3 if c.quick else 4,
            "RelLen": 4 if c.quick else 6, "MaxSegs": 2, "Sample": 2000 if c.quick else 60000}
    modes = ["text", "pair", "glob", "globrandom"]

    def one(mode):
        cfg = c.path(mode + ".cfg")
        k = dict(base, Mode=mode)
        if mode == "pair" and not c.quick:
            k.update(MaxComps=3)
        write_cfg(cfg, k, invariants=["Laws", "Emit"])
        rc, out = tlc(c.work, "MCPathAlg.tla", cfg, ["-workers", "1", "-seed", str(derive_seed(c.seed, mode))],
                      mem="3g", tag=mode)
        qs = list(dict.fromkeys(printed(out, "Q")))
        if rc != 0 or not qs:
            raise ToolError("TLC failed: " + "".join(l for l in open(out) if not l.startswith("<<"))[-2000:])
        return mode, qs, tlc_stats(out)

    subjects = ["/" + "/".join(x) for n in (1, 2, 3) for x in itertools.product(SUBJ, repeat=n)]
    for mode, qs, (gen, dist) in parallel([lambda m=m: one(m) for m in modes]):
        p = c.path(mode + ".ndjson")
        with open(p, "w") as f:
            f.write(json.dumps(subjects) + "\n" + "\n".join(qs) + "\n")
        res = run_lines([BIN + "/vfsh", "paths", p])
        done = sum(r.get("done", 0) for r in res)
        if done != len(qs):
            raise ToolError(f"{done} of {len(qs)} questions answered")
        c.add("states", dist); c.add("transitions", gen)
        c.add("traces_validated_against_impl", done)
        c.sample(qs[len(qs) // 2])
        for m in [r for r in res if "mismatch" in r][:3]:
            d = m["detail"]
            c.violation(f"{d['what']}: want {d.get('want')} got {d.get('got')}",
                        {"question": json.loads(qs[m["mismatch"]]), "detail": d})


TABLE = {"V06": (v06, "model_checking")}
