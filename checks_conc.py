"""V05: schedules of Conc.tla forced on real threads, outcomes judged by Conc!ValidOutcome."""
import json, os
from vlib import *

INV = ["OneIdentity", "TextHasIndex", "RootsOnce", "NoStuck"]


def judge(c, outs):
    """Which of the recorded outcomes the specification rejects, and why."""
    p = c.path("outcomes.ndjson")
    with open(p, "w") as f:
        f.write("\n".join(json.dumps(o) for o in outs) + "\n")
    cfg = c.path("judge.cfg")
    write_cfg(cfg, {"Threads": "<-T2", "Programs": "<-P1", "Random": False}, spec="JSpec")
    rc, out = tlc(c.work, "MCConcJudge.tla", cfg, ["-workers", "1"], env={"OUTCOMES": p}, tag="judge")
    if rc != 0:
        raise ToolError("judging failed: " + open(out).read()[-2000:])
    gen, dist = tlc_stats(out)
    if dist != len(outs) + 1:
        raise ToolError(f"judged {dist - 1} of {len(outs)} outcomes")
    c.add("states", dist); c.add("transitions", gen)
    return [json.loads(b) for b in printed(out, "BAD")]


def v05(c):
    build("vfsh")
    c.assumptions = ["schedules are forced at calls back into the environment; between two of them a "
                     "thread runs freely (also exercised by free running threads)"]
    scheds = []

    def exhaust(tag, consts, props=True, args=("-workers", "1")):
        cfg = c.path(tag + ".cfg")
        write_cfg(cfg, consts, invariants=INV + ["Emit"], properties=["TextNeverChanges"] if props else [])
        rc, out = tlc(c.work, "MCConc.tla", cfg, list(args), mem="6g", tag=tag)
        if rc != 0:
            raise ToolError("the model fails: " + "".join(l for l in open(out) if l[0] != "<")[-2000:])
        c.add("states", tlc_stats(out)[1]); c.add("transitions", tlc_stats(out)[0])
        return list(dict.fromkeys(printed(out, "SCHEDULE")))

    jobs = [lambda: exhaust("two", {"Threads": {1, 2}, "Programs": "<-Single", "Random": False})]
    n = 400 if c.quick else 6000
    for k, (th, pr) in enumerate([({1, 2, 3}, "Single"), ({1, 2}, "Long"), ({1, 2, 3}, "Long"), ({1, 2, 3, 4}, "Single")]):
        jobs.append(lambda k=k, th=th, pr=pr: exhaust(
            f"sim{k}", {"Threads": th, "Programs": "<-" + pr, "Random": True}, False,
            ["-simulate", f"num={n}", "-depth", "100", "-seed", str(derive_seed(c.seed, "V05", k)), "-workers", "1"]))
    for r in parallel(jobs):
        scheds += r
    c.log(len(scheds), "schedules")
    lines = []
    for i, s in enumerate(scheds):
        d = json.loads(s)
        d["prog"] = d["prog"] if isinstance(d["prog"], list) else [d["prog"][k] for k in sorted(d["prog"], key=int)]
        d["lazy"] = i % 2 == 1
        lines.append(json.dumps(d))
    p = c.path("sched.ndjson")
    with open(p, "w") as f:
        f.write("\n".join(lines) + "\n")
    w = 16
    outcomes = {}
    crashed = False
    for res in parallel([lambda k=k: run_batch(c, [BIN + "/vfsh", "conc", p, str(k), str(w)], "schedule",
                                               timeout=120 if c.quick else 1500) for k in range(w)], n=w):
        for r in res:
            if "outcome" in r:
                outcomes[r["item"]] = r["outcome"]
            elif "mismatch" in r:
                crashed = True
                c.violation(f"{r['detail']['why']['got']}", {"schedule": json.loads(lines[r["mismatch"]])})
    if not crashed and len(outcomes) != len(lines):
        raise ToolError(f"{len(outcomes)} of {len(lines)} schedules ran")
    items = sorted(outcomes)
    bad = 0
    for i in items:
        if outcomes[i]["panics"]:
            bad += 1
            if bad <= 3:
                c.violation("a thread panicked", {"schedule": json.loads(lines[i]), "outcome": outcomes[i]})
    good = [i for i in items if not outcomes[i]["panics"]]
    if good:
        for b in judge(c, [outcomes[i] for i in good])[:5]:
            i = good[b["n"]]
            c.violation("violated: " + ", ".join(sorted(b["why"])),
                        {"schedule": json.loads(lines[i]), "outcome": outcomes[i]})
    rounds = 60 if c.quick else 2000
    for r in run_batch(c, [BIN + "/vfsh", "conc", "stress", str(rounds), "3000"], "free running threads"):
        if "mismatch" in r:
            c.violation(f"free running threads: {r['detail']['why']}", {})
    c.cov["schedules"] = len(items)
    c.cov["traces_validated_against_impl"] = len(items)
    c.cov["free_running_rounds"] = rounds
    c.sample(lines[0]); c.sample(json.dumps(outcomes.get(0)))


TABLE = {"V05": (v05, "model_checking")}
