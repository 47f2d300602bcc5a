"""V01-V03: behaviours of Vfs.tla replayed into the real file layer."""
import json, os
from vlib import *

ONE = ["one"]
INNER = ["one", "inner-last", "inner-first"]
ALL = INNER + ["deep-last", "deep-first"]
UNIVERSES = {
    # name: files, imports, dirs, outside, root configurations, features, length
    "flat":  ("F_flat", "I_flat", None, None, ONE, ["pending"], 20),
    "three": ("F_three", "I_three", None, None, ONE, [], 24),
    "dir":   ("F_dir", "I_dir", "D_dir", None, ONE, ["dirs"], 24),
    "dirp":  ("F_dir", "I_dir", "D_dir", None, INNER, ["dirs", "pending"], 24),
    "deep":  ("F_deep", "I_deep", "D_deep", None, ALL, ["dirs"], 30),
    "out":   ("F_dir", "I_dir", "D_dir", "O_all", INNER, ["dirs", "outside"], 24),
    "db":    ("F_flat", "I_db", None, None, ONE, ["db", "pending"], 24),
    "all":   ("F_all", "I_all", "D_deep", "O_all", ALL,
              ["dirs", "pending", "db", "outside"], 40),
    "rec":   ("F_dir", "I_dir", "D_dir", "O_all", INNER, ["dirs", "recover", "outside"], 24),
    "recdb": ("F_flat", "I_db", None, "O_all", ONE, ["db", "recover", "pending", "outside"], 24),
    "recp":  ("F_deep", "I_deep", "D_deep", None, ALL, ["dirs", "recover", "pending"], 30),
}


def consts(u, depth=None, values=(1, 2), random=True):
    f, i, d, o, cfgs, feats, length = UNIVERSES[u]
    c = {"Files": "<-" + f, "ImportLists": "<-" + i,
         "Dirs": "<-" + d if d else set(), "Outside": "<-" + o if o else set(),
         "DbFile": "s.pyi", "Values": set(values), "Configs": set(cfgs),
         "Depth": depth or length, "Recording": random, "Features": set(feats)}
    if random:
        c = {"Pick": "<-PickRandom", "Mask": "<-SwarmMask", **c}
    return c


def replay(c, path, aspects):
    n = NCPU
    outs = parallel([lambda k=k: run_batch(c, [BIN + "/vfsh", "replay", path, str(k), str(n), aspects], "replay", timeout=240 if c.quick else 3000)
                     for k in range(n)])
    mism = [m for o in outs for m in o if "mismatch" in m]
    done = sum(m["done"] for o in outs for m in o if "done" in m)
    return done, sorted(mism, key=lambda m: m["mismatch"])


def run(c, universes, aspects, num):
    build("vfsh")
    c.log("harness built")
    # The model itself, exhaustively in a small universe (no history variable).
    cfg = c.path("model.cfg")
    write_cfg(cfg, consts("dirp", depth=1, values=(1,) if c.quick else (1, 2), random=False)
              | {"Configs": {"one"}, "ImportLists": "<-I_tiny" if c.quick else "<-I_dir",
                 "Files": "<-F_dir"},
              spec="FreeSpec", invariants=["TypeOK", "Overlay", "ReachClosed"],
              constraint="Shorter" if c.quick else "Short")

    def model():
        rc, out = tlc(c.work, "MCVfs.tla", cfg, ["-workers", "2"], mem="4g", tag="model")
        ok = tlc_ok(rc, out)
        if ok is None or not ok:
            raise ToolError("the model itself fails:\n" + open(out).read()[-3000:])
        return tlc_stats(out)

    jobs, names = [model], []
    per = [(u, k) for u in universes for k in range(1 if c.quick else 4)]
    for u, k in per:
        cf = c.path(f"{u}-{k}.cfg")
        write_cfg(cf, consts(u, depth=None if k % 2 == 0 else UNIVERSES[u][6] + 16),
                  invariants=["TypeOK", "Overlay", "ReachClosed", "Emit"])
        jobs.append(lambda u=u, k=k, cf=cf: simulate(
            c.work, "MCVfs.tla", cf, num, derive_seed(c.seed, c.prop, u, k), 100))
        names.append(u)
    res = parallel(jobs)
    gen, dist = res[0]
    c.add("states", dist)
    c.add("transitions", gen)
    total = 0
    steps = 0
    kinds = {}
    for u, (behs, g) in zip(names, res[1:]):
        c.add("transitions", g)
        c.add("states", g)
        p = c.path(f"{u}.ndjson")
        with open(p, "w") as f:
            f.write("\n".join(behs) + "\n")
        done, mism = replay(c, p, aspects)
        if done != len(behs) and not any(m["detail"]["why"].get("what") == "crash" for m in mism):
            raise ToolError(f"replayed {done} of {len(behs)} behaviours")
        total += done
        for b in behs:
            for o in json.loads(b)["ops"]:
                kinds[o["op"]] = kinds.get(o["op"], 0) + 1
                steps += 1
        c.sample({"universe": u, "behaviour": json.loads(behs[0])["ops"][:6]})
        for m in mism[:3]:
            w = m["detail"]["why"]
            c.violation(f"universe {u}: {w.get('what')}: want {w.get('want')} got {w.get('got')}",
                        {"behaviour": json.loads(behs[m["mismatch"]]), "detail": m["detail"],
                         "how": "vfsh replay FILE 0 1 " + aspects})
    c.cov["traces_validated_against_impl"] = total
    c.cov["steps_replayed"] = steps
    c.cov["steps_by_kind"] = kinds
    for k in known_findings(c.prop):
        p = os.path.join(VERIF, k["file"])
        if replay(c, p, aspects)[1]:
            c.known.append(f"{k['id']}: {k['what']}")


ASSUME = ["file system events are delivered in order, possibly late, never lost",
          "the exclusions listed in KNOWN_FINDINGS.txt",
          "the importing client of the harness registers dependencies as zuban_python/imports.rs does"]


def v01(c):
    c.assumptions = ASSUME
    run(c, ["flat", "dir", "dirp", "deep", "out", "db", "all"], "text", 2500 if c.quick else 25000)


def v02(c):
    c.assumptions = ASSUME
    run(c, ["flat", "three", "dir", "dirp", "deep", "db", "all"], "result,announce,db",
        3000 if c.quick else 25000)


def v03(c):
    c.assumptions = ASSUME
    run(c, ["rec", "recdb", "recp"], "after-recover,text,result,announce,db,recover",
        5000 if c.quick else 30000)


TABLE = {"V01": (v01, "model_checking"), "V02": (v02, "model_checking"),
         "V03": (v03, "model_checking")}
