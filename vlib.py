"""Shared machinery of the checks: building, running TLC, evidence, verdicts."""
import json, os, re, shutil, subprocess, sys, time, tempfile, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
SPECS = os.path.join(VERIF, "specs")
EVID = os.path.join(VERIF, "evidence")
BIN = os.path.join(VERIF, "target", "release")
JAR = "/opt/veriftools/tla/tla2tools.jar"
NCPU = os.cpu_count() or 4


class ToolError(Exception):
    """The machinery itself failed: no verdict (exit 2)."""


def build(*crates):
    r = subprocess.run(["bash", os.path.join(VERIF, "tools", "build.sh"), *crates],
                       capture_output=True, text=True)
    if r.returncode != 0:
        raise ToolError("building the harness failed:\n" + r.stderr[-4000:])


class Check:
    """One run of the check of one property."""

    def __init__(self, prop, tier, seed, level):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.t0 = time.time()
        self.violations, self.known = [], []
        self.cov = {}
        self.samples = []
        self.assumptions = []
        base = os.environ.get("VERIF_WORK") or os.path.join(VERIF, "work")
        os.makedirs(base, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix=prop + "-", dir=base)
        self.quick = tier == "quick"
        d = os.path.join(EVID, "replay")
        for f in os.listdir(d) if os.path.isdir(d) else ():
            if f.startswith(prop + "-"):
                os.unlink(os.path.join(d, f))

    def path(self, name):
        return os.path.join(self.work, name)

    def add(self, key, n):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s if isinstance(s, str) else json.dumps(s)[:1500])

    def violation(self, what, data):
        """Records a violation together with everything needed to replay it."""
        n = len(self.violations)
        d = os.path.join(EVID, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{self.prop}-{n}.json")
        with open(path, "w") as f:
            json.dump({"property": self.prop, "what": what, "data": data}, f, indent=1)
        self.violations.append({"what": what, "replay": path})

    def log(self, *a):
        print(f"[{self.prop} {time.time()-self.t0:6.1f}s]", *a, flush=True)

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        cov = dict(self.cov)
        cov["samples"] = self.samples
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed,
              "level": self.level, "coverage": cov,
              "wall_s": round(time.time() - self.t0, 2),
              "assumptions": self.assumptions, "violations": self.violations}
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.prop} {k}")
        for v in self.violations[:20]:
            print(f"VIOLATION property={self.prop} replay={v['replay']}   {v['what'][:300]}")
        self.log("coverage", {k: v for k, v in cov.items() if k != "samples"})
        return 1 if self.violations else 0


# ---------------------------------------------------------------- TLC
def write_cfg(path, consts, spec="Spec", invariants=(), constraint=None, extra="",
              deadlock=False, properties=(), postcondition=None, init_next=None):
    lines = []
    if consts:
        lines.append("CONSTANTS")
        for k, v in consts.items():
            lines.append(f" {k} <- {v[2:]}" if isinstance(v, str) and v.startswith("<-")
                         else f" {k} = {tla(v)}")
    if init_next:
        lines += [f"INIT {init_next[0]}", f"NEXT {init_next[1]}"]
    else:
        lines.append(f"SPECIFICATION {spec}")
    if invariants:
        lines.append("INVARIANTS " + " ".join(invariants))
    if properties:
        lines.append("PROPERTIES " + " ".join(properties))
    if constraint:
        lines.append("CONSTRAINT " + constraint)
    if postcondition:
        lines.append("POSTCONDITION " + postcondition)
    lines.append(f"CHECK_DEADLOCK {'TRUE' if deadlock else 'FALSE'}")
    lines.append(extra)
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"' + v.replace("\\", "\\\\").replace('"', '\\"') + '"'
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla(x) for x in sorted(v, key=repr)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    raise TypeError(v)


def tlc(work, module, cfg, args=(), mem="2g", timeout=None, env=None, tag="tlc"):
    """Runs TLC, returns (exit code, path of its output)."""
    md = tempfile.mkdtemp(prefix="md-", dir=work)
    out = os.path.join(work, f"{tag}-{os.path.basename(md)}.out")
    cp = JAR
    cm = "/opt/veriftools/tla/CommunityModules-deps.jar"
    if os.path.exists(cm):
        cp += ":" + cm
    cmd = ["java", "-Dfile.encoding=UTF-8", "-Dsun.stdout.encoding=UTF-8",
           "-Dstdout.encoding=UTF-8", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss64m", f"-Xmx{mem}",
           "-DTLA-Library=" + SPECS, "-cp", cp, "tlc2.TLC", "-noGenerateSpecTE",
           "-metadir", md, "-config", cfg, *args, module]
    e = dict(os.environ)
    e.update(env or {})
    with open(out, "w") as f:
        try:
            rc = subprocess.run(cmd, cwd=SPECS, stdout=f, stderr=subprocess.STDOUT,
                                timeout=timeout, env=e).returncode
        except subprocess.TimeoutExpired:
            rc = -1
    shutil.rmtree(md, ignore_errors=True)
    return rc, out


def tlc_stats(out):
    """(states generated, distinct states) of a finished TLC run."""
    gen = dist = 0
    for l in open(out, encoding="utf-8", errors="replace"):
        m = re.match(r"([\d,]+) states generated, ([\d,]+) distinct states found", l)
        if m:
            gen, dist = (int(x.replace(",", "")) for x in m.groups())
        elif l.startswith("The number of states generated:"):
            gen = int(l.split(":")[1].replace(",", ""))
    return gen, dist


def decode(s):
    """Characters beyond ASCII are written <hex> in specifications that are
    explored exhaustively (TLC's queue of states does not keep them)."""
    return re.sub("<([0-9a-f]{2,5})>", lambda m: chr(int(m.group(1), 16)), s)


def printed(out, tag):
    """The JSON payloads of PrintT(<<"tag", ToJson(..)>>) lines."""
    pre = f'<<"{tag}", '
    for l in open(out, encoding="utf-8", errors="replace"):
        if l.startswith(pre):
            yield json.loads(l[len(pre):l.rindex(">>")])


def tlc_ok(rc, out):
    if rc == 0:
        return True
    text = open(out, encoding="utf-8", errors="replace").read()
    return False if ("is violated" in text or "Temporal properties were violated" in text) else None


def simulate(work, module, cfg, num, seed, depth, tag="BEHAVIOUR", mem="1500m"):
    """Random behaviours of a specification, as a list of distinct JSON texts."""
    rc, out = tlc(work, module, cfg,
                  ["-simulate", f"num={num}", "-depth", str(depth), "-seed", str(seed),
                   "-workers", "1"], mem=mem, tag="sim")
    res = list(dict.fromkeys(printed(out, tag)))
    if rc != 0 or not res:
        raise ToolError(f"TLC simulation of {module} failed (rc={rc}):\n" +
                        "".join(l for l in open(out, encoding="utf-8", errors="replace")
                                if not l.startswith("<<"))[-3000:])
    gen, _ = tlc_stats(out)
    os.unlink(out)
    return res, gen


def parallel(jobs, n=NCPU):
    """Runs thunks in parallel, returns their results in order."""
    with ThreadPoolExecutor(max_workers=n) as ex:
        return list(ex.map(lambda j: j(), jobs))


def run_lines(cmd, timeout=None, stdin=None):
    """Runs a harness command that prints one JSON object per line."""
    r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, input=stdin)
    if r.returncode != 0:
        raise ToolError(f"{' '.join(cmd[:3])} exited with {r.returncode}: {r.stderr[-2000:]}")
    return [json.loads(l) for l in r.stdout.splitlines() if l.strip()]


def run_batch(c, cmd, what, timeout=300):
    """Runs a harness command that announces each item with {"begin": i} first.
    A crash, abort or hang of the code under test is attributed to the item that
    was begun last and returned as a mismatch of it."""
    import signal
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                         start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        how = None if p.returncode == 0 else f"exited with {p.returncode}: {err[-300:]}"
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        how = f"did not finish within {timeout} s"
    res, last = [], None
    for l in out.splitlines():
        try:
            r = json.loads(l)
        except ValueError:
            continue
        if "begin" in r:
            last = r["begin"]
        else:
            res.append(r)
    if how:
        if last is None:
            raise ToolError(f"{' '.join(cmd[:3])} {how}")
        res.append({"mismatch": last, "detail": {"why": {"what": "crash", "got": what + " " + how}}})
        res.append({"crashed": True})
    return res


def derive_seed(seed, *parts):
    h = hashlib.sha256(("/".join([str(seed), *map(str, parts)])).encode()).digest()
    return int.from_bytes(h[:4], "big") % 2_000_000_000 + 1


# ---------------------------------------------------------------- findings
def known_findings(prop):
    """Entries `known: property=ID id=NAME file=PATH | what`."""
    res = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith(f"known: property={prop} "):
                head, what = l[len("known: "):].rstrip("\n").split(" | ", 1)
                d = dict(x.split("=", 1) for x in head.split())
                d["what"] = what
                res.append(d)
    return res


def main(table):
    import argparse, traceback
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    if a.property not in table:
        print("unknown property", a.property)
        return 2
    fn, level = table[a.property]
    c = Check(a.property, a.tier, a.seed, level)
    try:
        fn(c)
        return c.finish()
    except ToolError as e:
        print(f"NO VERDICT property={a.property}: {e}", file=sys.stderr)
        shutil.rmtree(c.work, ignore_errors=True)
        return 2
    except Exception:
        traceback.print_exc()
        shutil.rmtree(c.work, ignore_errors=True)
        return 2
