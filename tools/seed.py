#!/usr/bin/env python3
"""seed.py FILE.py...: makes seeded/<id>/ from a description, confirms it, runs the checks.

A description sets: ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (Rust source of a
small program; exit code 0 = fine) and DEPS (crates of /repo it uses).
"""
import json, os, subprocess, sys, runpy
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# Builds and runs demo.rs against the crates in the current directory (/repo).
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable
t=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$t"' EXIT
mkdir "$t/src"; cp "$here/demo.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
@DEPS@
EOF
cp "$repo/Cargo.lock" "$t/Cargo.lock"
export CARGO_TARGET_DIR="$t/target"
cd "$t" && cargo build --offline -q || exit 0
mkdir scratch && cd scratch && timeout 100 "$t/target/debug/demo"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def restore():
    sh("git -C /repo checkout -- .")


def make(desc):
    d = runpy.run_path(desc)
    out = os.path.join(VERIF, "seeded", d["ID"])
    os.makedirs(out, exist_ok=True)
    assert not sh("git -C /repo status --porcelain --untracked-files=no").stdout
    try:
        for f, old, new in d["EDITS"]:
            p = os.path.join("/repo", f)
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        open(os.path.join(out, "patch.diff"), "w").write(sh("git -C /repo diff").stdout)
    finally:
        restore()
    deps = "".join((f'{x} = {{ path = "$repo/crates/{x}" }}\n' if "=" not in x else x + "\n")
                   for x in d["DEPS"])
    open(os.path.join(out, "demo.sh"), "w").write(DEMO_SH.replace("@DEPS@\n", deps))
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    open(os.path.join(out, "demo.rs"), "w").write(d["DEMO"])
    json.dump({"property": d["PROP"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]},
              open(os.path.join(out, "meta.json"), "w"), indent=1)
    return d["ID"], d["PROP"]


def confirm(i, props):
    out = os.path.join(VERIF, "seeded", i)
    ok = sh(f"cd /repo && bash {out}/demo.sh")
    if ok.returncode:
        print(i, "demo FAILS on the unchanged tree", ok.stdout[-800:], ok.stderr[-1500:]); return
    try:
        r = sh(f"git -C /repo apply {out}/patch.diff")
        assert r.returncode == 0, r.stderr
        r = sh("bash /opt/vp/test.sh /tmp/seed-test.json", timeout=900)
        res = json.load(open("/tmp/seed-test.json")) if os.path.exists("/tmp/seed-test.json") else {"passed": []}
        stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        lost = [t for t in stable if t not in res["passed"]]
        if lost:
            print(i, "TESTS FAIL:", lost[:5], r.stdout[-500:] if len(lost) > 100 else ""); return
        dm = sh(f"cd /repo && bash {out}/demo.sh")
        print(i, "tests pass; demo with patch:", dm.returncode, (dm.stdout + dm.stderr)[-200:].replace("\n", " "))
        for p in props:
            r = sh(f"cd {VERIF} && timeout 900 python3 check.py {p}")
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print(f"   check {p}: exit {r.returncode}", v[:1] or (r.stderr[-600:] if r.returncode else ""))
    finally:
        restore()


if __name__ == "__main__":
    args = sys.argv[1:]
    for a in args:
        if a.endswith(".py"):
            i, p = make(a)
        else:
            i, p = a, json.load(open(f"{VERIF}/seeded/{a}/meta.json"))["property"]
        confirm(i, [p])
