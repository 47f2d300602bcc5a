"""L01, L02: licences."""
import json, os
from vlib import *
from checks_syntax import write_lines, NCPU
from checks_cst import explore, explore_all

LIC = os.path.join(VERIF, "target", "hooked", "release", "lic")
INV = ["Emit", "Unaltered", "InPeriod", "Never"]


def behaviours(c, configs):
    return explore_all(c, [lambda n=n, k=k: explore(c, "MCLicense", k, n, INV) for n, k in configs])


def put(c, cmd, lines, what, n=NCPU, limit=3):
    p = c.path(cmd + ".ndjson")
    write_lines(p, lines)
    done, unseen = 0, 0
    args = (lambda k: [str(k), str(n)]) if n > 1 else (lambda k: [])
    for res in parallel([lambda k=k: run_batch(c, [LIC, cmd, p] + args(k), what, timeout=600) for k in range(n)]):
        if not any("done" in r or "crashed" in r for r in res):
            raise ToolError(f"{cmd}: no result")
        for m in [r for r in res if "mismatch" in r][:limit]:
            w = m["detail"]["why"]
            c.violation(f"{what}: {w.get('what')}: want {w.get('want')} got {w.get('got')}",
                        {"input": json.loads(lines[m["mismatch"]]), "detail": m["detail"], "how": f"lic {cmd} FILE" + (" 0 1" if n > 1 else "")})
        done += sum(r.get("done", 0) for r in res)
        unseen += sum(r.get("unseen", 0) for r in res)
    c.add("traces_validated_against_impl", done)
    return unseen


NAMES = ["name", "email", "company", "valid_from", "valid_until", "license_version", "level", "signature"]
PLAIN = ['"Dave"', '"a@b"', '"C"', "1", "99999999999", "1", '"Standard"', '"' + "0A" * 64 + '"']
ODD = {"null": "null", "text": '"x"', "number": "5", "negative": "-1", "fraction": "1.5", "huge": "18446744073709551616", "list": "[]",
       "object": "{}", "unpaired": '"\\ud800"', "wide": '"é"', "hex": '"' + "0a" * 63 + '"', "zeros": '"' + "00" * 64 + '"', "long": '"' + "01" * 65 + '"'}


def licence_text(b):
    fs = []
    for n, p, f in zip(NAMES, PLAIN, b["fields"]):
        if f == "plain":
            fs.append(f'"{n}":{p}')
        elif f == "twice":
            fs.append(f'"{n}":{p},"{n}":{p}')
        elif f != "absent":
            fs.append(f'"{n}":{ODD[f]}')
    t = "{" + ",".join(fs) + "}"
    return t[:b["cut"]] if b["cut"] else t


def l01(c):
    build("lic")
    c.assumptions = ["Ed25519 signatures of the keys used cannot be forged; damaged ones are of the kinds that License.tla lists",
                     "characters moved between neighbouring fields are a known finding"]
    q = c.quick
    res = behaviours(c, [
        ("moves", {"Texts": "<-Two", "Numbers": "<-Ends", "Keys": {1, 2}, "MaxSteps": 2, "Moments": "<-OneTime"}),
        ("texts", {"Texts": "<-Names", "Numbers": "<-Years", "Keys": {1}, "MaxSteps": 1, "Moments": "<-Some"}),
    ] + ([] if q else [
        ("deep", {"Texts": "<-Two", "Numbers": "<-One", "Keys": {1}, "MaxSteps": 4, "Moments": "<-OneTime"}),
        ("keys", {"Texts": "<-NoText", "Numbers": "<-Ends", "Keys": {1, 2, 3, 4}, "MaxSteps": 2, "Moments": "<-OneTime"})]))
    c.log("behaviours", len(res))
    unseen = put(c, "replay", res, "licence")
    c.sample(res[777]); c.sample(res[-1])
    ts = explore_all(c, [lambda: explore(c, "LicenseText", {"MaxOdd": 2, "Cuts": set(range(1, 60 if q else 330))}, "texts", ["Emit"])])
    lines = []
    for t in map(json.loads, ts):
        if "fields" in t:
            lines.append(json.dumps({"text": licence_text(t)}))
        else:
            lines.append(json.dumps({"text": ":".join(t["parts"]).replace("Q", "é"), "key": True, "want": t["bytes"] if t["good"] else None}))
    c.log("texts", len(lines))
    put(c, "texts", lines, "licence text", n=1)
    # The recorded ones are a class: those that License.tla marks as unseen.
    for k in known_findings(c.prop):
        if unseen:
            c.known.append(f"{k['id']}: {k['what']}")


def l02(c):
    build("lic")
    c.assumptions = ["the clock does not go back while a licence is issued"]
    res = behaviours(c, [
        ("times", {"Texts": "<-NoText", "Numbers": "<-Years", "Keys": {1, 2}, "MaxSteps": 0, "Moments": "<-Times"}),
        ("many", {"Texts": "<-NoText", "Numbers": "<-Many", "Keys": {1}, "MaxSteps": 0, "Moments": "<-Times"})])
    put(c, "replay", res, "period")
    c.sample(res[100]); c.sample(res[-1])
    ds = explore_all(c, [lambda: explore(c, "LicenseDays", {"MaxFactor": 9 if c.quick else 40}, "days", ["Emit"])])
    put(c, "days", ds, "days", n=1)
    c.sample(ds[-1])


TABLE = {"L01": (l01, "model_checking"), "L02": (l02, "model_checking")}
