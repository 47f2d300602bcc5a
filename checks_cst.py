"""C01-C05: what the syntax tree API says about a program."""
import json, os
from vlib import *
from checks_syntax import SYN, write_lines, simulate_many, enumerate_texts, replay, judge, probe, programs, broken_programs, NCPU


def explore(c, module, consts, name, invariants, spec="Spec", init_next=None, env=None, mem="3g"):
    """All behaviours of a specification within its bounds."""
    cfg = c.path(f"{module}-{name}.cfg")
    write_cfg(cfg, consts, spec=spec, invariants=invariants, init_next=init_next)
    rc, out = tlc(c.work, module + ".tla", cfg, ["-workers", "1"], mem=mem, tag=name, env=env)
    res = list(dict.fromkeys(decode(b) for b in printed(out, "BEHAVIOUR")))
    g, d = tlc_stats(out)
    if rc != 0 or not res:
        raise ToolError(f"{module} {name}: rc={rc}\n" +
                        "".join(l for l in open(out, encoding="utf-8") if not l.startswith("<<"))[-3000:])
    os.unlink(out)
    return res, g, d


def explore_all(c, jobs):
    res = []
    for r, g, d in parallel(jobs):
        res += r
        c.add("states", d); c.add("transitions", g)
    return res


# ---------------------------------------------------------------- C01
LIT_INV = ["Emit", "NotLonger", "Same", "NoReturn"]


def c01(c):
    build("syntax")
    c.assumptions = ["escapes that Python rejects, and lone surrogates, which no Rust string can hold, have no value",
                     "\\N{...} is a known finding"]
    q = c.quick
    # (characters, longest body, prefixes, quotes)
    lits = [("Simple", 4 if q else 5, "Kinds", "All"), ("Lines", 5 if q else 6, "Kinds", "All"),
            ("Letters", 3, "AllPrefixes", "One"), ("Letters", 2, "AllPrefixes", "All"),
            ("Octals", 4 if q else 5, "Kinds", "One"), ("Hexes", 4 if q else 5, "Kinds", "One")]
    jobs = [lambda a=a, m=m, p=p, w=w: explore(c, "MCLiteral", {"Chars": "<-" + a, "MaxLen": m, "Prefixes": "<-" + p,
                                                               "QuoteMarks": "<-" + w}, f"{a}{m}", LIT_INV)
            for a, m, p, w in lits]
    jobs.append(lambda: explore(c, "MCLiteral", {"Chars": "<-Lines", "MaxLen": 0, "Prefixes": "<-Plain", "QuoteMarks": "<-One"},
                                "unicode", LIT_INV, init_next=("UInit", "Next")))
    jobs.append(lambda: explore(c, "Concat", {"MaxParts": 3}, "concat", ["Emit"]))
    jobs.append(lambda: explore(c, "IntLit", {"Digits": {"0", "1", "7", "9", "a", "F"}, "MaxLen": 7 if q else 9}, "int",
                                ["Emit", "Canonical"]))
    jobs.append(lambda: explore(c, "IntLit", {"Digits": {"1", "0"}, "MaxLen": 10 if q else 13}, "bin", ["Emit", "Canonical"]))
    jobs.append(lambda: explore(c, "IntLit", {"Digits": {"9"}, "MaxLen": 24}, "long", ["Emit", "Canonical"]))
    jobs.append(lambda: explore(c, "MCDocText", {"Chars": "<-Docs", "MaxLen": 6 if q else 7}, "doc", ["Emit", "OnlyBlank", "Twice"]))
    jobs.append(lambda: explore(c, "MCDocText", {"Chars": "<-Wide", "MaxLen": 6}, "wide", ["Emit", "OnlyBlank", "Twice"]))
    res = explore_all(c, jobs)
    c.log("behaviours", len(res))
    done, _, _ = replay(c, "literal", res, "literal")
    c.cov["traces_validated_against_impl"] = done
    c.sample(res[777]); c.sample(res[-1])
    probe(c, "literal")


# ---------------------------------------------------------------- C02
IGN = [("Words", 4, 6), ("Codes", 4, 5), ("Places", 4, 5), ("Strings", 4, 5), ("Heads", 4, 5), ("Mypy", 4, 5)]


def c02(c):
    build("syntax")
    c.assumptions = ["the comments of texts of the characters that Lexer.tla classifies",
                     "a file directive stands at the start of a line that \\n ends, as mypy reads it, also in strings"]
    inv = ["EmitIgnores", "OnItsLine"]
    res = explore_all(c, [lambda a=a, m=(q if c.quick else t): explore(
        c, "MCIgnores", {"Alphabet": "<-" + a, "MaxLen": m}, a, inv) for a, q, t in IGN])
    res = [r.replace("Q", "é") for r in res]
    c.log("behaviours", len(res))
    done, _, _ = replay(c, "ignores", res, "comments")
    c.cov["traces_validated_against_impl"] = done
    c.sample(res[777][:900]); c.sample(res[-1][:900])
    probe(c, "ignores")


# ---------------------------------------------------------------- C03
def c03(c):
    build("syntax")
    c.assumptions = ["trees of up to 50 nodes"]
    texts = enumerate_texts(c, "Editing", 3 if c.quick else 4, "editing")
    texts += programs(c, 60 if c.quick else 600, stmts=3, budget=8)
    texts += broken_programs(c, 20 if c.quick else 250, 25, budget=8)
    texts = list(dict.fromkeys(texts))
    done, _, outs = replay(c, "ranges", texts, "ranges", ["OUT", "50"])
    c.cov["trees"] = c.cov["evaluations"] = done
    c.log("recorded", done)
    judge(c, "Ranges", [{"RANGES": o + ".ranges"} for o in outs], texts, "ranges")
    c.sample(texts[77]); c.sample(texts[-1])


# ---------------------------------------------------------------- C04
def c04(c):
    build("syntax")
    c.assumptions = ["trees of up to 90 nodes",
                     "what completes within patterns, and in statements of soft keywords that are cut off, is left open",
                     "on the border of two tokens either one may be meant"]
    q = c.quick
    texts = enumerate_texts(c, "Editing", 3 if q else 4, "editing")
    texts += enumerate_texts(c, "Typing", 3, "typing")
    texts += programs(c, 60 if q else 600, stmts=2, budget=12) + programs(c, 60 if q else 600, stmts=2, budget=6, name="small")
    broken = broken_programs(c, 100 if q else 1000, 25, budget=10)
    typed = enumerate_texts(c, "Typing", 4, "typing4")
    # Most of the broken ones are only asked, not judged.
    texts = list(dict.fromkeys(texts + broken[::10]))
    done, _, outs = replay(c, "cursor", texts, "cursor", ["OUT", "90"])
    c.cov["trees"] = c.cov["evaluations"] = done
    c.log("recorded", done)
    asked, _, _ = replay(c, "cursor", list(dict.fromkeys(broken + typed)), "cursor", ["NONE", "600"])
    c.cov["asked"] = asked
    judge(c, "Cursor", [{"CURSOR": o + ".cursor"} for o in outs], texts, "cursor")
    c.sample(texts[77]); c.sample(texts[-1])


# ---------------------------------------------------------------- C05
def c05(c):
    build("syntax")
    c.assumptions = ["programs without syntax errors"]
    q = c.quick
    texts = programs(c, 150 if q else 1500, stmts=2, budget=10) + programs(c, 40 if q else 400, stmts=5, budget=20)
    texts = list(dict.fromkeys(texts))
    done, _, outs = replay(c, "accessors", texts, "accessors", ["OUT", "400"])
    c.cov["trees"] = c.cov["evaluations"] = done
    c.log("recorded", done)
    judge(c, "Accessors", [{"ACCESSORS": o + ".accessors"} for o in outs], texts, "accessors")
    c.sample(texts[77]); c.sample(texts[-1])


TABLE = {"C04": (c04, "model_checking"), "C05": (c05, "model_checking"), "C01": (c01, "model_checking"), "C02": (c02, "model_checking"), "C03": (c03, "model_checking")}
