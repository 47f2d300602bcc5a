"""P01-P06: tokenizer, parser, tree and recovery, against the grammar specifications."""
import json, os, re
from vlib import *

SYN = BIN + "/syntax"


def write_lines(path, lines):
    with open(path, "w", encoding="utf-8") as f:
        for l in lines:
            f.write(l + "\n")


def simulate_many(c, module, consts, num, depth=8000, invariants=(), spec="Spec", tag="BEHAVIOUR", name=""):
    """One simulation per set of constants, in parallel; distinct behaviours."""
    jobs = []
    for k, cs in enumerate(consts):
        cfg = c.path(f"{module}-{name}-{k}.cfg")
        write_cfg(cfg, cs, spec=spec, invariants=invariants)
        jobs.append(lambda k=k, cfg=cfg: simulate(c.work, module + ".tla", cfg, num,
                                                  derive_seed(c.seed, c.prop, module, name, k), depth,
                                                  tag=tag, mem="2500m"))
    res = []
    for b, g in parallel(jobs):
        res += b
        c.add("states", g); c.add("transitions", g)
    return list(dict.fromkeys(res))


def enumerate_texts(c, alphabet, maxlen, name):
    """All texts of at most maxlen pieces (Fragments.tla)."""
    cfg = c.path(f"frag-{name}.cfg")
    write_cfg(cfg, {"Alphabet": "<-" + alphabet, "MaxLen": maxlen}, invariants=["Emit"])
    rc, out = tlc(c.work, "MCFragments.tla", cfg, ["-workers", "1"], mem="3g", tag="frag")
    res = [decode(t) for t in printed(out, "TEXT")]
    g, d = tlc_stats(out)
    if rc != 0 or len(res) != d:
        raise ToolError(f"enumeration {name}: {len(res)} of {d} (rc={rc})\n" + open(out).read()[-500:])
    c.add("states", d); c.add("transitions", g)
    os.unlink(out)
    return res


def replay(c, cmd, texts, what, extra=(), timeout=600, limit=3):
    """Runs `syntax CMD FILE k n ...` over the texts in all processes."""
    p = c.path(cmd + ".ndjson")
    write_lines(p, texts)
    outs = [c.path(f"{cmd}-{k}") for k in range(NCPU)]
    done, rest = 0, []
    for res in parallel([lambda k=k: run_batch(c, [SYN, cmd, p, str(k), str(NCPU)] +
                                               [outs[k] if x == "OUT" else x for x in extra],
                                               what, timeout=timeout) for k in range(NCPU)]):
        crashed = any("crashed" in r for r in res)
        d = sum(r.get("done", 0) for r in res)
        done += d
        if not crashed and not any("done" in r for r in res):
            raise ToolError(f"{cmd}: no result")
        for m in [r for r in res if "mismatch" in r][:limit]:
            w = m["detail"].get("why", {})
            c.violation(f"{what}: {w.get('what')}: want {w.get('want')} got {w.get('got')}",
                        {"input": json.loads(texts[m["mismatch"]]), "detail": m["detail"],
                         "how": f"syntax {cmd} FILE 0 1 (FILE has the input as its only line)"})
        rest += [r for r in res if "mismatch" not in r and "crashed" not in r]
    return done, rest, outs


def probe(c, cmd):
    """Prints the recorded findings of the property that still fail."""
    for k in known_findings(c.prop):
        res = run_batch(c, [SYN, cmd, os.path.join(VERIF, k["file"]), "0", "1"], k["id"])
        if any("mismatch" in r for r in res):
            c.known.append(f"{k['id']}: {k['what']}")


def judge(c, module, envs, texts, what, mem="2500m"):
    """TLC judges recorded traces: one process per environment."""
    cfg = c.path(module + ".cfg")
    write_cfg(cfg, {}, postcondition="AllRead")
    jobs = [lambda e=e: tlc(c.work, module + ".tla", cfg, ["-workers", "1"], mem=mem, env=e, tag="judge")
            for e in envs]
    for rc, out in parallel(jobs):
        if rc != 0:
            raise ToolError(f"{module}: rc={rc}\n" + open(out, encoding="utf-8").read()[-3000:])
        g, d = tlc_stats(out)
        c.add("states", d); c.add("transitions", g)
        c.add("records_judged", d - 1)
        for b in list(printed(out, "BAD"))[:3]:
            b = json.loads(b)
            data = {"judgement": b}
            if "i" in b:
                data["input"] = json.loads(texts[b["i"]])
            c.violation(f"{what}: {b.get('why')}: {json.dumps(data.get('input', b))[:200]}", data)
        os.unlink(out)


# ---------------------------------------------------------------- programs
FOCI = [
    set(),
    {"strings", "fstring", "fstring_expr", "fstring_format_spec", "atom", "star_expressions", "simple_stmts"},
    {"match_stmt", "or_pattern", "class_pattern", "mapping_pattern", "sequence_pattern", "pattern",
     "group_pattern", "literal_pattern", "param_patterns", "complex_number", "signed_number"},
    {"function_def", "lambda", "parameters", "star_etc", "lambda_star_etc", "class_def", "type_params", "type_param", "lambda_parameters"},
    {"with_stmt", "for_stmt", "assignment", "star_target_brackets", "t_primary", "t_inner", "del_stmt"},
    {"atom", "comprehension", "dict_content", "dict_comprehension", "simple_stmts", "star_expressions",
     "tuple_content", "slice"},
    {"simple_stmts", "import_from", "import_name", "try_stmt", "while_stmt", "if_stmt", "decorated", "async_stmt"},
    {"arguments", "kwargs", "primary", "slices", "slice", "walrus", "yield_expr", "type_alias", "simple_stmts", "star_expressions"},
]
GEN_INV = ["Emit", "Balanced", "NoEmptyNode", "NeverNegative", "Level0"]


def programs(c, num, name="prog", stmts=3, budget=22):
    consts = [{"Stmts": stmts if k % 2 else 1 + stmts // 2, "Budget": budget if k % 3 else 2 * budget,
               "Focus": FOCI[k % len(FOCI)]} for k in range(NCPU)]
    return simulate_many(c, "PyGen", consts, num, invariants=GEN_INV, name=name)


def broken_programs(c, num, rounds, name="mut", budget=12, stmts=1):
    consts = [{"Stmts": stmts, "Budget": budget, "Rounds": rounds, "Focus": FOCI[k % len(FOCI)]}
              for k in range(NCPU)]
    return simulate_many(c, "PyMut", consts, num, invariants=["MEmit"], spec="MSpec", name=name)


# ---------------------------------------------------------------- P01
def p01(c):
    build("syntax")
    c.assumptions = ["texts up to a few hundred bytes, and repetitions of short ones up to 20000 times"]
    texts = enumerate_texts(c, "Pieces", 3 if c.quick else 3, "pieces")
    texts += enumerate_texts(c, "Small", 4 if c.quick else 5, "small")
    texts += enumerate_texts(c, "Tiny", 5 if c.quick else 6, "tiny")
    texts += enumerate_texts(c, "Heads", 4 if c.quick else 5, "heads")
    texts += broken_programs(c, 120 if c.quick else 1500, 40)
    texts = list(dict.fromkeys(texts))
    c.cov["texts"] = len(texts)
    done, rest, outs = replay(c, "total", texts, "parse", ["OUT"])
    c.cov["evaluations"] = done
    c.log("parsed", done)
    if not c.violations and done != len(texts):
        raise ToolError(f"parsed {done} of {len(texts)}")
    if not c.violations:
        judge(c, "TreeShape", [{"SHAPES": o + ".shapes", "GAPS": o + ".gaps"} for o in outs], texts, "tree")
    for alphabet, times in (("Flat", 20000), ("Nested", 150 if c.quick else 600)):
        reps = [t for t in enumerate_texts(c, alphabet, 2, alphabet) if len(json.loads(t)) == 2
                and (alphabet, json.loads(t)[1]) != ("Flat", "(")]
        d, _, _ = replay(c, "repeat", reps, "a text repeated very often", [str(times)], timeout=250)
        c.add("repetitions", d)
        c.log("repeated", alphabet)
    c.sample(texts[1234])
    c.sample(texts[-1])


# ---------------------------------------------------------------- P02
def p02(c):
    build("syntax")
    c.assumptions = ["trees of up to 56 nodes (every method looks only at the nodes around it)",
                     "search does not promise empty nodes at the very end of the searched range"]
    texts = enumerate_texts(c, "Tiny", 3 if c.quick else 4, "tiny")
    texts += programs(c, 60 if c.quick else 600, stmts=2, budget=8)
    texts += broken_programs(c, 25 if c.quick else 250, 30, budget=8)
    texts = list(dict.fromkeys(texts))
    done, _, outs = replay(c, "nav", texts, "navigation", ["OUT", "56"])
    c.cov["trees"] = done
    c.cov["evaluations"] = done
    c.log("recorded", done)
    judge(c, "TreeNav", [{"NAV": o + ".nav"} for o in outs], texts, "navigation")
    c.sample(texts[77])


# ---------------------------------------------------------------- P03
LEX_INV = ["Emit", "InOrder", "Balanced", "Open", "Growing", "NoNested", "Nothing"]
# (alphabet, pieces per text in the quick tier, in the thorough tier), longest first
LEX = [("Depths", 4, 5), ("Deep", 4, 5), ("FStrings", 4, 5), ("FEscapes", 4, 5), ("Breaks", 4, 5), ("FNested", 4, 5),
       ("Prefixes", 3, 4), ("Indents", 4, 5), ("Numbers", 4, 5), ("Bases", 3, 4), ("Operators", 3, 3),
       ("Strings", 4, 5), ("Triples", 4, 5), ("Lines", 5, 6)]
LEX_CHARS = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPRSTUVWXYZ_0123456789 \t\n\r'\"\\#"
                "+-*/%&@|^!=<>[](){}~;.,:$?é")


def lex(c, module, consts, name, env=None):
    cfg = c.path(f"lex-{name}.cfg")
    write_cfg(cfg, consts, invariants=LEX_INV)
    rc, out = tlc(c.work, module + ".tla", cfg, ["-workers", "1"], mem="3g", tag="lex", env=env)
    # Q stands for a letter beyond ASCII (see vlib.decode).
    res = [b.replace("Q", "é") for b in printed(out, "BEHAVIOUR")]
    g, d = tlc_stats(out)
    if rc != 0 or not res:
        raise ToolError(f"{module} {name}: rc={rc}\n" +
                        "".join(l for l in open(out, encoding="utf-8") if not l.startswith("<<"))[-3000:])
    os.unlink(out)
    return res, g, d


def p03(c):
    build("syntax")
    c.assumptions = ["texts of the characters that Lexer.tla classifies",
                     "the last line is ended, as parse does"]
    jobs = [lambda a=a, m=(q if c.quick else t): lex(c, "MCLexer", {"Alphabet": "<-" + a, "MaxLen": m}, a)
            for a, q, t in LEX]
    texts = broken_programs(c, 40 if c.quick else 500, 25)
    texts = ["".join(json.loads(t)) for t in texts]
    texts = [t for t in dict.fromkeys(texts) if set(t) <= LEX_CHARS]
    c.cov["generated_programs"] = len(texts)
    for k in range(NCPU):
        p = c.path(f"texts-{k}")
        write_lines(p, [json.dumps({"text": t.replace("é", "Q")}) for t in texts[k::NCPU]])
        jobs.append(lambda k=k, p=p: lex(c, "LexerFile", {}, f"file{k}", {"TEXTS": p}))
    res = []
    for r, g, d in parallel(jobs):
        res += r
        c.add("states", d); c.add("transitions", g)
    c.log("behaviours", len(res))
    done, _, _ = replay(c, "lex", res, "tokens")
    c.cov["traces_validated_against_impl"] = done
    c.sample(res[4321]); c.sample(res[-1])
    probe(c, "lex")


# ---------------------------------------------------------------- P04
def p04(c):
    build("syntax")
    progs = programs(c, 700 if c.quick else 8000)
    done, rest, _ = replay(c, "grammar", progs, "program")
    c.cov["traces_validated_against_impl"] = done
    c.cov["without_last_line_ending"] = sum(r.get("cuts", 0) for r in rest)
    kinds = {}
    for p in progs[:4000]:
        for e in json.loads(p):
            if e[0] == "(":
                kinds[e[1]] = kinds.get(e[1], 0) + 1
    c.cov["nodes_by_kind"] = kinds
    c.sample(progs[0])
    # What is not derivable has an error node: every node of every tree.
    texts = enumerate_texts(c, "Words", 3 if c.quick else 4, "words")
    texts += broken_programs(c, 60 if c.quick else 800, 40)
    texts = list(dict.fromkeys(texts))
    done, rest, outs = replay(c, "kids", texts, "parse", ["OUT"])
    c.cov["texts"] = done
    c.cov["nodes"] = sum(r.get("nodes", 0) for r in rest)
    judge(c, "GrammarJudge", [{"KIDS": o + ".kids"} for o in outs], texts, "rule")
    probe(c, "grammar")


# ---------------------------------------------------------------- P05
def closed(line):
    """The line opens no bracket or string that it does not close."""
    text = "".join(line)
    if not text.strip() or text[0] in " \t\f" or any(x in text for x in "\n\r#\\"):
        return False
    strings = r"'[^']*'|\"[^\"]*\""
    for part in [re.sub(strings, "", text)] + [m[1:-1] for m in re.findall(strings, text)]:
        stack = []
        for ch in part:
            if ch in "'\"":
                return False
            if ch in "([{":
                stack.append(ch)
            elif ch in ")]}" and (not stack or "([{".index(stack.pop()) != ")]}".index(ch)):
                return False
        if stack:
            return False
    return True


def p05(c):
    build("syntax")
    c.assumptions = ["the broken line is no continuation of a compound statement in front of it and no "
                     "decorator of the statement behind it",
                     "the line itself closes all its brackets and quotes"]
    progs = programs(c, 60 if c.quick else 600)
    lines = enumerate_texts(c, "Words", 3, "words")
    if not c.quick:
        lines += enumerate_texts(c, "Small", 5, "small")
    for t in broken_programs(c, 60 if c.quick else 600, 30, budget=8):
        lines += [json.dumps([l]) for l in "".join(json.loads(t)).split("\n")]
    lines = [l for l in dict.fromkeys(lines) if closed(json.loads(l))]
    c.cov["lines"] = len(lines)
    p = c.path("lines.ndjson")
    # Long and short ones mixed.
    lines.sort(key=lambda l: derive_seed(c.seed, l))
    write_lines(p, lines)
    done, rest, _ = replay(c, "recover", progs, "recovery", [p, "300" if c.quick else "3000"])
    c.cov["traces_validated_against_impl"] = done
    c.cov["evaluations"] = sum(r.get("texts", 0) for r in rest)
    c.cov["places_in_blocks"] = sum(r.get("nested", 0) for r in rest)
    c.cov["broken_lines"] = max([r.get("lines", 0) for r in rest] + [0])
    c.sample(progs[0]); c.sample(lines[0]); c.sample(lines[-1])


# ---------------------------------------------------------------- P06
def p06(c):
    build("syntax")
    c.assumptions = ["grammars of up to six rules over three tokens, inputs of up to six tokens",
                     "grammars the engine refuses (unreachable alternatives) are not judged",
                     "no rule of a grammar is empty or indirectly left recursive"]
    # (rules, longest input, grammars per process)
    sizes = [(4, 4, 60), (3, 4, 100), (2, 6, 20), (6, 3, 60)] if c.quick else \
            [(4, 5, 400), (3, 5, 600), (2, 6, 300), (6, 4, 400), (8, 3, 300)]
    n = refused = 0
    for rules, maxlen, num in sizes:
        gs = simulate_many(c, "Engine", [{"NRules": rules, "MaxLen": maxlen}] * NCPU, num, depth=20,
                           invariants=["Emit"], name=f"g{rules}")
        done, rest, _ = replay(c, "engine", gs, f"grammar of {rules} rules")
        n += done
        refused += sum(r.get("rejected", 0) if isinstance(r.get("rejected"), int) and "done" in r else 0 for r in rest)
        c.add("inputs", sum(r.get("inputs", 0) for r in rest))
        c.add("inputs_accepted", sum(r.get("accepted", 0) for r in rest))
        c.sample(gs[0][:1200])
        c.log("rules", rules, "grammars", done)
        if c.violations:
            return
    c.cov["grammars"] = c.cov["evaluations"] = n
    c.cov["grammars_refused"] = refused
    if refused * 10 > n:
        c.violation(f"the engine refuses {refused} of {n} valid grammars", {"refused": refused, "grammars": n})


TABLE = {"P05": (p05, "model_checking"), "P03": (p03, "model_checking"), "P06": (p06, "model_checking"), "P02": (p02, "model_checking"), "P01": (p01, "model_checking"), "P04": (p04, "model_checking")}
