//! Records what is known about every position of a text, for Cursor.tla.
use parsa_python::{PyNode, parse};
use parsa_python_cst::*;
use serde_json::{Value, json};
use std::collections::HashSet;
use std::io::Write;

fn walk(n: PyNode, d: usize, out: &mut Vec<Value>) {
    let leaf = n.is_leaf();
    out.push(json!({"t": n.type_str(), "d": d, "leaf": leaf, "s": n.start(), "e": n.end(),
                    "c": if leaf && n.as_code().len() < 12 { n.as_code() } else { "" }}));
    if !leaf {
        n.iter_children().for_each(|c| walk(c, d + 1, out));
    }
}

/// From the hash of every comment to the end of its line.
fn comments(code: &str, nodes: &[Value]) -> Vec<(usize, usize, usize)> {
    let mut token = vec![false; code.len()];
    for n in nodes.iter().filter(|n| n["leaf"] == true) {
        for p in n["s"].as_u64().unwrap()..n["e"].as_u64().unwrap() {
            token[p as usize] = true;
        }
    }
    let mut out = vec![];
    let mut p = 0;
    while p < code.len() {
        let start = p;
        p += 1;
        if !token[start] && code.as_bytes()[start] == b'#' {
            while p < code.len() && !token[p] && !matches!(code.as_bytes()[p], b'\n' | b'\r') {
                p += 1;
            }
            // Whether a comment goes on between \r and \n is left open.
            out.push((start, p, p + code[p..].starts_with("\r\n") as usize));
        }
    }
    out
}

fn scope(s: Scope) -> Value {
    match s {
        Scope::Module => json!(["Module", 0]),
        Scope::Class(c) => json!(["class_def", c.start()]),
        Scope::Function(f) => json!(["function_def", f.start()]),
        Scope::Lambda(l) => json!(["lambda", l.start()]),
    }
}

fn poa(b: PrimaryOrAtom) -> (u32, u32) {
    match b {
        PrimaryOrAtom::Primary(p) => (p.start(), p.end()),
        PrimaryOrAtom::Atom(a) => (a.start(), a.end()),
    }
}

fn toa(b: PrimaryTargetOrAtom) -> (u32, u32) {
    match b {
        PrimaryTargetOrAtom::PrimaryTarget(p) => (p.start(), p.end()),
        PrimaryTargetOrAtom::Atom(a) => (a.start(), a.end()),
    }
}

fn span(b: Option<(u32, u32)>) -> Value {
    b.map_or(json!([]), |b| json!([b.0, b.1]))
}

fn complete(tree: &Tree, p: u32) -> Value {
    let (sc, node, rest) = tree.completion_node(p);
    let (mut base, mut dots, mut used) = (None, 0, json!([0, []]));
    let kind = match node {
        CompletionNode::Attribute { base: b } => {
            base = Some(poa(b));
            "Attribute"
        }
        CompletionNode::PrimaryTarget { base: b } => {
            base = Some(toa(b));
            "Attribute"
        }
        CompletionNode::ImportName { path } => {
            base = path.map(|(n, d)| (n.start(), d.map_or(n.end(), |d| d.end())));
            "Module"
        }
        CompletionNode::ImportFromFirstPart { dots: n, base: b } => {
            dots = n;
            base = b.map(|b| (b.start(), b.end()));
            "Module"
        }
        CompletionNode::ImportFromTarget { dots: n, base: b } => {
            dots = n;
            base = b.map(|b| (b.start(), b.end()));
            "Member"
        }
        CompletionNode::ParamName { func_name, .. } => {
            base = Some((func_name.start(), func_name.end()));
            "Param"
        }
        CompletionNode::AsNewName => "As",
        CompletionNode::NecessaryKeyword(_) => "Keyword",
        CompletionNode::AfterDefKeyword => "Def",
        CompletionNode::AfterClassKeyword => "Class",
        CompletionNode::InsideString => "String",
        CompletionNode::InsideComment { comment_start, comment } => {
            base = Some((comment_start, comment_start + 1 + comment.trim_end_matches('\r').len() as u32));
            "Comment"
        }
        CompletionNode::Global { context } => {
            let args = match context {
                Some(CompletionContext::PrimaryCall { base: b, args }) => {
                    base = Some(poa(b));
                    args
                }
                Some(CompletionContext::PrimaryTargetCall { base: b, args }) => {
                    base = Some(toa(b));
                    args
                }
                None => None,
            };
            if let Some(a) = args {
                let u = a.used_args_until(&rest);
                let mut k: Vec<_> = u.keyword_args.into_iter().collect();
                k.sort();
                used = json!([u.positional_args, k]);
            }
            "Global"
        }
    };
    json!({"k": kind, "sc": scope(sc), "b": span(base), "n": dots, "used": used,
           "r": [rest.start(), rest.start() as usize + rest.as_code().len()]})
}

fn signature(tree: &Tree, p: u32) -> Value {
    let Some((sc, base, args)) = tree.signature_node(p) else {
        return json!({"k": "None", "sc": ["", 0], "b": [], "args": []});
    };
    // One that does not end shows in what was taken.
    let args: Vec<Value> = args
        .take(100)
        .map(|a| match a {
            SignatureArg::PositionalOrEmptyAfterComma => json!(["positional", ""]),
            SignatureArg::PositionalOrKeywordName(n) => json!(["name", n]),
            SignatureArg::Keyword(n) => json!(["keyword", n.as_code()]),
            SignatureArg::StarArgs => json!(["star", ""]),
            SignatureArg::StarStarKwargs => json!(["star star", ""]),
        })
        .collect();
    json!({"k": "Call", "sc": scope(sc), "b": match base {
        SignatureBase::ExpressionPart(e) => json!([e.start(), e.end()]),
        SignatureBase::PrimaryTargetOrAtom(t) => span(Some(toa(t))),
    }, "args": args})
}

fn goto(tree: &Tree, p: u32) -> Value {
    let (sc, node) = tree.goto_node(p);
    let on = span(node.on_name().map(|n| (n.start(), n.end())));
    let (k, b, m) = match node {
        GotoNode::Name(n) => ("Name", (n.start(), n.end()), ""),
        GotoNode::ImportFromAsName { import_as_name: n, .. } => ("Import", (n.start(), n.end()), ""),
        GotoNode::Primary(n) => ("Primary", (n.start(), n.end()), ""),
        GotoNode::PrimaryTarget(n) => ("Primary", (n.start(), n.end()), ""),
        GotoNode::Operator { first, magic_method, .. } => (
            "Operator",
            (first.start(), first.end()),
            magic_method,
        ),
        GotoNode::AugAssignOperator { operator, inplace_magic_method, .. } => {
            ("AugAssign", (operator.start(), operator.end()), inplace_magic_method)
        }
        GotoNode::GlobalName(n) => ("Global", (n.start(), n.end()), ""),
        GotoNode::NonlocalName(n) => ("Nonlocal", (n.start(), n.end()), ""),
        GotoNode::Atom(n) => ("Atom", (n.start(), n.end()), ""),
        GotoNode::None => ("None", (0, 0), ""),
    };
    json!({"k": k, "sc": scope(sc), "b": [b.0, b.1], "m": m, "on": on})
}

/// Everything known about a position, or the query that failed.
fn at(tree: &Tree, p: usize, with_goto: bool) -> Result<Value, String> {
    let p = p as u32;
    let name = |q: &str, e: String| format!("{q} at {p}: {e} {}", crate::PLACE.with(|p| p.borrow().clone()));
    let mut v = json!({"p": p,
        "comp": crate::guarded(|| complete(tree, p)).map_err(|e| name("completion", e))?,
        "sig": crate::guarded(|| signature(tree, p)).map_err(|e| name("signature", e))?});
    if with_goto {
        v["go"] = crate::guarded(|| goto(tree, p)).map_err(|e| name("goto", e))?;
    }
    Ok(v)
}

fn record(text: &str, max: usize, cuts: bool) -> Result<Option<Value>, (String, String)> {
    let tree = Tree::parse(text.into());
    if tree.length() > max || tree.code().len() > 3 * max {
        return Ok(None);
    }
    let code = tree.code().to_string();
    let mut nodes = vec![];
    walk(parse(text.into()).root_node(), 0, &mut nodes);
    let errors = nodes.iter().any(|n| n["t"].as_str().unwrap().starts_with("Error"));
    let bounds: Vec<usize> = (0..=code.len()).filter(|p| code.is_char_boundary(*p)).collect();
    let fail = |e, t: &str| (e, t.to_string());
    let all = bounds.iter().map(|&p| at(&tree, p, true)).collect::<Result<Vec<_>, _>>().map_err(|e| fail(e, text))?;
    let (mut cut, mut torn) = (vec![], vec![]);
    if !errors && cuts {
        let starts: Vec<usize> =
            nodes.iter().filter(|n| n["t"] == "stmt" && n["d"] == 1).map(|n| n["s"].as_u64().unwrap() as usize).collect();
        // The line ending that is added would be part of a last \r.
        for &p in bounds.iter().filter(|p| !code[..**p].ends_with('\r')) {
            let t = &code[..p];
            cut.push(at(&Tree::parse(t.into()), p, false).map_err(|e| fail(e, t))?);
            if let Some(&next) = starts.iter().find(|s| **s > p) {
                let t = format!("{}\n{}", &code[..p], &code[next..]);
                torn.push(at(&Tree::parse(t.clone().into()), p, false).map_err(|e| fail(e, &t))?);
            }
        }
    }
    let lines: Vec<usize> = code.bytes().enumerate().filter(|(_, b)| matches!(b, b'\n' | b'\r')).map(|(i, _)| i + 1).collect();
    Ok(Some(json!({"lines": lines, "size": code.len(), "nodes": nodes, "errors": errors, "comments": comments(&code, &nodes),
        "at": all, "cut": cut, "torn": torn})))
}

/// `cursor TEXTS k n OUT MAX`
pub fn main(args: &[String]) {
    let (k, n): (usize, usize) = (args[1].parse().unwrap(), args[2].parse().unwrap());
    let max: usize = args[4].parse().unwrap();
    let mut f = (args[3] != "NONE").then(|| std::fs::File::create(format!("{}.cursor", args[3])).unwrap());
    let mut seen = HashSet::new();
    let mut done = 0;
    for (i, v) in crate::lines(&args[0]).enumerate() {
        if i % n != k {
            continue;
        }
        println!("{}", json!({"begin": i}));
        let t = crate::tree::text(&v);
        match crate::guarded(|| record(&t, max, true)) {
            Ok(Ok(None)) => (),
            Ok(Ok(Some(v))) => {
                let s = v.to_string();
                if seen.insert(s.clone()) {
                    if let Some(f) = &mut f {
                        writeln!(f, "{{\"i\":{i},{}", &s[1..]).unwrap();
                    }
                    done += 1;
                }
            }
            Ok(Err((e, t))) => println!("{}", json!({"mismatch": i, "detail": {"text": t,
                "why": {"what": format!("panic on {t:?}"), "got": e}}})),
            Err(e) => println!("{}", json!({"mismatch": i, "detail": {"text": t,
                "why": {"what": format!("panic on {t:?}"), "got": e}}})),
        }
    }
    println!("{}", json!({"done": done}));
}
