//! Records what the real tree of a text looks like, and what its navigation
//! answers, for TreeShape.tla and TreeNav.tla.
use parsa_python::{PyNode, PyNodeType, PyTree, NonterminalType, TerminalType, parse};
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashMap};
use std::io::Write;

/// A text: a string, a list of pieces, or the events of PyGen.tla.
pub fn text(v: &Value) -> String {
    match v {
        Value::String(s) => s.clone(),
        Value::Array(a) => {
            if a.first().is_some_and(|e| e.is_array()) {
                crate::grammar::program(v).text
            } else {
                a.iter().map(|x| x.as_str().unwrap()).collect()
            }
        }
        _ => panic!("not a text: {v}"),
    }
}

fn walk<'t>(n: PyNode<'t>, depth: usize, f: &mut impl FnMut(PyNode<'t>, usize)) {
    f(n, depth);
    for c in n.iter_children() {
        walk(c, depth + 1, f);
    }
}

pub fn chars(s: &str) -> Vec<String> {
    s.chars().map(|c| c.to_string()).collect()
}

fn leaf_spans(tree: &PyTree) -> Vec<(usize, usize)> {
    let mut v = vec![];
    walk(tree.root_node(), 0, &mut |n, _| {
        if n.is_leaf() {
            v.push((n.start() as usize, n.end() as usize))
        }
    });
    v
}

/// The shape of one tree, and the texts between its leaves.
fn shape(text: &str, i: usize, gaps: &mut BTreeMap<String, usize>) -> Value {
    let tree = parse(text.into());
    let mut nodes = vec![];
    walk(tree.root_node(), 0, &mut |n, d| {
        nodes.push((n.index, d, n.is_leaf() as usize, n.start(), n.end()));
    });
    let flat: Vec<_> = tree.nodes().map(|n| (n.index, n.start(), n.end())).collect();
    let agree = flat.len() == nodes.len()
        && tree.length() == nodes.len()
        && flat.iter().zip(&nodes).all(|(a, b)| *a == (b.0, b.3, b.4));
    let code = tree.as_code();
    let mut at = 0;
    for (s, e) in leaf_spans(&tree) {
        if at <= s && s <= e && e <= code.len() && code.is_char_boundary(s) && code.is_char_boundary(e)
        {
            gaps.entry(code[at..s].into()).or_insert(i);
            at = e;
        } else {
            break; // the specification rejects the spans
        }
    }
    let bounds = nodes
        .iter()
        .all(|n| code.is_char_boundary(n.3 as usize) && code.is_char_boundary(n.4 as usize));
    let tail: Vec<String> =
        text.chars().rev().take(3).collect::<Vec<_>>().into_iter().rev().map(|c| c.to_string()).collect();
    json!({"size": code.len(), "tail": tail, "agree": agree, "bounds": bounds,
           "added": code.strip_prefix(text).map(chars).unwrap_or(vec!["different".into()]),
           "nodes": nodes})
}

/// `total TEXTS k n OUT`: writes OUT.shapes and OUT.gaps (both without
/// duplicates), reports the texts on which the code under test panics.
pub fn total(args: &[String]) {
    let (k, n): (usize, usize) = (args[1].parse().unwrap(), args[2].parse().unwrap());
    let mut gaps = BTreeMap::new();
    let mut shapes: BTreeMap<String, usize> = BTreeMap::new();
    let mut done = 0;
    for (i, v) in crate::lines(&args[0]).enumerate() {
        if i % n != k {
            continue;
        }
        println!("{}", json!({"begin": i}));
        let t = text(&v);
        match crate::guarded(|| shape(&t, i, &mut gaps)) {
            Ok(s) => {
                shapes.entry(s.to_string()).or_insert(i);
            }
            Err(e) => println!("{}", json!({"mismatch": i, "detail": {"text": t,
                "why": {"what": "panic", "got": e}}})),
        }
        done += 1;
    }
    let mut f = std::fs::File::create(format!("{}.shapes", args[3])).unwrap();
    for (s, i) in &shapes {
        writeln!(f, "{{\"i\":{i},{}", &s[1..]).unwrap();
    }
    let mut f = std::fs::File::create(format!("{}.gaps", args[3])).unwrap();
    for (g, i) in &gaps {
        writeln!(f, "{}", json!({"i": i, "gap": chars(g)})).unwrap();
    }
    println!("{}", json!({"done": done, "shapes": shapes.len(), "gaps": gaps.len()}));
}

static SETS: &[(&[&str], &[PyNodeType])] = &[
    (&["stmt", "block", "file"], &[
        PyNodeType::Nonterminal(NonterminalType::stmt),
        PyNodeType::Nonterminal(NonterminalType::block),
        PyNodeType::Nonterminal(NonterminalType::file),
    ]),
    (&["Name"], &[PyNodeType::Terminal(TerminalType::Name)]),
    (&["atom", "expression", "Error(stmt)"], &[
        PyNodeType::Nonterminal(NonterminalType::atom),
        PyNodeType::Nonterminal(NonterminalType::expression),
        PyNodeType::ErrorNonterminal(NonterminalType::stmt),
    ]),
    (&["Newline", "function_def", "Number"], &[
        PyNodeType::Terminal(TerminalType::Newline),
        PyNodeType::Nonterminal(NonterminalType::function_def),
        PyNodeType::Terminal(TerminalType::Number),
    ]),
];

/// Every answer of the navigation methods of one tree.
fn nav(text: &str) -> Value {
    let tree = parse(text.into());
    let code = tree.as_code();
    let base = code.as_ptr() as usize;
    let slice = |s: &str| {
        let off = if s.is_empty() { 0 } else { s.as_ptr() as usize - base };
        json!([off, s.len()])
    };
    let opt = |n: Option<PyNode>| n.map_or(-1, |n| n.index as i64);
    let mut nodes = vec![];
    walk(tree.root_node(), 0, &mut |n, d| {
        let types: Vec<i64> = SETS.iter().map(|s| opt(n.parent_until(s.1))).collect();
        let found: Vec<Value> = if n.is_leaf() {
            vec![]
        } else {
            SETS.iter()
                .flat_map(|s| [false, true].map(|a| {
                    json!(n.search(s.1, a).map(|x| x.index).collect::<Vec<_>>())
                }))
                .collect()
        };
        let kids: Vec<_> = n.iter_children().map(|c| c.index).collect();
        let nth: Vec<_> = (0..kids.len()).map(|i| n.nth_child(i).index).collect();
        nodes.push(json!({"idx": n.index, "d": d, "leaf": n.is_leaf(), "s": n.start(), "e": n.end(),
            "len": n.length(), "type": n.type_str(), "err": n.is_error_recovery_node(),
            "isType": SETS.iter().map(|s| s.1.iter().any(|t| n.is_type(*t))).collect::<Vec<_>>(),
            "errNode": n.maybe_error_node().is_some(), "errLeaf": n.maybe_error_leaf().is_some(),
            "par": opt(n.parent()), "next": opt(n.next_sibling()), "prev": opt(n.previous_sibling()),
            "nl": opt(n.next_leaf()), "pl": opt(n.previous_leaf()),
            "ll": n.last_leaf_in_subtree().index, "kids": kids, "nth": nth,
            "code": slice(n.as_code()), "pre": slice(n.prefix_to_previous_leaf()),
            "suf": slice(n.suffix()), "until": types, "found": found,
            "same": tree.node_by_index(n.index).index == n.index}));
    });
    let at: Vec<_> =
        (0..code.len() as u32 + 3).map(|p| tree.leaf_by_position(p).index).collect();
    json!({"size": code.len(), "nodes": nodes, "at": at,
           "sets": SETS.iter().map(|s| s.0).collect::<Vec<_>>()})
}

/// `nav TEXTS k n OUT MAX`: writes OUT.nav for trees with at most MAX nodes.
pub fn nav_main(args: &[String]) {
    let (k, n): (usize, usize) = (args[1].parse().unwrap(), args[2].parse().unwrap());
    let max: usize = args[4].parse().unwrap();
    let mut seen: HashMap<String, ()> = HashMap::new();
    let mut f = std::fs::File::create(format!("{}.nav", args[3])).unwrap();
    let mut done = 0;
    for (i, v) in crate::lines(&args[0]).enumerate() {
        if i % n != k {
            continue;
        }
        println!("{}", json!({"begin": i}));
        let t = text(&v);
        let r = crate::guarded(|| {
            if parse(t.as_str().into()).length() > max { None } else { Some(nav(&t)) }
        });
        match r {
            Ok(None) => continue,
            Ok(Some(v)) => {
                let s = v.to_string();
                if seen.insert(s.clone(), ()).is_none() {
                    writeln!(f, "{{\"i\":{i},{}", &s[1..]).unwrap();
                    done += 1;
                }
            }
            Err(e) => println!("{}", json!({"mismatch": i, "detail": {"text": t,
                "why": {"what": "panic", "got": e}}})),
        }
    }
    println!("{}", json!({"done": done}));
}

/// `repeat TEXTS k n TIMES`: the second piece, that often in a row after the
/// first one, is parsed on a stack of the usual size.
pub fn repeat(args: &[String]) {
    let (k, n): (usize, usize) = (args[1].parse().unwrap(), args[2].parse().unwrap());
    let times: usize = args[3].parse().unwrap();
    let mut done = 0;
    for (i, v) in crate::lines(&args[0]).enumerate() {
        if i % n != k {
            continue;
        }
        println!("{}", json!({"begin": i}));
        let (first, second) = (v[0].as_str().unwrap(), v[1].as_str().unwrap());
        let t = format!("{first}{}", second.repeat(times));
        let t0 = std::time::Instant::now();
        let len = t.len();
        let r = std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn(move || {
                let tree = parse(t.as_str().into());
                let spans: Vec<_> = tree
                    .nodes()
                    .filter(|n| n.is_leaf())
                    .map(|n| (n.start(), n.end()))
                    .collect();
                tree.as_code().starts_with(&t)
                    && spans.windows(2).all(|w| w[0].1 <= w[1].0)
                    && spans.last().unwrap().1 as usize == tree.as_code().len()
            })
            .unwrap()
            .join();
        if t0.elapsed().as_secs() > 5 {
            eprintln!("slow: {v} {len} {:?}", t0.elapsed());
        }
        if !matches!(r, Ok(true)) {
            println!("{}", json!({"mismatch": i, "detail": {"times": times, "why": {"what": "panic or leaves"}}}));
        }
        done += 1;
    }
    println!("{}", json!({"done": done}));
}

/// A symbol of a rule as GrammarJudge.tla names it.
fn symbol(n: PyNode) -> Value {
    let t = n.type_str();
    if let Some(e) = t.strip_prefix("Error(") {
        return json!([if n.is_leaf() { "el" } else { "e" }, e.trim_end_matches(')')]);
    }
    if n.is_leaf() {
        if t == "Keyword" { json!(["k", n.as_code()]) } else { json!(["t", t]) }
    } else {
        json!(["n", t])
    }
}

/// `kids TEXTS k n OUT`: all pairs of a node and its children, once each.
pub fn kids(args: &[String]) {
    let (k, n): (usize, usize) = (args[1].parse().unwrap(), args[2].parse().unwrap());
    let mut seen: BTreeMap<String, usize> = BTreeMap::new();
    let (mut done, mut nodes) = (0, 0usize);
    for (i, v) in crate::lines(&args[0]).enumerate() {
        if i % n != k {
            continue;
        }
        println!("{}", json!({"begin": i}));
        let t = text(&v);
        let r = crate::guarded(|| {
            let tree = parse(t.as_str().into());
            walk(tree.root_node(), 0, &mut |n, _| {
                nodes += 1;
                let s = symbol(n);
                let r = if n.is_leaf() {
                    if s[1] != "Name" {
                        return;
                    }
                    json!({"k": "leaf", "type": s[1], "text": n.as_code()})
                } else {
                    let kids: Vec<_> = n.iter_children().map(symbol).collect();
                    json!({"k": if s[0] == "e" { "error" } else { "node" }, "n": s[1], "kids": kids})
                };
                seen.entry(r.to_string()).or_insert(i);
            });
        });
        if let Err(e) = r {
            println!("{}", json!({"mismatch": i, "detail": {"text": t, "why": {"what": "panic", "got": e}}}));
        }
        done += 1;
    }
    let mut f = std::fs::File::create(format!("{}.kids", args[3])).unwrap();
    for (s, i) in &seen {
        writeln!(f, "{{\"i\":{i},{}", &s[1..]).unwrap();
    }
    println!("{}", json!({"done": done, "nodes": nodes, "pairs": seen.len()}));
}
