//! Records what an editor asks of the tree, for Ranges.tla.
use parsa_python::{PyNode, parse};
use parsa_python_cst::{PotentialInlayHint, Tree};
use serde_json::{Value, json};
use std::collections::HashSet;
use std::io::Write;

fn walk(n: PyNode, d: usize, out: &mut Vec<Value>) {
    out.push(json!({"t": n.type_str(), "d": d, "leaf": n.is_leaf(), "s": n.start(), "e": n.end()}));
    if !n.is_leaf() {
        n.iter_children().for_each(|c| walk(c, d + 1, out));
    }
}

/// The positions within comments, the end of the line not included.
fn comments(code: &str, nodes: &[Value]) -> Vec<usize> {
    let mut token = vec![false; code.len()];
    for n in nodes.iter().filter(|n| n["leaf"] == true) {
        for p in n["s"].as_u64().unwrap()..n["e"].as_u64().unwrap() {
            token[p as usize] = true;
        }
    }
    let mut inside = false;
    let mut out = vec![];
    for (p, c) in code.bytes().enumerate() {
        if inside {
            out.push(p);
        }
        inside = !token[p] && (inside || c == b'#') && c != b'\n' && c != b'\r';
    }
    out
}

fn record(text: &str, max: usize) -> Option<Value> {
    let tree = Tree::parse(text.into());
    if tree.length() > max || tree.code().len() > 3 * max {
        return None;
    }
    let code = tree.code();
    let mut nodes = vec![];
    walk(parse(text.into()).root_node(), 0, &mut nodes);
    let bounds: Vec<_> = (0..=code.len()).map(|p| code.is_char_boundary(p)).collect();
    let at = |p: usize| bounds[p];
    let sel: Vec<Value> = (0..=code.len())
        .map(|p| {
            if !at(p) {
                return json!([]);
            }
            // One that does not end shows in what was taken.
            json!(tree.selection_ranges(p as u32).take(200).map(|r| json!([r.start, r.end])).collect::<Vec<_>>())
        })
        .collect();
    // Indexes count from one.
    let names: Vec<Value> = (0..=code.len())
        .map(|p| {
            if !at(p) {
                return json!([]);
            }
            json!(tree.filter_all_names(Some(p as u32)).map(|n| n.index() + 1).collect::<Vec<_>>())
        })
        .collect();
    let all: Vec<_> = tree.filter_all_names(None).map(|n| n.index() + 1).collect();
    let fold: Vec<_> = tree.folding_blocks().map(|(a, b)| json!([a, b])).collect();
    let mut hints = vec![];
    for (a, b) in [(0, code.len()), (code.len() / 3, code.len() / 2), (code.len() / 2, code.len()), (code.len() / 4, code.len() / 4)] {
        if at(a) {
            let got: Vec<_> = tree
                .potential_inlay_hints(a as u32, b as u32)
                .map(|h| match h {
                    PotentialInlayHint::FunctionDef(f) => f.index() + 1,
                    PotentialInlayHint::Assignment(a) => a.index() + 1,
                })
                .collect();
            hints.push(json!({"from": a, "to": b, "got": got}));
        }
    }
    let mut lines = vec![0];
    lines.extend(code.bytes().enumerate().filter(|(_, b)| *b == b'\n').map(|(i, _)| i + 1));
    let errors = nodes.iter().any(|n| n["t"].as_str().unwrap().starts_with("Error"));
    Some(json!({"size": code.len(), "nodes": nodes, "bounds": bounds, "sel": sel, "names": names, "all": all,
        "fold": fold, "hints": hints, "lines": lines, "errors": errors, "comments": comments(code, &nodes),
        "imports": tree.initial_imports_end_code_index()}))
}

/// `ranges TEXTS k n OUT MAX`
pub fn main(args: &[String]) {
    let (k, n): (usize, usize) = (args[1].parse().unwrap(), args[2].parse().unwrap());
    let max: usize = args[4].parse().unwrap();
    let mut f = std::fs::File::create(format!("{}.ranges", args[3])).unwrap();
    let mut seen = HashSet::new();
    let mut done = 0;
    for (i, v) in crate::lines(&args[0]).enumerate() {
        if i % n != k {
            continue;
        }
        println!("{}", json!({"begin": i}));
        let t = crate::tree::text(&v);
        match crate::guarded(|| record(&t, max)) {
            Ok(None) => (),
            Ok(Some(v)) => {
                let s = v.to_string();
                if seen.insert(s.clone()) {
                    writeln!(f, "{{\"i\":{i},{}", &s[1..]).unwrap();
                    done += 1;
                }
            }
            Err(e) => println!("{}", json!({"mismatch": i, "detail": {"text": t,
                "why": {"what": format!("panic on {t:?}"), "got": e}}})),
        }
    }
    println!("{}", json!({"done": done}));
}
