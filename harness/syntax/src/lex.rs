//! The tokens that Lexer.tla prescribes against the leaves of the tree.
use parsa_python::{PyNode, parse};
use serde_json::{Value, json};

fn leaves(n: PyNode, out: &mut Vec<(String, usize, usize)>) {
    if n.is_leaf() {
        let name = n.type_str();
        let t: &str = &name;
        let t = t.strip_prefix("Error(").map_or(t, |e| e.trim_end_matches(')'));
        // A keyword of the grammar is a name or an operator.
        let t = if t == "Keyword" {
            if n.as_code().starts_with(|c: char| c.is_alphabetic() || c == '_') { "Name" } else { "Operator" }
        } else {
            t
        };
        out.push((t.to_string(), n.start() as usize, n.end() as usize));
    } else {
        for c in n.iter_children() {
            leaves(c, out);
        }
    }
}

fn tokens(text: &str) -> Value {
    let tree = parse(text.into());
    let mut v = vec![];
    leaves(tree.root_node(), &mut v);
    // Positions in characters.
    let chars = |b: usize| text.get(..b).map_or(-1, |s| s.chars().count() as i64);
    json!(v.into_iter().map(|(t, s, e)| json!([t, chars(s), chars(e)])).collect::<Vec<_>>())
}

/// `lex FILE k n`
pub fn main(args: &[String]) {
    let (k, n): (usize, usize) = (args[1].parse().unwrap(), args[2].parse().unwrap());
    let mut done = 0;
    for (i, v) in crate::lines(&args[0]).enumerate() {
        if i % n != k {
            continue;
        }
        println!("{}", json!({"begin": i}));
        done += 1;
        let text = v["text"].as_str().unwrap();
        let got = crate::guarded(|| tokens(text)).unwrap_or_else(|e| json!({"panic": e}));
        if got != v["toks"] {
            println!("{}", json!({"mismatch": i, "detail": {"text": text,
                "why": {"what": format!("tokens of {text:?}"), "want": v["toks"], "got": got}}}));
        }
    }
    println!("{}", json!({"done": done}));
}
