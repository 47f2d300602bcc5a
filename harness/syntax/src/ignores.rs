//! Comments that suppress messages, against Ignores.tla.
use parsa_python::PyNode;
use parsa_python_cst::{Tree, TypeIgnoreComment};
use serde_json::{Value, json};

fn answer(c: Option<TypeIgnoreComment>, chars: &impl Fn(u32) -> i64) -> Value {
    match c {
        None => json!({"what": "none"}),
        Some(TypeIgnoreComment::WithoutCode) => json!({"what": "all"}),
        Some(TypeIgnoreComment::WithCodes { codes, kind, codes_start_at_index, codes_of_later_type_ignores }) => json!({
            "what": "codes", "kind": kind, "start": chars(codes_start_at_index), "codes": codes,
            "later": codes_of_later_type_ignores}),
    }
}

/// Types and texts of the leaves.
fn leaves(text: &str) -> Vec<(String, String)> {
    fn go(n: PyNode, out: &mut Vec<(String, String)>) {
        if n.is_leaf() {
            out.push((n.type_str().to_string(), n.as_code().to_string()));
        } else {
            n.iter_children().for_each(|c| go(c, out));
        }
    }
    let tree = parsa_python::parse(text.into());
    let mut out = vec![];
    go(tree.root_node(), &mut out);
    out
}

type Found = Option<(String, Value, Value)>;

fn check(v: &Value) -> Found {
    let text = v["text"].as_str().unwrap();
    let tree = Tree::parse(text.into());
    let mut at: Vec<u32> = text.char_indices().map(|(i, _)| i as u32).collect();
    at.push(text.len() as u32);
    let chars = |b: u32| at.binary_search(&b).map_or(-1, |x| x as i64);
    let number = |key: &str, p: usize| v[key][p].as_u64().unwrap() as usize;
    for s in 0..at.len() {
        for e in s..at.len() {
            let want = &v["answers"][number("from", s)][number("to", e)];
            let got = answer(tree.type_ignore_comment_for(at[s], at[e]), &chars);
            if got != *want {
                return Some((format!("comment for {s}..{e}"), want.clone(), got));
            }
        }
    }
    let got = match tree.has_type_ignore_at_start() {
        Ok(false) => json!("none"),
        Ok(true) => json!("all"),
        Err(codes) => json!({ "codes": codes }),
    };
    let first = &v["first"];
    let want = if first["what"] == "codes" { json!({"codes": first["codes"]}) } else { first["what"].clone() };
    if got != want {
        return Some(("comment for the file".into(), want, got));
    }
    let got = json!(tree.mypy_inline_config_directives().map(|(i, s)| json!([chars(i), s])).collect::<Vec<_>>());
    if got != v["directives"] {
        return Some(("directives".into(), v["directives"].clone(), got));
    }
    for p in 0..at.len() {
        let want = &v["insert"][p];
        let (must, place) = (want["must"].as_str().unwrap(), want["at"].as_i64());
        let got = tree.insertion_point_for_type_ignore(at[p]);
        let Some(got) = got else {
            if must == "extend" || must == "add" {
                return Some((format!("insertion at {p}"), want.clone(), json!("none")));
            }
            continue;
        };
        let here = json!({"at": chars(got.insertion_index)});
        if must == "not" || place.is_some_and(|x| x != chars(got.insertion_index)) {
            return Some((format!("insertion at {p}"), want.clone(), here));
        }
        let before = leaves(text);
        for kind in ["type", "zuban"] {
            let new = got.format_for_kind(kind, "new-code");
            if must == "extend" && (want["kind"] == kind) != new.is_some() || must == "add" && new.is_none() {
                return Some((format!("insertion at {p} of kind {kind}"), want.clone(), json!(new)));
            }
            let Some(new) = new else { continue };
            let i = got.insertion_index as usize;
            let changed = format!("{}{new}{}", &text[..i], &text[i..]);
            if leaves(&changed) != before {
                return Some((format!("tokens with {new:?} inserted for {p}"), json!(text), json!(changed)));
            }
            let tree = Tree::parse(changed.clone().into());
            let ok = match tree.type_ignore_comment_for(at[p], at[p]) {
                Some(TypeIgnoreComment::WithCodes { codes, kind: k, .. }) => {
                    k == kind && codes.split(',').any(|x| x.trim() == "new-code")
                }
                _ => false,
            };
            if !ok {
                return Some((format!("recognised for {p}"), json!(new), json!(changed)));
            }
        }
    }
    None
}

/// `ignores FILE k n`
pub fn main(args: &[String]) {
    let (k, n): (usize, usize) = (args[1].parse().unwrap(), args[2].parse().unwrap());
    let mut done = 0;
    for (i, v) in crate::lines(&args[0]).enumerate() {
        if i % n != k {
            continue;
        }
        println!("{}", json!({"begin": i}));
        done += 1;
        let r = crate::guarded(|| check(&v)).unwrap_or_else(|e| Some(("panic".into(), Value::Null, json!(e))));
        if let Some((what, want, got)) = r {
            println!("{}", json!({"mismatch": i, "detail": {"why": {"what": format!("{what} of {}", v["text"]), "want": want, "got": got}}}));
        }
    }
    println!("{}", json!({"done": done}));
}
