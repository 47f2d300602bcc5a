//! Programs of PyGen.tla: the real tree of the text must be the tree the
//! specification derives.
use crate::shape::events;
use parsa_python::{PyNode, PyTree, parse};
use serde_json::{Value, json};

pub struct Program {
    pub text: String,
    /// Events as `shape::events` prints them.
    pub events: Vec<String>,
    /// Where the leaves with text start.
    pub starts: Vec<(usize, usize)>,
}

pub fn program(v: &Value) -> Program {
    let mut p = Program { text: String::new(), events: vec![], starts: vec![] };
    for e in v.as_array().unwrap() {
        match e[0].as_str().unwrap() {
            "(" => p.events.push(format!("({}", e[1].as_str().unwrap())),
            ")" => p.events.push(")".into()),
            _ => {
                let (ty, x, gap) =
                    (e[1].as_str().unwrap(), e[2].as_str().unwrap(), e[3].as_str().unwrap());
                p.text.push_str(gap);
                if !x.is_empty() {
                    p.starts.push((p.text.len(), p.text.len() + x.len()));
                }
                p.text.push_str(x);
                p.events.push(format!("{ty} {x}"));
            }
        }
    }
    p
}

pub fn starts(n: PyNode, out: &mut Vec<(usize, usize)>) {
    if n.is_leaf() {
        if n.start() != n.end() {
            out.push((n.start() as usize, n.end() as usize));
        }
    } else {
        for c in n.iter_children() {
            starts(c, out);
        }
    }
}

/// None if the tree is as it has to be.
pub fn compare(p: &Program) -> Option<Value> {
    let tree: PyTree = parse(p.text.clone().into());
    let mut ev = vec![];
    events(tree.root_node(), &mut ev);
    if ev != p.events {
        let i = ev.iter().zip(&p.events).take_while(|(a, b)| a == b).count();
        let cut = |v: &Vec<String>| v[i.saturating_sub(6)..(i + 6).min(v.len())].to_vec();
        return Some(json!({"what": "tree", "at": i, "want": cut(&p.events), "got": cut(&ev)}));
    }
    let mut st = vec![];
    starts(tree.root_node(), &mut st);
    if st != p.starts {
        let i = st.iter().zip(&p.starts).take_while(|(a, b)| a == b).count();
        return Some(json!({"what": "position", "at": i, "want": p.starts.get(i), "got": st.get(i)}));
    }
    None
}

/// The same program without its last line ending, if that is all behind the
/// last statement.
fn cut(p: &Program) -> Option<Program> {
    let body = p.text.strip_suffix('\n')?;
    let body = body.strip_suffix('\r').unwrap_or(body);
    let i = p.events.iter().rposition(|e| e.starts_with("Newline "))?;
    if p.starts.last()?.1 != p.text.len() || p.events[i] == "Newline " {
        return None;
    }
    let mut q = Program { text: body.into(), events: p.events.clone(), starts: p.starts.clone() };
    q.events[i] = "Newline \n".into();
    q.starts.last_mut()?.1 = body.len() + 1;
    Some(q)
}

pub fn main(args: &[String]) {
    let (k, n): (usize, usize) = (args[1].parse().unwrap(), args[2].parse().unwrap());
    let (mut done, mut cuts) = (0, 0);
    for (i, v) in crate::lines(&args[0]).enumerate() {
        if i % n != k {
            continue;
        }
        println!("{}", json!({"begin": i}));
        let p = program(&v);
        let mut variants = vec![("whole", p)];
        if let Some(q) = cut(&variants[0].1) {
            cuts += 1;
            variants.push(("without the last line ending", q));
        }
        for (name, p) in &variants {
            let r = crate::guarded(|| compare(p))
                .unwrap_or_else(|e| Some(json!({"what": "panic", "got": e})));
            if let Some(why) = r {
                println!("{}", json!({"mismatch": i, "detail":
                    {"why": why, "text": p.text, "variant": name}}));
                break;
            }
        }
        done += 1;
    }
    println!("{}", json!({"done": done, "cuts": cuts}));
}
