//! A broken line between statements of a program: the statements must be
//! parsed as PyGen.tla derives them.
use crate::grammar::{Program, program};
use crate::shape::events;
use parsa_python::{PyNode, PyNodeType, parse};
use serde_json::{Value, json};

/// A place between statements where a line can be inserted.
struct Place {
    /// In the events and in the leaves with text.
    event: usize,
    leaf: usize,
    at: usize,
    indent: String,
    /// The statement in front of it is a compound one.
    after_compound: bool,
    /// The statement behind it can be decorated.
    before_def: bool,
}

fn places(p: &Program) -> Vec<Place> {
    let mut res = vec![];
    // (kind, statements seen, event of the last one)
    let mut stack: Vec<(&str, usize, usize)> = vec![];
    let mut leaf = 0;
    for (i, e) in p.events.iter().enumerate() {
        let opens = e.starts_with('(') && !e.contains(' ');
        let top = stack.last().copied();
        if let Some((kind, seen, last)) = top {
            let blocky = kind == "(file" || (kind == "(block" && seen > 0 || kind == "(block" && e == "(stmt");
            let here = blocky && (e == "(stmt" || e.starts_with("Dedent") || e.starts_with("Endmarker"));
            if here {
                let at = if leaf == 0 { 0 } else { p.starts[leaf - 1].1 };
                // The indentation of the statements of this block.
                let first = if e == "(stmt" { i } else { last };
                let first_leaf = p.events[..first].iter().filter(|e| !is_node(e) && has_text(e)).count();
                let indent = if kind == "(file" {
                    Some(String::new())
                } else {
                    p.starts.get(first_leaf).and_then(|l| {
                        let line = &p.text[..l.0];
                        let line = &line[line.rfind(['\n', '\r']).map_or(0, |x| x + 1)..];
                        // A joined line in front of it tells nothing about the indentation.
                        let joined = p.text[..l.0 - line.len()].trim_end_matches(['\n', '\r']).ends_with('\\');
                        (!joined && line.chars().all(|c| c == ' ' || c == '\t')).then(|| line.to_string())
                    })
                };
                let starts_line = at == 0 || p.text[..at].ends_with(['\n', '\r']);
                if let Some(indent) = indent && starts_line {
                    res.push(Place {
                        event: i,
                        leaf,
                        at,
                        indent,
                        after_compound: seen > 0 && p.events[last..i].iter().any(|e| e.contains("block")),
                        before_def: e == "(stmt" && p.events[i..].iter().find(|e| !is_node(e)).is_some_and(|e| {
                            [" def", " class", " async", " @"].iter().any(|x| e.ends_with(x))
                        }),
                    });
                }
            }
        }
        if opens {
            if let Some(t) = stack.last_mut() && e == "(stmt" {
                t.1 += 1;
                t.2 = i;
            }
            stack.push((e, 0, 0));
        } else if e == ")" {
            stack.pop();
        } else if has_text(e) {
            leaf += 1;
        }
    }
    res
}

fn is_node(e: &str) -> bool {
    e == ")" || (e.starts_with('(') && !e.contains(' '))
}

fn has_text(e: &str) -> bool {
    !e.ends_with(' ') || e.len() > e.find(' ').unwrap() + 1
}

fn has_error(n: PyNode) -> bool {
    matches!(n.type_(), PyNodeType::ErrorNonterminal(_) | PyNodeType::ErrorTerminal(_) | PyNodeType::ErrorKeyword)
        || (!n.is_leaf() && n.iter_children().any(has_error))
}

pub fn is_broken(line: &str) -> bool {
    has_error(parse(line.into()).root_node())
}

/// The line would go on with the statement in front of it, or the statement
/// behind it goes on with the line: then it is no statement of its own.
fn joins(line: &str, p: &Place) -> bool {
    let first: String = line.trim_start().chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
    (p.after_compound && ["else", "elif", "except", "finally", "case"].contains(&first.as_str()))
        || (p.before_def && line.contains('@'))
}

fn compare(text: &str, want: &Program, p: &Place, len: usize) -> Option<Value> {
    let tree = parse(text.into());
    let (mut ev, mut leaves) = (vec![], vec![]);
    events(tree.root_node(), &mut ev);
    crate::grammar::starts(tree.root_node(), &mut leaves);
    let cut = |v: &Vec<String>, i: usize| v[i.min(v.len()).saturating_sub(4)..(i + 5).min(v.len())].to_vec();
    let front = ev.iter().zip(&want.events).take_while(|(a, b)| a == b).count();
    if front < p.event {
        return Some(json!({"what": "tree in front of the broken line", "want": cut(&want.events, front), "got": cut(&ev, front)}));
    }
    let n = want.events.len() - p.event;
    if ev.len() <= want.events.len() || ev[ev.len() - n..] != want.events[p.event..] {
        let back = ev.iter().rev().zip(want.events.iter().rev()).take_while(|(a, b)| a == b).count();
        return Some(json!({"what": "tree behind the broken line",
            "want": cut(&want.events, want.events.len().saturating_sub(back)), "got": cut(&ev, ev.len() - back)}));
    }
    let middle = &ev[p.event..ev.len() - n];
    let mut depth = 0i32;
    for e in middle {
        depth += if e == ")" { -1 } else if is_node(e) { 1 } else { 0 };
        if depth < 0 {
            return Some(json!({"what": "nesting", "want": "statements", "got": middle}));
        }
    }
    if depth != 0 || !middle.iter().any(|e| e.contains("Error(")) {
        return Some(json!({"what": "the broken line", "want": "nodes with an error", "got": middle}));
    }
    let m = want.starts.len() - p.leaf;
    for (i, w) in want.starts.iter().enumerate() {
        let (g, w) = if i < p.leaf { (leaves[i], *w) } else { (leaves[leaves.len() - m + i - p.leaf], (w.0 + len, w.1 + len)) };
        if g != w {
            return Some(json!({"what": "position", "want": w, "got": g}));
        }
    }
    for g in &leaves[p.leaf..leaves.len() - m] {
        if g.0 < p.at || g.1 > p.at + len {
            return Some(json!({"what": "extent of the broken line", "want": [p.at, p.at + len], "got": g}));
        }
    }
    None
}

/// `recover PROGRAMS k n LINES`: one program per line, all lines at all places
/// (the lines are dealt out over the programs).
pub fn main(args: &[String]) {
    let (k, n): (usize, usize) = (args[1].parse().unwrap(), args[2].parse().unwrap());
    let lines: Vec<String> = crate::lines(&args[3])
        .map(|v| v.as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect::<String>() + "\n")
        .filter(|l| is_broken(l))
        .collect();
    let each: usize = args[4].parse().unwrap();
    let (mut done, mut texts, mut nested, mut next) = (0, 0, 0, k * lines.len() / n);
    for (i, v) in crate::lines(&args[0]).enumerate() {
        if i % n != k {
            continue;
        }
        println!("{}", json!({"begin": i}));
        let p = program(&v);
        done += 1;
        'program: for place in places(&p) {
            nested += !place.indent.is_empty() as usize;
            for _ in 0..each.min(lines.len()) {
                next = (next + 1) % lines.len();
                if joins(&lines[next], &place) {
                    continue;
                }
                let line = format!("{}{}", place.indent, lines[next]);
                texts += 1;
                let text = format!("{}{line}{}", &p.text[..place.at], &p.text[place.at..]);
                let r = crate::guarded(|| compare(&text, &p, &place, line.len()))
                    .unwrap_or_else(|e| Some(json!({"what": "panic", "got": e})));
                if let Some(why) = r {
                    println!("{}", json!({"mismatch": i, "detail": {"why": why, "text": text, "line": line, "at": place.at}}));
                    break 'program;
                }
            }
        }
    }
    println!("{}", json!({"done": done, "texts": texts, "nested": nested, "lines": lines.len()}));
}
