//! Values of literals against Literal.tla, Concat.tla, IntLit.tla, DocText.tla.
use parsa_python_cst::{AtomContent, PythonString, StmtLikeContent, StringType, Tree};
use serde_json::{Value, json};

/// What stands alone in the first statement.
fn atom<'t>(tree: &'t Tree) -> Option<AtomContent<'t>> {
    let stmt = tree.root().iter_stmt_likes().next()?;
    match stmt.node {
        StmtLikeContent::StarExpressions(s) => match s.maybe_simple_expression()?.maybe_unpacked_atom()? {
            AtomContent::NamedExpression(n) => n.expression().maybe_unpacked_atom(),
            other => Some(other),
        },
        _ => None,
    }
}

fn codes(s: &str) -> Value {
    json!(s.chars().map(|c| c as u32).collect::<Vec<_>>())
}

fn string(s: PythonString) -> (Value, Option<u32>) {
    match s {
        PythonString::Ref(at, s) => (codes(s), Some(at)),
        PythonString::String(at, s) => (codes(&s), Some(at)),
        PythonString::FString => (Value::Null, None),
    }
}

type Found = Option<(&'static str, Value, Value)>;

fn literal(v: &Value) -> Found {
    let text = v["text"].as_str().unwrap();
    let (offset, quotes) = (v["offset"].as_u64().unwrap(), v["quotes"].as_u64().unwrap());
    // Not at the start of the file.
    let tree = Tree::parse(format!("  \n{text}\n").into());
    let got = match atom(&tree) {
        Some(AtomContent::Bytes(b)) => {
            if v["bytes"] != json!(true) {
                return Some(("kind", json!("string"), json!("bytes")));
            }
            json!(b.maybe_single_bytes_literal().unwrap().content_as_bytes().to_vec())
        }
        Some(AtomContent::Strings(s)) => {
            if v["bytes"] != json!(false) {
                return Some(("kind", json!("bytes"), json!("string")));
            }
            let (all, at) = string(s.as_python_string());
            let single = s.maybe_single_string_literal().expect("single literal");
            let (one, _) = string(single.as_python_string());
            if all != one && v["bad"] != json!(true) {
                return Some(("value of the literal alone", all, one));
            }
            let inner = &text[offset as usize..text.len() - quotes as usize];
            if single.content() != inner {
                return Some(("content", json!(inner), json!(single.content())));
            }
            let range = single.content_start_and_end_in_literal();
            let want = (offset as u32, text.len() as u32 - quotes as u32);
            if range != want {
                return Some(("content range", json!(want), json!(range)));
            }
            if at != Some(3 + offset as u32) {
                return Some(("start", json!(3 + offset), json!(at)));
            }
            all
        }
        _ => return Some(("kind", json!("literal"), json!("something else"))),
    };
    (v["bad"] != json!(true) && got != v["value"]).then(|| ("value", v["value"].clone(), got))
}

fn concat(v: &Value) -> Found {
    let tree = Tree::parse(format!("{}\n", v["parts"].as_str().unwrap()).into());
    let Some(AtomContent::Strings(s)) = atom(&tree) else {
        return Some(("kind", json!("strings"), json!("something else")));
    };
    let kinds: Vec<_> = s
        .iter()
        .map(|x| match x {
            StringType::String(_) => "s",
            StringType::FString(_) => "f",
            StringType::TemplateString(_) => "t",
        })
        .collect();
    if json!(kinds) != v["kinds"] {
        return Some(("kinds", v["kinds"].clone(), json!(kinds)));
    }
    // What a template string stands for is not a string.
    let (got, _) = string(s.as_python_string());
    let want = if v["known"] == json!(true) { v["value"].clone() } else { Value::Null };
    (!kinds.contains(&"t") && got != want).then_some(("value", want, got))
}

fn int(v: &Value) -> Found {
    let tree = Tree::parse(format!("{}\n", v["text"].as_str().unwrap()).into());
    let Some(AtomContent::Int(i)) = atom(&tree) else {
        return Some(("kind", json!("int"), json!("something else")));
    };
    let want: String = v["value"].as_array().unwrap().iter().rev().map(|d| d.to_string()).collect();
    let want = want.trim_start_matches('0');
    let want = if want.is_empty() { "0" } else { want };
    let (a, b) = (i.parse().to_string(), i.parse_as_big_uint().to_string());
    (a != want || b != want).then(|| ("value", json!(want), json!([a, b])))
}

fn doc(v: &Value) -> Found {
    let text = v["text"].as_str().unwrap();
    let got = utils::dedent(text);
    if json!(got) != v["dedent"] {
        return Some(("dedented text", v["dedent"].clone(), json!(got)));
    }
    for (what, code) in [
        ("docstring of the file", format!("\"\"\"{text}\"\"\"\n")),
        ("docstring in parts", format!("\"\" '''{text}'''\n")),
        ("docstring with other line endings", format!("'''{}'''\n", text.replace('\n', "\r\n"))),
    ] {
        let tree = Tree::parse(code.into());
        let got = tree.root().clean_docstring().into_owned();
        if json!(got) != v["clean"] {
            return Some((what, v["clean"].clone(), json!(got)));
        }
    }
    for code in [format!("def f():\n  '''{text}'''\n"), format!("class C: '''{text}'''; x\n")] {
        let tree = Tree::parse(code.into());
        let name = tree.filter_all_names(None).find(|n| ["f", "C"].contains(&n.as_code())).unwrap();
        let got = name.clean_docstring().into_owned();
        if json!(got) != v["clean"] {
            return Some(("docstring of a definition", v["clean"].clone(), json!(got)));
        }
    }
    None
}

/// `literal FILE k n`
pub fn main(args: &[String]) {
    let (k, n): (usize, usize) = (args[1].parse().unwrap(), args[2].parse().unwrap());
    let mut done = 0;
    for (i, v) in crate::lines(&args[0]).enumerate() {
        if i % n != k {
            continue;
        }
        println!("{}", json!({"begin": i}));
        done += 1;
        let r = crate::guarded(|| {
            if v.get("offset").is_some() {
                literal(&v)
            } else if v.get("parts").is_some() {
                concat(&v)
            } else if v.get("clean").is_some() {
                doc(&v)
            } else {
                int(&v)
            }
        });
        let r = r.unwrap_or_else(|e| Some(("panic", Value::Null, json!(e))));
        if let Some((what, want, got)) = r {
            println!("{}", json!({"mismatch": i, "detail": {"why": {"what": format!("{what} of {v}"), "want": want, "got": got}}}));
        }
    }
    println!("{}", json!({"done": done}));
}
