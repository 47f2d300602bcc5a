//! Grammars of Engine.tla, built at run time, and what the engine makes of
//! every input.
use parsa::{
    FastHashMap, Grammar, HashSet, InternalNode, InternalNonterminalType, InternalStrToNode,
    InternalStrToToken, InternalTerminalType, NODE_START, Rule, Token,
};
use serde_json::{Value, json};

#[derive(Copy, Clone, Debug)]
struct Tok {
    start: u32,
    length: u32,
    end: bool,
}
impl Token for Tok {
    fn start_index(&self) -> u32 {
        self.start
    }
    fn length(&self) -> u32 {
        self.length
    }
    fn type_(&self) -> InternalTerminalType {
        InternalTerminalType(if self.end { 0 } else { 1 })
    }
    fn can_contain_syntax(&self) -> bool {
        !self.end
    }
}

fn leak(r: Rule) -> &'static Rule {
    Box::leak(Box::new(r))
}
fn leak_str(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}
fn all(v: &Value, join: fn(&'static Rule, &'static Rule) -> Rule) -> Rule {
    let v = v.as_array().unwrap();
    let mut it = v.iter().rev();
    let mut r = rule(it.next().unwrap());
    for x in it {
        r = join(leak(rule(x)), leak(r));
    }
    r
}
fn rule(b: &Value) -> Rule {
    let text = |v: &Value| leak_str(v.as_str().unwrap().into());
    match b[0].as_str().unwrap() {
        "t" => Rule::Keyword(text(&b[1])),
        "n" => Rule::Identifier(leak_str(format!("r{}", b[1]))),
        "seq" => all(&b[1], Rule::Next),
        "alt" => all(&b[1], Rule::Or),
        "opt" => Rule::Maybe(leak(rule(&b[1]))),
        "star" => Rule::Maybe(leak(Rule::Multiple(leak(rule(&b[1]))))),
        "plus" => Rule::Multiple(leak(rule(&b[1]))),
        "not" => Rule::NegativeLookahead(leak(Rule::Keyword(text(&b[1])))),
        "and" => Rule::PositiveLookahead(leak(Rule::Keyword(text(&b[1])))),
        x => panic!("{x}"),
    }
}

fn build(v: &Value) -> Grammar<Tok> {
    let id = |k: usize| InternalNonterminalType(NODE_START + k as u16);
    let mut names: InternalStrToNode = FastHashMap::default();
    let mut rules = FastHashMap::default();
    names.insert("file", id(0));
    rules.insert(
        id(0),
        ("file", Rule::Next(
            leak(Rule::Maybe(leak(Rule::Multiple(leak(Rule::Identifier("r1")))))),
            leak(Rule::Identifier("End")),
        )),
    );
    for (k, r) in v["rules"].as_array().unwrap().iter().enumerate() {
        let name = leak_str(format!("r{}", k + 1));
        names.insert(name, id(k + 1));
        let mut body = rule(&r["body"]);
        if k == 0 {
            body = Rule::DoesErrorRecovery(leak(body));
        }
        if r["hidden"] == true {
            body = Rule::NodeMayBeOmitted(leak(body));
        }
        rules.insert(id(k + 1), (name, body));
    }
    // All letters of the inputs are keywords of the grammar.
    let mut terminals: InternalStrToToken = FastHashMap::default();
    terminals.insert("End", InternalTerminalType(0));
    terminals.insert("Other", InternalTerminalType(1));
    let soft: FastHashMap<InternalTerminalType, HashSet<&'static str>> = FastHashMap::default();
    Grammar::new(&rules, Box::leak(Box::new(names)), Box::leak(Box::new(terminals)), soft)
}

fn tree(nodes: &[InternalNode], code: &str, i: usize) -> Value {
    let n = &nodes[i];
    if n.type_.is_error_recovery() {
        return json!("error");
    }
    if n.type_.is_leaf() {
        let s = n.start_index as usize;
        return json!(&code[s..s + n.length as usize]);
    }
    let mut kids = vec![];
    let mut c = i + 1;
    loop {
        kids.push(tree(nodes, code, c));
        match nodes[c].next_node_offset {
            0 => break,
            d => c += d as usize,
        }
    }
    json!([n.type_.0 - NODE_START, kids])
}

/// Every node is visited once, the leaves are the tokens in order, and a node
/// reaches from its first to its last leaf. Returns the node behind.
fn shape(nodes: &[InternalNode], i: usize, leaf: &mut u32) -> Result<usize, String> {
    let n = &nodes[i];
    if n.type_.is_leaf() {
        if n.start_index != *leaf {
            return Err(format!("leaf {i} starts at {} instead of {leaf}", n.start_index));
        }
        *leaf += 1;
        return Ok(i + 1);
    }
    if n.start_index != *leaf {
        return Err(format!("node {i} starts at {} instead of {leaf}", n.start_index));
    }
    let mut c = i + 1;
    loop {
        if c >= nodes.len() {
            return Err(format!("node {i} has no child at {c}"));
        }
        let end = shape(nodes, c, leaf)?;
        match nodes[c].next_node_offset {
            0 => {
                let last = &nodes[end - 1];
                let stop = last.start_index + last.length;
                if n.start_index + n.length != stop {
                    return Err(format!("node {i} ends at {} instead of {stop}", n.start_index + n.length));
                }
                return Ok(end);
            }
            d => c += d as usize,
        }
        if c != end {
            return Err(format!("the sibling before {c} ends at {end}"));
        }
    }
}

/// The children of the file without the end, or null if there is an error.
fn result(g: &Grammar<Tok>, code: &str) -> Value {
    let tokens = (0..=code.len()).map(|i| Tok {
        start: i as u32,
        length: (i < code.len()) as u32,
        end: i == code.len(),
    });
    let nodes = g.parse(code, tokens, InternalNonterminalType(NODE_START));
    let mut leaf = 0;
    match shape(&nodes, 0, &mut leaf) {
        Ok(n) if n == nodes.len() && leaf as usize == code.len() + 1 => (),
        x => return json!({"shape": format!("{x:?}, {leaf} leaves, {} nodes", nodes.len())}),
    }
    if nodes.iter().any(|n| n.type_.is_error_recovery()) {
        return Value::Null;
    }
    let t = tree(&nodes, code, 0);
    let mut kids = t[1].as_array().unwrap().clone();
    if kids.pop() != Some(json!("")) {
        return json!("no end");
    }
    Value::Array(kids)
}

pub fn main(args: &[String]) {
    let (k, n): (usize, usize) = (args[1].parse().unwrap(), args[2].parse().unwrap());
    let (mut done, mut inputs, mut accepted, mut rejected) = (0, 0, 0, 0);
    for (i, v) in crate::lines(&args[0]).enumerate() {
        if i % n != k {
            continue;
        }
        println!("{}", json!({"begin": i}));
        done += 1;
        let g = match crate::guarded(|| build(&v)) {
            Ok(g) => g,
            Err(e) => {
                // The engine says which grammars it does not support.
                rejected += 1;
                println!("{}", json!({"rejected": i, "why": e}));
                continue;
            }
        };
        let mut bad = 0;
        for r in v["runs"].as_array().unwrap() {
            let code: String = r[0].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
            let want = if r[1][0] == "ok" { r[1][1].clone() } else { Value::Null };
            // Letters that the grammar does not use are no tokens of it.
            if code.chars().any(|c| g.keywords.keywords.get(c.to_string().as_str()).is_none()) {
                continue;
            }
            inputs += 1;
            accepted += !want.is_null() as usize;
            let got = crate::guarded(|| result(&g, &code)).unwrap_or_else(|e| json!({"panic": e}));
            if got != want {
                bad += 1;
                if bad <= 1 {
                    println!("{}", json!({"mismatch": i, "detail": {"rules": v["rules"], "input": code,
                        "why": {"what": format!("input {code}"), "want": want, "got": got}}}));
                }
            }
        }
    }
    println!("{}", json!({"done": done, "inputs": inputs, "accepted": accepted, "rejected": rejected}));
}
