use parsa_python::{PyNode, PyTree, parse};

/// The tree as the list of events the specification produces.
pub fn events(n: PyNode, out: &mut Vec<String>) {
    if n.is_leaf() {
        out.push(format!("{} {}", n.type_str(), n.as_code()));
    } else {
        out.push(format!("({}", n.type_str()));
        for c in n.iter_children() {
            events(c, out);
        }
        out.push(")".into());
    }
}

fn render(n: PyNode, depth: usize) {
    let pad = "  ".repeat(depth);
    if n.is_leaf() {
        println!("{pad}{} {:?} {}..{}", n.type_str(), n.as_code(), n.start(), n.end());
    } else {
        println!("{pad}{} {}..{}", n.type_str(), n.start(), n.end());
        for c in n.iter_children() {
            render(c, depth + 1);
        }
    }
}

pub fn show(args: &[String]) {
    let code = match args.first().map(|s| s.as_str()) {
        Some("-") | None => std::io::read_to_string(std::io::stdin()).unwrap(),
        Some(s) => s.to_string(),
    };
    let tree: PyTree = parse(code.into());
    render(tree.root_node(), 0);
}
