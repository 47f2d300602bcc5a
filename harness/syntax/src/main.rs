//! Drives the real tokenizer, parser and syntax tree with texts generated from
//! the TLA+ specifications and reports what they answer.
mod cursor;
mod engine;
mod grammar;
mod lex;
mod ignores;
mod literal;
mod accessors;
mod ranges;
mod recover;
mod shape;
mod tree;

use std::io::BufRead;

thread_local! {
    /// Where the last panic was.
    static PLACE: std::cell::RefCell<String> = Default::default();
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PLACE.with(|p| *p.borrow_mut() = at);
    }));
    let args: Vec<String> = std::env::args().collect();
    // Deeply nested programs need stack; how deep the code may recurse is not
    // what these checks are about.
    let t = std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(move || match args.get(1).map(|s| s.as_str()) {
            Some("grammar") => grammar::main(&args[2..]),
            Some("total") => tree::total(&args[2..]),
            Some("nav") => tree::nav_main(&args[2..]),
            Some("engine") => engine::main(&args[2..]),
            Some("recover") => recover::main(&args[2..]),
            Some("literal") => literal::main(&args[2..]),
            Some("ranges") => ranges::main(&args[2..]),
            Some("cursor") => cursor::main(&args[2..]),
            Some("accessors") => accessors::main(&args[2..]),
            Some("ignores") => ignores::main(&args[2..]),
            Some("lex") => lex::main(&args[2..]),
            Some("kids") => tree::kids(&args[2..]),
            Some("repeat") => tree::repeat(&args[2..]),
            Some("show") => shape::show(&args[2..]),
            _ => {
                eprintln!("usage: syntax show ...");
                std::process::exit(2);
            }
        })
        .unwrap();
    if t.join().is_err() {
        std::process::exit(2);
    }
}

pub fn lines(path: &str) -> impl Iterator<Item = serde_json::Value> {
    let f = std::fs::File::open(path).unwrap_or_else(|e| {
        eprintln!("cannot open {path}: {e}");
        std::process::exit(2);
    });
    std::io::BufReader::new(f).lines().map(|l| {
        serde_json::from_str(&l.unwrap()).unwrap_or_else(|e| {
            eprintln!("bad json: {e}");
            std::process::exit(2);
        })
    })
}

/// Runs something that may panic inside the code under test.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }
    })
}
