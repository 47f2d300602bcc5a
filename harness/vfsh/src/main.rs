//! Drives the real `vfs` crate with behaviours generated from the TLA+
//! specifications and reports where it answers differently.
mod conc;
mod handler;
mod lookup;
mod paths;
mod replay;

use std::io::BufRead;

fn main() {
    // Panics of the code under test are data, not noise on the terminal.
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("replay") => replay::main(&args[2..]),
        Some("lookup") => lookup::main(&args[2..]),
        Some("paths") => paths::main(&args[2..]),
        Some("conc") => conc::main(&args[2..]),
        _ => {
            eprintln!("usage: vfsh replay|lookup|paths|conc FILE ...");
            std::process::exit(2);
        }
    }
}

pub fn lines(path: &str) -> impl Iterator<Item = serde_json::Value> {
    let f = std::fs::File::open(path).unwrap_or_else(|e| {
        eprintln!("cannot open {path}: {e}");
        std::process::exit(2);
    });
    std::io::BufReader::new(f).lines().map(|l| {
        serde_json::from_str(&l.unwrap()).unwrap_or_else(|e| {
            eprintln!("bad json: {e}");
            std::process::exit(2);
        })
    })
}

/// Runs something that may panic inside the code under test.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }
    })
}
