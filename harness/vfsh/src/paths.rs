//! V06: answers prescribed by PathAlg.tla against the real path functions.
use std::{path::Path, sync::Arc};

use serde_json::{Value, json};
use vfs::*;

use crate::guarded;

fn s(v: &Value) -> String {
    v.as_array()
        .unwrap()
        .iter()
        .map(|c| c.as_str().unwrap())
        .collect()
}

fn opt(v: &Value) -> Option<String> {
    v.get("some").map(s)
}

struct Cx {
    fs: SimpleLocalFS,
    all: Vec<String>,
}

impl Cx {
    fn raw(&self, t: &str) -> Arc<AbsPath> {
        self.fs.unchecked_abs_path_from_uri(Arc::from(t))
    }
    fn norm(&self, t: &str) -> String {
        self.fs.normalize_path(&self.raw(t)).to_string()
    }

    fn ask(&self, q: &Value) -> Result<(), Value> {
        let fs = &self.fs;
        macro_rules! eq {
            ($what:expr, $got:expr, $want:expr) => {
                let (g, w) = ($got, $want);
                if g != w {
                    return Err(json!({"what": $what, "got": format!("{:?}", g), "want": format!("{:?}", w)}));
                }
            };
        }
        match q["k"].as_str().unwrap() {
            "text" => {
                let t = s(&q["s"]);
                let n = s(&q["norm"]);
                eq!("normalize_path", self.norm(&t), n.clone());
                eq!("normalize_rc_path", fs.normalize_rc_path(self.raw(&t)).to_string(), n.clone());
                if n != "/" {
                    eq!("normalize_unchecked_abs_path", fs.normalize_unchecked_abs_path(&t).to_string(), n.clone());
                }
                let (a, b) = fs.split_off_first_item(&t);
                eq!("split_off_first_item", (a.to_string(), b.map(|x| x.to_string())),
                    (s(&q["first"]["head"]), opt(&q["first"]["rest"])));
                let rel = &t[1..];
                let (a, b) = fs.split_off_first_item(rel);
                let want = match rel.split_once('/') { Some((x, y)) => (x, Some(y)), None => (rel, None) };
                eq!("split_off_first_item (relative)", (a, b), want);
                let (a, b) = fs.split_off_last_item(&t);
                eq!("split_off_last_item", (a.map(|x| x.to_string()), b.to_string()),
                    (opt(&q["last"]["folder"]), s(&q["last"]["name"])));
                let np = self.raw(&n);
                eq!("parent_of_absolute_path", fs.parent_of_absolute_path(&np).map(|p| p.to_string()), opt(&q["parent"]));
                eq!("strip_separator_prefix", fs.strip_separator_prefix(&t), Some(rel));
                eq!("strip_separator_suffix", fs.strip_separator_suffix(&t), t.strip_suffix('/'));
            }
            "rel" => {
                let base = s(&q["base"]);
                let r = s(&q["r"]);
                let want = s(&q["joined"]);
                let b = self.raw(&base);
                let j = fs.join(&b, &r).to_string();
                eq!("join names the same location", self.norm_abs(&j), want.clone());
                eq!("absolute_path names the same location",
                    self.norm_abs(&fs.absolute_path(&b, &r).to_string()), want.clone());
                // joining one component and splitting it off again
                if !r.is_empty() && !r.contains('/') && base != "/" {
                    let (f, n) = fs.split_off_last_item(&j);
                    eq!("split_off_last_item of join", (f, n), (Some(base.as_str()), r.as_str()));
                }
            }
            "two" => {
                let (a, b) = (s(&q["a"]), s(&q["b"]));
                let (pa, pb) = (self.raw(&a), self.raw(&b));
                eq!("contains_sub_file", pa.contains_sub_file(&pb), q["below"].as_bool().unwrap());
                let rel = fs.path_relative_to(&pa, Path::new(&b));
                let Some(rel) = rel else {
                    return Err(json!({"what": "path_relative_to", "got": null, "want": "a relative path"}));
                };
                let back = if rel.is_empty() { b.clone() } else { format!("{b}/{rel}") };
                eq!("a path made relative leads back", self.norm(&back), a.clone());
                let ups = rel.split('/').filter(|c| *c == "..").count() as u64;
                eq!("number of steps up", ups, q["ups"].as_u64().unwrap());
                eq!("no root in a relative path", rel.starts_with('/'), false);
            }
            "glob" => {
                let p = s(&q["p"]);
                // The platform decides about letter case.
                let yes = if cfg!(windows) { &q["yesci"] } else { &q["yes"] };
                let yes: Vec<String> = yes.as_array().unwrap().iter().map(s).collect();
                // absolute, and relative to a current directory
                let cwd = self.raw("/");
                let spellings = [p.clone(), p[1..].to_string(), format!("./{}", &p[1..])];
                for pat in spellings {
                    let g = match GlobAbsPath::new(fs, &cwd, &pat) {
                        Ok(g) => g,
                        Err(e) => return Err(json!({"what": "glob rejected", "got": e.to_string(), "want": p})),
                    };
                    for sub in &self.all {
                        let got = g.matches(fs, &self.raw(sub));
                        let want = yes.contains(sub);
                        if got != want {
                            return Err(json!({"what": format!("glob {pat} on {sub}"), "got": got, "want": want}));
                        }
                    }
                    eq!("simple pattern", g.maybe_simple_path().map(|x| x.to_string()),
                        q["simple"].as_bool().unwrap().then(|| p.clone()));
                }
            }
            o => panic!("unknown question {o}"),
        }
        Ok(())
    }

    fn norm_abs(&self, t: &str) -> String {
        // unchecked_abs_path drops one trailing separator, also that of the root
        if t.is_empty() { "/".into() } else { self.norm(t) }
    }
}

/// paths FILE: first line is the list of all glob subjects.
pub fn main(args: &[String]) {
    let mut it = crate::lines(&args[0]);
    let all = it.next().unwrap();
    let cx = Cx {
        fs: SimpleLocalFS::without_watcher(),
        all: all.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect(),
    };
    let mut n = 0;
    for (i, q) in it.enumerate() {
        n += 1;
        match guarded(|| cx.ask(&q)) {
            Ok(Ok(())) => (),
            Ok(Err(e)) => println!("{}", json!({"mismatch": i, "detail": e})),
            Err(p) => println!("{}", json!({"mismatch": i, "detail": {"what": "panic", "got": p}})),
        }
    }
    println!("{}", json!({"done": n}));
}
