//! V01-V03: replay of behaviours of Vfs.tla.
use std::{
    collections::{BTreeMap, BTreeSet},
    path::PathBuf,
    sync::{Arc, Mutex},
};

use serde_json::{Value, json};
use vfs::*;

use crate::{
    guarded,
    handler::{H, Scratch},
};

type Res = BTreeMap<String, i64>;

pub struct HFile {
    code: Box<str>,
    cache: Mutex<Option<Res>>,
}

impl HFile {
    fn new(code: Box<str>) -> Self {
        Self {
            code,
            cache: Mutex::new(None),
        }
    }
}

impl VfsFile for HFile {
    type Artifacts = Box<str>;
    fn code(&self) -> &str {
        &self.code
    }
    fn into_recoverable_artifacts(self) -> Box<str> {
        self.code
    }
    fn invalidate_references_to(&mut self, _: Option<FileIndex>) {
        *self.cache.lock().unwrap() = None;
    }
}

const CS: bool = true;
const DB: &str = "s.pyi";

thread_local! {
    /// How the values of the specification are written in a text: behaviours must
    /// not depend on what distinguishes two texts (a letter, its case, the number of
    /// blank lines at the end, the kind of line ending, a byte order mark, nothing).
    static MODE: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

fn text(c: &Value) -> String {
    let v = c["v"].as_i64().unwrap();
    let mut s = String::new();
    for i in c["imps"].as_array().unwrap() {
        s += &format!("import {}\n", i.as_str().unwrap());
    }
    match MODE.get() {
        1 => s + &"\n".repeat(v as usize),
        2 => s + if v == 1 { "x=a" } else { "x=A" },
        3 => {
            s += "x\n";
            if v == 1 { s } else { s.replace('\n', "\r\n") }
        }
        4 => {
            if v == 1 { s } else { format!("\u{feff}{s}") }
        }
        5 => {
            if v == 1 { s } else { format!("{s}v=é\n") }
        }
        _ => format!("v={v}\n{s}"),
    }
}

fn parse(code: &str) -> (i64, Vec<String>) {
    let mut imps = vec![];
    for l in code.trim_start_matches('\u{feff}').lines() {
        if let Some(x) = l.strip_prefix("import ") {
            imps.push(x.to_string())
        }
    }
    let two = |x: bool| if x { 2 } else { 1 };
    let v = match MODE.get() {
        1 => (code.len() - code.trim_end().len()) as i64 - !imps.is_empty() as i64,
        2 => two(code.ends_with('A')),
        3 => two(code.contains('\r')),
        4 => two(code.starts_with('\u{feff}')),
        5 => two(code.contains('é')),
        _ => code
            .lines()
            .find_map(|l| l.strip_prefix("v="))
            .and_then(|x| x.parse().ok())
            .unwrap_or(-1),
    };
    (v, imps)
}

struct Run {
    base: PathBuf,
    config: String,
    vfs: Option<Vfs<HFile>>,
    announced: Arc<Mutex<BTreeSet<String>>>,
    /// What was announced since the last query of each file.
    pool: BTreeSet<String>,
}

fn norm(p: &str) -> Arc<NormalizedPath> {
    let fs = SimpleLocalFS::without_watcher();
    fs.normalize_unchecked_abs_path(p)
}

impl Run {
    fn abs(&self, p: &str) -> String {
        let b = self.base.to_str().unwrap();
        if p == DB {
            format!("{b}/t/{p}")
        } else if p.starts_with("o") {
            format!("{b}/out/{p}")
        } else {
            format!("{b}/w/{p}")
        }
    }
    fn id(&self, abs: &str) -> String {
        let b = self.base.to_str().unwrap();
        for pre in ["/w/", "/t/", "/out/"] {
            if let Some(x) = abs.strip_prefix(&format!("{b}{pre}")) {
                return x.to_string();
            }
        }
        abs.to_string()
    }
    fn pws(&self, p: &str) -> PathWithScheme {
        PathWithScheme::with_file_scheme(norm(&self.abs(p)))
    }

    fn boot(&mut self) -> Vfs<HFile> {
        let (h, announced) = H::new();
        self.announced = announced;
        let b = self.base.to_str().unwrap().to_string();
        let mut wb = WorkspacesBuilder::new(&*h);
        let w = |s: &str| norm(&format!("{b}/{s}"));
        let order: Vec<&str> = match self.config.as_str() {
            "one" => vec!["w"],
            "inner-last" => vec!["w", "w/d"],
            "inner-first" => vec!["w/d", "w"],
            "deep-last" => vec!["w", "w/d/n"],
            "deep-first" => vec!["w/d/n", "w"],
            other => panic!("unknown config {other}"),
        };
        for o in order {
            assert!(wb.add(w(o), WorkspaceKind::TypeChecking));
        }
        wb.add(w("t"), WorkspaceKind::Typeshed);
        wb.add(
            h.unchecked_normalized_path(h.unchecked_abs_path("")),
            WorkspaceKind::Fallback,
        );
        let ws: Workspaces = wb.into();
        Vfs::new(h, ws)
    }

    fn v(&mut self) -> &mut Vfs<HFile> {
        self.vfs.as_mut().unwrap()
    }

    fn drain(&mut self) {
        let new = std::mem::take(&mut *self.announced.lock().unwrap());
        for a in new {
            let id = self.id(&a);
            self.pool.insert(id);
        }
    }

    fn handle(&mut self, r: InvalidationResult) -> bool {
        if r == InvalidationResult::InvalidatedDb {
            // Like Database::invalidate_db: everything derived is dropped and
            // the file that affects everything is loaded again.
            for fs in self.v().files.iter_mut() {
                if let Some(f) = fs.file_mut() {
                    f.invalidate_references_to(None)
                }
            }
            self.read(DB);
            true
        } else {
            false
        }
    }

    /// The text of a path, as the file layer sees it.
    fn read(&mut self, p: &str) -> Option<String> {
        let path = self.pws(p);
        let vfs = self.vfs.as_ref().unwrap();
        match vfs.search_path(CS, &path)? {
            DirOrFile::File(e) => {
                let i = vfs.ensure_file_for_file_entry(e, p == DB, |_, code| HFile::new(code))?;
                Some(vfs.file(i)?.code.to_string())
            }
            DirOrFile::Dir(_) => Some("<directory>".into()),
        }
    }

    fn resolve(vfs: &Vfs<HFile>, base: &str, target: &str, from: FileIndex) -> Option<FileIndex> {
        let root = format!("{base}/{}", if target == DB { "t" } else { "w" });
        let ws = vfs.workspaces.load();
        let w = ws.iter().find(|w| **w.root_path() == *root).unwrap();
        fn go(
            vfs: &Vfs<HFile>,
            entries: &Entries,
            rest: &str,
            from: FileIndex,
            db: bool,
        ) -> Option<FileIndex> {
            let (name, rest) = match rest.split_once('/') {
                Some((a, b)) => (a, Some(b)),
                None => (rest, None),
            };
            let found = entries.search(name).map(|e| e.clone());
            match (found, rest) {
                (Some(DirectoryEntry::Directory(d)), Some(rest)) => {
                    go(vfs, Directory::entries(vfs, &d), rest, from, db)
                }
                (Some(DirectoryEntry::File(f)), None) => {
                    vfs.ensure_file_index(&f);
                    f.add_invalidation(from);
                    vfs.ensure_file_for_file_entry(f, db, |_, code| HFile::new(code))
                }
                _ => {
                    entries.add_missing_entry_callback(from)(name);
                    None
                }
            }
        }
        go(vfs, &w.entries, target, from, target == DB)
    }

    /// The derived result of a file: everything reachable through imports.
    fn query(&mut self, p: &str) -> Option<Res> {
        let path = self.pws(p);
        let index = match self.v().in_memory_file(&path) {
            Some(i) => i,
            None => {
                let vfs = self.vfs.as_ref().unwrap();
                match vfs.search_path(CS, &path)? {
                    DirOrFile::File(e) => {
                        vfs.ensure_file_for_file_entry(e, p == DB, |_, code| HFile::new(code))?
                    }
                    DirOrFile::Dir(_) => return None,
                }
            }
        };
        let base = self.base.to_str().unwrap().to_string();
        let vfs = self.vfs.as_ref().unwrap();
        let file = vfs.file(index)?;
        if let Some(c) = file.cache.lock().unwrap().clone() {
            return Some(c);
        }
        let mut res = Res::new();
        let mut todo = vec![(p.to_string(), Some(index))];
        while let Some((p, idx)) = todo.pop() {
            if res.contains_key(&p) {
                continue;
            }
            let Some(f) = idx.and_then(|i| vfs.file(i)) else {
                res.insert(p, 0);
                continue;
            };
            let (v, imps) = parse(&f.code);
            res.insert(p, v);
            for t in imps {
                // Every import is looked up (and registered), also for known targets.
                let i = Self::resolve(vfs, &base, &t, idx.unwrap());
                todo.push((t, i));
            }
        }
        *vfs.file(index)?.cache.lock().unwrap() = Some(res.clone());
        Some(res)
    }

    fn step(&mut self, op: &Value) -> Result<(), Value> {
        let kind = op["op"].as_str().unwrap();
        let p = op["p"].as_str().unwrap_or("").to_string();
        let abs = self.abs(&p);
        let mut db = false;
        match kind {
            "store" => {
                let code: Box<str> = text(&op["c"]).into();
                let path = self.pws(&p);
                let (i, r) = self
                    .v()
                    .store_in_memory_file(CS, path, code, |_, _, c| HFile::new(c));
                db = self.handle(r);
                let got = i.and_then(|i| self.v().file(i).map(|f| f.code.to_string()));
                let want = text(&op["c"]);
                if got.as_ref() != Some(&want) {
                    return Err(json!({"aspect": "text", "what": "text of a stored buffer", "want": want, "got": got}));
                }
            }
            "close" => {
                let path = self.pws(&p);
                let r = self
                    .v()
                    .close_in_memory_file(CS, &path, |_, _, c| HFile::new(c));
                let ok = r.is_ok();
                if let Ok(r) = r {
                    db = self.handle(r);
                }
                if ok != op["ok"].as_bool().unwrap() {
                    return Err(json!({"aspect": "text", "what": "closing accepted", "want": op["ok"], "got": ok}));
                }
            }
            "write" => std::fs::write(&abs, text(&op["c"])).unwrap(),
            "delete" => std::fs::remove_file(&abs).unwrap(),
            "mkdir" => std::fs::create_dir(&abs).unwrap(),
            "rmtree" => std::fs::remove_dir_all(&abs).unwrap(),
            "moveaway" => {
                let trash = self.base.join("trash");
                std::fs::create_dir_all(&trash).unwrap();
                let n = std::fs::read_dir(&trash).unwrap().count();
                std::fs::rename(&abs, trash.join(format!("{n}"))).unwrap();
            }
            "movein" => {
                let stage = self.base.join("stage");
                std::fs::create_dir_all(&stage).unwrap();
                for f in op["files"].as_array().unwrap() {
                    let f = f.as_str().unwrap();
                    let rel = f.strip_prefix(&format!("{p}/")).unwrap();
                    let t = stage.join(rel);
                    std::fs::create_dir_all(t.parent().unwrap()).unwrap();
                    std::fs::write(t, text(&op["c"])).unwrap();
                }
                std::fs::rename(&stage, &abs).unwrap();
            }
            "deliver" => {
                db = self.deliver(&p);
            }
            "flush" => {
                for q in op["q"].as_array().unwrap() {
                    db |= self.deliver(q.as_str().unwrap());
                }
            }
            "query" => {
                let r = self.query(&p);
                self.pool.remove(&p);
                let want = res_of(&op["r"]);
                if r.as_ref() != Some(&want) {
                    return Err(json!({"aspect": "result", "what": format!("result of {p}"), "want": want, "got": r}));
                }
            }
            "touch" => {
                self.query(&p);
            }
            "readall" => self.read_all(op)?,
            "recover" => {
                self.drain();
                self.pool.clear();
                let old = self.vfs.take().unwrap();
                let saved = old.into_panic_recovery();
                self.drain();
                let said = std::mem::take(&mut self.pool);
                let want = strs(&op["reannounce"]);
                if !want.is_subset(&said) {
                    return Err(
                        json!({"aspect": "recover", "what": "announced at recovery", "want": want, "got": said}),
                    );
                }
                let mut new = self.boot();
                new.load_panic_recovery(CS, saved, |_, _, code| HFile::new(code));
                self.vfs = Some(new);
                // The product loads it again at every start.
                self.read(DB);
            }
            other => panic!("unknown op {other}"),
        }
        self.drain();
        if op["db"].as_bool() == Some(true) && !db {
            return Err(json!({"aspect": "db", "what": "change of a file affecting everything reported",
                              "want": true, "got": false}));
        }
        let must = strs(&op["announce"]);
        if !must.is_subset(&self.pool) {
            return Err(
                json!({"aspect": "announce", "what": "buffers announced as affected", "want": must, "got": self.pool}),
            );
        }
        Ok(())
    }

    fn deliver(&mut self, p: &str) -> bool {
        let abs = self.abs(p);
        let fs = SimpleLocalFS::without_watcher();
        let a = fs.unchecked_abs_path(&abs);
        let r = self.v().invalidate_path(CS, &a);
        self.handle(r)
    }

    fn read_all(&mut self, o: &Value) -> Result<(), Value> {
        for (p, c) in o["texts"].as_object().unwrap() {
            let want = (c["v"] != 0).then(|| text(c));
            let got = self.read(p);
            if got != want {
                return Err(json!({"aspect": "text", "what": format!("text of {p}"), "want": want, "got": got}));
            }
        }
        let opened = strs(&o["opened"]);
        // (an empty function is written as an empty list)
        let outs = o["outs"].as_object().cloned().unwrap_or_default();
        for p in o["texts"].as_object().unwrap().keys().chain(outs.keys()) {
            let path = self.pws(p);
            let i = self.v().in_memory_file(&path);
            if i.is_some() != opened.contains(p) {
                return Err(json!({"aspect": "text", "what": format!("{p} is an open buffer"),
                                  "want": opened.contains(p), "got": i.is_some()}));
            }
            if let Some(i) = i {
                let c = outs.get(p).unwrap_or(&o["texts"][p]);
                let got = self.v().file(i).map(|f| f.code.to_string());
                if got != Some(text(c)) {
                    return Err(json!({"aspect": "text", "what": format!("buffer text of {p}"), "want": text(c), "got": got}));
                }
            }
        }
        let n = self.v().in_memory_file_ids().count();
        if n != opened.len() {
            return Err(json!({"aspect": "text", "what": "number of open buffers", "want": opened.len(), "got": n}));
        }
        Ok(())
    }

    fn finish(&mut self, f: &Value, wanted: &dyn Fn(&Value) -> bool) -> Result<(), Value> {
        for p in f["flush"].as_array().unwrap() {
            self.deliver(p.as_str().unwrap());
        }
        self.drain();
        let mut problems = vec![];
        let must = strs(&f["announce"]);
        if !must.is_subset(&self.pool) {
            problems.push(json!({"aspect": "announce", "what": "buffers announced as affected",
                                 "want": must, "got": self.pool}));
        }
        // results first: reading must not repair what a query would get wrong
        for (p, r) in f["results"].as_object().unwrap() {
            let want = res_of(r);
            let got = self.query(p);
            if got.clone().unwrap_or_default() != want {
                problems.push(json!({"aspect": "result", "what": format!("final result of {p}"),
                                     "want": want, "got": got}));
            }
        }
        if let Err(e) = self.read_all(f) {
            problems.push(e);
        }
        match problems.into_iter().find(|e| wanted(e)) {
            Some(e) => Err(e),
            None => Ok(()),
        }
    }
}

fn strs(v: &Value) -> BTreeSet<String> {
    v.as_array()
        .map(|a| a.iter().map(|s| s.as_str().unwrap().to_string()).collect())
        .unwrap_or_default()
}

fn res_of(v: &Value) -> Res {
    v.as_array()
        .unwrap()
        .iter()
        .map(|x| (x[0].as_str().unwrap().to_string(), x[1].as_i64().unwrap()))
        .collect()
}

fn behaviour(
    base: &std::path::Path,
    b: &Value,
    aspects: &BTreeSet<String>,
) -> Result<(), Value> {
    let _ = std::fs::remove_dir_all(base);
    std::fs::create_dir_all(base).unwrap();
    for d in ["w", "t", "out"] {
        std::fs::create_dir(base.join(d)).unwrap();
    }
    for d in b["dirs"].as_array().map(|a| a.as_slice()).unwrap_or(&[]) {
        std::fs::create_dir_all(base.join("w").join(d.as_str().unwrap())).unwrap();
    }
    std::fs::write(base.join("t").join(DB), text(&b["start"])).unwrap();
    let mut run = Run {
        base: base.to_path_buf(),
        config: b["config"].as_str().unwrap().to_string(),
        vfs: None,
        announced: Default::default(),
        pool: Default::default(),
    };
    let v = run.boot();
    run.vfs = Some(v);
    run.read(DB);
    // With "after-recover" only what happens after a recovery is judged.
    let mut judging = !aspects.contains("after-recover");
    let wanted = |e: &Value, judging: bool| judging && aspects.contains(e["aspect"].as_str().unwrap());
    for (n, op) in b["ops"].as_array().unwrap().iter().enumerate() {
        if op["op"] == "recover" {
            judging = true;
        }
        match guarded(|| run.step(op)) {
            Ok(Ok(())) => (),
            Ok(Err(e)) if !wanted(&e, judging) => (),
            Ok(Err(e)) => return Err(json!({"at": n, "op": op["op"], "why": e})),
            Err(_) if !judging => return Ok(()),
            Err(p) => return Err(json!({"at": n, "op": op["op"], "why": {"what": "panic", "got": p}})),
        }
    }
    if !judging {
        return Ok(());
    }
    match guarded(|| run.finish(&b["final"], &|e| wanted(e, true))) {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) => Err(json!({"at": "final", "why": e})),
        Err(p) => Err(json!({"at": "final", "why": {"what": "panic", "got": p}})),
    }
}

/// replay FILE FROM STEP ASPECTS: behaviours FROM, FROM+STEP, ... of FILE.
pub fn main(args: &[String]) {
    let from: usize = args[1].parse().unwrap();
    let step: usize = args[2].parse().unwrap();
    let aspects: BTreeSet<String> = args[3].split(',').map(|s| s.to_string()).collect();
    let scratch = Scratch::new("replay");
    let mut n = 0;
    for (i, b) in crate::lines(&args[0]).enumerate() {
        if i % step != from {
            continue;
        }
        n += 1;
        println!("{}", json!({"begin": i}));
        MODE.set((i / step) % 6);
        if let Err(e) = behaviour(&scratch.0.join("b"), &b, &aspects) {
            println!("{}", json!({"mismatch": i, "detail": e}));
        }
    }
    println!("{}", json!({"done": n}));
}
