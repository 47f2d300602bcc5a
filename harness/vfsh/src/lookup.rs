//! V04: replay of behaviours of Lookup.tla.
use std::{collections::BTreeSet, os::unix::fs::symlink, path::Path, sync::Arc};

use serde_json::{Value, json};
use vfs::*;

use crate::{
    guarded,
    handler::{H, Scratch},
};

struct F(Box<str>);
impl VfsFile for F {
    type Artifacts = ();
    fn code(&self) -> &str {
        &self.0
    }
    fn into_recoverable_artifacts(self) {}
    fn invalidate_references_to(&mut self, _: Option<FileIndex>) {}
}

fn rel(v: &Value) -> String {
    v.as_array()
        .unwrap()
        .iter()
        .map(|x| x.as_str().unwrap())
        .collect::<Vec<_>>()
        .join("/")
}

struct Run {
    base: String,
    vfs: Option<Vfs<F>>,
}

impl Run {
    fn abs(&self, v: &Value) -> String {
        let r = rel(v);
        if r.is_empty() {
            self.base.clone()
        } else {
            format!("{}/{r}", self.base)
        }
    }
    fn norm(&self, v: &Value) -> Arc<NormalizedPath> {
        SimpleLocalFS::without_watcher().normalize_unchecked_abs_path(&self.abs(v))
    }
    fn owner(&self, v: &Value) -> String {
        match rel(v).as_str() {
            "none" => "none".into(),
            "fallback" => "".into(),
            o => format!("{}/{o}", self.base),
        }
    }

    fn step(&mut self, op: &Value) -> Result<(), Value> {
        let bad = |what: &str, want: Value, got: Value| {
            Err(json!({"what": what, "path": rel(&op["p"]), "want": want, "got": got}))
        };
        match op["op"].as_str().unwrap() {
            "start" => {
                let mut nodes: Vec<&Value> = op["disk"].as_array().unwrap().iter().collect();
                nodes.sort_by_key(|n| n["p"].as_array().unwrap().len());
                for (i, n) in nodes.iter().enumerate() {
                    let at = self.abs(&n["p"]);
                    match n["k"].as_str().unwrap() {
                        "dir" => std::fs::create_dir(&at).unwrap(),
                        "file" => std::fs::write(&at, "x = 1\n").unwrap(),
                        _ => {
                            let to = self.abs(&n["to"]);
                            if i % 2 == 0 {
                                symlink(&to, &at).unwrap()
                            } else {
                                // the same target, written relative to the link
                                let up = "../".repeat(n["p"].as_array().unwrap().len() - 1);
                                symlink(format!("{up}./{}", rel(&n["to"])), &at).unwrap()
                            }
                        }
                    }
                }
                let (h, _) = H::new();
                let mut wb = WorkspacesBuilder::new(&*h);
                // what kind of root it is must not matter
                const KINDS: [WorkspaceKind; 4] = [
                    WorkspaceKind::TypeChecking,
                    WorkspaceKind::SitePackages,
                    WorkspaceKind::Typeshed,
                    WorkspaceKind::PythonStdLib,
                ];
                let shift = op["disk"].as_array().unwrap().len();
                for (i, r) in op["roots"].as_array().unwrap().iter().enumerate() {
                    wb.add(self.norm(r), KINDS[(i + shift) % 4]);
                }
                wb.add(
                    h.unchecked_normalized_path(h.unchecked_abs_path("")),
                    WorkspaceKind::Fallback,
                );
                let ws: Workspaces = wb.into();
                self.vfs = Some(Vfs::new(h, ws));
            }
            "find" => {
                let (kind, owner) = self.find(&op["p"]);
                if kind != op["kind"].as_str().unwrap() {
                    return bad("kind of entry", op["kind"].clone(), json!(kind));
                }
                if owner != self.owner(&op["owner"]) {
                    return bad("owning root", json!(self.owner(&op["owner"])), json!(owner));
                }
            }
            "list" => {
                let path = PathWithScheme::with_file_scheme(self.norm(&op["p"]));
                let vfs = self.vfs.as_ref().unwrap();
                let Some(DirOrFile::Dir(d)) = vfs.search_path(true, &path) else {
                    return bad("a directory is found", json!("dir"), json!("no directory"));
                };
                let got: BTreeSet<String> = Directory::entries(vfs, &d)
                    .borrow()
                    .iter()
                    .filter(|(_, e)| matches!(e, DirectoryEntry::File(_) | DirectoryEntry::Directory(_)))
                    .map(|(n, _)| n.to_string())
                    .collect();
                // (buffers with a name outside the table are not listed in the question)
                let got: BTreeSet<String> = got.into_iter().filter(|n| n != "new.py").collect();
                let want: BTreeSet<String> = op["names"].as_array().unwrap().iter()
                    .map(|s| s.as_str().unwrap().to_string()).collect();
                if got != want {
                    return bad("names in a directory", json!(want), json!(got));
                }
            }
            "same" => {
                let path = PathWithScheme::with_file_scheme(self.norm(&op["p"]));
                let vfs = self.vfs.as_ref().unwrap();
                let found = vfs.search_path(true, &path);
                let root = self.abs(&op["root"]);
                let rest = self.abs(&op["p"])[root.len() + 1..].to_string();
                let ws = vfs.workspaces.load();
                let w = ws.iter().find(|w| **w.root_path() == *root).unwrap();
                fn go(vfs: &Vfs<F>, e: &Entries, rest: &str) -> Option<DirectoryEntry> {
                    let (n, r) = match rest.split_once('/') {
                        Some((a, b)) => (a, Some(b)),
                        None => (rest, None),
                    };
                    let entry = e.search(n)?.clone();
                    match (entry, r) {
                        (e, None) => Some(e),
                        (DirectoryEntry::Directory(d), Some(r)) => go(vfs, Directory::entries(vfs, &d), r),
                        _ => None,
                    }
                }
                let walked = go(vfs, &w.entries, &rest);
                let same = match (&found, &walked) {
                    (Some(DirOrFile::File(a)), Some(DirectoryEntry::File(b))) => Arc::ptr_eq(a, b),
                    (Some(DirOrFile::Dir(a)), Some(DirectoryEntry::Directory(b))) => {
                        Arc::ptr_eq(a, b)
                            || std::ptr::eq(Directory::entries(vfs, a), Directory::entries(vfs, b))
                    }
                    _ => false,
                };
                if !same {
                    return bad("one entry however it is reached", json!(true),
                               json!(format!("{} vs {}", found.is_some(), walked.is_some())));
                }
            }
            "open" => {
                let path = PathWithScheme::with_file_scheme(self.norm(&op["p"]));
                let (i, _) = self.vfs.as_mut().unwrap()
                    .store_in_memory_file(true, path, "y = 2\n".into(), |_, _, c| F(c));
                let vfs = self.vfs.as_ref().unwrap();
                let entry = vfs.file_entry(i.unwrap());
                let owner = entry.parent.workspace_path().to_string();
                if owner != self.owner(&op["owner"]) {
                    return bad("owning root of a buffer", json!(self.owner(&op["owner"])), json!(owner));
                }
                let abs = entry.absolute_path(&*vfs.handler);
                if owner != "" && abs.path().to_string() != self.abs(&op["p"]) {
                    return bad("path of a buffer's entry", json!(self.abs(&op["p"])), json!(abs.path().to_string()));
                }
            }
            "add" => {
                let root = self.norm(&op["p"]);
                let new = self.vfs.as_ref().unwrap()
                    .add_workspace_without_full_access(root, WorkspaceKind::SitePackages);
                if json!(new) != op["new"] {
                    return bad("root reported as added", op["new"].clone(), json!(new));
                }
            }
            o => panic!("unknown op {o}"),
        }
        Ok(())
    }

    fn find(&self, p: &Value) -> (&'static str, String) {
        let path = PathWithScheme::with_file_scheme(self.norm(p));
        match self.vfs.as_ref().unwrap().search_path(true, &path) {
            None => ("none", "none".into()),
            Some(DirOrFile::Dir(d)) => ("dir", d.parent.workspace_path().to_string()),
            Some(DirOrFile::File(f)) => ("file", f.parent.workspace_path().to_string()),
        }
    }
}

fn behaviour(base: &Path, ops: &Value) -> Result<(), Value> {
    let _ = std::fs::remove_dir_all(base);
    std::fs::create_dir_all(base).unwrap();
    let mut run = Run {
        base: base.to_str().unwrap().to_string(),
        vfs: None,
    };
    for (n, op) in ops.as_array().unwrap().iter().enumerate() {
        match guarded(|| run.step(op)) {
            Ok(Ok(())) => (),
            Ok(Err(e)) => return Err(json!({"at": n, "op": op["op"], "why": e})),
            Err(p) => return Err(json!({"at": n, "op": op["op"], "why": {"what": "panic", "got": p}})),
        }
    }
    Ok(())
}

/// lookup FILE FROM STEP
pub fn main(args: &[String]) {
    let from: usize = args[1].parse().unwrap();
    let step: usize = args[2].parse().unwrap();
    let scratch = Scratch::new("lookup");
    let mut n = 0;
    for (i, b) in crate::lines(&args[0]).enumerate() {
        if i % step != from {
            continue;
        }
        n += 1;
        println!("{}", json!({"begin": i}));
        if let Err(e) = behaviour(&scratch.0.join("b"), &b) {
            println!("{}", json!({"mismatch": i, "detail": e}));
        }
    }
    println!("{}", json!({"done": n}));
}
