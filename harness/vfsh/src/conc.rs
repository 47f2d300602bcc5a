//! V05: forces the schedules of Conc.tla on real threads, and records what they
//! observed.  A thread stops at every call back into the environment (joining a
//! path, reading a file or directory, building the file) until the schedule says
//! that it may go on.  A thread that waits for a lock does not reach the next
//! stop; the schedule then goes on with the others.
use std::{
    cell::Cell,
    collections::BTreeSet,
    sync::{
        Arc, Condvar, Mutex,
        atomic::{AtomicBool, AtomicUsize, Ordering},
    },
    time::{Duration, Instant},
};

use crossbeam_channel::Receiver;
use serde_json::{Value, json};
use utils::InsertOnlyVec;
use vfs::*;

use crate::handler::Scratch;

thread_local! { static ME: Cell<usize> = const { Cell::new(usize::MAX) }; }

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Running,
    Stopped,
    Done,
}

struct Gates {
    st: Mutex<Vec<(St, bool)>>, // state, permission to go on
    cv: Condvar,
    open: AtomicBool,
}

impl Gates {
    fn new(n: usize) -> Self {
        Gates {
            st: Mutex::new(vec![(St::Running, false); n]),
            cv: Condvar::new(),
            open: AtomicBool::new(false),
        }
    }
    fn stop(&self) {
        let me = ME.get();
        if me == usize::MAX || self.open.load(Ordering::SeqCst) {
            return;
        }
        let mut g = self.st.lock().unwrap();
        if me >= g.len() {
            return;
        }
        g[me].0 = St::Stopped;
        self.cv.notify_all();
        while !g[me].1 && !self.open.load(Ordering::SeqCst) {
            g = self.cv.wait(g).unwrap();
        }
        g[me] = (St::Running, false);
    }
    fn done(&self) {
        self.st.lock().unwrap()[ME.get()].0 = St::Done;
        self.cv.notify_all();
    }
    /// Waits until thread t has stopped or is done, or seems to wait for a lock.
    fn settle(&self, t: usize, patience: Duration) {
        let end = Instant::now() + patience;
        let mut g = self.st.lock().unwrap();
        while g[t].0 == St::Running {
            let now = Instant::now();
            if now >= end {
                return;
            }
            g = self.cv.wait_timeout(g, end - now).unwrap().0;
        }
    }
    fn grant(&self, t: usize) {
        let mut g = self.st.lock().unwrap();
        if g[t].0 == St::Stopped {
            g[t] = (St::Running, true);
            self.cv.notify_all();
        }
    }
    fn release_all(&self) {
        self.open.store(true, Ordering::SeqCst);
        let _g = self.st.lock().unwrap();
        self.cv.notify_all();
    }
}

struct G {
    fs: SimpleLocalFS,
    gates: Arc<Gates>,
    reads: AtomicUsize,
}

impl VfsHandler for G {
    fn read_and_watch_file(&self, _: &PathWithScheme) -> Option<String> {
        self.gates.stop();
        // every read gives another text
        Some(format!("v{}", self.reads.fetch_add(1, Ordering::SeqCst)))
    }
    fn notify_receiver(&self) -> Option<&Receiver<NotifyEvent>> {
        None
    }
    fn on_invalidated_in_memory_file(&self, _: PathWithScheme) {}
    fn read_and_watch_dir(&self, w: &[Arc<Workspace>], path: &str, parent: Parent) -> Entries {
        self.gates.stop();
        self.fs.read_and_watch_dir(w, path, parent)
    }
    fn read_and_watch_entry(
        &self,
        w: &[Arc<Workspace>],
        path: &str,
        parent: Parent,
        name: &str,
    ) -> Option<DirectoryEntry> {
        self.gates.stop();
        self.fs.read_and_watch_entry(w, path, parent, name)
    }
    fn join(&self, path: &AbsPath, name: &str) -> Arc<AbsPath> {
        self.gates.stop();
        self.fs.join(path, name)
    }
}

struct F {
    code: Box<str>,
    hit: AtomicBool,
}
impl VfsFile for F {
    type Artifacts = ();
    fn code(&self) -> &str {
        &self.code
    }
    fn into_recoverable_artifacts(self) {}
    fn invalidate_references_to(&mut self, _: Option<FileIndex>) {
        self.hit.store(true, Ordering::SeqCst)
    }
}
fn file(code: Box<str>) -> F {
    F { code, hit: AtomicBool::new(false) }
}

#[derive(Default)]
struct Seen<'v> {
    files: Vec<(usize, String, FileIndex, Option<(String, &'v F)>)>,
    subs: Vec<(usize, FileIndex, String)>,
    roots: Vec<(usize, String, bool)>,
    deps: Vec<(String, FileIndex)>,
}

fn search(vfs: &Vfs<F>, base: &str, f: &str) -> Arc<FileEntry> {
    let p = vfs
        .handler
        .normalize_unchecked_abs_path(&format!("{base}/w/d/{f}.py"));
    match vfs.search_path(true, &PathWithScheme::with_file_scheme(p)) {
        Some(DirOrFile::File(e)) => e,
        _ => panic!("the file is not found"),
    }
}

fn run_program<'v>(
    t: usize,
    vfs: &'v Vfs<F>,
    base: &str,
    gates: &Gates,
    prog: &Value,
    seen: &Mutex<Seen<'v>>,
    dependent: FileIndex,
    lazy: bool,
) {
    for (k, op) in prog.as_array().unwrap().iter().enumerate() {
        gates.stop();
        let f = op["f"].as_str().unwrap();
        let kind = op["op"].as_str().unwrap();
        if kind == "root" {
            let added = vfs.add_workspace_without_full_access(
                vfs.handler
                    .normalize_unchecked_abs_path(&format!("{base}/{f}")),
                WorkspaceKind::SitePackages,
            );
            seen.lock().unwrap().roots.push((t, f.to_string(), added));
            continue;
        }
        let entry = search(vfs, base, f);
        let _ = lazy;
        if kind == "index" {
            let i = vfs.ensure_file_index(&entry);
            seen.lock().unwrap().files.push((t, f.into(), i, None));
            continue;
        }
        let i = if kind == "viaindex" {
            let i = vfs.ensure_file_index(&entry);
            vfs.ensure_file_for_file_index(i, |_, c| {
                gates.stop();
                file(c)
            })
            .map(|_| i)
            .unwrap()
        } else {
            vfs.ensure_file_for_file_entry(entry.clone(), false, |_, c| {
                gates.stop();
                file(c)
            })
            .unwrap()
        };
        let r = vfs.file(i).expect("the file is loaded");
        let text = r.code().to_string();
        seen.lock()
            .unwrap()
            .files
            .push((t, f.into(), i, Some((text, r))));
        if kind == "sub" {
            let text = format!("sub{t}.{k}");
            let s = vfs.create_sub_file(i, |_| {
                gates.stop();
                file(text.clone().into())
            });
            seen.lock().unwrap().subs.push((t, s, text));
        }
        if kind == "dep" {
            // two independent registrations, one to the file and one to a name
            // that is missing
            entry.add_invalidation(dependent);
            entry.parent.with_entries(vfs, |entries| {
                entries.add_missing_entry_callback(dependent)("gone.py");
            });
            seen.lock().unwrap().deps.push((f.into(), dependent));
        }
    }
}

fn one(base: &str, b: &Value) -> Value {
    let progs = b["prog"].as_array().unwrap();
    let n = progs.len();
    let gates = Arc::new(Gates::new(n));
    let handler = Box::new(G {
        fs: SimpleLocalFS::without_watcher(),
        gates: gates.clone(),
        reads: AtomicUsize::new(1),
    });
    let mut wb = WorkspacesBuilder::new(&*handler);
    wb.add(
        handler.normalize_unchecked_abs_path(&format!("{base}/w")),
        WorkspaceKind::TypeChecking,
    );
    let ws: Workspaces = wb.into();
    let mut vfs: Vfs<F> = Vfs::new(handler, ws);
    // One dependent file per thread, already loaded.
    let dependents: Vec<FileIndex> = (0..n)
        .map(|t| {
            let p = vfs
                .handler
                .normalize_unchecked_abs_path(&format!("{base}/w/x{t}.py"));
            let Some(DirOrFile::File(e)) =
                vfs.search_path(true, &PathWithScheme::with_file_scheme(p))
            else {
                panic!("no dependent")
            };
            vfs.ensure_file_for_file_entry(e, false, |_, c| file(c))
                .unwrap()
        })
        .collect();
    let before = vfs.files.len();
    let lazy = b["lazy"].as_bool().unwrap_or(false);
    if !lazy {
        search(&vfs, base, "f");
    }
    let seen = Mutex::new(Seen::default());
    let panicked = AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for (t, prog) in progs.iter().enumerate() {
            let (vfs, gates, seen, dependents, panicked) =
                (&vfs, &gates, &seen, &dependents, &panicked);
            sc.spawn(move || {
                ME.set(t);
                let r = crate::guarded(|| {
                    run_program(t, vfs, base, gates, prog, seen, dependents[t], lazy)
                });
                if r.is_err() {
                    panicked.fetch_add(1, Ordering::SeqCst);
                }
                gates.done();
            });
        }
        let patience = Duration::from_millis(4);
        for t in 0..n {
            gates.settle(t, Duration::from_secs(5));
        }
        for t in b["sched"].as_array().unwrap() {
            let t = t.as_u64().unwrap() as usize - 1;
            gates.settle(t, patience);
            gates.grant(t);
            gates.settle(t, patience);
        }
        gates.release_all();
    });
    let seen = seen.into_inner().unwrap();
    let mut files = vec![];
    for (t, f, i, r) in &seen.files {
        let (text, again) = match r {
            Some((s, r)) => (s.clone(), r.code().to_string()),
            None => (String::new(), String::new()),
        };
        files.push(json!({"t": t, "f": f, "i": i.0, "text": text, "again": again}));
    }
    let mut subs = vec![];
    for (t, i, text) in &seen.subs {
        let again = vfs.file(*i).map(|f| f.code().to_string()).unwrap_or_default();
        subs.push(json!({"t": t, "i": i.0, "text": text, "again": again}));
    }
    let roots: Vec<Value> = seen
        .roots
        .iter()
        .map(|(t, r, a)| json!({"t": t, "r": r, "added": a}))
        .collect();
    let have: Vec<String> = vfs
        .workspaces
        .load()
        .iter()
        .map(|w| w.root_path().to_string()[base.len() + 1..].to_string())
        .collect();
    let table = vfs.files.len() - before;
    let deps: BTreeSet<(String, u32)> = seen
        .deps
        .iter()
        .flat_map(|(f, i)| [(f.clone(), i.0), ("gone".to_string(), i.0)])
        .collect();
    drop(seen.files);
    // Now change each file (nothing runs concurrently) and see who is told.
    let mut reached = vec![];
    for f in ["f", "g", "gone"] {
        for d in &dependents {
            vfs.file(*d).unwrap().hit.store(false, Ordering::SeqCst);
        }
        let p = vfs
            .handler
            .normalize_unchecked_abs_path(&format!("{base}/w/d/{f}.py"));
        let _ = vfs.store_in_memory_file(
            true,
            PathWithScheme::with_file_scheme(p),
            format!("changed {f}").into(),
            |_, _, c| file(c),
        );
        for d in &dependents {
            if vfs.file(*d).unwrap().hit.load(Ordering::SeqCst) {
                reached.push(json!({"f": f, "i": d.0}));
            }
        }
    }
    let deps: Vec<Value> = deps.iter().map(|(f, i)| json!({"f": f, "i": i})).collect();
    json!({"files": files, "subs": subs, "roots": roots, "have": have, "table": table,
           "deps": deps, "reached": reached, "panics": panicked.into_inner()})
}

/// conc FILE FROM STEP: one outcome per line for every schedule in FILE
pub fn main(args: &[String]) {
    if args[0] == "stress" {
        return stress(args[1].parse().unwrap(), args[2].parse().unwrap());
    }
    let from: usize = args[1].parse().unwrap();
    let step: usize = args[2].parse().unwrap();
    let scratch = Scratch::new("conc");
    let base = scratch.0.to_str().unwrap().to_string();
    for d in ["w", "w/d", "r", "s"] {
        std::fs::create_dir_all(format!("{base}/{d}")).unwrap();
    }
    for f in ["w/d/f.py", "w/d/g.py", "w/x0.py", "w/x1.py", "w/x2.py", "w/x3.py"] {
        std::fs::write(format!("{base}/{f}"), "1\n").unwrap();
    }
    let mut n = 0;
    for (i, b) in crate::lines(&args[0]).enumerate() {
        if i % step != from {
            continue;
        }
        n += 1;
        println!("{}", json!({"begin": i}));
        println!("{}", json!({"item": i, "outcome": one(&base, &b)}));
    }
    println!("{}", json!({"done": n}));
}

/// Free running threads on one shared vector and one shared file layer.
fn stress(rounds: usize, per: usize) {
    println!("{}", json!({"begin": 0}));
    let mut bad = 0;
    for _ in 0..rounds {
        let v: InsertOnlyVec<(usize, usize)> = Default::default();
        let got: Mutex<Vec<(usize, usize, usize)>> = Default::default();
        std::thread::scope(|sc| {
            for t in 0..8 {
                let (v, got) = (&v, &got);
                sc.spawn(move || {
                    let mut mine = vec![];
                    let mut refs = vec![];
                    for k in 0..per {
                        let (r, i) = v.push(Box::pin((t, k)));
                        refs.push((r, (t, k)));
                        mine.push((t, k, i));
                        if v.get(i) != Some(&(t, k)) || v.len() <= i || v[i] != (t, k) {
                            mine.push((usize::MAX, 0, 0));
                        }
                    }
                    if refs.iter().any(|(r, x)| **r != *x) {
                        mine.push((usize::MAX, 0, 0));
                    }
                    got.lock().unwrap().extend(mine);
                });
            }
        });
        let got = got.into_inner().unwrap();
        let idx: BTreeSet<usize> = got.iter().map(|g| g.2).collect();
        if got.len() != 8 * per
            || idx.len() != 8 * per
            || v.len() != 8 * per
            || got.iter().any(|(t, k, i)| v.get(*i) != Some(&(*t, *k)))
        {
            bad += 1;
        }
    }
    if bad > 0 {
        println!("{}", json!({"mismatch": 0, "detail": {"why": {"what": "shared vector", "got": bad}}}));
    }
    let scratch = Scratch::new("stress");
    let base = scratch.0.to_str().unwrap().to_string();
    std::fs::create_dir_all(format!("{base}/w/d")).unwrap();
    const N: usize = 200;
    for k in 0..N {
        std::fs::write(format!("{base}/w/d/s{k}.py"), "1\n").unwrap();
    }
    let mut split = vec![];
    for round in 0..rounds * 4 {
        let gates = Arc::new(Gates::new(0));
        let handler = Box::new(G {
            fs: SimpleLocalFS::without_watcher(),
            gates,
            reads: AtomicUsize::new(1),
        });
        let mut wb = WorkspacesBuilder::new(&*handler);
        wb.add(
            handler.normalize_unchecked_abs_path(&format!("{base}/w")),
            WorkspaceKind::TypeChecking,
        );
        let ws: Workspaces = wb.into();
        let vfs: Vfs<F> = Vfs::new(handler, ws);
        let (got, texts): (Mutex<Vec<Vec<u32>>>, Mutex<Vec<Vec<String>>>) = Default::default();
        let line = AtomicUsize::new(0);
        let threads = 4;
        std::thread::scope(|sc| {
            for t in 0..threads {
                let (vfs, got, texts, base, line) = (&vfs, &got, &texts, &base, &line);
                sc.spawn(move || {
                    let (mut mine, mut seen) = (vec![], vec![]);
                    for k in 0..N {
                        let e = search(vfs, base, &format!("s{k}"));
                        // all threads meet before every file
                        line.fetch_add(1, Ordering::SeqCst);
                        while line.load(Ordering::SeqCst) < threads * (k + 1) {
                            std::hint::spin_loop();
                        }
                        let i = if (round + t) % 3 == 0 {
                            vfs.ensure_file_index(&e)
                        } else {
                            vfs.ensure_file_for_file_entry(e.clone(), false, |_, c| file(c)).unwrap()
                        };
                        let again = vfs.ensure_file_for_file_entry(e, false, |_, c| file(c)).unwrap();
                        mine.push(if i == again { i.0 } else { u32::MAX });
                        seen.push(vfs.file(again).unwrap().code().to_string());
                    }
                    got.lock().unwrap().push(mine);
                    texts.lock().unwrap().push(seen);
                });
            }
        });
        let got = got.into_inner().unwrap();
        let texts = texts.into_inner().unwrap();
        if got.iter().any(|g| *g != got[0]) || texts.iter().any(|g| *g != texts[0])
            || vfs.files.len() != N || got[0].iter().collect::<BTreeSet<_>>().len() != N
        {
            split.push(round);
        }
    }
    if !split.is_empty() {
        println!("{}", json!({"mismatch": 0, "detail": {"why": {"what": "files split or lost", "got": split.len()}}}));
    }
    println!("{}", json!({"done": rounds}));
}
