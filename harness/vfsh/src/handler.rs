use std::{
    collections::BTreeSet,
    path::{Path, PathBuf},
    sync::{Arc, Mutex},
};

use crossbeam_channel::Receiver;
use vfs::*;

/// The real local file system handler, without a watcher (the behaviours say
/// when a change is reported), recording what is announced to the editor.
pub struct H {
    pub fs: SimpleLocalFS,
    pub announced: Arc<Mutex<BTreeSet<String>>>,
}

impl H {
    pub fn new() -> (Box<H>, Arc<Mutex<BTreeSet<String>>>) {
        let announced = Arc::new(Mutex::new(BTreeSet::new()));
        (
            Box::new(H {
                fs: SimpleLocalFS::without_watcher(),
                announced: announced.clone(),
            }),
            announced,
        )
    }
}

impl VfsHandler for H {
    fn read_and_watch_file(&self, path: &PathWithScheme) -> Option<String> {
        self.fs.read_and_watch_file(path)
    }
    fn notify_receiver(&self) -> Option<&Receiver<NotifyEvent>> {
        None
    }
    fn on_invalidated_in_memory_file(&self, path: PathWithScheme) {
        self.announced
            .lock()
            .unwrap()
            .insert(path.path().to_string());
    }
    fn read_and_watch_dir(&self, w: &[Arc<Workspace>], path: &str, parent: Parent) -> Entries {
        self.fs.read_and_watch_dir(w, path, parent)
    }
    fn read_and_watch_entry(
        &self,
        w: &[Arc<Workspace>],
        path: &str,
        parent: Parent,
        name: &str,
    ) -> Option<DirectoryEntry> {
        self.fs.read_and_watch_entry(w, path, parent, name)
    }
    fn is_unnecessary_invalidation(&self, p: &AbsPath, e: Option<&DirectoryEntry>) -> bool {
        self.fs.is_unnecessary_invalidation(p, e)
    }
}

/// A scratch directory that is removed again.
pub struct Scratch(pub PathBuf);

impl Scratch {
    pub fn new(tag: &str) -> Self {
        let base = if Path::new("/dev/shm").is_dir() {
            PathBuf::from("/dev/shm")
        } else {
            std::env::temp_dir()
        };
        let p = base.join(format!("zvf-{tag}-{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
