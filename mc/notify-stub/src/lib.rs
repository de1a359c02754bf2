//! Stands in for the third-party `notify` crate: same interface as far as xi-editor uses it, but no threads, no
//! timers and no inotify. The harness plays the file system and delivers the events it wants, when it wants.
//! (The original can deadlock on its own when files are watched and unwatched in quick succession.)
use crossbeam_channel::Sender;
use std::cell::RefCell;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex, Weak};
use std::time::Duration;
pub mod event;
pub use event::{Event, EventKind};

#[derive(Debug)]
pub struct Error(pub String);
pub type Result<T> = std::result::Result<T, Error>;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum RecursiveMode {
    Recursive,
    NonRecursive,
}

pub trait Watcher: Sized {
    fn new(tx: Sender<Result<Event>>, delay: Duration) -> Result<Self>;
    fn watch<P: AsRef<Path>>(&mut self, path: P, recursive_mode: RecursiveMode) -> Result<()>;
    fn unwatch<P: AsRef<Path>>(&mut self, path: P) -> Result<()>;
}

pub struct Shared {
    pub tx: Sender<Result<Event>>,
    pub watches: Mutex<Vec<(PathBuf, RecursiveMode)>>,
    /// what was there when the watch was made (kept open, so that its number is not used again), and its state
    seen: Mutex<Vec<(PathBuf, std::fs::File, u64, i128)>>,
}

fn state_of(p: &Path) -> Option<(std::fs::File, u64, i128)> {
    use std::os::unix::fs::MetadataExt;
    let f = std::fs::File::open(p).ok()?;
    let m = f.metadata().ok()?;
    if !m.is_file() {
        return None;
    }
    Some((f, m.ino(), m.mtime() as i128 * 1_000_000_000 + m.mtime_nsec() as i128))
}

pub struct RecommendedWatcher(Arc<Shared>);

thread_local! {
    static LAST: RefCell<Weak<Shared>> = RefCell::new(Weak::new());
}

impl Watcher for RecommendedWatcher {
    fn new(tx: Sender<Result<Event>>, _delay: Duration) -> Result<Self> {
        let s = Arc::new(Shared { tx, watches: Mutex::new(Vec::new()), seen: Mutex::new(Vec::new()) });
        LAST.with(|l| *l.borrow_mut() = Arc::downgrade(&s));
        Ok(RecommendedWatcher(s))
    }
    fn watch<P: AsRef<Path>>(&mut self, path: P, mode: RecursiveMode) -> Result<()> {
        let mut w = self.0.watches.lock().unwrap();
        // watching again replaces the mode
        w.retain(|x| x.0 != path.as_ref());
        w.push((path.as_ref().to_path_buf(), mode));
        let mut s = self.0.seen.lock().unwrap();
        s.retain(|x| x.0 != path.as_ref());
        if let Some((f, i, t)) = state_of(path.as_ref()) {
            s.push((path.as_ref().to_path_buf(), f, i, t));
        }
        Ok(())
    }
    fn unwatch<P: AsRef<Path>>(&mut self, path: P) -> Result<()> {
        let mut w = self.0.watches.lock().unwrap();
        let n = w.len();
        let p = path.as_ref();
        // like inotify: giving up a recursive watch gives up everything below
        let rec = w.iter().any(|x| x.0 == p && x.1 == RecursiveMode::Recursive);
        w.retain(|x| x.0 != p && !(rec && x.0.starts_with(p)));
        self.0.seen.lock().unwrap().retain(|x| x.0 != p && !(rec && x.0.starts_with(p)));
        if w.len() == n {
            return Err(Error("no such watch".into()));
        }
        Ok(())
    }
}

pub fn watcher(tx: Sender<Result<Event>>, delay: Duration) -> Result<RecommendedWatcher> {
    Watcher::new(tx, delay)
}

/// For the harness: the watcher this thread made last.
pub fn latest() -> Option<Arc<Shared>> {
    LAST.with(|l| l.borrow().upgrade())
}

impl Shared {
    /// Whether the operating system would report something that happens to `path`.
    pub fn reports(&self, path: &Path) -> bool {
        self.watches.lock().unwrap().iter().any(|(p, m)| {
            p == path || path.parent() == Some(p) || (*m == RecursiveMode::Recursive && path.starts_with(p))
        })
    }
    /// What inotify would have reported about watched files since the last call: a file that was changed in place is
    /// modified, one that is no longer what the path leads to is removed, and with it the watch.
    pub fn poll(&self) -> Vec<Event> {
        use event::{ModifyKind, RemoveKind};
        let mut out = Vec::new();
        let mut w = self.watches.lock().unwrap();
        let mut s = self.seen.lock().unwrap();
        s.retain_mut(|(p, _, ino, t)| {
            let (kind, keep) = match state_of(p) {
                Some((_, i, now)) if i == *ino => {
                    if now == *t {
                        return true;
                    }
                    *t = now;
                    (EventKind::Modify(ModifyKind::Any), true)
                }
                _ => (EventKind::Remove(RemoveKind::Any), false),
            };
            out.push(Event::new(kind).add_path(p.clone()));
            if !keep {
                w.retain(|x| x.0 != *p);
            }
            keep
        });
        out
    }
    /// Delivers an event and returns when it has been processed completely.
    pub fn emit(&self, e: Event) {
        let _ = self.tx.send(Ok(e));
        // the event after it is taken up only when it is done
        let _ = self.tx.send(Ok(Event::new(EventKind::Other)));
        let mut n = 0u32;
        while self.tx.len() > 0 && n < 2_000_000 {
            n += 1;
            if n % 16 == 0 {
                std::thread::sleep(Duration::from_micros(20));
            } else {
                std::thread::yield_now();
            }
        }
    }
}
