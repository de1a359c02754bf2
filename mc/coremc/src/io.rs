//! Stands between the code under test and the operating system: the libc functions that touch files are defined
//! here (the executable's definitions come first), and on a thread that asks for it they record what is done below
//! one directory, fail when told to, take a copy of the directory before each operation, or let "another program" act.
use std::cell::Cell;
use std::collections::BTreeMap;
use std::ffi::{c_char, c_int, c_long, c_uint, c_void, CStr};
use std::os::unix::fs::{MetadataExt, PermissionsExt};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Open { path: String, write: bool, create: bool, excl: bool, trunc: bool },
    Read { path: String },
    Write { path: String, data: Vec<u8> },
    Sync { path: String },
    Chmod { path: String, mode: u32 },
    Truncate { path: String, len: u64 },
    Rename { from: String, to: String },
    Unlink { path: String },
}
impl Op {
    pub fn kind(&self) -> &'static str {
        match self {
            Op::Open { write: false, .. } => "open",
            Op::Open { .. } => "create",
            Op::Read { .. } => "read",
            Op::Write { .. } => "write",
            Op::Sync { .. } => "sync",
            Op::Chmod { .. } => "chmod",
            Op::Truncate { .. } => "truncate",
            Op::Rename { .. } => "rename",
            Op::Unlink { .. } => "unlink",
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    Errno(i32),
    /// half of the data only
    Short,
}

pub type Snap = BTreeMap<String, (Vec<u8>, u32)>;

/// Contents and permissions of everything in a directory (regular files).
pub fn snapshot(dir: &str) -> Snap {
    let mut m = Snap::new();
    for e in std::fs::read_dir(dir).unwrap() {
        let e = e.unwrap();
        let p = e.path();
        let md = std::fs::symlink_metadata(&p).unwrap();
        if md.is_file() {
            m.insert(e.file_name().to_str().unwrap().to_string(), (std::fs::read(&p).unwrap(), md.permissions().mode() & 0o7777));
        }
    }
    m
}

#[derive(Default)]
pub struct Io {
    pub dir: String,
    pub ops: Vec<Op>,
    pub fault: Option<(usize, Fault)>,
    /// from this operation on nothing takes effect any more
    pub dead: Option<usize>,
    pub act: Option<(usize, Box<dyn FnMut()>)>,
    pub snaps: Option<Vec<Snap>>,
    pub busy: bool,
}

thread_local! {
    static IO: Cell<*mut Io> = const { Cell::new(std::ptr::null_mut()) };
}

/// Runs `f` with `io` in force on this thread.
pub fn with_io<R>(io: &mut Io, f: impl FnOnce() -> R) -> R {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            IO.with(|c| c.set(std::ptr::null_mut()));
        }
    }
    IO.with(|c| c.set(io));
    let _off = Off;
    f()
}

fn io() -> Option<&'static mut Io> {
    let p = IO.try_with(|c| c.get()).unwrap_or(std::ptr::null_mut());
    if p.is_null() {
        return None;
    }
    let r = unsafe { &mut *p };
    if r.busy {
        None
    } else {
        Some(r)
    }
}

impl Io {
    /// Records an operation that is about to happen; `Err` when it must not.
    fn before(&mut self, op: Op) -> Result<Option<Fault>, c_int> {
        self.busy = true;
        let k = self.ops.len();
        if let Some(s) = &mut self.snaps {
            s.push(snapshot(&self.dir));
        }
        if matches!(self.act, Some((n, _)) if n == k) {
            self.run_act();
        }
        self.busy = false;
        self.ops.push(op);
        if self.dead.map_or(false, |d| k >= d) {
            return Err(libc::EIO);
        }
        match self.fault {
            Some((n, Fault::Errno(e))) if n == k => Err(e),
            Some((n, f)) if n == k => Ok(Some(f)),
            _ => Ok(None),
        }
    }
    pub fn run_act(&mut self) {
        if let Some((_, mut f)) = self.act.take() {
            let b = std::mem::replace(&mut self.busy, true);
            f();
            self.busy = b;
        }
    }
    fn inside(&self, p: &str) -> bool {
        p.starts_with(&self.dir)
    }
    fn fd_path(&mut self, fd: c_int) -> Option<String> {
        self.busy = true;
        let p = std::fs::read_link(format!("/proc/self/fd/{}", fd)).ok().and_then(|p| p.to_str().map(str::to_string));
        self.busy = false;
        p.filter(|p| self.inside(p))
    }
}

fn fail(e: c_int) -> c_int {
    unsafe { *libc::__errno_location() = e };
    -1
}
unsafe fn text(p: *const c_char) -> String {
    CStr::from_ptr(p).to_string_lossy().into_owned()
}

unsafe fn do_openat(at: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if let Some(io) = io() {
        let p = text(path);
        if io.inside(&p) && flags & libc::O_DIRECTORY == 0 {
            let op = Op::Open {
                path: p,
                write: flags & libc::O_ACCMODE != libc::O_RDONLY,
                create: flags & libc::O_CREAT != 0,
                excl: flags & libc::O_EXCL != 0,
                trunc: flags & libc::O_TRUNC != 0,
            };
            if let Err(e) = io.before(op) {
                return fail(e);
            }
        }
    }
    libc::syscall(libc::SYS_openat, at as c_long, path, flags as c_long, mode as c_long) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_openat(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_openat(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(at: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_openat(at, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    if let Some(io) = io() {
        if let Some(path) = io.fd_path(fd) {
            if let Err(e) = io.before(Op::Read { path }) {
                return fail(e) as isize;
            }
        }
    }
    libc::syscall(libc::SYS_read, fd as c_long, buf, n) as isize
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    let mut n = n;
    if let Some(io) = io() {
        if let Some(path) = io.fd_path(fd) {
            let short = matches!(io.fault, Some((k, Fault::Short)) if k == io.ops.len());
            if short {
                n /= 2;
            }
            let data = std::slice::from_raw_parts(buf as *const u8, n).to_vec();
            if let Err(e) = io.before(Op::Write { path, data }) {
                return fail(e) as isize;
            }
        }
    }
    libc::syscall(libc::SYS_write, fd as c_long, buf, n) as isize
}
unsafe fn do_sync(nr: c_long, fd: c_int) -> c_int {
    if let Some(io) = io() {
        if let Some(path) = io.fd_path(fd) {
            // what would reach the disk is modelled, not done
            return match io.before(Op::Sync { path }) {
                Err(e) => fail(e),
                Ok(_) => 0,
            };
        }
    }
    libc::syscall(nr, fd as c_long) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    do_sync(libc::SYS_fsync, fd)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    do_sync(libc::SYS_fdatasync, fd)
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, mode: c_uint) -> c_int {
    if let Some(io) = io() {
        if let Some(path) = io.fd_path(fd) {
            if let Err(e) = io.before(Op::Chmod { path, mode }) {
                return fail(e);
            }
        }
    }
    libc::syscall(libc::SYS_fchmod, fd as c_long, mode as c_long) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn chmod(path: *const c_char, mode: c_uint) -> c_int {
    if let Some(io) = io() {
        let p = text(path);
        if io.inside(&p) {
            if let Err(e) = io.before(Op::Chmod { path: p, mode }) {
                return fail(e);
            }
        }
    }
    libc::syscall(libc::SYS_fchmodat, libc::AT_FDCWD as c_long, path, mode as c_long) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    if let Some(io) = io() {
        if let Some(path) = io.fd_path(fd) {
            if let Err(e) = io.before(Op::Truncate { path, len: len as u64 }) {
                return fail(e);
            }
        }
    }
    libc::syscall(libc::SYS_ftruncate, fd as c_long, len) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if let Some(io) = io() {
        let (from, to) = (text(a), text(b));
        if io.inside(&from) || io.inside(&to) {
            if let Err(e) = io.before(Op::Rename { from, to }) {
                return fail(e);
            }
        }
    }
    let r = libc::syscall(libc::SYS_renameat, libc::AT_FDCWD as c_long, a, libc::AT_FDCWD as c_long, b) as c_int;
    if let Some(io) = io() {
        // the others are quick
        if matches!(io.act, Some((n, _)) if n == io.ops.len()) {
            io.run_act();
        }
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    if let Some(io) = io() {
        let path = text(p);
        if io.inside(&path) {
            if let Err(e) = io.before(Op::Unlink { path }) {
                return fail(e);
            }
        }
    }
    libc::syscall(libc::SYS_unlinkat, libc::AT_FDCWD as c_long, p, 0 as c_long) as c_int
}
// std falls back to read and write
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(_: c_int, _: *mut i64, _: c_int, _: *mut i64, _: usize, _: c_uint) -> isize {
    fail(libc::ENOSYS) as isize
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(_: c_int, _: c_int, _: *mut i64, _: usize) -> isize {
    fail(libc::ENOSYS) as isize
}

pub fn inode(p: &str) -> Option<u64> {
    std::fs::metadata(p).ok().map(|m| m.ino())
}

/// A file system that loses power: what `ops` (a prefix of them) may have left of the file `path`. Names change in
/// the order of the operations; of each file's contents at least what was written before its last sync is there, and
/// of what was written afterwards any prefix. `None` stands for no file.
pub fn after_power_loss(start: &Snap, dir: &str, ops: &[Op], path: &str) -> Vec<Option<Vec<u8>>> {
    let name = |p: &str| p.strip_prefix(dir).unwrap_or(p).trim_start_matches('/').to_string();
    #[derive(Default, Clone)]
    struct Ino {
        base: Vec<u8>,
        /// versions of the contents since the last sync, oldest first
        since: Vec<Vec<u8>>,
    }
    let mut inos: Vec<Ino> = Vec::new();
    let mut names: BTreeMap<String, usize> = BTreeMap::new();
    for (n, (c, _)) in start {
        names.insert(n.clone(), inos.len());
        inos.push(Ino { base: c.clone(), since: vec![] });
    }
    // every view of the names there has been
    let mut views = vec![names.clone()];
    for op in ops {
        match op {
            Op::Open { path, create, trunc, write, .. } => {
                let n = name(path);
                if !names.contains_key(&n) && *create {
                    names.insert(n, inos.len());
                    inos.push(Ino::default());
                    views.push(names.clone());
                } else if *trunc && *write {
                    if let Some(i) = names.get(&n) {
                        inos[*i].since.push(vec![]);
                    }
                }
            }
            Op::Write { path, data } => {
                if let Some(i) = names.get(&name(path)) {
                    let f = &mut inos[*i];
                    let mut cur = f.since.last().unwrap_or(&f.base).clone();
                    for cut in [1, data.len() / 2, data.len()] {
                        if cut >= 1 && cut <= data.len() {
                            let mut c = cur.clone();
                            c.extend(&data[..cut]);
                            f.since.push(c);
                        }
                    }
                    cur.extend(data);
                    f.since.push(cur);
                }
            }
            Op::Truncate { path, len } => {
                if let Some(i) = names.get(&name(path)) {
                    let f = &mut inos[*i];
                    let mut cur = f.since.last().unwrap_or(&f.base).clone();
                    cur.resize(*len as usize, 0);
                    f.since.push(cur);
                }
            }
            Op::Sync { path } => {
                if let Some(i) = names.get(&name(path)) {
                    let f = &mut inos[*i];
                    if let Some(c) = f.since.pop() {
                        f.base = c;
                        f.since.clear();
                    }
                }
            }
            Op::Rename { from, to } => {
                if let Some(i) = names.remove(&name(from)) {
                    names.insert(name(to), i);
                    views.push(names.clone());
                }
            }
            Op::Unlink { path } => {
                names.remove(&name(path));
                views.push(names.clone());
            }
            Op::Read { .. } | Op::Chmod { .. } => {}
        }
    }
    let mut out = Vec::new();
    for v in &views {
        match v.get(&name(path)) {
            None => out.push(None),
            Some(i) => {
                out.push(Some(inos[*i].base.clone()));
                out.extend(inos[*i].since.iter().cloned().map(Some));
            }
        }
    }
    out.sort();
    out.dedup();
    out
}
