pub use std::sync::*;
use crate::sched;
use std::cell::{Cell, UnsafeCell};
use std::fmt;
use std::ops::{Deref, DerefMut};
use std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};
use std::time::Duration;

fn loc(k: &str, l: &std::panic::Location) -> String {
    let f = l.file().rsplit('/').next().unwrap_or("");
    format!("{} ({})", k, f)
}

pub struct Mutex<T: ?Sized> {
    locked: Cell<bool>,
    poisoned: Cell<bool>,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}

pub struct MutexGuard<'a, T: ?Sized> {
    m: &'a Mutex<T>,
    panicking: bool,
}

impl<T> Mutex<T> {
    pub const fn new(t: T) -> Mutex<T> {
        Mutex { locked: Cell::new(false), poisoned: Cell::new(false), data: UnsafeCell::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        let p = self.poisoned.get();
        let d = self.data.into_inner();
        if p { Err(PoisonError::new(d)) } else { Ok(d) }
    }
}
impl<T: ?Sized> Mutex<T> {
    fn key(&self) -> usize {
        &self.locked as *const _ as usize
    }
    fn acquire(&self, what: &str) {
        while self.locked.get() {
            sched::wait(self.key(), None, what);
        }
        self.locked.set(true);
    }
    fn release(&self) {
        self.locked.set(false);
        sched::wake_all(self.key());
    }
    fn guard(&self) -> LockResult<MutexGuard<'_, T>> {
        let g = MutexGuard { m: self, panicking: std::thread::panicking() };
        if self.poisoned.get() { Err(PoisonError::new(g)) } else { Ok(g) }
    }
    #[track_caller]
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        sched::point();
        self.acquire(&loc("Mutex::lock", std::panic::Location::caller()));
        self.guard()
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        sched::point();
        if self.locked.get() {
            return Err(TryLockError::WouldBlock);
        }
        self.locked.set(true);
        self.guard().map_err(TryLockError::Poisoned)
    }
    pub fn is_poisoned(&self) -> bool {
        self.poisoned.get()
    }
    pub fn clear_poison(&self) {
        self.poisoned.set(false)
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        Ok(self.data.get_mut())
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}
impl<T: ?Sized> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "Mutex")
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.m.data.get() }
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.m.data.get() }
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        if std::thread::panicking() && !self.panicking {
            self.m.poisoned.set(true);
        }
        self.m.release();
    }
}

pub struct RwLock<T: ?Sized> {
    readers: Cell<usize>,
    writer: Cell<bool>,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
pub struct RwLockReadGuard<'a, T: ?Sized>(&'a RwLock<T>);
pub struct RwLockWriteGuard<'a, T: ?Sized>(&'a RwLock<T>);
impl<T> RwLock<T> {
    pub const fn new(t: T) -> RwLock<T> {
        RwLock { readers: Cell::new(0), writer: Cell::new(false), data: UnsafeCell::new(t) }
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T: ?Sized> RwLock<T> {
    fn key(&self) -> usize {
        &self.readers as *const _ as usize
    }
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        sched::point();
        while self.writer.get() {
            sched::wait(self.key(), None, "RwLock::read");
        }
        self.readers.set(self.readers.get() + 1);
        Ok(RwLockReadGuard(self))
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        sched::point();
        while self.writer.get() || self.readers.get() > 0 {
            sched::wait(self.key(), None, "RwLock::write");
        }
        self.writer.set(true);
        Ok(RwLockWriteGuard(self))
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.data.get() }
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.data.get() }
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.0.data.get() }
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        self.0.readers.set(self.0.readers.get() - 1);
        sched::wake_all(self.0.key());
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        self.0.writer.set(false);
        sched::wake_all(self.0.key());
    }
}

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}

#[derive(Default)]
pub struct Condvar(Cell<u8>);
unsafe impl Send for Condvar {}
unsafe impl Sync for Condvar {}
impl fmt::Debug for Condvar {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "Condvar")
    }
}
impl Condvar {
    pub const fn new() -> Condvar {
        Condvar(Cell::new(0))
    }
    fn key(&self) -> usize {
        self as *const _ as usize
    }
    fn wait_until<'a, T>(&self, g: MutexGuard<'a, T>, dur: Option<Duration>, what: &str) -> (LockResult<MutexGuard<'a, T>>, bool) {
        let m = g.m;
        std::mem::forget(g);
        sched::point();
        m.release();
        let d = dur.map(|d| sched::now() + d.as_nanos() as u64);
        let out = sched::wait(self.key(), d, what);
        m.acquire("Condvar::wait, for the lock");
        (m.guard(), out)
    }
    #[track_caller]
    pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        self.wait_until(g, None, &loc("Condvar::wait", std::panic::Location::caller())).0
    }
    #[track_caller]
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, mut f: F) -> LockResult<MutexGuard<'a, T>> {
        while f(&mut g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    #[track_caller]
    pub fn wait_timeout<'a, T>(&self, g: MutexGuard<'a, T>, d: Duration) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let (g, out) = self.wait_until(g, Some(d), &loc("Condvar::wait_timeout", std::panic::Location::caller()));
        match g {
            Ok(g) => Ok((g, WaitTimeoutResult(out))),
            Err(e) => Err(PoisonError::new((e.into_inner(), WaitTimeoutResult(out)))),
        }
    }
    #[track_caller]
    pub fn wait_timeout_while<'a, T, F: FnMut(&mut T) -> bool>(
        &self,
        mut g: MutexGuard<'a, T>,
        d: Duration,
        mut f: F,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let end = sched::now() + d.as_nanos() as u64;
        loop {
            if !f(&mut g) {
                return Ok((g, WaitTimeoutResult(false)));
            }
            let now = sched::now();
            if now >= end {
                return Ok((g, WaitTimeoutResult(true)));
            }
            g = self.wait_timeout(g, Duration::from_nanos(end - now))?.0;
        }
    }
    pub fn notify_one(&self) {
        sched::point();
        sched::wake_one(self.key());
    }
    pub fn notify_all(&self) {
        sched::point();
        sched::wake_all(self.key());
    }
}

pub mod atomic {
    pub use std::sync::atomic::*;
    use crate::sched::point;
    macro_rules! atomic {
        ($n:ident, $t:ty) => {
            #[derive(Default, Debug)]
            pub struct $n(std::sync::atomic::$n);
            impl $n {
                pub const fn new(v: $t) -> $n {
                    $n(std::sync::atomic::$n::new(v))
                }
                pub fn load(&self, _: Ordering) -> $t {
                    point();
                    self.0.load(Ordering::SeqCst)
                }
                pub fn store(&self, v: $t, _: Ordering) {
                    point();
                    self.0.store(v, Ordering::SeqCst)
                }
                pub fn swap(&self, v: $t, _: Ordering) -> $t {
                    point();
                    self.0.swap(v, Ordering::SeqCst)
                }
                pub fn compare_exchange(&self, a: $t, b: $t, _: Ordering, _: Ordering) -> Result<$t, $t> {
                    point();
                    self.0.compare_exchange(a, b, Ordering::SeqCst, Ordering::SeqCst)
                }
                pub fn compare_exchange_weak(&self, a: $t, b: $t, _: Ordering, _: Ordering) -> Result<$t, $t> {
                    point();
                    self.0.compare_exchange(a, b, Ordering::SeqCst, Ordering::SeqCst)
                }
                pub fn compare_and_swap(&self, a: $t, b: $t, _: Ordering) -> $t {
                    point();
                    match self.0.compare_exchange(a, b, Ordering::SeqCst, Ordering::SeqCst) {
                        Ok(x) | Err(x) => x,
                    }
                }
                pub fn get_mut(&mut self) -> &mut $t {
                    self.0.get_mut()
                }
                pub fn into_inner(self) -> $t {
                    self.0.into_inner()
                }
            }
        };
    }
    macro_rules! arith {
        ($n:ident, $t:ty, $($f:ident)*) => {
            impl $n {
                $(pub fn $f(&self, v: $t, _: Ordering) -> $t {
                    point();
                    self.0.$f(v, Ordering::SeqCst)
                })*
            }
        };
    }
    atomic!(AtomicBool, bool);
    arith!(AtomicBool, bool, fetch_or fetch_and fetch_xor);
    atomic!(AtomicUsize, usize);
    atomic!(AtomicIsize, isize);
    atomic!(AtomicU64, u64);
    atomic!(AtomicI64, i64);
    atomic!(AtomicU32, u32);
    atomic!(AtomicI32, i32);
    atomic!(AtomicU8, u8);
    arith!(AtomicUsize, usize, fetch_add fetch_sub fetch_or fetch_and fetch_max fetch_min);
    arith!(AtomicIsize, isize, fetch_add fetch_sub fetch_or fetch_and fetch_max fetch_min);
    arith!(AtomicU64, u64, fetch_add fetch_sub fetch_or fetch_and fetch_max fetch_min);
    arith!(AtomicI64, i64, fetch_add fetch_sub fetch_or fetch_and fetch_max fetch_min);
    arith!(AtomicU32, u32, fetch_add fetch_sub fetch_or fetch_and fetch_max fetch_min);
    arith!(AtomicI32, i32, fetch_add fetch_sub fetch_or fetch_and fetch_max fetch_min);
    arith!(AtomicU8, u8, fetch_add fetch_sub fetch_or fetch_and fetch_max fetch_min);
}

pub mod mpsc {
    pub use std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};
    use crate::sched;
    use std::collections::VecDeque;
    use std::sync::{Arc, Mutex};
    use std::time::Duration;

    struct Q<T> {
        q: VecDeque<T>,
        senders: usize,
        receiver: bool,
        cap: usize,
    }
    struct Chan<T>(Mutex<Q<T>>);
    impl<T> Chan<T> {
        fn key(&self) -> usize {
            self as *const _ as usize
        }
    }
    pub struct Sender<T>(Arc<Chan<T>>);
    pub struct SyncSender<T>(Sender<T>);
    pub struct Receiver<T>(Arc<Chan<T>>);

    pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
        let c = Arc::new(Chan(Mutex::new(Q { q: VecDeque::new(), senders: 1, receiver: true, cap: usize::MAX })));
        (Sender(c.clone()), Receiver(c))
    }
    pub fn sync_channel<T>(n: usize) -> (SyncSender<T>, Receiver<T>) {
        let (s, r) = channel();
        s.0 .0.lock().unwrap().cap = n.max(1);
        (SyncSender(s), r)
    }
    impl<T> Sender<T> {
        pub fn send(&self, t: T) -> Result<(), SendError<T>> {
            sched::point();
            loop {
                let mut q = self.0 .0.lock().unwrap();
                if !q.receiver {
                    return Err(SendError(t));
                }
                if q.q.len() < q.cap {
                    q.q.push_back(t);
                    drop(q);
                    sched::wake_all(self.0.key());
                    return Ok(());
                }
                drop(q);
                sched::wait(self.0.key(), None, "send on a full channel");
            }
        }
    }
    impl<T> SyncSender<T> {
        pub fn send(&self, t: T) -> Result<(), SendError<T>> {
            self.0.send(t)
        }
        pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
            let q = self.0 .0 .0.lock().unwrap();
            if q.receiver && q.q.len() >= q.cap {
                return Err(TrySendError::Full(t));
            }
            drop(q);
            self.0.send(t).map_err(|e| TrySendError::Disconnected(e.0))
        }
    }
    impl<T> Clone for Sender<T> {
        fn clone(&self) -> Self {
            self.0 .0.lock().unwrap().senders += 1;
            Sender(self.0.clone())
        }
    }
    impl<T> Clone for SyncSender<T> {
        fn clone(&self) -> Self {
            SyncSender(self.0.clone())
        }
    }
    impl<T> Drop for Sender<T> {
        fn drop(&mut self) {
            self.0 .0.lock().unwrap().senders -= 1;
            sched::wake_all(self.0.key());
        }
    }
    impl<T> Drop for Receiver<T> {
        fn drop(&mut self) {
            self.0 .0.lock().unwrap().receiver = false;
            sched::wake_all(self.0.key());
        }
    }
    impl<T> Receiver<T> {
        fn until(&self, deadline: Option<u64>) -> Result<T, RecvTimeoutError> {
            sched::point();
            loop {
                let mut q = self.0 .0.lock().unwrap();
                if let Some(t) = q.q.pop_front() {
                    drop(q);
                    sched::wake_all(self.0.key());
                    return Ok(t);
                }
                if q.senders == 0 {
                    return Err(RecvTimeoutError::Disconnected);
                }
                drop(q);
                if sched::wait(self.0.key(), deadline, "recv on a channel") {
                    return Err(RecvTimeoutError::Timeout);
                }
            }
        }
        pub fn recv(&self) -> Result<T, RecvError> {
            self.until(None).map_err(|_| RecvError)
        }
        pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
            self.until(Some(sched::now() + d.as_nanos() as u64))
        }
        pub fn try_recv(&self) -> Result<T, TryRecvError> {
            sched::point();
            let mut q = self.0 .0.lock().unwrap();
            match q.q.pop_front() {
                Some(t) => Ok(t),
                None if q.senders == 0 => Err(TryRecvError::Disconnected),
                None => Err(TryRecvError::Empty),
            }
        }
        pub fn iter(&self) -> impl Iterator<Item = T> + '_ {
            std::iter::from_fn(move || self.recv().ok())
        }
        pub fn try_iter(&self) -> impl Iterator<Item = T> + '_ {
            std::iter::from_fn(move || self.try_recv().ok())
        }
    }
}
