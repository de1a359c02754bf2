pub use std::thread::*;
use crate::sched;
use std::any::Any;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub struct Slot<T>(Mutex<Option<std::thread::Result<T>>>);

pub struct JoinHandle<T>(Arc<Slot<T>>);

impl<T> JoinHandle<T> {
    pub fn join(self) -> std::thread::Result<T> {
        self.join_ref()
    }
    pub fn join_ref(&self) -> std::thread::Result<T> {
        sched::point();
        loop {
            if let Some(r) = self.0 .0.lock().unwrap().take() {
                return r;
            }
            sched::wait(Arc::as_ptr(&self.0) as *const () as usize, None, "join");
        }
    }
    pub fn is_finished(&self) -> bool {
        self.0 .0.lock().unwrap().is_some()
    }
}

/// The caller joins the thread before what it borrows goes away.
pub unsafe fn spawn_unchecked<'a, F, T>(name: String, f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'a,
    T: Send + 'a,
{
    let slot: Arc<Slot<T>> = Arc::new(Slot(Mutex::new(None)));
    let s2 = slot.clone();
    let body: Box<dyn FnOnce() + Send + 'a> = Box::new(move || {
        let r = catch_unwind(AssertUnwindSafe(f));
        let key = Arc::as_ptr(&s2) as *const () as usize;
        *s2.0.lock().unwrap() = Some(r);
        sched::wake_all(key);
    });
    let body: Box<dyn FnOnce() + Send + 'static> = std::mem::transmute(body);
    sched::spawn_raw(name, body);
    JoinHandle(slot)
}

pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    named("thread", f)
}
pub fn named<F, T>(name: &str, f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    let h = unsafe { spawn_unchecked(name.to_string(), f) };
    sched::point();
    h
}

#[derive(Default)]
pub struct Builder(String);
impl Builder {
    pub fn new() -> Builder {
        Builder(String::new())
    }
    pub fn name(mut self, n: String) -> Builder {
        self.0 = n;
        self
    }
    pub fn stack_size(self, _: usize) -> Builder {
        self
    }
    pub fn spawn<F, T>(self, f: F) -> std::io::Result<JoinHandle<T>>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        Ok(named(&self.0, f))
    }
}

pub fn sleep(d: Duration) {
    let x = 0u8;
    sched::wait(&x as *const _ as usize, Some(sched::now() + d.as_nanos() as u64), "sleep");
}
pub fn yield_now() {
    sched::point()
}

