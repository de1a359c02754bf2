//! The scheduler. Controlled threads are real threads that pass a baton: only the holder runs, and at every
//! operation that other threads could observe, the chooser decides who goes on. Switching away from a thread that
//! could go on, and letting a timed wait run out while something else could run, cost one preemption each;
//! everything else is free. All schedules within the preemption bound are enumerated. With a delay bound instead,
//! the choice between threads when one cannot go on costs too, unless it is the next one in turn.
use mccommon::{Ch, Res};
use std::cell::RefCell;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::mpsc;
use std::sync::{Arc, Mutex};
use std::thread::Thread;

#[derive(Clone, Copy, PartialEq)]
enum St {
    Ready,
    Wait { key: usize, deadline: Option<u64> },
    /// until nobody else can go on
    Last,
    Done,
}

struct T {
    st: St,
    timed_out: bool,
    os: Thread,
    name: String,
    what: String,
}

struct In {
    threads: Vec<T>,
    ch: *mut Ch,
    preempt: usize,
    delays: bool,
    now: u64,
    steps: usize,
    switches: usize,
    over: Option<mpsc::Sender<Option<String>>>,
}
unsafe impl Send for In {}

pub struct Sched {
    m: Mutex<In>,
    cur: AtomicUsize,
}

thread_local! {
    static CUR: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) };
}

fn current() -> Option<(Arc<Sched>, usize)> {
    CUR.try_with(|c| c.borrow().clone()).ok().flatten()
}

pub fn controlled() -> bool {
    current().is_some()
}

const MAX_STEPS: usize = 50_000;

impl Sched {
    fn park_until(&self, me: usize) {
        while self.cur.load(Ordering::Acquire) != me {
            std::thread::park();
        }
    }
    /// Ends the execution here; the remaining threads stay where they are.
    fn abort(&self, mut g: std::sync::MutexGuard<In>, why: String) -> ! {
        if let Some(o) = g.over.take() {
            let _ = o.send(Some(why));
        }
        self.cur.store(usize::MAX, Ordering::Release);
        drop(g);
        loop {
            std::thread::park();
        }
    }
    /// Chooses who goes on. `None`: nobody can.
    fn choose(&self, g: &mut In, me: usize, ready: bool) -> Option<usize> {
        g.steps += 1;
        let others: Vec<usize> = (0..g.threads.len()).filter(|t| *t != me && g.threads[*t].st == St::Ready).collect();
        let timed: Vec<usize> =
            (0..g.threads.len()).filter(|t| matches!(g.threads[*t].st, St::Wait { deadline: Some(_), .. })).collect();
        let fire = |g: &mut In, t: usize| {
            if let St::Wait { deadline: Some(d), .. } = g.threads[t].st {
                g.now = g.now.max(d);
                g.threads[t].st = St::Ready;
                g.threads[t].timed_out = true;
            }
            t
        };
        let mut free = if ready { vec![me] } else { others.clone() };
        if free.is_empty() {
            // time passes
            let next = timed.iter().copied().min_by_key(|t| match g.threads[*t].st {
                St::Wait { deadline: Some(d), .. } => d,
                _ => u64::MAX,
            });
            return match next {
                Some(next) => Some(fire(g, next)),
                None => {
                    let t = (0..g.threads.len()).find(|t| g.threads[*t].st == St::Last)?;
                    g.threads[t].st = St::Ready;
                    Some(t)
                }
            };
        }
        if g.delays && !ready {
            free = vec![*others.iter().find(|t| **t > me).unwrap_or(&others[0])];
        }
        let mut cand = free.clone();
        if g.preempt > 0 {
            cand.extend(others.iter().filter(|t| !free.contains(t)));
            cand.extend(&timed);
        }
        let k = if cand.len() == 1 { 0 } else { unsafe { (*g.ch).pick(cand.len()) } };
        if k >= free.len() {
            g.preempt -= 1;
        }
        let t = cand[k];
        if t != me {
            g.switches += 1;
            let n = g.threads[t].name.clone();
            unsafe { (*g.ch).log(|| format!("-> {}", n)) };
        }
        Some(if timed.contains(&t) { fire(g, t) } else { t })
    }
    fn go(&self, mut g: std::sync::MutexGuard<In>, me: usize, ready: bool) {
        if g.steps > MAX_STEPS {
            let s = self.describe(&g);
            self.abort(g, format!("the execution does not end ({})", s));
        }
        match self.choose(&mut g, me, ready) {
            Some(t) if t == me => {}
            Some(t) => {
                let os = g.threads[t].os.clone();
                self.cur.store(t, Ordering::Release);
                drop(g);
                os.unpark();
                self.park_until(me);
            }
            None => {
                let s = self.describe(&g);
                self.abort(g, format!("deadlock: {}", s))
            }
        }
    }
    fn describe(&self, g: &In) -> String {
        g.threads
            .iter()
            .filter(|t| t.st != St::Done)
            .map(|t| format!("{} {}", t.name, if t.st == St::Ready { "could go on".to_string() } else { format!("waits in {}", t.what) }))
            .collect::<Vec<_>>()
            .join(", ")
    }
}

/// A place where another thread may come in between.
pub fn point() {
    if let Some((s, me)) = current() {
        let g = s.m.lock().unwrap();
        s.go(g, me, true);
    }
}

/// Blocks until `wake_all(key)` or `wake_one(key)`, or until the deadline; returns whether time ran out.
pub fn wait(key: usize, deadline: Option<u64>, what: &str) -> bool {
    let (s, me) = current().expect("ENGINE: a thread that is not scheduled blocks");
    let mut g = s.m.lock().unwrap();
    g.threads[me].st = St::Wait { key, deadline };
    g.threads[me].timed_out = false;
    g.threads[me].what = what.to_string();
    s.go(g, me, false);
    let g = s.m.lock().unwrap();
    g.threads[me].timed_out
}

/// Blocks until no other thread can go on.
pub fn quiesce() {
    let (s, me) = current().expect("ENGINE: a thread that is not scheduled waits");
    let mut g = s.m.lock().unwrap();
    g.threads[me].st = St::Last;
    g.threads[me].what = "quiesce".into();
    s.go(g, me, false);
}

fn wake(key: usize, all: bool) {
    if let Some((s, me)) = current() {
        let mut g = s.m.lock().unwrap();
        let ts: Vec<usize> =
            (0..g.threads.len()).filter(|t| *t != me && matches!(g.threads[*t].st, St::Wait { key: k, .. } if k == key)).collect();
        if all {
            for t in ts {
                g.threads[t].st = St::Ready;
            }
        } else if !ts.is_empty() {
            let k = if ts.len() == 1 { 0 } else { unsafe { (*g.ch).pick(ts.len()) } };
            g.threads[ts[k]].st = St::Ready;
        }
    }
}
pub fn wake_all(key: usize) {
    wake(key, true)
}
pub fn wake_one(key: usize) {
    wake(key, false)
}

pub fn now() -> u64 {
    current().map(|(s, _)| s.m.lock().unwrap().now).unwrap_or(0)
}

/// A choice of the scenario's own, made by the running thread.
pub fn pick(n: usize) -> usize {
    let (s, _) = current().expect("ENGINE: choice outside of an execution");
    let mut g = s.m.lock().unwrap();
    if n == 1 {
        0
    } else {
        unsafe { (*g.ch).pick(n) }
    }
}
/// Records a distinct outcome.
pub fn state(h: u64) {
    if let Some((s, _)) = current() {
        let mut g = s.m.lock().unwrap();
        unsafe { (*g.ch).state(&h) };
    }
}
pub fn log(f: impl FnOnce() -> String) {
    if let Some((s, me)) = current() {
        let mut g = s.m.lock().unwrap();
        let n = g.threads[me].name.clone();
        unsafe { (*g.ch).log(|| format!("{}: {}", n, f())) };
    }
}

type Job = Box<dyn FnOnce() + Send>;

/// A worker of the pool that runs the job it is given; returns its handle.
fn launch(make: impl FnOnce(Thread) -> Job) {
    struct W {
        tx: mpsc::Sender<Job>,
        os: Thread,
    }
    static WORKERS: Mutex<Vec<W>> = Mutex::new(Vec::new());
    let w = WORKERS.lock().unwrap().pop();
    let w = w.unwrap_or_else(|| {
        let (tx, rx) = mpsc::channel::<Job>();
        let (htx, hrx) = mpsc::channel();
        let tx2 = tx.clone();
        std::thread::Builder::new()
            .stack_size(1 << 20)
            .spawn(move || {
                let os = std::thread::current();
                htx.send(os.clone()).unwrap();
                for job in rx {
                    job();
                    WORKERS.lock().unwrap().push(W { tx: tx2.clone(), os: os.clone() });
                }
            })
            .expect("ENGINE: thread");
        W { tx, os: hrx.recv().unwrap() }
    });
    let job = make(w.os.clone());
    w.tx.send(job).unwrap();
}

fn start(s: &Arc<Sched>, name: String, body: Box<dyn FnOnce() + Send>) -> usize {
    let mut id = 0;
    launch(|os| {
        let mut g = s.m.lock().unwrap();
        id = g.threads.len();
        g.threads.push(T { st: St::Ready, timed_out: false, os, name, what: String::new() });
        drop(g);
        let s = s.clone();
        let me = id;
        Box::new(move || {
            CUR.with(|c| *c.borrow_mut() = Some((s.clone(), me)));
            s.park_until(me);
            body();
            CUR.with(|c| *c.borrow_mut() = None);
            // hand over
            let mut g = s.m.lock().unwrap();
            g.threads[me].st = St::Done;
            if g.threads.iter().all(|t| t.st == St::Done) {
                if let Some(o) = g.over.take() {
                    let _ = o.send(None);
                }
                return;
            }
            match s.choose(&mut g, me, false) {
                Some(t) => {
                    let os = g.threads[t].os.clone();
                    s.cur.store(t, Ordering::Release);
                    drop(g);
                    os.unpark();
                }
                None => {
                    let d = s.describe(&g);
                    if let Some(o) = g.over.take() {
                        let _ = o.send(Some(format!("deadlock: {}", d)));
                    }
                    s.cur.store(usize::MAX, Ordering::Release);
                }
            }
        })
    });
    id
}

/// Starts a thread of the running execution; `body` must not unwind.
pub fn spawn_raw(name: String, body: Box<dyn FnOnce() + Send>) -> usize {
    let (s, _) = current().expect("ENGINE: thread started outside of an execution");
    start(&s, name, body)
}

/// Runs one execution under the scheduler. `f` is the first thread.
pub fn execute(ch: &mut Ch, preemptions: usize, f: impl FnOnce() -> Res + Send + 'static) -> Res {
    execute_(ch, preemptions, false, f)
}
/// The same with a bound on delays.
pub fn execute_delays(ch: &mut Ch, delays: usize, f: impl FnOnce() -> Res + Send + 'static) -> Res {
    execute_(ch, delays, true, f)
}
fn execute_(ch: &mut Ch, preemptions: usize, delays: bool, f: impl FnOnce() -> Res + Send + 'static) -> Res {
    let (tx, rx) = mpsc::channel();
    let s = Arc::new(Sched {
        m: Mutex::new(In { threads: vec![], ch: ch as *mut Ch, preempt: preemptions, delays, now: 0, steps: 0, switches: 0, over: Some(tx) }),
        cur: AtomicUsize::new(usize::MAX),
    });
    let result: Arc<Mutex<Option<Res>>> = Default::default();
    let r2 = result.clone();
    start(&s, "main".into(), Box::new(move || {
        let r = mccommon::guarded(f);
        *r2.lock().unwrap() = Some(r);
    }));
    let os = s.m.lock().unwrap().threads[0].os.clone();
    s.cur.store(0, Ordering::Release);
    os.unpark();
    let end = rx.recv().expect("ENGINE: the scheduler went away");
    let (steps, switches) = {
        let g = s.m.lock().unwrap();
        (g.steps, g.switches)
    };
    for _ in 0..steps {
        ch.step();
    }
    if switches > 2 {
        ch.nontrivial();
    }
    match end {
        Some(e) => Err(e),
        None => result.lock().unwrap().take().unwrap_or(Err("ENGINE: no result".into())),
    }
}
