//! The other side of the connection, the handler, and a record of what happened.
use mccommon::Res;
use serde_json::{json, Value};
use std::collections::VecDeque;
use std::io::{self, BufRead, Read, Write};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use xi_rpc::{Error, Handler, Peer, RawPeer, RemoteError, RpcCtx, RpcLoop, RpcPeer};
use xi_shim::sched;
use xi_shim::sync::Mutex as SMutex;
use xi_shim::time::Instant;

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    /// the handler is called for a message, and returns
    Start(String),
    End(String),
    Idle(usize),
    IdleEnd(usize),
    /// the read loop asks for input and has handed over everything before the given message
    Reading(usize),
    /// a token is handed to the loop: (thread tag, token, time it must not fire before)
    Sched(String, usize, Option<Instant>),
    /// a synchronous request was answered
    Sync(String, String),
    /// a callback was called
    Callback(String, String),
    Asked(String),
    /// what a timed token saw on the clock
    At(usize, Instant),
}

pub enum Item {
    Bytes(Vec<u8>),
    Broken,
}

#[derive(Default)]
pub struct Input {
    pub q: VecDeque<Item>,
    pub eof: bool,
    given: usize,
}

pub type Responder = Box<dyn FnMut(&Value, &mut Vec<Value>) + Send>;

#[derive(Default)]
pub struct World {
    pub ev: Mutex<Vec<Ev>>,
    /// complete lines that were written
    pub out: Mutex<Vec<String>>,
    partial: Mutex<Vec<u8>>,
    pub input: Mutex<Input>,
    pub respond: Mutex<Option<Responder>>,
    /// the lock that all of the application's state is behind
    pub core: SMutex<()>,
    pub expect_tokens: Mutex<usize>,
    chunk: Mutex<usize>,
    /// writing fails from this call on
    pub fail_from: Mutex<Option<usize>>,
    writes: Mutex<usize>,
}
pub type W = Arc<World>;

impl World {
    pub fn new(chunk: usize) -> W {
        let w = World::default();
        *w.chunk.lock().unwrap() = chunk;
        Arc::new(w)
    }
    pub fn log(&self, e: Ev) {
        sched::log(|| format!("{:?}", e));
        self.ev.lock().unwrap().push(e);
    }
    pub fn events(&self) -> Vec<Ev> {
        self.ev.lock().unwrap().clone()
    }
    fn key(&self) -> usize {
        &self.input as *const _ as usize
    }
    pub fn push(&self, i: Item) {
        self.input.lock().unwrap().q.push_back(i);
        sched::wake_all(self.key());
    }
    pub fn line(&self, v: &Value) {
        self.push(Item::Bytes(format!("{}\n", v).into_bytes()));
    }
    pub fn eof(&self) {
        sched::log(|| "end of input".into());
        self.input.lock().unwrap().eof = true;
        sched::wake_all(self.key());
    }
}

pub struct In(pub W, Vec<u8>, usize);
impl In {
    pub fn new(w: &W) -> In {
        In(w.clone(), vec![], 0)
    }
}
impl Read for In {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = {
            let b = self.fill_buf()?;
            let n = b.len().min(buf.len());
            buf[..n].copy_from_slice(&b[..n]);
            n
        };
        self.consume(n);
        Ok(n)
    }
}
impl BufRead for In {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        if self.2 >= self.1.len() {
            let given = self.0.input.lock().unwrap().given;
            self.0.log(Ev::Reading(given));
            sched::point();
            self.1.clear();
            self.2 = 0;
            loop {
                let mut i = self.0.input.lock().unwrap();
                match i.q.pop_front() {
                    Some(Item::Bytes(b)) => {
                        i.given += 1;
                        self.1 = b;
                        break;
                    }
                    Some(Item::Broken) => return Err(io::Error::new(io::ErrorKind::ConnectionReset, "broken")),
                    None if i.eof => break,
                    None => {}
                }
                drop(i);
                sched::wait(self.0.key(), None, "reading input that has not arrived");
            }
        }
        Ok(&self.1[self.2..])
    }
    fn consume(&mut self, n: usize) {
        self.2 += n;
    }
}

pub struct Out(pub W);
impl Write for Out {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        sched::point();
        let k = {
            let mut n = self.0.writes.lock().unwrap();
            *n += 1;
            *n - 1
        };
        if self.0.fail_from.lock().unwrap().map(|f| k >= f).unwrap_or(false) {
            return Err(io::Error::new(io::ErrorKind::BrokenPipe, "closed"));
        }
        let n = buf.len().min(*self.0.chunk.lock().unwrap());
        let mut done = vec![];
        {
            let mut p = self.0.partial.lock().unwrap();
            p.extend_from_slice(&buf[..n]);
            while let Some(i) = p.iter().position(|b| *b == b'\n') {
                let rest = p.split_off(i + 1);
                let l = std::mem::replace(&mut *p, rest);
                done.push(String::from_utf8_lossy(&l[..l.len() - 1]).to_string());
            }
        }
        for l in done {
            sched::log(|| format!("wrote {}", l));
            self.0.out.lock().unwrap().push(l.clone());
            if let Ok(v) = serde_json::from_str::<Value>(&l) {
                let mut answers = vec![];
                if let Some(f) = self.0.respond.lock().unwrap().as_mut() {
                    f(&v, &mut answers);
                }
                for a in answers {
                    self.0.line(&a);
                }
            }
        }
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// Answers every request at once: the result names the method.
pub fn prompt() -> Responder {
    Box::new(|v, out| {
        if let (Some(id), Some(m)) = (v.get("id"), v["method"].as_str()) {
            out.push(answer(id, m));
        }
    })
}
pub fn answer(id: &Value, m: &str) -> Value {
    if m.starts_with('e') {
        json!({"id": id, "error": {"code": 7, "message": m}})
    } else {
        json!({"id": id, "result": format!("re {}", m)})
    }
}
pub fn want_answer(m: &str) -> String {
    if m.starts_with('e') {
        format!("error {}", m)
    } else {
        format!("re {}", m)
    }
}

#[derive(serde::Deserialize)]
#[serde(tag = "method", content = "params", rename_all = "snake_case")]
pub enum N {
    Note(String),
    Act(Vec<Value>),
    Bye(u8),
}
#[derive(serde::Deserialize)]
#[serde(tag = "method", content = "params", rename_all = "snake_case")]
pub enum R {
    Req(String),
    Fail(String),
    Do(Vec<Value>),
}

pub fn show(r: &Result<Value, Error>) -> String {
    match r {
        Ok(v) => v.as_str().map(|s| s.to_string()).unwrap_or(v.to_string()),
        Err(Error::RemoteError(RemoteError::Custom { message, .. })) => format!("error {}", message),
        Err(Error::RemoteError(_)) => "error".into(),
        Err(Error::Io(_)) => "io".into(),
        Err(Error::PeerDisconnect) => "disconnected".into(),
        Err(Error::InvalidResponse) => "invalid".into(),
    }
}

/// Performs the actions of a script.
pub fn act(w: &W, peer: &RpcPeer, tag: &str, acts: &[Value]) {
    for a in acts {
        let s = |i: usize| a[i].as_str().unwrap_or("").to_string();
        match a[0].as_str().unwrap() {
            "sync" => {
                let m = s(1);
                w.log(Ev::Asked(m.clone()));
                let r = peer.send_rpc_request(&m, &json!(null));
                w.log(Ev::Sync(m, show(&r)));
            }
            "async" => {
                let m = s(1);
                let then = a[2].as_array().cloned().unwrap_or_default();
                w.log(Ev::Asked(m.clone()));
                let (w2, p2, t2) = (w.clone(), peer.clone(), tag.to_string());
                peer.send_rpc_request_async(
                    &m.clone(),
                    &json!(null),
                    Box::new(move |r: Result<Value, Error>| {
                        w2.log(Ev::Callback(m, show(&r)));
                        act(&w2, &p2, &t2, &then);
                    }),
                );
            }
            "say" => peer.send_rpc_notification(&s(1), &json!(tag)),
            "idle" => {
                let t = a[1].as_u64().unwrap() as usize;
                w.log(Ev::Sched(tag.into(), t, None));
                peer.schedule_idle(t);
            }
            "timer" => {
                let t = a[1].as_u64().unwrap() as usize;
                let at = Instant::now() + Duration::from_micros(a[2].as_u64().unwrap());
                w.log(Ev::Sched(tag.into(), t, Some(at)));
                peer.schedule_timer(at, t);
            }
            "panic" => panic!("handler panic"),
            "locked" => {
                let _g = w.core.lock().unwrap_or_else(|e| e.into_inner());
                act(w, peer, tag, a[1].as_array().unwrap());
            }
            "touch" => {
                let _g = w.core.lock().unwrap_or_else(|e| e.into_inner());
                w.log(Ev::Callback("touch".into(), "".into()));
            }
            x => panic!("ENGINE: action {}", x),
        }
    }
}

pub struct H(pub W, pub bool);
impl H {
    fn run(&self, ctx: &RpcCtx, acts: &[Value]) {
        if self.1 {
            act(&self.0, ctx.get_peer(), "main", &[json!(["locked", acts])]);
        } else {
            act(&self.0, ctx.get_peer(), "main", acts);
        }
    }
}
impl Handler for H {
    type Notification = N;
    type Request = R;
    fn handle_notification(&mut self, ctx: &RpcCtx, n: N) {
        match n {
            N::Note(s) => {
                self.0.log(Ev::Start(s.clone()));
                self.0.log(Ev::End(s));
            }
            N::Act(a) => {
                let s = format!("act {}", Value::Array(a.clone()));
                self.0.log(Ev::Start(s.clone()));
                self.run(ctx, &a);
                self.0.log(Ev::End(s));
            }
            N::Bye(_) => {
                self.0.log(Ev::Start("bye".into()));
                self.0.eof();
                self.0.log(Ev::End("bye".into()));
            }
        }
    }
    fn handle_request(&mut self, ctx: &RpcCtx, r: R) -> Result<Value, RemoteError> {
        match r {
            R::Req(s) => {
                self.0.log(Ev::Start(s.clone()));
                self.0.log(Ev::End(s.clone()));
                Ok(json!(format!("done {}", s)))
            }
            R::Fail(s) => {
                self.0.log(Ev::Start(s.clone()));
                self.0.log(Ev::End(s.clone()));
                Err(RemoteError::custom(5, format!("failed {}", s), None))
            }
            R::Do(a) => {
                let s = format!("do {}", Value::Array(a.clone()));
                self.0.log(Ev::Start(s.clone()));
                self.run(ctx, &a);
                self.0.log(Ev::End(s));
                Ok(json!("done do"))
            }
        }
    }
    fn idle(&mut self, ctx: &RpcCtx, token: usize) {
        self.0.log(Ev::Idle(token));
        self.0.log(Ev::At(token, Instant::now()));
        if token >= 100 {
            // work in two parts
            let w = &self.0;
            w.log(Ev::Sched("main".into(), token - 100, None));
            ctx.schedule_idle(token - 100);
        }
        if token == 66 {
            panic!("idle panic");
        }
        let left = {
            let mut e = self.0.expect_tokens.lock().unwrap();
            if *e > 0 {
                *e -= 1;
                *e
            } else {
                1
            }
        };
        if left == 0 {
            self.0.eof();
        }
        self.0.log(Ev::IdleEnd(token));
    }
}

/// Runs the loop in a thread of its own until it returns; tells how it ended.
pub fn mainloop(w: &W, locked: bool) -> (RawPeer<Out>, xi_shim::thread::JoinHandle<String>) {
    let mut l = RpcLoop::new(Out(w.clone()));
    let peer = l.get_raw_peer();
    let w = w.clone();
    let h = xi_shim::thread::named("loop", move || {
        let mut h = H(w.clone(), locked);
        match l.mainloop(|| In::new(&w), &mut h) {
            Ok(()) => "ok".to_string(),
            Err(e) => match e {
                xi_rpc::ReadError::Io(_) => "io",
                xi_rpc::ReadError::Json(_) => "json",
                xi_rpc::ReadError::NotObject => "not an object",
                xi_rpc::ReadError::UnknownRequest(_) => "unknown",
                xi_rpc::ReadError::Disconnect => "disconnect",
            }
            .to_string(),
        }
    });
    (peer, h)
}

pub fn join<T>(h: xi_shim::thread::JoinHandle<T>) -> Result<T, String> {
    h.join().map_err(|e| {
        let m = e.downcast_ref::<&str>().map(|s| s.to_string()).or(e.downcast_ref::<String>().cloned()).unwrap_or("a panic".into());
        format!("panicked: {}", m)
    })
}

/// A thread that performs actions through a peer of its own.
pub fn worker(w: &W, peer: &RawPeer<Out>, tag: &str, acts: Vec<Value>) -> xi_shim::thread::JoinHandle<()> {
    let (w, p, t): (W, RpcPeer, String) = (w.clone(), peer.box_clone(), tag.to_string());
    xi_shim::thread::named(tag, move || act(&w, &p, &t, &acts))
}

pub fn whole_lines(w: &W) -> Res {
    for l in w.out.lock().unwrap().iter() {
        mccommon::ensure!(serde_json::from_str::<Value>(l).map(|v| v.is_object()).unwrap_or(false), "a line on the wire is not one message: {:?}", l);
    }
    mccommon::ensure!(w.partial.lock().unwrap().is_empty(), "a message on the wire is not terminated");
    Ok(())
}
