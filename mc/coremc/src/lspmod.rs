//! C34: a language server sees the document as it is, and its answers reach whoever asked.
//!
//! The core, the plugin library and the language server plugin are the real ones. The harness plays the user, the pipe
//! between core and plugin, and a language server that keeps its documents the way the protocol (and its reference
//! implementation) says.
use crate::drv::{Core, FakePlugin};
use crate::model::*;
use mccommon::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::io::Write;
use std::sync::{Arc, Mutex};
use std::time::Instant;
use xi_core_lib::plugin_rpc::{HostNotification, HostRequest};
use xi_lsp_lib::types::ParseError;
use xi_lsp_lib::{parse_helper, verif, LspPlugin};
use xi_plugin_lib::verif::Dispatcher;
use xi_rpc::{Callback, Error, Handler, Peer, RpcCtx};

#[derive(Default)]
struct Out {
    sent: VecDeque<(String, Value)>,
    idle: VecDeque<usize>,
}

#[derive(Clone, Default)]
struct LibPeer(Arc<Mutex<Out>>);

impl Peer for LibPeer {
    fn box_clone(&self) -> Box<dyn Peer> {
        Box::new(self.clone())
    }
    fn send_rpc_notification(&self, method: &str, params: &Value) {
        self.0.lock().unwrap().sent.push_back((method.to_string(), params.clone()));
    }
    fn send_rpc_request_async(&self, _: &str, _: &Value, _: Box<dyn Callback>) {
        panic!("the plugin makes no asynchronous requests");
    }
    fn send_rpc_request(&self, method: &str, params: &Value) -> Result<Value, Error> {
        if with(|w| std::mem::take(&mut w.meanwhile)) {
            let free = verif::STARTED.with(|s| s.borrow().first().map(|c| c.try_lock().is_ok())).unwrap_or(false);
            if free {
                if let Err(e) = reply(0) {
                    with(|w| w.fail(e));
                }
            }
        }
        with(|w| w.answer(method, params))
    }
    fn request_is_pending(&self) -> bool {
        false
    }
    fn schedule_idle(&self, token: usize) {
        self.0.lock().unwrap().idle.push_back(token);
    }
    fn schedule_timer(&self, _: Instant, _: usize) {
        panic!("the plugin sets no timers");
    }
}

/// What the plugin writes to the server.
#[derive(Clone, Default)]
struct Pipe(Arc<Mutex<Vec<u8>>>, Arc<Mutex<bool>>);

impl Write for Pipe {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if *self.1.lock().unwrap() {
            return Err(std::io::Error::new(std::io::ErrorKind::BrokenPipe, "the server is gone"));
        }
        self.0.lock().unwrap().extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        if *self.1.lock().unwrap() {
            return Err(std::io::Error::new(std::io::ErrorKind::BrokenPipe, "the server is gone"));
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ the language server

#[derive(Default)]
struct Server {
    pipe: Pipe,
    started: usize,
    initialize: usize,
    ready: bool,
    sync: i64,
    docs: BTreeMap<String, (i64, String)>,
    replies: VecDeque<Value>,
    /// documents, positions and ids of the hover requests, in the order received
    hovers: Vec<(String, Value, Value)>,
    saved: Vec<String>,
    closed: Vec<String>,
}

/// Lines the way the protocol counts them: `\n`, `\r\n` and `\r` end a line.
fn lsp_starts(t: &str) -> Vec<usize> {
    let b = t.as_bytes();
    let mut v = vec![0];
    for i in 0..b.len() {
        if b[i] == b'\n' || (b[i] == b'\r' && b.get(i + 1) != Some(&b'\n')) {
            v.push(i + 1);
        }
    }
    v
}

/// As in the reference implementation: past the end of a line is the start of the next.
fn offset_at(t: &str, p: &Value) -> Result<usize, String> {
    let line = p["line"].as_u64().ok_or("a position without a line")? as usize;
    let ch = p["character"].as_u64().ok_or("a position without a character")? as usize;
    let st = lsp_starts(t);
    if line >= st.len() {
        return Ok(t.len());
    }
    let end = st.get(line + 1).cloned().unwrap_or(t.len());
    let mut left = ch;
    for (i, c) in t[st[line]..end].char_indices() {
        if left == 0 {
            return Ok(st[line] + i);
        }
        ensure!(left >= c.len_utf16(), "position {} is in the middle of a surrogate pair of {:?}", p, t);
        left -= c.len_utf16();
    }
    Ok(end)
}

fn position_of(t: &str, off: usize) -> Value {
    let st = lsp_starts(t);
    let l = st.iter().rposition(|s| *s <= off).unwrap();
    json!({"line": l, "character": t[st[l]..off].encode_utf16().count()})
}

impl Server {
    fn receive(&mut self, m: Value) -> Res {
        let method = m["method"].as_str().unwrap_or("").to_string();
        let p = &m["params"];
        let uri = p["textDocument"]["uri"].as_str().unwrap_or("").to_string();
        ensure_eq!(m["jsonrpc"], json!("2.0"), "version of the protocol");
        if method != "initialize" {
            ensure!(self.ready, "{} before the server was initialised", method);
        }
        match method.as_str() {
            "initialize" => {
                self.initialize += 1;
                ensure_eq!(self.initialize, 1, "how often a server was initialised");
                self.replies.push_back(json!({"jsonrpc": "2.0", "id": m["id"], "result": {"capabilities": {"textDocumentSync": self.sync}}}));
            }
            "initialized" => {}
            "textDocument/didOpen" => {
                let d = &p["textDocument"];
                ensure!(!self.docs.contains_key(&uri), "{} opened twice", uri);
                self.docs.insert(uri, (d["version"].as_i64().unwrap(), d["text"].as_str().unwrap().to_string()));
            }
            "textDocument/didClose" => {
                ensure!(self.docs.remove(&uri).is_some(), "{} closed without being open", uri);
                self.closed.push(uri);
            }
            "textDocument/didSave" => {
                ensure!(self.docs.contains_key(&uri), "{} saved without being open", uri);
                self.saved.push(uri);
            }
            "textDocument/didChange" => {
                ensure!(self.sync != 0, "a change was sent to a server that wants none");
                let (ver, text) = self.docs.get_mut(&uri).ok_or_else(|| format!("{} changed without being open", uri))?;
                let v = p["textDocument"]["version"].as_i64().unwrap();
                ensure!(v > *ver, "version {} after {}", v, ver);
                *ver = v;
                for c in p["contentChanges"].as_array().unwrap() {
                    let new = c["text"].as_str().unwrap();
                    if c["range"].is_null() {
                        *text = new.to_string();
                    } else {
                        ensure_eq!(self.sync, 2, "kind of the server that was sent a part of the text");
                        let a = offset_at(text, &c["range"]["start"])?;
                        let b = offset_at(text, &c["range"]["end"])?;
                        ensure!(a <= b, "a range that ends before it starts: {}", c);
                        text.replace_range(a..b, new);
                    }
                }
            }
            "textDocument/hover" => {
                ensure!(self.docs.contains_key(&uri), "hover for {}, which is not open", uri);
                self.hovers.push((uri, p["position"].clone(), m["id"].clone()));
            }
            _ => return Err(format!("unexpected {}", m)),
        }
        Ok(())
    }
    fn take(&mut self) -> Res {
        let bytes = std::mem::take(&mut *self.pipe.0.lock().unwrap());
        let mut rest = &bytes[..];
        while !rest.is_empty() {
            let e = rest.windows(4).position(|w| w == b"\r\n\r\n").ok_or("a message without the end of its header")?;
            let head = std::str::from_utf8(&rest[..e]).map_err(|_| "a header that is not UTF-8")?;
            let len: usize = head
                .split("\r\n")
                .find_map(|h| h.strip_prefix("Content-Length: "))
                .and_then(|n| n.parse().ok())
                .ok_or_else(|| format!("header {:?}", head))?;
            ensure!(rest.len() >= e + 4 + len, "a message shorter than its header says");
            let m: Value = serde_json::from_slice(&rest[e + 4..e + 4 + len]).map_err(|x| format!("body: {}", x))?;
            rest = &rest[e + 4 + len..];
            if std::env::var("CONV").is_ok() {
                eprintln!("   plugin to server: {}", m);
            }
            self.receive(m)?;
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ the world

struct Doc {
    v: V,
    uri: String,
    path: String,
}

struct World {
    c: Core,
    fp: FakePlugin,
    peer: LibPeer,
    docs: Vec<Option<Doc>>,
    inbox: VecDeque<(String, Value)>,
    /// texts of the revisions, by view
    texts: BTreeMap<(String, u64), String>,
    /// the text the plugin has, by view
    plugin: BTreeMap<String, String>,
    server: Server,
    /// hover requests: view, request id, where, in which text
    asked: Vec<(String, u64, usize, String)>,
    /// the answers the plugin gave: view, request id, result
    shown: Vec<(String, u64, Value)>,
    meanwhile: bool,
    fail: Option<String>,
    last_request: u64,
}

thread_local! {
    static WORLD: RefCell<Option<World>> = const { RefCell::new(None) };
    static DISP: RefCell<Option<(Dispatcher<'static, LspPlugin>, RpcCtx)>> = const { RefCell::new(None) };
}

fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    WORLD.with(|w| f(w.borrow_mut().as_mut().expect("ENGINE: no world")))
}

const ACK: &str = "(answer)";

impl World {
    fn fail(&mut self, e: String) {
        if self.fail.is_none() {
            self.fail = Some(e);
        }
    }
    fn collect(&mut self) {
        for (m, p) in self.fp.take_log() {
            if m == "update" {
                let id = p["view_id"].as_str().unwrap().to_string();
                let t = self.c.text(&id);
                self.texts.insert((id, p["rev"].as_u64().unwrap()), t);
            }
            if m == "new_buffer" {
                for b in p["buffer_info"].as_array().unwrap() {
                    let id = b["views"][0].as_str().unwrap().to_string();
                    let t = self.c.text(&id);
                    self.texts.insert((id, b["rev"].as_u64().unwrap()), t);
                }
            }
            self.inbox.push_back((m, p));
        }
    }
    /// The core gets everything the plugin has sent.
    fn hear(&mut self) -> Res {
        loop {
            let m = self.peer.0.lock().unwrap().sent.pop_front();
            let (method, params) = match m {
                Some(m) => m,
                None => return Ok(()),
            };
            if method == ACK {
                let (q, cb) = self.fp.peer.0.lock().unwrap().callbacks.remove(0);
                assert_eq!(q["rev"], params["rev"], "ENGINE: answers another update");
                cb.call(Ok(params["result"].clone()));
            } else {
                if std::env::var("CONV").is_ok() {
                    eprintln!("   plugin to core: {} {}", method, params);
                }
                if method == "show_hover" {
                    self.shown.push((params["view_id"].as_str().unwrap().into(), params["request_id"].as_u64().unwrap(), params["result"].clone()));
                }
                let n = serde_json::from_value(json!({"method": method, "params": params}))
                    .map_err(|e| format!("the core does not understand {} {}: {}", method, params, e))?;
                self.fp.weak.handle_notification(&self.fp.ctx, n);
            }
            self.c.settle();
            let c = &mut self.c;
            for d in self.docs.iter_mut().flatten() {
                d.v.sync(c)?;
            }
            self.collect();
        }
    }
    fn answer(&mut self, method: &str, params: &Value) -> Result<Value, Error> {
        if let Err(e) = self.hear() {
            self.fail(e);
        }
        match serde_json::from_value(json!({"method": method, "params": params})) {
            Ok(n) => self.fp.weak.handle_request(&self.fp.ctx, n).map_err(Error::RemoteError),
            Err(e) => {
                self.fail(format!("the core does not understand {} {}: {}", method, params, e));
                Err(Error::InvalidResponse)
            }
        }
    }
}

fn failed() -> Res {
    match with(|w| w.fail.take()) {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

fn disp<R>(f: impl FnOnce(&mut Dispatcher<'static, LspPlugin>, &RpcCtx) -> R) -> R {
    let (mut d, ctx) = DISP.with(|d| d.borrow_mut().take()).expect("ENGINE: no dispatcher");
    let r = f(&mut d, &ctx);
    DISP.with(|k| *k.borrow_mut() = Some((d, ctx)));
    r
}

/// What follows every step: the server reads what it was sent, the core too.
fn after() -> Res {
    failed()?;
    with(|w| {
        w.server.started += verif::STARTED.with(|s| s.borrow().len().saturating_sub(w.server.started));
        ensure!(w.server.started <= 1, "a second server was started for the same language");
        let before = w.server.hovers.len();
        w.server.take()?;
        for k in before..w.server.hovers.len() {
            let (uri, pos, _) = w.server.hovers[k].clone();
            // the request this one stands for is the latest the plugin was handed
            let (view, _, at, text) = w.asked.last().cloned().ok_or("a hover request out of nowhere")?;
            let want = w.docs.iter().flatten().find(|d| d.v.id == view).map(|d| d.uri.clone());
            if let Some(want) = want {
                ensure_eq!(uri, want, "document of the hover request");
            }
            ensure_eq!(pos, position_of(&text, at), "position of the hover request at {} in {:?}", at, text);
        }
        w.hear()
    })
}

fn deliver_one() -> Result<bool, String> {
    let (m, p) = match with(|w| w.inbox.pop_front()) {
        Some(x) => x,
        None => return Ok(false),
    };
    let msg = json!({"method": m, "params": p});
    if std::env::var("CONV").is_ok() {
        eprintln!("   core to plugin: {}", msg);
    }
    if m == "update" {
        let r: HostRequest = serde_json::from_value(msg.clone()).map_err(|e| format!("the plugin does not understand {}: {}", msg, e))?;
        with(|w| {
            let id = p["view_id"].as_str().unwrap().to_string();
            let t = w.texts[&(id.clone(), p["rev"].as_u64().unwrap())].clone();
            w.plugin.insert(id, t);
        });
        let ok = disp(|d, ctx| d.handle_request(ctx, r)).map_err(|e| format!("the plugin answered {} with {:?}", msg, e))?;
        with(|w| w.peer.0.lock().unwrap().sent.push_back((ACK.into(), json!({"rev": p["rev"], "result": ok}))));
    } else {
        if m == "new_buffer" {
            with(|w| {
                for b in p["buffer_info"].as_array().unwrap() {
                    let id = b["views"][0].as_str().unwrap().to_string();
                    let t = w.texts[&(id.clone(), b["rev"].as_u64().unwrap())].clone();
                    w.plugin.insert(id, t);
                }
            });
        }
        if m == "get_hover" {
            with(|w| {
                let id = p["view_id"].as_str().unwrap().to_string();
                let t = w.plugin[&id].clone();
                w.asked.push((id, p["request_id"].as_u64().unwrap(), p["position"].as_u64().unwrap() as usize, t));
            });
        }
        let n: HostNotification = serde_json::from_value(msg.clone()).map_err(|e| format!("the plugin does not understand {}: {}", msg, e))?;
        disp(|d, ctx| d.handle_notification(ctx, n));
    }
    with(|w| w.meanwhile = false);
    after()?;
    Ok(true)
}

/// The plugin gets one of the server's answers.
fn reply(k: usize) -> Result<bool, String> {
    let m = match with(|w| w.server.replies.remove(k)) {
        Some(m) => m,
        None => return Ok(false),
    };
    if m["result"]["capabilities"].is_object() {
        with(|w| w.server.ready = true);
    }
    hand(&m.to_string());
    Ok(true)
}

fn hand(m: &str) {
    if std::env::var("CONV").is_ok() {
        eprintln!("   server to plugin: {}", m);
    }
    let c = verif::STARTED.with(|s| s.borrow().first().cloned());
    if let Some(c) = c {
        c.lock().unwrap().handle_message(m);
    }
}

fn idle_one() -> Result<bool, String> {
    let t = with(|w| w.peer.0.lock().unwrap().idle.pop_front());
    match t {
        Some(t) => {
            disp(|d, ctx| d.idle(ctx, t));
            after()?;
            Ok(true)
        }
        None => Ok(false),
    }
}

/// The server answers the hover request `k` it has not answered yet.
fn serve(k: usize, how: usize) {
    with(|w| {
        let (uri, pos, id) = w.server.hovers.remove(k);
        let text = &w.server.docs.get(&uri).map(|d| d.1.clone()).unwrap_or_default();
        let contents = json!(format!("{} {}", uri, id));
        let mut r = json!({"jsonrpc": "2.0", "id": id});
        match how {
            0 => r["result"] = json!({"contents": contents}),
            1 => r["result"] = json!({"contents": [contents, {"language": "x", "value": "y"}], "range": {"start": pos, "end": position_of(text, text.len())}}),
            2 => r["result"] = Value::Null,
            3 => r["error"] = json!({"code": -32603, "message": "no"}),
            _ => r["result"] = json!({"contents": {"kind": "markdown", "value": contents}}),
        }
        w.server.replies.push_back(r);
    })
}

fn drain() -> Res {
    let mut n = 0;
    loop {
        let mut any = false;
        while deliver_one()? {
            any = true;
        }
        if with(|w| w.server.replies.is_empty()) && with(|w| !w.server.hovers.is_empty()) {
            serve(0, 0);
        }
        if reply(0)? {
            after()?;
            any = true;
        } else if idle_one()? {
            any = true;
        }
        if !any {
            return Ok(());
        }
        n += 1;
        ensure!(n < 500, "the core, the plugin and the server never come to rest");
    }
}

fn world(sync: i64, f: impl FnOnce() -> Res) -> Res {
    world_of("x", sync, f)
}

fn world_of(lang: &str, sync: i64, f: impl FnOnce() -> Res) -> Res {
    let peer = LibPeer::default();
    let ctx = RpcCtx::for_verif(peer.box_clone());
    let config = json!({"language_config": {lang: {"language_name": "X", "start_command": "/nonexistent", "start_arguments": [],
        "extensions": ["x"], "supports_single_file": true, "workspace_identifier": null}}});
    let plugin: *mut LspPlugin = Box::into_raw(Box::new(LspPlugin::new(serde_json::from_value(config).unwrap())));
    let mut d = xi_plugin_lib::verif::dispatcher(unsafe { &mut *plugin });
    let mut c = Core::new(json!({}));
    c.settle();
    let fp = c.connect_plugin("p", 1);
    c.settle();
    c.take_log();
    for (m, p) in fp.peer.0.lock().unwrap().log.drain(..) {
        let n: HostNotification = serde_json::from_value(json!({"method": m, "params": p})).expect("ENGINE: initialize");
        d.handle_notification(&ctx, n);
    }
    let server = Server { sync, ..Default::default() };
    let pipe = server.pipe.clone();
    verif::STARTED.with(|s| s.borrow_mut().clear());
    verif::START.with(|s| *s.borrow_mut() = Some(Box::new(move |_| Box::new(pipe.clone()))));
    let w = World {
        c,
        fp,
        peer,
        docs: vec![],
        inbox: VecDeque::new(),
        texts: BTreeMap::new(),
        plugin: BTreeMap::new(),
        server,
        asked: vec![],
        shown: vec![],
        meanwhile: false,
        fail: None,
        last_request: 0,
    };
    WORLD.with(|k| *k.borrow_mut() = Some(w));
    DISP.with(|k| *k.borrow_mut() = Some((d, ctx)));
    let r = f();
    DISP.with(|k| *k.borrow_mut() = None);
    WORLD.with(|k| *k.borrow_mut() = None);
    verif::STARTED.with(|s| s.borrow_mut().clear());
    drop(unsafe { Box::from_raw(plugin) });
    r
}

fn open(name: &str, text: &str) -> Res {
    let dir = format!("{}/{:?}", scratch(), std::thread::current().id()).replace(&['(', ')'][..], "");
    std::fs::create_dir_all(&dir).expect("ENGINE: scratch directory");
    let path = format!("{}/{}", dir, name);
    std::fs::write(&path, text).expect("ENGINE: scratch file");
    with(|w| {
        let v = V::open_file(&mut w.c, &path)?;
        let uri = format!("file://{}", path);
        w.docs.push(Some(Doc { v, uri, path }));
        w.collect();
        Ok(())
    })
}

#[derive(Clone, Debug)]
enum User {
    /// replaces a range (or several of the same length) by a text
    Put(Vec<(usize, usize)>, &'static str),
    Undo,
    Redo,
    Transpose,
    Hover(usize),
    Save,
    Close,
}

fn user(k: usize, u: &User) -> Res {
    with(|w| {
        let mut d = w.docs[k].take().unwrap();
        let text = d.v.text(&mut w.c);
        let c = &mut w.c;
        match u {
            User::Put(regs, s) => {
                d.v.select(c, &text, regs)?;
                if s.is_empty() {
                    d.v.cmd(c, "delete_backward", Value::Null)?;
                } else {
                    d.v.cmd(c, "insert", json!({ "chars": s }))?;
                }
                let mut want = text.clone();
                for (a, b) in regs.iter().rev() {
                    want.replace_range(a..b, s);
                }
                ensure_eq!(d.v.text(c), want, "text after {:?}", u);
            }
            User::Undo => d.v.cmd(c, "undo", Value::Null)?,
            User::Redo => d.v.cmd(c, "redo", Value::Null)?,
            User::Transpose => d.v.cmd(c, "transpose", Value::Null)?,
            User::Hover(at) => {
                let (l, col) = line_col(&text, *at);
                w.last_request += 1;
                let r = w.last_request;
                let id = d.v.id.clone();
                c.edit(&id, "request_hover", json!({"request_id": r, "position": {"line": l, "column": col}}));
                d.v.sync(c)?;
            }
            User::Save => {
                let id = d.v.id.clone();
                let path = d.path.clone();
                c.notify("save", json!({"view_id": id, "file_path": path}));
                c.settle();
                d.v.sync(c)?;
            }
            User::Close => {
                d.v.close(c);
                w.collect();
                return Ok(());
            }
        }
        w.docs[k] = Some(d);
        w.collect();
        Ok(())
    })
}

/// With everything delivered: the server's documents are the core's.
fn same() -> Res {
    with(|w| {
        let mut n = 0;
        let c = &mut w.c;
        for d in w.docs.iter().flatten() {
            n += 1;
            let t = d.v.text(c);
            let (_, s) = w.server.docs.get(&d.uri).ok_or_else(|| format!("{} is open, but not at the server", d.uri))?;
            if w.server.sync != 0 {
                ensure_eq!(s, &t, "the server's text");
            }
        }
        ensure_eq!(w.server.docs.len(), n, "number of documents open at the server");
        Ok(())
    })
}

/// Every hover request was answered, once, with its own answer.
fn answered(all: bool) -> Res {
    with(|w| {
        let mut ids: Vec<u64> = w.shown.iter().map(|s| s.1).collect();
        ids.sort();
        let n = ids.len();
        ids.dedup();
        ensure_eq!(ids.len(), n, "answers to hover requests: some were answered twice");
        for (view, id, _) in &w.shown {
            let a = w.asked.iter().find(|a| a.1 == *id).ok_or("an answer to nothing")?;
            ensure_eq!(&a.0, view, "view of the answer to request {}", id);
        }
        if all {
            for a in &w.asked {
                if w.docs.iter().flatten().any(|d| d.v.id == a.0) {
                    ensure!(w.shown.iter().any(|s| s.1 == a.1), "request {} was never answered", a.1);
                }
            }
        }
        Ok(())
    })
}

fn edits(text: &str) -> Vec<User> {
    let mut v = vec![];
    // not between the two characters of a line end
    let cs: Vec<usize> = text.char_indices().map(|x| x.0).chain([text.len()]).filter(|i| !(text[..*i].ends_with('\r') && text[*i..].starts_with('\n'))).collect();
    for (i, &a) in cs.iter().enumerate() {
        for s in ["x", "😀", "\n", "é\ny"] {
            v.push(User::Put(vec![(a, a)], s));
        }
        for &b in &cs[i + 1..] {
            v.push(User::Put(vec![(a, b)], ""));
            v.push(User::Put(vec![(a, b)], "z\n"));
        }
    }
    if cs.len() > 2 {
        v.push(User::Put(vec![(0, 0), (text.len(), text.len())], "p"));
        v.push(User::Put(vec![(0, cs[1]), (cs[cs.len() - 2], text.len())], ""));
    }
    v.push(User::Undo);
    v.push(User::Redo);
    v
}

/// Edits of each kind at each place.
fn places(ch: &mut Ch, texts: &[&'static str], n: usize) -> Res {
    let text = *ch.of(texts);
    let sync = 2 - ch.pick(2) as i64;
    ch.log(|| format!("{:?}, kind {}", text, sync));
    world(sync, || {
        open("a.x", text)?;
        drain()?;
        same()?;
        for _ in 0..n {
            let t = with(|w| {
                let d = w.docs[0].as_ref().unwrap();
                d.v.text(&mut w.c)
            });
            let us = edits(&t);
            let u = ch.of(&us).clone();
            ch.step();
            let tell = ch.flip();
            ch.log(|| format!("{:?} of {:?}{}", u, t, if tell { ", delivered" } else { "" }));
            user(0, &u)?;
            if tell {
                drain()?;
                same()?;
            }
        }
        drain()?;
        ch.nontrivial();
        let t = with(|w| w.server.docs.values().next().map(|d| d.1.clone()));
        ch.state(&t);
        same()
    })
}

/// Every order of what can happen.
fn orders(ch: &mut Ch, sync: i64, two: bool, quiet: bool, steps: usize, most: usize, ops: fn(&str) -> Vec<User>) -> Res {
    world(sync, || {
        open("a.x", "ab\n😀c")?;
        if two {
            open("b.x", "q")?;
        }
        if quiet {
            drain()?;
            same()?;
        }
        let mut users = 0;
        for _ in 0..steps {
            let (inbox, replies, hovers, idle) = with(|w| (w.inbox.len(), w.server.replies.len(), w.server.hovers.len(), w.peer.0.lock().unwrap().idle.len()));
            let mut acts: Vec<(&str, usize)> = vec![];
            if users < most {
                for k in 0..with(|w| w.docs.len()) {
                    if with(|w| w.docs[k].is_some()) {
                        acts.push(("user", k));
                    }
                }
            }
            if inbox > 0 {
                acts.push(("deliver", 0));
                if replies > 0 {
                    acts.push(("deliver, the server answers meanwhile", 0));
                }
            }
            for k in 0..hovers {
                acts.push(("serve", k));
            }
            if replies > 0 {
                acts.push(("reply", 0));
            }
            if idle > 0 {
                acts.push(("idle", 0));
            }
            if acts.is_empty() {
                break;
            }
            let (a, k) = *ch.of(&acts);
            ch.step();
            match a {
                "user" => {
                    users += 1;
                    let t = with(|w| {
                        let d = w.docs[k].as_ref().unwrap();
                        d.v.text(&mut w.c)
                    });
                    let u = ch.of(&ops(&t)).clone();
                    ch.log(|| format!("{:?} in document {} {:?}", u, k, t));
                    user(k, &u)?;
                }
                "serve" => {
                    let how = ch.pick(3);
                    ch.log(|| format!("the server answers hover request {} in way {}", k, how));
                    serve(k, how);
                }
                "reply" => {
                    ch.log(|| "an answer of the server arrives".into());
                    reply(0)?;
                    after()?;
                }
                "idle" => {
                    ch.log(|| "idle".into());
                    idle_one()?;
                }
                _ => {
                    ch.log(|| a.into());
                    with(|w| w.meanwhile = a != "deliver");
                    deliver_one()?;
                }
            }
            answered(false)?;
        }
        drain()?;
        let (asked, ready) = with(|w| (w.asked.clone(), w.server.ready));
        ch.state(&format!("{:?}", asked));
        ensure!(ready || with(|w| w.server.started == 0), "the server was never initialised");
        ch.nontrivial();
        same()?;
        answered(true)
    })
}

fn few(t: &str) -> Vec<User> {
    let n = t.len();
    let mut v = vec![User::Put(vec![(n, n)], "é\n"), User::Hover(n), User::Save, User::Close];
    if n > 1 {
        v.push(User::Put(vec![(0, 1)], ""));
    }
    v
}

fn hovering(t: &str) -> Vec<User> {
    vec![User::Hover(t.len()), User::Put(vec![(0, 0)], "\n"), User::Close]
}

// ------------------------------------------------------------------ answers

/// One hover request answered in each way; what is shown is what the server said, where it said it.
fn hover(ch: &mut Ch, texts: &[&'static str]) -> Res {
    let text = *ch.of(texts);
    let cs: Vec<usize> = text.char_indices().map(|x| x.0).chain([text.len()]).filter(|i| !(text[..*i].ends_with('\r') && text[*i..].starts_with('\n'))).collect();
    let at = *ch.of(&cs);
    let a = *ch.of(&cs);
    let b = *ch.of(&cs);
    let form = ch.pick(6);
    ch.step();
    ch.log(|| format!("hover at {} of {:?}, form {}, range {}..{}", at, text, form, a, b));
    let (contents, want) = match form {
        0 => (json!("plain"), Some("plain")),
        1 => (json!({"language": "rust", "value": "fn"}), Some("```rust\nfn\n```")),
        2 => (json!(["one", {"language": "l", "value": "v"}, "two"]), Some("one\n```l\nv\n```\ntwo")),
        3 => (json!({"kind": "markdown", "value": "*m*"}), Some("*m*")),
        4 => (json!([]), None),
        _ => (json!(""), None),
    };
    world(2, || {
        open("a.x", text)?;
        drain()?;
        user(0, &User::Hover(at))?;
        while deliver_one()? {}
        let (uri, pos, id) = with(|w| w.server.hovers.pop()).ok_or("the server was not asked")?;
        ensure_eq!(pos, position_of(text, at), "position");
        ensure_eq!(uri, with(|w| w.docs[0].as_ref().unwrap().uri.clone()), "document");
        hand(&json!({"jsonrpc": "2.0", "id": id, "result": {"contents": contents, "range": {"start": position_of(text, a), "end": position_of(text, b)}}}).to_string());
        let mut shown = vec![];
        while idle_one()? {}
        with(|w| {
            shown = std::mem::take(&mut w.shown);
            Ok::<(), String>(())
        })?;
        ensure_eq!(shown.len(), 1, "number of answers");
        let r = &shown[0].2;
        match want {
            Some(t) => {
                ensure_eq!(r["Ok"]["content"], json!(t), "what is shown");
                ensure_eq!(r["Ok"]["range"], json!({"start": a, "end": b}), "the range shown");
            }
            None => ensure!(!r["Err"].is_null(), "nothing to show was shown as {}", r),
        }
        ch.nontrivial();
        Ok(())
    })
}

/// A server that says something else than it should, at some moment; afterwards all is as before.
fn nonsense(ch: &mut Ch) -> Res {
    let msgs = [
        "",
        "{",
        "[]",
        "null",
        r#"{"jsonrpc":"2.0","id":77,"result":null}"#,
        r#"{"jsonrpc":"2.0","id":"77","result":null}"#,
        r#"{"jsonrpc":"2.0","id":"x","result":null}"#,
        r#"{"jsonrpc":"2.0","id":null,"result":null}"#,
        r#"{"jsonrpc":"2.0","id":-1,"result":null}"#,
        r#"{"jsonrpc":"2.0","id":77,"error":{"code":1,"message":"m"}}"#,
        r#"{"jsonrpc":"2.0","id":null,"error":{"code":1,"message":"m"}}"#,
        r#"{"jsonrpc":"2.0","id":5,"method":"client/registerCapability","params":{"registrations":[]}}"#,
        r#"{"jsonrpc":"2.0","id":5,"method":"workspace/configuration"}"#,
        r#"{"jsonrpc":"2.0","method":"window/showMessage"}"#,
        r#"{"jsonrpc":"2.0","method":"window/progress"}"#,
        r#"{"jsonrpc":"2.0","method":"window/progress","params":{}}"#,
        r#"{"jsonrpc":"2.0","method":"window/progress","params":{"id":5}}"#,
        r#"{"jsonrpc":"2.0","method":"window/progress","params":{"id":"i","percentage":"x"}}"#,
        r#"{"jsonrpc":"2.0","method":"window/progress","params":[]}"#,
        r#"{"jsonrpc":"2.0","method":"unknown","params":{}}"#,
        r#"{"jsonrpc":"2.0","method":5,"params":{}}"#,
    ];
    let when = ch.pick(4);
    let lang = ch.flip();
    let m = ch.pick(msgs.len() + 6);
    ch.step();
    let show = || if m < msgs.len() { msgs[m].to_string() } else { format!("answer {} that does not fit", m - msgs.len()) };
    ch.log(|| format!("{} at moment {}, {}", show(), when, if lang { "as Rust" } else { "" }));
    // Rust is the only language with messages of its own
    world_of(if lang { "rust" } else { "x" }, 2, || {
        open("a.x", "ab")?;
        while deliver_one()? {}
        let odd = |id: Value| -> String {
            let mut r = json!({"jsonrpc": "2.0", "id": id});
            match m - msgs.len() {
                0 => r["result"] = json!(5),
                1 => r["result"] = json!({"contents": 5}),
                2 => r["result"] = json!({"capabilities": 5}),
                3 => r["result"] = json!({"contents": "c", "range": {"start": {"line": 99, "character": 0}, "end": {"line": 99, "character": 9}}}),
                4 => r["error"] = json!({"code": 1, "message": "m"}),
                _ => r["result"] = json!([]),
            }
            r.to_string()
        };
        if when == 0 {
            if m < msgs.len() {
                hand(msgs[m]);
            } else {
                // initialising fails; the editor must go on, without the server
                let r = with(|w| w.server.replies.pop_front()).ok_or("the server was not initialised")?;
                hand(&odd(r["id"].clone()));
                for u in [User::Put(vec![(0, 1)], "x"), User::Hover(0), User::Save, User::Close] {
                    with(|w| w.server.ready = true);
                    user(0, &u)?;
                    while deliver_one()? {}
                    while idle_one()? {}
                }
                ch.nontrivial();
                return answered(true);
            }
        }
        drain()?;
        if when == 1 && m < msgs.len() {
            hand(msgs[m]);
        }
        user(0, &User::Put(vec![(1, 1)], "x"))?;
        drain()?;
        user(0, &User::Hover(1))?;
        while deliver_one()? {}
        if when == 2 {
            if m < msgs.len() {
                hand(msgs[m]);
            } else {
                let (_, _, id) = with(|w| w.server.hovers.pop()).ok_or("the server was not asked")?;
                hand(&odd(id));
            }
        }
        drain()?;
        if when == 3 && m < msgs.len() {
            hand(msgs[m]);
            hand(msgs[m]);
        }
        user(0, &User::Put(vec![(1, 2)], ""))?;
        user(0, &User::Hover(2))?;
        drain()?;
        same()?;
        answered(true)?;
        let last = with(|w| w.shown.last().cloned()).ok_or("no answer")?;
        ensure!(last.2["Ok"]["content"].is_string(), "the answer that followed is {}", last.2);
        ch.nontrivial();
        Ok(())
    })
}

/// The server goes away; the plugin stays.
fn gone(ch: &mut Ch) -> Res {
    let when = ch.pick(4);
    let mut us = vec![];
    for _ in 0..3 {
        us.push(ch.pick(4));
    }
    ch.step();
    ch.log(|| format!("gone at {}, then {:?}", when, us));
    world(2, || {
        if when == 3 {
            verif::START.with(|s| *s.borrow_mut() = None);
        }
        if when == 0 {
            with(|w| *w.server.pipe.1.lock().unwrap() = true);
        }
        open("a.x", "ab")?;
        if when == 1 {
            while deliver_one()? {}
        } else {
            drain()?;
        }
        with(|w| *w.server.pipe.1.lock().unwrap() = true);
        for u in &us {
            if with(|w| w.docs[0].is_some()) {
                user(0, &[User::Put(vec![(0, 0)], "x"), User::Hover(0), User::Save, User::Close][*u])?;
                while deliver_one()? {}
                while idle_one()? {}
            }
        }
        ch.nontrivial();
        Ok(())
    })
}

// ------------------------------------------------------------------ framing

/// A reader that hands out the bytes in the pieces the explorer chose.
struct Pieces {
    data: Vec<u8>,
    at: usize,
    cuts: Vec<usize>,
}

impl std::io::Read for Pieces {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let end = self.cuts.iter().cloned().find(|c| *c > self.at).unwrap_or(self.data.len());
        let n = (end - self.at).min(b.len());
        b[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}

fn frame(ch: &mut Ch, n: usize) -> Res {
    let bodies = ["", "{}", "é\r\n\r\n😀", "Content-Length: 3\r\n\r\n"];
    let mut data = vec![];
    let mut want = vec![];
    let mut ends = vec![];
    for _ in 0..n {
        let b = *ch.of(&bodies);
        let len = format!("Content-Length: {}\r\n", b.len());
        let head = match ch.pick(4) {
            0 => len,
            1 => format!("{}Content-Type: application/vscode-jsonrpc; charset=utf-8\r\n", len),
            2 => format!("Content-Type: application/vscode-jsonrpc; charset=utf-8\r\n{}", len),
            _ => len.to_uppercase(),
        };
        data.extend_from_slice(head.as_bytes());
        data.extend_from_slice(b"\r\n");
        data.extend_from_slice(b.as_bytes());
        want.push(b.to_string());
        ends.push(data.len());
    }
    let all = data.clone();
    let a = 1 + ch.pick(data.len());
    let b = if n > 1 { data.len() } else { 1 + ch.pick(data.len()) };
    ch.step();
    ch.log(|| format!("{:?} cut at {} and {}", String::from_utf8_lossy(&data), a, b));
    let total = data.len();
    let mut r = std::io::BufReader::new(Pieces { data, at: 0, cuts: vec![a.min(b), a.max(b)] });
    for w in &want {
        let got = parse_helper::read_message(&mut r).map_err(|e| format!("read_message failed: {:?}", e))?;
        ensure_eq!(&got, w, "the message");
    }
    let gone = |r: Result<String, ParseError>| matches!(r, Err(ParseError::Io(_)));
    ensure!(gone(parse_helper::read_message(&mut r)), "the end of the stream is not reported as such");
    // as many as are complete, then the end
    let mut r = std::io::BufReader::new(&all[..b.min(total - 1)]);
    let mut k = 0;
    for w in &want {
        let got = parse_helper::read_message(&mut r);
        if ends[k] <= b.min(total - 1) {
            ensure_eq!(got.as_ref().ok(), Some(w), "a complete message of a stream that ends at {}", b);
            k += 1;
        } else {
            if w.is_empty() {
                break;
            }
            // the part of a header may be found wrong first
            ensure!(got.is_err(), "an incomplete message of a stream that ends at {} is taken for {:?}", b, got);
            ensure!(gone(got) || gone(parse_helper::read_message(&mut r)), "the end of the stream is not reported as such");
            break;
        }
    }
    ch.state(&total);
    ch.nontrivial();
    Ok(())
}

pub fn run() -> ! {
    let th = is_thorough();
    let x = if th { 1 } else { 0 };
    let s = vec![
        section("places", "4 (thorough: 5) texts with line ends, surrogate pairs and accents; 2 edits of each kind at each place, delivered or not in between; servers that want parts or whole texts", move |ch| places(ch, if th { &["", "a", "a\n", "é😀\nb", "a\r\nb"] } else { &["", "a\n", "😀\nb", "\r\nb"] }, 2)),
        section("orders", "a document, a server of each kind; every order of 6 (thorough: 8) of: up to 3 user actions, messages, answers of the server, idle work", move |ch| {
            let sync = ch.pick(3) as i64;
            orders(ch, sync, false, true, 6 + 2 * x, 3, few)
        }),
        section("start", "the same from the moment the document is opened, 7 (8) steps", move |ch| {
            let sync = ch.pick(3) as i64;
            orders(ch, sync, false, false, 7 + x, 2, few)
        }),
        section("two documents", "two documents, every order of 6 (8) steps with up to 3 hover requests, edits and closings", move |ch| orders(ch, 2, true, true, 6 + 2 * x, 3, hovering)),
        section("two at start", "the same from the moment the documents are opened, 8 (9) steps", move |ch| orders(ch, 2, true, false, 8 + x, 2, hovering)),
        section("hover", "a hover request at each place of 4 texts, answered in 6 forms with each range", move |ch| hover(ch, &["", "a\n", "é😀\nb", "a\r\nb"])),
        section("nonsense", "27 messages and answers that make no sense, at 4 moments", nonsense),
        section("gone", "the server goes away at 3 moments or is not installed, 3 user actions of each kind follow", gone),
        section("frames", "1..2 messages with each header, each body, each way to cut the stream", move |ch| {
            let n = 1 + ch.pick(2);
            frame(ch, n)
        }),
    ];
    mccommon::run(
        Opts { property: "C34".into(), level: "model_checking".into(), assumptions: vec!["the server places a position past the end of a line at the start of the next, as the reference implementation does".into()], single_thread: false },
        s,
    )
}
