//! C33: a plugin that is built on the plugin library, and the core it talks to.
//!
//! Both sides are the real ones: the core, and the library's dispatcher with a plugin that highlights step by step
//! (the way the syntax highlighter does) or answers to what is typed. The harness is the pipe between them, and
//! decides when which message arrives, what the user does in between, and even while the plugin waits for an answer.
use crate::drv::{Core, FakePeer, FakePlugin};
use crate::model::*;
use crate::stylemod::{attrs, default_attrs, STACKS};
use mccommon::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::path::Path;
use std::sync::{Arc, Mutex};
use std::time::Instant;
use xi_core_lib::plugin_rpc::{HostNotification, HostRequest, ScopeSpan};
use xi_core_lib::{ConfigTable, LanguageId};
use xi_plugin_lib::verif::Dispatcher;
use xi_plugin_lib::{Cache, CoreProxy, Plugin, StateCache, View};
use xi_rope::{DeltaBuilder, Interval, Rope, RopeDelta};
use xi_rpc::{Callback, Error, Handler, Peer, RpcCtx};

/// What the plugin has to send, and the idle callbacks it asked for.
#[derive(Default)]
struct Out {
    sent: VecDeque<(String, Value)>,
    idle: VecDeque<usize>,
}

#[derive(Clone, Default)]
struct LibPeer(Arc<Mutex<Out>>);

impl Peer for LibPeer {
    fn box_clone(&self) -> Box<dyn Peer> {
        Box::new(self.clone())
    }
    fn send_rpc_notification(&self, method: &str, params: &Value) {
        self.0.lock().unwrap().sent.push_back((method.to_string(), params.clone()));
    }
    fn send_rpc_request_async(&self, _: &str, _: &Value, _: Box<dyn Callback>) {
        panic!("the plugin library makes no asynchronous requests");
    }
    fn send_rpc_request(&self, method: &str, params: &Value) -> Result<Value, Error> {
        with(|w| w.answer(method, params))
    }
    fn request_is_pending(&self) -> bool {
        with(|w| w.pending && !w.inbox.is_empty())
    }
    fn schedule_idle(&self, token: usize) {
        self.0.lock().unwrap().idle.push_back(token);
    }
    fn schedule_timer(&self, _: Instant, _: usize) {
        panic!("the plugin library sets no timers");
    }
}

#[derive(Clone, Debug)]
enum User {
    Insert(usize, &'static str),
    Delete(usize, usize),
    Undo,
    Redo,
}

/// Everything but the dispatcher, which calls back into this.
struct World {
    c: Core,
    fp: FakePlugin,
    peer: LibPeer,
    v: Option<V>,
    /// messages from the core that the plugin has not seen yet
    inbox: VecDeque<(String, Value)>,
    texts: BTreeMap<u64, String>,
    /// what the user does while the plugin waits for an answer
    inject: Option<User>,
    /// whether the plugin is told that messages are waiting
    pending: bool,
    fail: Option<String>,
}

thread_local! {
    static WORLD: RefCell<Option<World>> = const { RefCell::new(None) };
    static DISP: RefCell<Option<(Dispatcher<'static, Hl>, RpcCtx)>> = const { RefCell::new(None) };
}

fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    WORLD.with(|w| f(w.borrow_mut().as_mut().expect("ENGINE: no world")))
}

/// Stands for the answer to an update.
const ACK: &str = "(answer)";

impl World {
    fn fail(&mut self, e: String) {
        if self.fail.is_none() {
            self.fail = Some(e);
        }
    }
    fn view(&self) -> String {
        self.v.as_ref().unwrap().id.clone()
    }
    fn text(&mut self) -> String {
        let id = self.view();
        self.c.text(&id)
    }
    /// Takes what the core has sent to the plugin.
    fn collect(&mut self) {
        if self.v.is_none() {
            return;
        }
        let id = self.view();
        for (m, p) in self.fp.take_log() {
            if m == "update" && p["view_id"] == id.as_str() {
                let t = self.text();
                self.texts.insert(p["rev"].as_u64().unwrap(), t);
            }
            if m == "new_buffer" {
                for b in p["buffer_info"].as_array().unwrap() {
                    if b["views"][0] == id.as_str() {
                        let t = self.text();
                        self.texts.insert(b["rev"].as_u64().unwrap(), t);
                    }
                }
            }
            self.inbox.push_back((m, p));
        }
    }
    fn user(&mut self, u: &User) -> Res {
        let mut v = self.v.take().unwrap();
        let r = (|| {
            let text = v.text(&mut self.c);
            match u {
                User::Insert(a, s) => {
                    v.select(&mut self.c, &text, &[(*a, *a)])?;
                    v.cmd(&mut self.c, "insert", json!({ "chars": s }))?;
                    ensure_eq!(v.text(&mut self.c), format!("{}{}{}", &text[..*a], s, &text[*a..]), "text after an insertion");
                }
                User::Delete(a, b) => {
                    v.select(&mut self.c, &text, &[(*a, *b)])?;
                    v.cmd(&mut self.c, "delete_backward", Value::Null)?;
                    ensure_eq!(v.text(&mut self.c), format!("{}{}", &text[..*a], &text[*b..]), "text after a deletion");
                }
                User::Undo => v.cmd(&mut self.c, "undo", Value::Null)?,
                User::Redo => v.cmd(&mut self.c, "redo", Value::Null)?,
            }
            Ok(())
        })();
        self.v = Some(v);
        self.collect();
        r
    }
    /// The core gets the oldest message of the plugin.
    fn hear_one(&mut self) -> Result<bool, String> {
        let m = self.peer.0.lock().unwrap().sent.pop_front();
        let (method, params) = match m {
            Some(m) => m,
            None => return Ok(false),
        };
        if method == ACK {
            let (q, cb) = self.fp.peer.0.lock().unwrap().callbacks.remove(0);
            assert_eq!(q["rev"], params["rev"], "ENGINE: answers another update");
            cb.call(Ok(params["result"].clone()));
            return self.heard();
        }
        if std::env::var("CONV").is_ok() {
            eprintln!("   plugin to core: {} {}", method, params);
        }
        let n = serde_json::from_value(json!({"method": method, "params": params}))
            .map_err(|e| format!("the core does not understand {} {}: {}", method, params, e))?;
        self.fp.weak.handle_notification(&self.fp.ctx, n);
        self.heard()
    }
    fn heard(&mut self) -> Result<bool, String> {
        self.c.settle();
        if let Some(mut v) = self.v.take() {
            let r = v.sync(&mut self.c);
            self.v = Some(v);
            r?;
        }
        self.collect();
        Ok(true)
    }
    fn answer(&mut self, method: &str, params: &Value) -> Result<Value, Error> {
        // what was sent before arrives before
        loop {
            match self.hear_one() {
                Ok(true) => {}
                Ok(false) => break,
                Err(e) => {
                    self.fail(e);
                    break;
                }
            }
        }
        if let Some(u) = self.inject.take() {
            if let Err(e) = self.user(&u) {
                self.fail(e);
            }
        }
        let n = match serde_json::from_value(json!({"method": method, "params": params})) {
            Ok(n) => n,
            Err(e) => {
                self.fail(format!("the core does not understand {} {}: {}", method, params, e));
                return Err(Error::InvalidResponse);
            }
        };
        self.fp.weak.handle_request(&self.fp.ctx, n).map_err(Error::RemoteError)
    }
}

// ------------------------------------------------------------------ the plugin

type Cached = StateCache<Option<u8>>;

#[derive(Default)]
struct State {
    offset: usize,
    start: usize,
    spans: Vec<ScopeSpan>,
    scopes: bool,
}

/// Colours each line by the number of `+` before it; adds `)` to each `(` that is typed.
struct Hl {
    views: BTreeMap<String, State>,
    lines: usize,
}

fn next(state: Option<u8>, line: &str) -> Option<u8> {
    Some(line.chars().fold(state.unwrap_or(0), |s, c| if c == '+' { (s + 1) % 3 } else if c == '0' { 0 } else { s }))
}

/// The scope that goes with a state.
const SCOPES: [usize; 3] = [3, 2, 4];

thread_local! {
    /// lines per idle call; whether `(` is completed, and whether that joins the undo group
    static MODE: RefCell<(usize, bool, bool)> = const { RefCell::new((1, false, true)) };
    static SEEN: RefCell<Vec<Value>> = const { RefCell::new(Vec::new()) };
}

fn id_of<C: Cache>(v: &View<C>) -> String {
    serde_json::to_value(v.get_id()).unwrap().as_str().unwrap().to_string()
}

/// What the view says must be the text of its revision.
fn compare(v: &mut View<Cached>) {
    let (want, mine) = with(|w| (w.texts.get(&v.rev).cloned(), w.v.as_ref().map(|x| x.id.clone())));
    if mine != Some(id_of(v)) {
        return;
    }
    let r = (|| -> Res {
        let want = want.ok_or_else(|| format!("the view has revision {}, which the plugin was never told of", v.rev))?;
        ensure_eq!(v.get_buf_size(), want.len(), "get_buf_size");
        let starts = line_starts(&want);
        for l in 0..starts.len() {
            let w = &want[starts[l]..starts.get(l + 1).cloned().unwrap_or(want.len())];
            ensure_eq!(v.offset_of_line(l).ok(), Some(starts[l]), "offset_of_line({}) of {:?}", l, want);
            ensure_eq!(v.get_line(l).ok(), Some(w), "get_line({}) of {:?}", l, want);
        }
        ensure!(v.get_line(starts.len()).is_err(), "there is no line {} in {:?}", starts.len(), want);
        for o in 0..=want.len() {
            ensure_eq!(v.line_of_offset(o).ok(), starts.iter().rposition(|s| *s <= o), "line_of_offset({}) of {:?}", o, want);
        }
        ensure_eq!(v.get_region(..).ok(), Some(want.as_str()), "get_region(..)");
        ensure_eq!(v.get_document().ok(), Some(want), "get_document");
        Ok(())
    })();
    if let Err(e) = r {
        with(|w| w.fail(e));
    }
}

impl Hl {
    fn flush(&mut self, v: &View<Cached>) {
        let s = self.views.get_mut(&id_of(v)).unwrap();
        if !s.scopes {
            s.scopes = true;
            let all: Vec<Vec<String>> = STACKS.iter().map(|s| s.iter().map(|x| x.to_string()).collect()).collect();
            v.add_scopes(&all);
        }
        if s.start != s.offset {
            v.update_spans(s.start, s.offset - s.start, &s.spans);
            s.spans.clear();
        }
        s.start = s.offset;
    }
    fn one(&mut self, v: &mut View<Cached>) -> bool {
        let id = id_of(v);
        if let Some(front) = v.get_frontier() {
            let (line, offset, state) = v.get_prev(front);
            if offset != self.views[&id].offset {
                self.flush(v);
                let s = self.views.get_mut(&id).unwrap();
                s.offset = offset;
                s.start = offset;
            }
            let s = self.views.get_mut(&id).unwrap();
            let new = match v.get_line(line) {
                Ok("") => None,
                Ok(l) => {
                    s.spans.push(ScopeSpan { start: s.offset - s.start, end: s.offset - s.start + l.len(), scope_id: SCOPES[state.unwrap_or(0) as usize] as u32 });
                    s.offset += l.len();
                    if l.ends_with('\n') {
                        Some(next(state, l))
                    } else {
                        None
                    }
                }
                Err(e) => {
                    with(|w| w.fail(format!("get_line({}) failed: {:?}", line, e)));
                    None
                }
            };
            if let Some(n) = new {
                if v.get(line + 1) != Some(&n) {
                    v.set(line + 1, n);
                    v.update_frontier(line + 1);
                    return true;
                }
            }
            v.close_frontier();
        }
        false
    }
    fn restart(&mut self, v: &mut View<Cached>) {
        let s = self.views.get_mut(&id_of(v)).unwrap();
        s.spans.clear();
        s.offset = 0;
        s.start = 0;
        v.get_cache().clear();
        v.schedule_idle();
    }
}

fn seen(x: Value) {
    SEEN.with(|s| s.borrow_mut().push(x));
}

impl Plugin for Hl {
    type Cache = Cached;
    fn initialize(&mut self, _: CoreProxy) {}
    fn update(&mut self, v: &mut View<Cached>, delta: Option<&RopeDelta>, edit_type: String, author: String) {
        seen(json!({"update": id_of(v), "type": edit_type.as_str(), "author": author.as_str()}));
        let (_, parens, join) = MODE.with(|m| *m.borrow());
        if parens && author == "core" && edit_type == "insert" {
            if let Some(d) = delta {
                for i in d.iter_inserts() {
                    if v.get_region(i.new_offset..i.new_offset + i.len).ok() == Some("(") {
                        let at = i.new_offset + i.len;
                        let mut b = DeltaBuilder::new(v.get_buf_size());
                        b.replace(Interval::new(at, at), Rope::from(")"));
                        v.edit(b.build(), 100, true, !join, "test".into());
                    }
                }
            }
        }
        compare(v);
        v.schedule_idle();
    }
    fn did_save(&mut self, v: &mut View<Cached>, old: Option<&Path>) {
        seen(json!({"did_save": id_of(v), "path": v.get_path(), "old": old}));
    }
    fn did_close(&mut self, v: &View<Cached>) {
        seen(json!({"did_close": id_of(v)}));
        self.views.remove(&id_of(v));
    }
    fn new_view(&mut self, v: &mut View<Cached>) {
        seen(json!({"new_view": id_of(v), "path": v.get_path(), "language": v.get_language_id()}));
        self.views.insert(id_of(v), State::default());
        compare(v);
        self.restart(v);
    }
    fn config_changed(&mut self, v: &mut View<Cached>, changes: &ConfigTable) {
        seen(json!({"config_changed": id_of(v), "changes": changes, "before": v.get_config().tab_size}));
    }
    fn language_changed(&mut self, v: &mut View<Cached>, old: LanguageId) {
        seen(json!({"language_changed": id_of(v), "language": v.get_language_id(), "old": old}));
        self.restart(v);
    }
    fn custom_command(&mut self, v: &mut View<Cached>, method: &str, params: Value) {
        seen(json!({"custom_command": id_of(v), "method": method, "params": params, "tab_size": v.get_config().tab_size}));
    }
    fn idle(&mut self, v: &mut View<Cached>) {
        for _ in 0..self.lines {
            if !self.one(v) {
                self.flush(v);
                return;
            }
            if v.request_is_pending() {
                break;
            }
        }
        self.flush(v);
        v.schedule_idle();
    }
    fn get_hover(&mut self, v: &mut View<Cached>, request_id: usize, position: usize) {
        seen(json!({"get_hover": id_of(v), "request": request_id, "position": position}));
    }
}

// ------------------------------------------------------------------ the pipe

fn disp<R>(f: impl FnOnce(&mut Dispatcher<'static, Hl>, &RpcCtx) -> R) -> R {
    let (mut d, ctx) = DISP.with(|d| d.borrow_mut().take()).expect("ENGINE: no dispatcher");
    let r = f(&mut d, &ctx);
    DISP.with(|k| *k.borrow_mut() = Some((d, ctx)));
    r
}

/// The plugin gets the oldest message of the core.
fn deliver_one() -> Result<bool, String> {
    let (m, p) = match with(|w| w.inbox.pop_front()) {
        Some(x) => x,
        None => return Ok(false),
    };
    let msg = json!({"method": m, "params": p});
    if std::env::var("CONV").is_ok() {
        eprintln!("   core to plugin: {}", msg);
    }
    if m == "update" {
        let r: HostRequest = serde_json::from_value(msg.clone()).map_err(|e| format!("the plugin does not understand {}: {}", msg, e))?;
        // the answer takes its turn behind what was sent before
        let r = disp(|d, ctx| d.handle_request(ctx, r));
        let ok = r.map_err(|e| format!("the plugin answered {} with {:?}", msg, e))?;
        with(|w| w.peer.0.lock().unwrap().sent.push_back((ACK.into(), json!({"rev": p["rev"], "result": ok}))));
    } else {
        let n: HostNotification = serde_json::from_value(msg.clone()).map_err(|e| format!("the plugin does not understand {}: {}", msg, e))?;
        disp(|d, ctx| d.handle_notification(ctx, n));
    }
    failed()?;
    Ok(true)
}

fn failed() -> Res {
    match with(|w| w.fail.take()) {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

fn idle_one() -> Result<bool, String> {
    let t = with(|w| w.peer.0.lock().unwrap().idle.pop_front());
    match t {
        Some(t) => {
            disp(|d, ctx| d.idle(ctx, t));
            failed()?;
            Ok(true)
        }
        None => Ok(false),
    }
}

fn drain() -> Res {
    let mut n = 0;
    loop {
        let mut any = false;
        while deliver_one()? {
            any = true;
        }
        if with(|w| w.hear_one())? {
            any = true;
        } else if idle_one()? {
            any = true;
        }
        if !any {
            return Ok(());
        }
        n += 1;
        ensure!(n < 500, "the core and the plugin never come to rest");
    }
}

fn world(lines: usize, parens: bool, join: bool, f: impl FnOnce() -> Res) -> Res {
    MODE.with(|m| *m.borrow_mut() = (lines, parens, join));
    if DISP.with(|d| d.borrow().is_none()) || WORLD.with(|w| w.borrow().is_none()) {
        let peer = LibPeer::default();
        let ctx = RpcCtx::for_verif(peer.box_clone());
        let plugin: &'static mut Hl = Box::leak(Box::new(Hl { views: BTreeMap::new(), lines: 1 }));
        let mut d = xi_plugin_lib::verif::dispatcher(plugin);
        let mut c = Core::new(json!({}));
        c.settle();
        let fp = c.connect_plugin("p", 1);
        c.settle();
        c.take_log();
        for (m, p) in fp.peer.0.lock().unwrap().log.drain(..) {
            let n: HostNotification = serde_json::from_value(json!({"method": m, "params": p})).expect("ENGINE: initialize");
            d.handle_notification(&ctx, n);
        }
        let w = World { c, fp, peer, v: None, inbox: VecDeque::new(), texts: BTreeMap::new(), inject: None, pending: false, fail: None };
        WORLD.with(|k| *k.borrow_mut() = Some(w));
        DISP.with(|k| *k.borrow_mut() = Some((d, ctx)));
    }
    SEEN.with(|s| s.borrow_mut().clear());
    let r = f();
    if r.is_ok() {
        with(|w| {
            if let Some(v) = w.v.take() {
                v.close(&mut w.c);
            }
            for (m, p) in w.fp.take_log() {
                w.inbox.push_back((m, p));
            }
        });
        drain()?;
        with(|w| {
            w.texts.clear();
            w.c.take_log();
        });
    } else {
        WORLD.with(|k| *k.borrow_mut() = None);
        DISP.with(|k| *k.borrow_mut() = None);
    }
    r
}

fn open(text: &str) -> Res {
    with(|w| {
        let v = V::open(&mut w.c, text)?;
        w.v = Some(v);
        w.texts.clear();
        Ok::<(), String>(())
    })?;
    // the view is told of before it gets its text; those messages belong to other texts
    with(|w| {
        let id = w.view();
        for (m, p) in w.fp.take_log() {
            if m == "update" && p["view_id"] == id.as_str() {
                let t = w.text();
                w.texts.insert(p["rev"].as_u64().unwrap(), t);
            }
            if m == "new_buffer" {
                w.texts.insert(p["buffer_info"][0]["rev"].as_u64().unwrap(), String::new());
            }
            w.inbox.push_back((m, p));
        }
    });
    Ok(())
}

/// When all is quiet, each line has the colour that work from scratch would give it.
fn coloured() -> Res {
    with(|w| {
        let text = w.text();
        let v = w.v.as_ref().unwrap();
        ensure_eq!(v.mirror.text(), text, "the text the front-end has");
        let starts = line_starts(&text);
        let mut state = Some(0);
        for (k, l) in v.mirror.lines.iter().enumerate() {
            let l = l.as_ref().ok_or("an invalid line")?;
            let full = &text[starts[k]..starts.get(k + 1).cloned().unwrap_or(text.len())];
            let mut of = vec![None; full.len()];
            let mut at = 0i64;
            for t in l.styles.chunks(3) {
                for x in at + t[0]..at + t[0] + t[1] {
                    *of.get_mut(x as usize).ok_or("a style past the end of its line")? = Some(t[2]);
                }
                at += t[0] + t[1];
            }
            let mut want = default_attrs(0);
            want.extend(attrs(0, SCOPES[state.unwrap() as usize]));
            let want = Value::Object(want);
            for (x, s) in of.iter().enumerate() {
                let id = s.ok_or_else(|| format!("byte {} of line {} of {:?} has no style", x, k, text))?;
                let mut got = w.c.peer.0.lock().unwrap().styles.get(&id).cloned().ok_or("a style that was not defined")?;
                got.as_object_mut().unwrap().remove("id");
                ensure_eq!(got, want, "style of byte {} of line {} of {:?}", x, k, text);
            }
            state = next(state, full);
        }
        Ok(())
    })
}

fn user_ops(text: &str, small: bool) -> Vec<User> {
    let n = text.len();
    let mut v = vec![];
    if small {
        v.push(User::Insert(0, "+"));
        v.push(User::Insert(n / 2, "\n"));
        if n > 2 {
            v.push(User::Delete(1, 3));
        }
        v.push(User::Undo);
    } else {
        for a in 0..=n {
            v.push(User::Insert(a, "+"));
            v.push(User::Insert(a, "\n"));
        }
        for a in 0..n {
            v.push(User::Delete(a, a + 1));
            if a + 3 <= n {
                v.push(User::Delete(a, a + 3));
            }
        }
        v.push(User::Undo);
        v.push(User::Redo);
    }
    v
}

/// Every order of messages, idle calls and user actions.
fn orders(ch: &mut Ch, text: &str, steps: usize, lines: usize, quiet: bool, parens: bool, most: usize) -> Res {
    world(lines, parens, true, || {
        open(text)?;
        let mut typed: Vec<User> = vec![];
        if quiet {
            drain()?;
            if !parens {
                coloured()?;
            }
        }
        let mut users = 0;
        for _ in 0..steps {
            let (inbox, sent, idle, t) = with(|w| {
                let t = w.text();
                let o = w.peer.0.lock().unwrap();
                (w.inbox.len(), o.sent.len(), o.idle.len(), t)
            });
            let mut acts: Vec<&str> = vec![];
            if users < most {
                acts.push("user");
            }
            if inbox > 0 {
                acts.push("deliver");
                if users < most {
                    acts.push("deliver, user acts meanwhile");
                }
            }
            if sent > 0 {
                acts.push("hear");
            }
            if idle > 0 {
                acts.push("idle");
                if users < most {
                    acts.push("idle, user acts meanwhile");
                }
            }
            if acts.is_empty() {
                break;
            }
            let a = *ch.of(&acts);
            ch.step();
            let u = if a.contains("user") {
                users += 1;
                let us = if parens {
                    vec![User::Insert(0, "("), User::Insert(t.len(), "("), User::Insert(t.len() / 2, "x"), User::Undo, User::Redo]
                } else {
                    user_ops(&t, true)
                };
                let u = ch.of(&us).clone();
                typed.push(u.clone());
                Some(u)
            } else {
                None
            };
            ch.log(|| format!("{} {:?} ({:?})", a, u, t));
            match a {
                "user" => with(|w| w.user(u.as_ref().unwrap()))?,
                "deliver" | "deliver, user acts meanwhile" => {
                    with(|w| w.inject = u);
                    deliver_one()?;
                }
                "hear" => {
                    with(|w| w.hear_one())?;
                }
                _ => {
                    with(|w| w.inject = u);
                    idle_one()?;
                }
            }
            if let Some(u) = with(|w| w.inject.take()) {
                // there was no question to wait for
                with(|w| w.user(&u))?;
            }
            failed()?;
        }
        drain()?;
        let t = with(|w| w.text());
        ch.state(&t);
        ch.nontrivial();
        if parens {
            balanced(text, &typed)?;
        }
        coloured()
    })
}

/// The plugin has added one `)` for each `(`, right behind it if nothing else was typed there, and they come and go
/// together.
fn balanced(text: &str, typed: &[User]) -> Res {
    let t = with(|w| w.text());
    let (o, c) = (t.matches('(').count(), t.matches(')').count());
    ensure!(o == c, "after {:?} the text is {:?}", typed, t);
    let mut depth = 0;
    for x in t.chars() {
        depth += match x {
            '(' => 1,
            ')' => -1,
            _ => 0,
        };
        ensure!(depth >= 0, "after {:?} the text is {:?}", typed, t);
    }
    if typed.iter().all(|u| matches!(u, User::Insert(..))) {
        let mine: String = t.chars().filter(|x| *x != ')').collect();
        let mut a: Vec<char> = mine.chars().collect();
        let mut b: Vec<char> = text.chars().collect();
        for u in typed {
            if let User::Insert(_, s) = u {
                b.extend(s.chars());
            }
        }
        a.sort();
        b.sort();
        ensure_eq!(a, b, "the characters of {:?}", t);
    }
    Ok(())
}

/// What a plugin is told of a view other than its text.
fn facts(ch: &mut Ch, n: usize) -> Res {
    world(10, false, true, || {
        open("a\nb")?;
        drain()?;
        SEEN.with(|s| s.borrow_mut().clear());
        let id = with(|w| w.view());
        let dir = format!("{}/{}", scratch(), id);
        let dir = format!("{}-{:?}", dir, std::thread::current().id());
        std::fs::create_dir_all(&dir).unwrap();
        let mut want: Vec<Value> = vec![];
        let mut path: Option<String> = None;
        let mut tab = 4;
        let mut told_tab = 4;
        let mut closed = false;
        for k in 0..n {
            let op = ch.pick(if closed { 2 } else { 8 });
            ch.step();
            ch.log(|| ["deliver", "deliver all", "tab size", "save", "save under another name", "command", "hover", "close"][op].to_string());
            match op {
                0 => {
                    deliver_one()?;
                }
                1 => while deliver_one()? {},
                2 => {
                    tab = if tab == 4 { 7 } else { 4 };
                    with(|w| w.c.notify("modify_user_config", json!({"domain": {"user_override": id}, "changes": {"tab_size": tab}})));
                    want.push(json!({"config_changed": id, "changes": {"tab_size": tab}, "before": told_tab}));
                    told_tab = tab;
                }
                3 | 4 => {
                    let to = if op == 3 { path.clone().unwrap_or(format!("{}/f.txt", dir)) } else { format!("{}/g{}.txt", dir, k) };
                    with(|w| w.c.notify("save", json!({"view_id": id, "file_path": to})));
                    want.push(json!({"did_save": id, "path": to, "old": path}));
                    path = Some(to);
                }
                5 => {
                    let call = json!({"command": "plugin_rpc", "view_id": id, "receiver": "p", "rpc": {"method": "hello", "params": {"view": id, "n": k}, "rpc_type": "notification"}});
                    with(|w| w.c.notify("plugin", call));
                    want.push(json!({"custom_command": id, "method": "hello", "params": {"view": id, "n": k}, "tab_size": told_tab}));
                }
                6 => {
                    with(|w| w.c.edit(&id, "request_hover", json!({"request_id": k, "position": {"line": 1, "column": 1}})));
                    want.push(json!({"get_hover": id, "request": k, "position": 3}));
                }
                _ => {
                    with(|w| w.c.close(&id));
                    want.push(json!({"did_close": id}));
                    closed = true;
                }
            }
            with(|w| {
                w.c.settle();
                if !closed {
                    w.collect();
                } else {
                    for (m, p) in w.fp.take_log() {
                        w.inbox.push_back((m, p));
                    }
                }
            });
        }
        if closed {
            with(|w| w.v = None);
        }
        drain()?;
        // that a language stayed the same may be said or not
        let got: Vec<Value> = SEEN.with(|s| s.borrow().iter().filter(|x| x["language_changed"].is_null() || x["language"] != x["old"]).cloned().collect());
        ensure_eq!(got, want, "what the plugin was told");
        ch.state(&format!("{:?}", want));
        ch.nontrivial();
        let _ = std::fs::remove_dir_all(&dir);
        Ok(())
    })
}

/// One edit or two of each kind at each place, in a document at rest or not.
fn places(ch: &mut Ch, text: &str, n: usize, lines: usize) -> Res {
    world(lines, false, true, || {
        open(text)?;
        drain()?;
        for _ in 0..n {
            let t = with(|w| w.text());
            let us = user_ops(&t, false);
            let u = ch.of(&us).clone();
            ch.step();
            let more = ch.pick(3);
            ch.log(|| format!("{:?} of {:?}, then {}", u, t, ["nothing", "the plugin is told", "the plugin is told and works once"][more]));
            with(|w| w.user(&u))?;
            if more > 0 {
                while deliver_one()? {}
            }
            if more > 1 {
                idle_one()?;
            }
        }
        drain()?;
        ch.nontrivial();
        coloured()
    })
}

pub fn run() -> ! {
    let th = is_thorough();
    let k = if th { 10 } else { 8 };
    let s = vec![
        section("orders", "a document of 3 lines; every sequence of 8 (thorough: 10) of: the user acts (at most 3 times), a message arrives at either side, the plugin works, the user acts while the plugin waits", move |ch| orders(ch, "+\n+\na", k, 1, true, false, 3)),
        section("start", "the same from the moment the view is opened (7, thorough: 9 steps; the user acts at most twice)", move |ch| orders(ch, "+\na", k - 1, 1, false, false, 2)),
        section("answers", "a plugin that answers to what is typed; 8 (10) steps, the user types, undoes and redoes at most 3 times", move |ch| orders(ch, "ab", k, 10, true, true, 3)),
        section("places", "a document of 4 lines; 2 (thorough: 3) edits of each kind at each place, the plugin told or not in between", move |ch| places(ch, "+\n+\na\n+", if th { 3 } else { 2 }, 2)),
        section("facts", "every sequence of 5 (thorough: 6) of setting changes, saves, commands, hover requests, closing, and messages that arrive", move |ch| facts(ch, if th { 6 } else { 5 })),
    ];
    mccommon::run(
        Opts {
            property: "C33".into(),
            level: "model_checking".into(),
            assumptions: vec!["messages arrive in the order in which they were sent".into()],
            single_thread: false,
        },
        s,
    )
}
