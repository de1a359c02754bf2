//! Drives the real core in-process: messages go in through the same `Handler` implementation that the RPC loop
//! uses, and everything it sends back is recorded by a peer that plays the front-end.
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::sync::{Arc, Mutex};
use std::time::Instant;
use xi_core_lib::rpc::{CoreNotification, CoreRequest};
use xi_core_lib::{plugin_rpc, PluginPid, WeakXiCore, XiCore};
use xi_rpc::{Callback, Error, Handler, Peer, RpcCtx};

/// Width reported for one string by the simulated front-end: 8 units per scalar value, 16 for non-ASCII ones.
pub fn width_of(s: &str) -> f64 {
    s.chars().map(|c| if c.is_ascii() { 8.0 } else { 16.0 }).sum()
}

#[derive(Default)]
pub struct Inner {
    pub log: Vec<(String, Value)>,
    pub idle: VecDeque<usize>,
    pub timers: Vec<(Instant, usize)>,
    pub callbacks: Vec<(Value, Box<dyn Callback>)>,
    /// how requests to measure are answered: 0 rightly, otherwise in one of several wrong ways
    pub bad_width: usize,
    /// styles as defined so far
    pub styles: std::collections::BTreeMap<i64, Value>,
}

#[derive(Clone, Default)]
pub struct FakePeer(pub Arc<Mutex<Inner>>);

impl Peer for FakePeer {
    fn box_clone(&self) -> Box<dyn Peer> {
        Box::new(self.clone())
    }
    fn send_rpc_notification(&self, method: &str, params: &Value) {
        let mut i = self.0.lock().unwrap();
        if method == "def_style" {
            i.styles.insert(params["id"].as_i64().unwrap(), params.clone());
        }
        i.log.push((method.to_string(), params.clone()));
    }
    fn send_rpc_request_async(&self, method: &str, params: &Value, f: Box<dyn Callback>) {
        let mut i = self.0.lock().unwrap();
        i.log.push((method.to_string(), params.clone()));
        i.callbacks.push((params.clone(), f));
    }
    fn send_rpc_request(&self, method: &str, params: &Value) -> Result<Value, Error> {
        if method == "measure_width" {
            let bad = self.0.lock().unwrap().bad_width;
            match bad {
                1 => return Err(Error::PeerDisconnect),
                2 => return Err(Error::RemoteError(xi_rpc::RemoteError::custom(404, "no such method", None))),
                3 => return Ok(Value::Null),
                4 => return Ok(json!([])),
                5 => return Ok(json!([[]])),
                6 => return Ok(json!([[8.0]])),
                7 => return Ok(json!([["x"]])),
                8 => return Ok(json!({"a": 1})),
                9 => return Ok(json!(params.as_array().unwrap().iter().map(|r| vec![-1e300; r["strings"].as_array().unwrap().len()]).collect::<Vec<_>>())),
                10 => return Ok(json!(params.as_array().unwrap().iter().map(|r| vec![8.0; r["strings"].as_array().unwrap().len() + 1]).collect::<Vec<_>>())),
                _ => {}
            }
            let out: Vec<Vec<f64>> = params
                .as_array()
                .unwrap()
                .iter()
                .map(|r| r["strings"].as_array().unwrap().iter().map(|s| width_of(s.as_str().unwrap())).collect())
                .collect();
            return Ok(json!(out));
        }
        self.0.lock().unwrap().log.push((method.to_string(), params.clone()));
        Ok(Value::Null)
    }
    fn request_is_pending(&self) -> bool {
        false
    }
    fn schedule_idle(&self, token: usize) {
        self.0.lock().unwrap().idle.push_back(token);
    }
    fn schedule_timer(&self, time: Instant, token: usize) {
        self.0.lock().unwrap().timers.push((time, token));
    }
}

pub struct FakePlugin {
    pub peer: FakePeer,
    pub id: u64,
    pub weak: WeakXiCore,
    pub ctx: RpcCtx,
}

pub struct Core {
    pub core: XiCore,
    pub ctx: RpcCtx,
    pub peer: FakePeer,
    pub used: usize,
}

fn vname(view: &str) -> Value {
    json!(view)
}

impl Core {
    pub fn new(started: Value) -> Core {
        let peer = FakePeer::default();
        let ctx = RpcCtx::for_verif(peer.box_clone());
        let mut c = Core { core: XiCore::new(), ctx, peer, used: 0 };
        c.notify("client_started", started);
        c
    }
    pub fn notify(&mut self, method: &str, params: Value) {
        let n: CoreNotification =
            serde_json::from_value(json!({"method": method, "params": params})).expect("ENGINE: bad notification");
        self.core.handle_notification(&self.ctx, n);
    }
    pub fn request(&mut self, method: &str, params: Value) -> Result<Value, Value> {
        let n: CoreRequest =
            serde_json::from_value(json!({"method": method, "params": params})).expect("ENGINE: bad request");
        self.core.handle_request(&self.ctx, n).map_err(|e| serde_json::to_value(&e).unwrap())
    }
    /// An edit command of one view; `params` may be null.
    pub fn edit(&mut self, view: &str, method: &str, params: Value) {
        let p = if params.is_null() {
            json!({"view_id": vname(view), "method": method})
        } else {
            json!({"view_id": vname(view), "method": method, "params": params})
        };
        self.notify("edit", p);
    }
    pub fn edit_sync(&mut self, view: &str, method: &str) -> Result<Value, Value> {
        self.request("edit", json!({"view_id": vname(view), "method": method}))
    }
    pub fn new_view(&mut self, path: Option<&str>) -> Result<String, Value> {
        self.request("new_view", json!({ "file_path": path })).map(|v| v.as_str().unwrap().to_string())
    }
    pub fn close(&mut self, view: &str) {
        self.notify("close_view", json!({"view_id": view}));
    }
    pub fn text(&mut self, view: &str) -> String {
        self.request("debug_get_contents", json!({"view_id": view})).unwrap().as_str().unwrap().to_string()
    }
    /// Runs one idle callback if one is queued.
    pub fn idle_one(&mut self) -> bool {
        let t = self.peer.0.lock().unwrap().idle.pop_front();
        match t {
            Some(t) => {
                self.core.idle(&self.ctx, t);
                true
            }
            None => false,
        }
    }
    /// Runs the callback for `token`.
    pub fn core_idle(&mut self, token: usize) {
        self.core.idle(&self.ctx, token);
    }
    pub fn timer_one(&mut self) -> bool {
        let t = {
            let mut i = self.peer.0.lock().unwrap();
            if i.timers.is_empty() {
                None
            } else {
                let k = (0..i.timers.len()).min_by_key(|k| i.timers[*k].0).unwrap();
                Some(i.timers.remove(k).1)
            }
        };
        match t {
            Some(t) => {
                self.core.idle(&self.ctx, t);
                true
            }
            None => false,
        }
    }
    /// Runs idle callbacks and timers until none is left.
    pub fn settle(&mut self) {
        let mut n = 0;
        while self.timer_one() || self.idle_one() {
            n += 1;
            assert!(n < 100_000, "idle work never ends");
        }
    }
    pub fn take_log(&mut self) -> Vec<(String, Value)> {
        std::mem::take(&mut self.peer.0.lock().unwrap().log)
    }
    /// Connects a plugin that is played by the harness.
    pub fn connect_plugin(&mut self, name: &str, id: u64) -> FakePlugin {
        let peer = FakePeer::default();
        let weak = self.core.verif_weak().unwrap();
        let mut child = std::process::Command::new("/bin/true")
            .stdin(std::process::Stdio::null())
            .stdout(std::process::Stdio::null())
            .spawn()
            .expect("ENGINE: spawn");
        let _ = child.wait();
        let pid: PluginPid = serde_json::from_value(json!(id)).unwrap();
        let p = xi_core_lib::plugins::Plugin::for_verif(peer.box_clone(), pid, name.to_string(), child);
        weak.plugin_connect(Ok(p));
        let ctx = RpcCtx::for_verif(peer.box_clone());
        FakePlugin { peer, id, weak, ctx }
    }
}

impl FakePlugin {
    pub fn notify(&mut self, view: &str, method: &str, params: Value) -> Result<(), String> {
        let mut v = json!({"method": method, "params": params});
        v["params"]["view_id"] = json!(view);
        v["params"]["plugin_id"] = json!(self.id);
        let n: plugin_rpc::PluginCommand<plugin_rpc::PluginNotification> =
            serde_json::from_value(v).map_err(|e| format!("ENGINE: bad plugin message {}", e))?;
        self.weak.handle_notification(&self.ctx, n);
        Ok(())
    }
    pub fn request(&mut self, view: &str, method: &str, params: Value) -> Result<Value, Value> {
        let mut v = json!({"method": method, "params": params});
        v["params"]["view_id"] = json!(view);
        v["params"]["plugin_id"] = json!(self.id);
        let n: plugin_rpc::PluginCommand<plugin_rpc::PluginRequest> =
            serde_json::from_value(v).expect("ENGINE: bad plugin request");
        self.weak.handle_request(&self.ctx, n).map_err(|e| serde_json::to_value(&e).unwrap())
    }
    /// Takes the oldest unanswered update.
    pub fn pending(&self) -> usize {
        self.peer.0.lock().unwrap().callbacks.len()
    }
    pub fn ack(&mut self) -> bool {
        let c = {
            let mut i = self.peer.0.lock().unwrap();
            if i.callbacks.is_empty() {
                None
            } else {
                Some(i.callbacks.remove(0))
            }
        };
        match c {
            Some((_, f)) => {
                f.call(Ok(json!(0)));
                true
            }
            None => false,
        }
    }
    /// Answers the oldest update wrongly: with something that is no number, or with an error.
    pub fn ack_with(&mut self, nonsense: bool) {
        let (_, f) = self.peer.0.lock().unwrap().callbacks.remove(0);
        f.call(if nonsense { Ok(json!({"a": []})) } else { Err(Error::PeerDisconnect) });
    }
    pub fn take_log(&mut self) -> Vec<(String, Value)> {
        std::mem::take(&mut self.peer.0.lock().unwrap().log)
    }
    /// The plugin's process ends.
    pub fn exit(&mut self) {
        let pid: PluginPid = serde_json::from_value(json!(self.id)).unwrap();
        self.weak.plugin_exit(pid, Ok(()));
    }
}

thread_local! {
    static CORE: RefCell<Option<Core>> = const { RefCell::new(None) };
}

/// Runs `f` on a core of this thread. A core is reused from execution to execution (each uses views of its own)
/// and thrown away when an execution ends abnormally.
pub fn with_core<R>(f: impl FnOnce(&mut Core) -> R) -> R {
    let mut c = CORE.with(|c| c.borrow_mut().take()).filter(|c| c.used < 200_000).unwrap_or_else(|| {
        let mut c = Core::new(json!({}));
        c.settle();
        c.take_log();
        c
    });
    c.used += 1;
    let r = f(&mut c);
    {
        let mut i = c.peer.0.lock().unwrap();
        i.log.clear();
        i.idle.clear();
        i.timers.clear();
    }
    CORE.with(|k| *k.borrow_mut() = Some(c));
    r
}

/// Throws away this thread's core (after an execution that failed).
pub fn drop_core() {
    CORE.with(|k| *k.borrow_mut() = None);
}
