//! C31: the settings of a view are those of the strongest source that gives them, and everybody is told.
use crate::drv::{Core, FakePlugin};
use mccommon::*;
use notify::event::*;
use serde_json::{json, Map, Value};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

type T = Map<String, Value>;

static DIRS: AtomicUsize = AtomicUsize::new(0);
struct Home {
    c: Core,
    p: FakePlugin,
    notify: Arc<notify::Shared>,
    dir: String,
}
thread_local! {
    static POOL: RefCell<Option<Home>> = const { RefCell::new(None) };
}

const MANIFEST: &str = r#"
name = "langs"
version = "1"
exec_path = "/nonexistent/langs"
[[languages]]
name = "L1"
extensions = ["l1", "COMMIT"]
scope = "source.l1"
[[languages]]
name = "L2"
extensions = ["l2"]
scope = "source.l2"
"#;
const FILES: &[(&str, &str)] = &[("general", "preferences"), ("L1", "L1"), ("L2", "L2")];

fn make(dir: &str, l1: &str, files: &[(&str, String)]) -> Home {
    for d in ["cfg", "cfg/themes", "cfg/plugins", "ext/langs", "files"] {
        std::fs::create_dir_all(format!("{}/{}", dir, d)).expect("ENGINE: scratch");
    }
    std::fs::write(format!("{}/ext/langs/manifest.toml", dir), MANIFEST).unwrap();
    std::fs::write(format!("{}/ext/langs/L1.toml", dir), l1).unwrap();
    for (n, t) in files {
        std::fs::write(format!("{}/cfg/{}.xiconfig", dir, n), t).unwrap();
    }
    let mut c = Core::new(json!({"config_dir": format!("{}/cfg", dir), "client_extras_dir": format!("{}/ext", dir)}));
    let notify = notify::latest().expect("ENGINE: no watcher");
    c.settle();
    let p = c.connect_plugin("p0", 1 << 20);
    c.settle();
    Home { c, p, notify, dir: dir.to_string() }
}

struct V {
    id: String,
    detected: String,
    user: Option<String>,
    sys: T,
    over: T,
    text: String,
    ready: bool,
    open: bool,
    /// as told to the front-end and to the plugin
    front: T,
    front_lang: Option<String>,
    plug: T,
    plug_lang: Option<String>,
}

struct S<'a> {
    h: &'a mut Home,
    base: T,
    general: T,
    lang_base: BTreeMap<String, T>,
    lang_user: BTreeMap<String, T>,
    views: Vec<V>,
    n: usize,
    /// whether there are languages
    known: bool,
}

/// Whether a table of settings can be used.
fn good(t: &T) -> bool {
    t.iter().all(|(k, v)| match k.as_str() {
        "tab_size" => v.as_u64().map_or(false, |n| n > 0),
        "translate_tabs_to_spaces" | "autodetect_whitespace" => v.is_boolean(),
        "line_ending" => v.is_string(),
        _ => true,
    })
}
fn merged(t: &T, changes: &T) -> T {
    let mut t = t.clone();
    for (k, v) in changes {
        if v.is_null() {
            t.remove(k);
        } else {
            t.insert(k.clone(), v.clone());
        }
    }
    t
}
fn toml_of(t: &T) -> String {
    t.iter().map(|(k, v)| format!("{} = {}\n", k, v)).collect()
}
/// Line ending and indentation of a text, as far as they are beyond doubt.
fn detect(text: &str) -> T {
    let mut out = T::new();
    let crlf = text.matches("\r\n").count();
    let lf = text.matches('\n').count() - crlf;
    let cr = text.matches('\r').count() - crlf;
    if cr == 0 && crlf > 0 && lf == 0 {
        out.insert("line_ending".into(), json!("\r\n"));
    }
    if cr == 0 && lf > 0 && crlf == 0 {
        out.insert("line_ending".into(), json!("\n"));
    }
    let mut tabs = 0;
    let mut spaces = vec![];
    let mut bad = false;
    for l in text.split('\n') {
        let ind: String = l.chars().take_while(|c| *c == ' ' || *c == '\t').collect();
        if ind.starts_with('\t') {
            tabs += 1;
        } else if ind.contains('\t') {
            bad = true;
        } else if !ind.is_empty() {
            spaces.push(ind.len());
        }
    }
    if !bad && tabs > 0 && spaces.is_empty() {
        out.insert("translate_tabs_to_spaces".into(), json!(false));
    }
    // a depth of one says nothing
    spaces.retain(|n| *n > 1);
    if !bad && tabs == 0 && !spaces.is_empty() {
        // only texts whose depths are multiples of the least one are used here
        out.insert("translate_tabs_to_spaces".into(), json!(true));
        out.insert("tab_size".into(), json!(spaces.iter().min()));
    }
    out
}

impl S<'_> {
    fn language(&self, v: &V) -> String {
        v.user.clone().unwrap_or(v.detected.clone())
    }
    fn effective(&self, v: &V) -> T {
        let mut t = self.base.clone();
        let mut add = |x: &T| {
            for (k, v) in x {
                t.insert(k.clone(), v.clone());
            }
        };
        add(&self.general);
        let l = self.language(v);
        if let Some(b) = self.lang_base.get(&l) {
            add(b);
            if let Some(u) = self.lang_user.get(&l) {
                add(u);
            }
        }
        add(&v.sys);
        add(&v.over);
        t
    }
    fn detected(&self, path: &str) -> String {
        let name = path.rsplit('/').next().unwrap();
        let e = name.rsplit_once('.').map(|x| x.1).unwrap_or(name);
        match e {
            _ if !self.known => "Plain Text",
            "l1" | "COMMIT" => "L1",
            "l2" => "L2",
            _ => "Plain Text",
        }
        .to_string()
    }
    /// Reads what was sent. Returns the number of alerts.
    fn hear(&mut self) -> Result<usize, String> {
        let mut alerts = 0;
        for (m, q) in self.h.c.take_log() {
            if m == "alert" {
                alerts += 1;
            }
            let Some(v) = q["view_id"].as_str().and_then(|i| self.views.iter_mut().find(|v| v.id == i)) else { continue };
            ensure!(v.open, "{} for a closed view", m);
            match m.as_str() {
                "config_changed" => v.front = merged(&v.front, q["changes"].as_object().ok_or("changes")?),
                "language_changed" => v.front_lang = Some(q["language_id"].as_str().ok_or("language")?.to_string()),
                _ => {}
            }
        }
        for (m, q) in self.h.p.take_log() {
            match m.as_str() {
                "new_buffer" => {
                    for b in q["buffer_info"].as_array().unwrap() {
                        for w in b["views"].as_array().unwrap() {
                            if let Some(v) = self.views.iter_mut().find(|v| v.id == w.as_str().unwrap()) {
                                v.plug = b["config"].as_object().unwrap().clone();
                                v.plug_lang = Some(b["syntax"].as_str().unwrap().to_string());
                            }
                        }
                    }
                }
                "config_changed" | "language_changed" => {
                    let Some(v) = q["view_id"].as_str().and_then(|i| self.views.iter_mut().find(|v| v.id == i)) else { continue };
                    if m == "config_changed" {
                        v.plug = merged(&v.plug, q["changes"].as_object().ok_or("changes")?);
                    } else {
                        v.plug_lang = Some(q["new_lang"].as_str().ok_or("language")?.to_string());
                    }
                }
                _ => {}
            }
        }
        Ok(alerts)
    }
    fn check(&mut self) -> Res {
        for k in 0..self.views.len() {
            if !self.views[k].open {
                continue;
            }
            let id = self.views[k].id.clone();
            let want = self.effective(&self.views[k]);
            let got = self.h.c.request("get_config", json!({"view_id": id})).map_err(|e| format!("get_config: {}", e))?;
            let v = &self.views[k];
            let lang = self.language(v);
            for (key, w) in &want {
                let same = |t: Option<&Value>| t.map_or(false, |x| x == w || (x.is_number() && w.is_number() && x.as_f64() == w.as_f64()));
                ensure!(same(got.get(key)), "get_config gives {:?} for {}, expected {}", got.get(key), key, w);
                if v.ready {
                    ensure!(same(v.front.get(key)), "the front-end was told {:?} for {}, it is {}", v.front.get(key), key, w);
                    ensure!(!v.plug.is_empty(), "the plugin was not told of the view");
                    ensure!(key == "plugin_search_path" || same(v.plug.get(key)), "the plugin was told {:?} for {}, it is {}", v.plug.get(key), key, w);
                }
            }
            if v.ready {
                ensure_eq!(v.front_lang.as_deref(), Some(&lang[..]), "language the front-end was told");
                ensure_eq!(v.plug_lang.as_deref(), Some(&lang[..]), "language the plugin was told");
            }
        }
        Ok(())
    }
    /// How the settings show when something is typed.
    fn behave(&mut self) -> Res {
        for k in 0..self.views.len() {
            if !self.views[k].open {
                continue;
            }
            let id = self.views[k].id.clone();
            let e = self.effective(&self.views[k]);
            self.h.c.edit(&id, "move_to_end_of_document", Value::Null);
            self.h.c.edit(&id, "insert", json!({"chars": "x"}));
            self.h.c.edit(&id, "insert_tab", Value::Null);
            self.h.c.edit(&id, "insert_newline", Value::Null);
            let mut want = self.views[k].text.clone();
            want.push('x');
            if e["translate_tabs_to_spaces"] == true {
                let n = e["tab_size"].as_u64().unwrap() as usize;
                let col = want.rsplit('\n').next().unwrap().chars().count();
                want.push_str(&" ".repeat(n - col % n));
            } else {
                want.push('\t');
            }
            want.push_str(e["line_ending"].as_str().unwrap());
            let got = self.h.c.text(&id);
            ensure_eq!(got, want, "text after a letter, a tab and a line break were typed");
        }
        Ok(())
    }
    fn set(&mut self, dom: &str, table: T) -> bool {
        if !good(&table) {
            return false;
        }
        if dom == "general" {
            self.general = table;
        } else {
            self.lang_user.insert(dom.to_string(), table);
        }
        true
    }
    fn table(&self, dom: &str) -> T {
        if dom == "general" {
            self.general.clone()
        } else {
            self.lang_user.get(dom).cloned().unwrap_or_default()
        }
    }
    fn event(&mut self, kind: EventKind, paths: &[&str]) {
        let mut e = notify::Event::new(kind);
        for p in paths {
            e = e.add_path(PathBuf::from(p));
        }
        self.h.notify.emit(e);
        // only the file events: other idle work stays where it is
        let mut i = self.h.c.peer.0.lock().unwrap();
        let n = i.idle.iter().filter(|t| **t == 1002).count();
        i.idle.retain(|t| *t != 1002);
        drop(i);
        for _ in 0..n {
            self.h.c.core_idle(1002);
        }
    }
    fn expect_alerts(&mut self, n: usize, what: &str) -> Res {
        let a = self.hear()?;
        ensure_eq!(a, n, "alerts after {}", what);
        Ok(())
    }
    fn idle(&mut self) -> Res {
        for k in 0..self.views.len() {
            if self.views[k].open && !self.views[k].ready {
                self.views[k].ready = true;
                let auto = self.effective(&self.views[k])["autodetect_whitespace"] == true;
                if auto {
                    let d = detect(&self.views[k].text);
                    self.views[k].sys = d;
                }
            }
        }
        self.h.c.settle();
        self.expect_alerts(0, "idle work")
    }
    fn config_path(&self, file: &str) -> String {
        format!("{}/cfg/{}.xiconfig", self.h.dir, file)
    }
}

#[derive(Clone, Debug)]
enum Op {
    Modify(&'static str, &'static str),
    Override(usize, &'static str),
    Lang(usize, &'static str),
    Save(usize, &'static str),
    New(Option<usize>),
    Idle,
    Close(usize),
    Write(usize, &'static str),
    Remove(usize),
    Rename(usize, usize),
    Odd(&'static str),
}

const CONTENTS: &[(&str, &str)] = &[("l1", "if\n\tx\n"), ("l1", "a\n  b\n    c\n"), ("txt", "a\r\nb\r\n"), ("l2", "plain"), ("COMMIT", ""), ("txt", "a\r\nb\n"), ("l2", "\tt\n  s\n")];

/// A core nothing was done with; `l1` are the settings that come with the language L1 (`None`: there are no languages).
fn fresh(h: &mut Home, l1: Option<Value>) -> S<'_> {
    let mut lang_base = BTreeMap::new();
    if let Some(t) = l1 {
        lang_base.insert("L1".to_string(), t.as_object().unwrap().clone());
        lang_base.insert("L2".to_string(), T::new());
    }
    S { h, base: serde_json::from_value(defaults()).unwrap(), general: T::new(), lang_base, lang_user: BTreeMap::new(), views: vec![], n: 0, known: true }
}

fn with_home<R>(f: impl FnOnce(&mut Home) -> Result<R, String>) -> Result<R, String> {
    let mut h = POOL.with(|p| p.borrow_mut().take()).filter(|h| h.c.used < 20_000).unwrap_or_else(|| make(&dir(), "tab_size = 3\nunknown_key = 1\n", &[]));
    h.c.used += 1;
    let r = f(&mut h);
    if r.is_ok() {
        POOL.with(|p| *p.borrow_mut() = Some(h));
    }
    r
}

fn dir() -> String {
    let d = std::fs::canonicalize(scratch()).unwrap().to_str().unwrap().to_string();
    format!("{}/c{}", d, DIRS.fetch_add(1, Ordering::Relaxed))
}

/// What is made of the white space of a file that is opened.
fn texts(ch: &mut Ch, pad: bool, len: usize) -> Res {
    let mut t = String::new();
    if pad {
        let (n, nl) = (*ch.of(&[509usize, 510, 511, 512, 1020, 1021, 1022, 1023, 1024, 1025, 2046, 2047, 2048]), ch.pick(3));
        t = "a".repeat(n);
        t.push_str(["", "\n", "\r\n"][nl]);
    }
    let n = ch.pick(len + 1);
    for _ in 0..n {
        t.push(*ch.of(&['a', '\n', '\r', ' ', '\t']));
    }
    ch.log(|| format!("a file of {:?}", t));
    ch.step();
    with_home(|h| {
        let s = fresh(h, Some(json!({"tab_size": 3})));
        let p = format!("{}/files/w.txt", s.h.dir);
        std::fs::write(&p, &t).unwrap();
        let id = s.h.c.new_view(Some(&p)).map_err(|e| format!("new_view: {}", e))?;
        s.h.c.settle();
        let got = s.h.c.request("get_config", json!({ "view_id": id })).map_err(|e| format!("get_config: {}", e))?;
        let want = detect(&t);
        ch.state(&(format!("{:?}", want), t.len()));
        let depths: Vec<usize> = t.split('\n').map(|l| l.chars().take_while(|c| *c == ' ').count()).filter(|n| *n > 1).collect();
        let clear = depths.iter().all(|d| d % depths.iter().min().unwrap() == 0);
        for k in ["line_ending", "tab_size", "translate_tabs_to_spaces"] {
            let w = want.get(k).unwrap_or(&s.base[k]);
            if k != "tab_size" || clear {
                ensure!(&got[k] == w, "{} is {}, expected {}", k, got[k], w);
            }
            if want.contains_key(k) && *w != s.base[k] {
                ch.nontrivial();
            }
        }
        s.h.c.close(&id);
        s.h.c.settle();
        while s.h.p.ack() {}
        s.h.c.take_log();
        s.h.p.take_log();
        Ok(())
    })
}

/// Files of settings that are there when the core starts.
fn startup(ch: &mut Ch) -> Res {
    let kinds = [None, Some(r#"{"tab_size": 5}"#), Some(r#"{"translate_tabs_to_spaces": false}"#), Some(r#"{"tab_size": 0}"#), Some("tab_size =")];
    let chosen: Vec<Option<&str>> = (0..3).map(|_| *ch.of(&kinds)).collect();
    let l1 = *ch.of(&["tab_size = 3", "tab_size = 0", "tab_size = \"x\"", "line_ending = 7", "tab_size", ""]);
    ch.log(|| format!("files {:?}, the language comes with {:?}", chosen, l1));
    ch.step();
    let d = dir();
    let mut files = vec![];
    for (k, c) in chosen.iter().enumerate() {
        if let Some(c) = c {
            files.push((FILES[k].1, serde_json::from_str::<T>(c).map(|t| toml_of(&t)).unwrap_or(c.to_string())));
        }
    }
    let mut h = make(&d, l1, &files);
    let langs = match l1 {
        "tab_size = 3" => Some(json!({"tab_size": 3})),
        "tab_size" => None,
        _ => Some(json!({})),
    };
    let known = langs.is_some();
    let mut s = fresh(&mut h, langs);
    for (k, c) in chosen.iter().enumerate() {
        if k > 0 && !known {
            continue;
        }
        if let Some(t) = c.and_then(|c| serde_json::from_str::<T>(c).ok()) {
            s.set(FILES[k].0, t);
        }
    }
    s.known = known;
    ch.state(&format!("{:?}{:?}", s.general, s.lang_user));
    s.expect_alerts(chosen[0].map_or(false, |c| !serde_json::from_str::<T>(c).map_or(false, |t| good(&t))) as usize, "the start")?;
    for k in [3, 4, 2] {
        step(ch, &mut s, &Op::New(Some(k)))?;
        s.idle()?;
        s.check()?;
        ch.nontrivial();
    }
    s.behave()?;
    let r = std::fs::remove_dir_all(&d);
    r.map_err(|e| format!("ENGINE: {}", e))
}

fn run(ch: &mut Ch, depth: usize, view: Option<usize>, ops: impl Fn(&S) -> Vec<Op>) -> Res {
    let mut h = POOL.with(|p| p.borrow_mut().take()).filter(|h| h.c.used < 20_000).unwrap_or_else(|| make(&dir(), "tab_size = 3\nunknown_key = 1\n", &[]));
    h.c.used += 1;
    let mut s = fresh(&mut h, Some(json!({"tab_size": 3})));
    let r = (|| -> Res {
        s.hear()?;
        if let Some(k) = view {
            step(ch, &mut s, &Op::New(Some(k)))?;
            step(ch, &mut s, &Op::Idle)?;
        }
        for _ in 0..depth {
            let o = ops(&s);
            let op = ch.of(&o).clone();
            ch.log(|| format!("{:?}", op));
            ch.step();
            step(ch, &mut s, &op)?;
            let sig: Vec<(T, String, bool, bool)> = s.views.iter().map(|v| (s.effective(v), s.language(v), v.ready, v.open)).collect();
            ch.state(&format!("{:?}", sig));
        }
        s.idle()?;
        s.check()?;
        s.behave()
    })();
    if r.is_ok() {
        for k in 0..s.views.len() {
            if s.views[k].open {
                let id = s.views[k].id.clone();
                s.h.c.close(&id);
            }
        }
        for (_, f) in FILES {
            let p = s.config_path(f);
            let _ = std::fs::remove_file(&p);
            s.event(EventKind::Remove(RemoveKind::Any), &[&p]);
        }
        let nope = json!({"tab_size": null, "translate_tabs_to_spaces": null, "line_ending": null, "autodetect_whitespace": null});
        s.h.c.notify("modify_user_config", json!({"domain": {"language": "Nope"}, "changes": nope}));
        while s.h.p.ack() {}
        s.h.c.settle();
        s.h.c.take_log();
        s.h.p.take_log();
        let f = format!("{}/files", s.h.dir);
        for e in std::fs::read_dir(&f).unwrap() {
            let _ = std::fs::remove_file(e.unwrap().path());
        }
        POOL.with(|p| *p.borrow_mut() = Some(h));
    }
    r
}

fn defaults() -> Value {
    thread_local! { static D: RefCell<Option<Value>> = const { RefCell::new(None) }; }
    D.with(|d| {
        d.borrow_mut()
            .get_or_insert_with(|| {
                let mut c = Core::new(json!({}));
                let id = c.new_view(None).unwrap();
                let v = c.request("get_config", json!({ "view_id": id })).unwrap();
                assert!(v["tab_size"] == 4 && v["translate_tabs_to_spaces"] == true && v["line_ending"] == "\n" && v["autodetect_whitespace"] == true, "ENGINE: defaults {}", v);
                v
            })
            .clone()
    })
}

fn step(ch: &mut Ch, s: &mut S, op: &Op) -> Res {
    match op {
        Op::Modify(dom, changes) => {
            let c: T = serde_json::from_str(changes).unwrap();
            let d = if *dom == "general" { json!("general") } else { json!({ "language": dom }) };
            s.h.c.notify("modify_user_config", json!({"domain": d, "changes": c}));
            let t = merged(&s.table(dom), &c);
            let ok = s.set(dom, t);
            s.expect_alerts(!ok as usize, "a setting")?;
            ch.nontrivial();
        }
        Op::Override(k, changes) => {
            let c: T = serde_json::from_str(changes).unwrap();
            let id = s.views[*k].id.clone();
            s.h.c.notify("modify_user_config", json!({"domain": {"user_override": id}, "changes": c}));
            let t = merged(&s.views[*k].over, &c);
            let ok = good(&t);
            if ok {
                s.views[*k].over = t;
            }
            s.expect_alerts(!ok as usize, "a setting")?;
        }
        Op::Lang(k, l) => {
            let id = s.views[*k].id.clone();
            s.h.c.notify("set_language", json!({"view_id": id, "language_id": l}));
            s.views[*k].user = Some(l.to_string());
            s.expect_alerts(0, "a language")?;
        }
        Op::Save(k, ext) => {
            let id = s.views[*k].id.clone();
            s.n += 1;
            let p = format!("{}/files/s{}.{}", s.h.dir, s.n, ext);
            s.h.c.notify("save", json!({"view_id": id, "file_path": p}));
            s.views[*k].detected = s.detected(&p);
            s.expect_alerts(0, "saving")?;
        }
        Op::New(k) => {
            s.n += 1;
            let (path, text) = match k {
                None => (None, ""),
                Some(k) => {
                    let (e, t) = CONTENTS[*k];
                    let p = if e == "COMMIT" { format!("{}/files/COMMIT", s.h.dir) } else { format!("{}/files/n{}.{}", s.h.dir, s.n, e) };
                    std::fs::write(&p, t).unwrap();
                    (Some(p), t)
                }
            };
            let id = s.h.c.new_view(path.as_deref()).map_err(|e| format!("new_view: {}", e))?;
            let detected = path.map(|p| s.detected(&p)).unwrap_or("Plain Text".into());
            s.views.push(V { id, detected, user: None, sys: T::new(), over: T::new(), text: text.to_string(), ready: false, open: true, front: T::new(), front_lang: None, plug: T::new(), plug_lang: None });
            s.expect_alerts(0, "opening")?;
        }
        Op::Idle => s.idle()?,
        Op::Close(k) => {
            let id = s.views[*k].id.clone();
            s.hear()?;
            s.h.c.close(&id);
            s.views[*k].open = false;
            s.expect_alerts(0, "closing")?;
        }
        Op::Write(f, content) => {
            let (dom, file) = FILES[*f];
            let p = s.config_path(file);
            let new = !std::path::Path::new(&p).exists();
            let t: Option<T> = serde_json::from_str(content).ok();
            std::fs::write(&p, t.as_ref().map(toml_of).unwrap_or(content.to_string())).unwrap();
            s.event(if new { EventKind::Create(CreateKind::Any) } else { EventKind::Modify(ModifyKind::Any) }, &[&p]);
            let ok = t.map_or(false, |t| s.set(dom, t));
            s.expect_alerts(!ok as usize, "a file of settings was written")?;
            ch.nontrivial();
        }
        Op::Remove(f) => {
            let (dom, file) = FILES[*f];
            let p = s.config_path(file);
            std::fs::remove_file(&p).unwrap();
            s.event(EventKind::Remove(RemoveKind::Any), &[&p]);
            s.set(dom, T::new());
            s.expect_alerts(0, "a file of settings was removed")?;
        }
        Op::Rename(a, b) => {
            let (p, q) = (s.config_path(FILES[*a].1), s.config_path(FILES[*b].1));
            let content = std::fs::read_to_string(&p).unwrap();
            std::fs::rename(&p, &q).unwrap();
            s.event(EventKind::Modify(ModifyKind::Name(RenameMode::Both)), &[&p, &q]);
            s.set(FILES[*a].0, T::new());
            // the same few settings as are written
            let t: Option<T> = content.lines().map(|l| l.split_once(" = ").and_then(|(k, v)| Some((k.to_string(), serde_json::from_str(v).ok()?)))).collect();
            let ok = t.map_or(false, |t| s.set(FILES[*b].0, t));
            s.expect_alerts(!ok as usize, "a file of settings was renamed")?;
        }
        Op::Odd(name) => {
            // a file in the directory that has nothing to do with settings
            let p = format!("{}/cfg/{}", s.h.dir, name);
            std::fs::write(&p, "tab_size = 9").unwrap();
            s.event(EventKind::Create(CreateKind::Any), &[&p]);
            std::fs::remove_file(&p).unwrap();
            s.event(EventKind::Remove(RemoveKind::Any), &[&p]);
            s.hear()?;
        }
    }
    s.check()
}

fn open(s: &S) -> Vec<usize> {
    (0..s.views.len()).filter(|k| s.views[*k].open).collect()
}

const C: &[&str] = &[r#"{"tab_size": 5}"#, r#"{"tab_size": null}"#, r#"{"tab_size": 7, "translate_tabs_to_spaces": false}"#, r#"{"tab_size": 0}"#, r#"{"translate_tabs_to_spaces": true, "tab_size": "x"}"#];

fn settings(s: &S) -> Vec<Op> {
    let mut o = vec![];
    for d in ["general", "L1", "L2"] {
        for c in &C[..if d == "L2" { 1 } else { 3 }] {
            o.push(Op::Modify(d, c));
        }
    }
    o.push(Op::Modify("general", C[3]));
    o.push(Op::Modify("L1", C[4]));
    o.push(Op::Modify("Nope", C[0]));
    for k in open(s) {
        for c in C {
            o.push(Op::Override(k, c));
        }
        for l in ["L1", "L2", "Nope"] {
            o.push(Op::Lang(k, l));
        }
        for e in ["l1", "l2", "txt"] {
            o.push(Op::Save(k, e));
        }
    }
    o
}
fn files(s: &S) -> Vec<Op> {
    let mut o = vec![];
    for f in 0..2 {
        for c in [C[0], C[2], C[3], "tab_size ="] {
            o.push(Op::Write(f, c));
        }
    }
    o.push(Op::Write(2, C[0]));
    for f in 0..3 {
        if std::path::Path::new(&s.config_path(FILES[f].1)).exists() {
            o.push(Op::Remove(f));
            for g in 0..3 {
                if f != g {
                    o.push(Op::Rename(f, g));
                }
            }
        }
    }
    o.push(Op::Modify("general", r#"{"tab_size": 6}"#));
    o.push(Op::Modify("L1", r#"{"translate_tabs_to_spaces": false}"#));
    o.push(Op::Lang(0, "L1"));
    o.push(Op::Override(0, r#"{"translate_tabs_to_spaces": true}"#));
    o.push(Op::Odd("a.txt"));
    o.push(Op::Odd("Zz.xiconfig"));
    o
}
fn coming(s: &S) -> Vec<Op> {
    let mut o = vec![];
    if s.views.len() < 2 {
        o.extend([None, Some(0), Some(1), Some(2), Some(3), Some(4), Some(5), Some(6)].map(Op::New));
    }
    o.push(Op::Idle);
    o.push(Op::Modify("general", C[0]));
    o.push(Op::Modify("general", r#"{"autodetect_whitespace": false}"#));
    o.push(Op::Modify("L1", C[2]));
    for k in open(s) {
        o.extend([Op::Close(k), Op::Override(k, C[2]), Op::Override(k, C[1]), Op::Lang(k, "L1"), Op::Save(k, "l2")]);
    }
    o
}

pub fn run31() -> ! {
    let k = is_thorough() as usize;
    mccommon::run(
        Opts { property: "C31".into(), level: "model_checking".into(), assumptions: vec![], single_thread: false },
        vec![
            section("settings", "every sequence of 3 (thorough: 4) of settings (good, bad, removed) in general, for two languages, an unknown one and the view, languages set, saving under names of other languages; for files of three kinds", move |ch| {
                let v = ch.pick(3);
                run(ch, 3 + k, Some(v), settings)
            }),
            section("files", "every sequence of 3 (thorough: 4) of files of settings written (well or badly), removed and renamed, and settings sent", move |ch| {
                let v = *ch.of(&[0usize, 3]);
                run(ch, 3 + k, Some(v), files)
            }),
            section("texts", "all texts of up to 5 (thorough: 6) of a, line feed, carriage return, space, tab, opened as a file", move |ch| texts(ch, false, 5 + k)),
            section("pieces", "texts of up to 3 (thorough: 4) of these after 509..2048 letters, so that they lie across pieces of storage", move |ch| texts(ch, true, 3 + k)),
            section("start", "all combinations of five contents of each of three files of settings that are there at the start, and of six of the settings that come with a language", startup),
            section("coming", "every sequence of 4 (thorough: 5) of opening seven kinds of files or none, settings, languages, saving, closing, with idle work at any time", move |ch| run(ch, 4 + k, None, coming)),
        ],
    )
}
