//! C29: no message, however wrong, ends the core or touches a view it was not meant for.
//! C30: views and plugins come and go in order, as the front-end and the plugins see it.
use crate::drv::{Core, FakePlugin};
use crate::mirror::Mirror;
use crate::model::*;
use mccommon::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

/// One view as the front-end knows it.
struct F {
    id: String,
    mirror: Mirror,
    text: String,
    open: bool,
    /// the view has been set up (the first idle callback after its creation has run)
    ready: bool,
}

thread_local! {
    static POOL: RefCell<Option<(Core, Vec<FakePlugin>)>> = const { RefCell::new(None) };
    static NEXT: std::cell::Cell<u64> = const { std::cell::Cell::new(1 << 20) };
}

const NULLS: &[&str] = &["tab_size", "line_ending", "translate_tabs_to_spaces", "wrap_width", "word_wrap", "surrounding_pairs", "font_size", "font_face", "auto_indent", "autodetect_whitespace", "use_tab_stops", "save_with_newline", "scroll_past_end", "unknown"];

fn pooled(f: impl FnOnce(&mut Core, &mut Vec<FakePlugin>) -> Res) -> Res {
    let (mut c, mut p) = POOL.with(|p| p.borrow_mut().take()).filter(|p| p.0.used < 20_000).unwrap_or_else(|| {
        let mut c = Core::new(json!({}));
        c.settle();
        let p = vec![c.connect_plugin("p0", 1)];
        c.settle();
        c.take_log();
        (c, p)
    });
    c.used += 1;
    c.peer.0.lock().unwrap().bad_width = 0;
    let r = f(&mut c, &mut p);
    if r.is_ok() {
        for x in &mut p {
            while x.ack() {}
            x.take_log();
        }
        let nulls: serde_json::Map<String, Value> = NULLS.iter().map(|k| (k.to_string(), Value::Null)).collect();
        for d in [json!("general"), json!({"language": "Plain Text"}), json!({"language": "Nope"})] {
            c.notify("modify_user_config", json!({"domain": d, "changes": nulls}));
        }
        c.notify("set_theme", json!({"theme_name": "InspiredGitHub"}));
        c.settle();
        c.take_log();
        POOL.with(|q| *q.borrow_mut() = Some((c, p)));
    }
    r
}

/// A message to the core. `$v` in its parameters stands for the id of a view.
struct Msg {
    kind: K,
    method: &'static str,
    params: Value,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum K {
    /// an edit command; it may change the text of its view
    Edit,
    /// an edit request
    Ask,
    /// another notification or request of the front-end which changes no text
    Note,
    Req,
    /// messages of a plugin that change no text
    PNote,
    PReq,
}

fn m(kind: K, method: &'static str, params: &str) -> Msg {
    Msg { kind, method, params: serde_json::from_str(params).unwrap_or_else(|e| panic!("ENGINE: {} {}: {}", method, params, e)) }
}

fn fill(v: &Value, id: &str, rev: u64, old: u64, len: usize) -> Value {
    match v {
        Value::String(s) => match s.as_str() {
            "$v" => json!(id),
            "$rev" => json!(rev),
            "$old" => json!(old),
            "$len" => json!(len),
            "$past" => json!(len + 1),
            _ => json!(s.replace("$d", &format!("{}/dir", scratch()))),
        },
        Value::Array(a) => Value::Array(a.iter().map(|x| fill(x, id, rev, old, len)).collect()),
        Value::Object(o) => Value::Object(o.iter().map(|(k, x)| (k.clone(), fill(x, id, rev, old, len))).collect()),
        _ => v.clone(),
    }
}

fn edits_plain() -> Vec<Msg> {
    let mut v = vec![
        m(K::Edit, "insert", r#"{"chars": "x"}"#),
        m(K::Edit, "insert", r#"{"chars": "\r"}"#),
        m(K::Edit, "insert", r#"{"chars": "\u0000é\n\tx"}"#),
        m(K::Edit, "insert_tab", "null"),
        m(K::Edit, "insert_newline", "null"),
        m(K::Edit, "undo", "null"),
        m(K::Edit, "delete_backward", "null"),
        m(K::Edit, "indent", "null"),
        m(K::Edit, "outdent", "null"),
        m(K::Edit, "reindent", "null"),
        m(K::Edit, "duplicate_line", "null"),
        m(K::Edit, "gesture", r#"{"line": 18446744073709551615, "col": 18446744073709551615, "ty": "point_select"}"#),
        m(K::Edit, "gesture", r#"{"line": 1, "col": 18446744073709551615, "ty": {"select": {"granularity": "line", "multi": true}}}"#),
        m(K::Edit, "gesture", r#"{"line": 0, "col": 0, "ty": "drag"}"#),
        m(K::Edit, "click", "[18446744073709551615, 18446744073709551615, 0, 1]"),
        m(K::Edit, "click", "[0, 1, 18446744073709551615, 18446744073709551615]"),
        m(K::Edit, "drag", "[18446744073709551615, 0, 2]"),
        m(K::Edit, "goto_line", r#"{"line": 0}"#),
        m(K::Edit, "goto_line", r#"{"line": 18446744073709551615}"#),
        m(K::Edit, "scroll", "[-9223372036854775808, 9223372036854775807]"),
        m(K::Edit, "scroll", "[9223372036854775807, -9223372036854775808]"),
        m(K::Edit, "scroll", "[9223372036854775806, 9223372036854775807]"),
        m(K::Edit, "request_lines", "[-9223372036854775808, 9223372036854775807]"),
        m(K::Edit, "request_lines", "[9223372036854775807, 9223372036854775807]"),
        m(K::Edit, "request_lines", "[9223372036854775807, 0]"),
        m(K::Edit, "resize", r#"{"width": -1.0, "height": 1e308}"#),
        m(K::Edit, "resize", r#"{"width": 1e308, "height": -5.0}"#),
        m(K::Edit, "resize", r#"{"width": 9.0, "height": 0.0}"#),
        m(K::Edit, "scroll_page_down", "null"),
        m(K::Edit, "page_up_and_modify_selection", "null"),
        m(K::Edit, "find", r#"{"chars": "[", "case_sensitive": true, "regex": true}"#),
        m(K::Edit, "find", r#"{"chars": "(?s).*", "case_sensitive": true, "regex": true}"#),
        m(K::Edit, "find", r#"{"chars": "\u0000", "case_sensitive": false, "whole_words": true}"#),
        m(K::Edit, "multi_find", r#"{"queries": [{"id": 18446744073709551615, "chars": "x", "case_sensitive": true}, {"id": 0, "chars": "", "case_sensitive": true}, {"id": 0, "chars": "y", "case_sensitive": true}]}"#),
        m(K::Edit, "find_next", r#"{"wrap_around": true}"#),
        m(K::Edit, "find_all", "null"),
        m(K::Edit, "replace", r#"{"chars": ""}"#),
        m(K::Edit, "replace_all", "null"),
        m(K::Edit, "replace_next", "null"),
        m(K::Edit, "request_hover", r#"{"request_id": 18446744073709551615, "position": {"line": 18446744073709551615, "column": 18446744073709551615}}"#),
        m(K::Edit, "request_hover", r#"{"request_id": 0, "position": null}"#),
        m(K::Edit, "play_recording", r#"{"recording_name": "none"}"#),
        m(K::Edit, "toggle_recording", r#"{"recording_name": null}"#),
        m(K::Edit, "clear_recording", r#"{"recording_name": "none"}"#),
        m(K::Edit, "debug_print_spans", "null"),
        m(K::Edit, "debug_rewrap", "null"),
        m(K::Edit, "debug_wrap_width", "null"),
        m(K::Edit, "debug_toggle_comment", "null"),
        m(K::Edit, "increase_number", "null"),
        m(K::Edit, "select_all", "null"),
        m(K::Edit, "yank", "null"),
        m(K::Ask, "cut", "null"),
        m(K::Ask, "copy", "null"),
    ];
    v.shrink_to_fit();
    v
}

fn notes() -> Vec<Msg> {
    let cfg = |dom: &str, ch: &str| m(K::Note, "modify_user_config", &format!(r#"{{"domain": {}, "changes": {}}}"#, dom, ch));
    let g = r#""general""#;
    let u = r#"{"user_override": "$v"}"#;
    let l = r#"{"language": "Nope"}"#;
    let pt = r#"{"language": "Plain Text"}"#;
    vec![
        m(K::Note, "save", r#"{"view_id": "$v", "file_path": ""}"#),
        m(K::Note, "save", r#"{"view_id": "$v", "file_path": "$d/no/x"}"#),
        m(K::Note, "save", r#"{"view_id": "$v", "file_path": "$d"}"#),
        m(K::Note, "save", r#"{"view_id": "$v", "file_path": "$d/.."}"#),
        m(K::Note, "save", r#"{"view_id": "$v", "file_path": "a\u0000b"}"#),
        m(K::Note, "save", r#"{"view_id": "$v", "file_path": "$d/sub/x"}"#),
        m(K::Note, "set_theme", r#"{"theme_name": "no such theme"}"#),
        m(K::Note, "set_theme", r#"{"theme_name": "base16-ocean.dark"}"#),
        m(K::Note, "set_language", r#"{"view_id": "$v", "language_id": "Nope"}"#),
        m(K::Note, "set_language", r#"{"view_id": "$v", "language_id": ""}"#),
        cfg(g, r#"{"tab_size": 0}"#),
        cfg(g, r#"{"tab_size": "x"}"#),
        cfg(g, r#"{"tab_size": 100}"#),
        cfg(g, r#"{"tab_size": 300, "line_ending": ""}"#),
        cfg(g, r#"{"wrap_width": 1}"#),
        cfg(g, r#"{"word_wrap": true}"#),
        cfg(g, r#"{"unknown": {"a": [1, null]}}"#),
        cfg(g, r#"{"font_face": null, "tab_size": null, "line_ending": null}"#),
        cfg(u, r#"{"tab_size": -1}"#),
        cfg(u, r#"{"tab_size": 33}"#),
        cfg(u, r#"{"translate_tabs_to_spaces": false}"#),
        cfg(u, r#"{"line_ending": "\r\n"}"#),
        cfg(u, r#"{"line_ending": 7}"#),
        cfg(u, r#"{"surrounding_pairs": [["", ""], ["x", "é"]]}"#),
        cfg(u, r#"{"surrounding_pairs": 3}"#),
        cfg(u, r#"{"word_wrap": true, "wrap_width": 0}"#),
        cfg(u, r#"{"wrap_width": 2}"#),
        cfg(u, "{}"),
        cfg(l, r#"{"tab_size": 3}"#),
        cfg(l, r#"{"tab_size": []}"#),
        cfg(pt, r#"{"tab_size": 3}"#),
        m(K::Note, "plugin", r#"{"command": "start", "view_id": "$v", "plugin_name": "nothing"}"#),
        m(K::Note, "plugin", r#"{"command": "stop", "view_id": "$v", "plugin_name": "nothing"}"#),
        m(K::Note, "plugin", r#"{"command": "plugin_rpc", "view_id": "$v", "receiver": "nothing", "rpc": {"method": "a", "params": {}, "rpc_type": "notification"}}"#),
        m(K::Note, "plugin", r#"{"command": "plugin_rpc", "view_id": "$v", "receiver": "p0", "rpc": {"method": "", "params": [1], "rpc_type": "request"}}"#),
        m(K::Note, "tracing_config", r#"{"enabled": false}"#),
        m(K::Note, "save_trace", r#"{"destination": "$d/no/t", "frontend_samples": {"a": 1}}"#),
        m(K::Note, "save_trace", r#"{"destination": "", "frontend_samples": [{"name": 3}]}"#),
        m(K::Req, "get_config", r#"{"view_id": "$v"}"#),
        m(K::Req, "debug_get_contents", r#"{"view_id": "$v"}"#),
        m(K::Req, "new_view", r#"{"file_path": "$d"}"#),
    ]
}

const BIG: &str = "18446744073709551615";

/// What a broken plugin may say. None of it is an edit that fits the text.
fn plugin_notes() -> Vec<Msg> {
    let mut v = vec![];
    // spans and annotations
    let bad: &[(&str, &str, &str)] = &[
        ("0", "0", r#"[{"start": 0, "end": 1, "#),
        ("0", r#""$len""#, r#"[{"start": 0, "end": "$past", "#),
        ("0", r#""$past""#, r#"[{"start": 0, "end": 1, "#),
        (r#""$past""#, "3", r#"[{"start": 0, "end": 3, "#),
        (r#""$len""#, "0", r#"[{"start": 0, "end": 0, "#),
        ("0", r#""$len""#, r#"[{"start": 2, "end": 1, "#),
        ("0", r#""$len""#, r#"[{"start": 1, "end": 1, "#),
        (BIG, "1", r#"[{"start": 0, "end": 1, "#),
        ("0", BIG, r#"[{"start": 0, "end": 18446744073709551615, "#),
        ("1", BIG, r#"[{"start": 0, "end": 1, "#),
        // splits a character
        ("2", "2", r#"[{"start": 0, "end": 1, "#),
        ("0", r#""$len""#, r#"[{"start": 0, "end": 2, "#),
    ];
    let two: &[(&str, &str)] = &[
        (r#"{"start": 0, "end": 3, "#, r#"{"start": 0, "end": 1, "#),
        (r#"{"start": 3, "end": 4, "#, r#"{"start": 0, "end": 1, "#),
    ];
    let span = |s: &str, l: &str, spans: &str, rev: &str| m(K::PNote, "update_spans", &format!(r#"{{"start": {}, "len": {}, "spans": {}, "rev": {}}}"#, s, l, spans, rev));
    let ann = |s: &str, l: &str, spans: &str, rev: &str| m(K::PNote, "update_annotations", &format!(r#"{{"start": {}, "len": {}, "spans": {}, "rev": {}, "annotation_type": {{"Other": "lint"}}}}"#, s, l, spans, rev));
    for (s, l, sp) in bad {
        v.push(span(s, l, &format!("{}\"scope_id\": 0}}]", sp), r#""$rev""#));
        v.push(ann(s, l, &format!("{}\"data\": 0}}]", sp), r#""$rev""#));
    }
    for (a, b) in two {
        v.push(span("0", r#""$len""#, &format!("[{}\"scope_id\": 0}}, {}\"scope_id\": 0}}]", a, b), r#""$rev""#));
        v.push(ann("0", r#""$len""#, &format!("[{}\"data\": 0}}, {}\"data\": 0}}]", a, b), r#""$rev""#));
    }
    // a revision nobody knows, and an old one
    for rev in ["77", r#""$old""#] {
        v.push(span("0", r#""$len""#, r#"[{"start": 0, "end": "$len", "scope_id": 0}]"#, rev));
        v.push(ann("0", r#""$len""#, r#"[{"start": 0, "end": "$len", "data": 0}]"#, rev));
        v.push(span("0", "0", "[]", rev));
    }
    v.push(span("0", r#""$len""#, r#"[{"start": 0, "end": 1, "scope_id": 99}]"#, r#""$rev""#));
    v.push(span("0", r#""$len""#, r#"[{"start": 0, "end": 1, "scope_id": 4294967295}]"#, r#""$rev""#));
    v.push(span("0", r#""$len""#, r#"[{"start": 0, "end": 1, "scope_id": 0}]"#, r#""$rev""#));
    v.push(m(K::PNote, "add_scopes", r#"{"scopes": []}"#));
    v.push(m(K::PNote, "add_scopes", r#"{"scopes": [[], ["a b c", ""], ["source.rust"]]}"#));
    v.push(m(K::PNote, "add_scopes", r#"{"scopes": [["......", "a.b.c.d.e.f.g.h.i.j.k.l.m.n.o.p"]]}"#));
    v.push(m(K::PNote, "alert", r#"{"msg": ""}"#));
    v.push(m(K::PNote, "add_status_item", r#"{"key": "", "value": "", "alignment": "nowhere"}"#));
    v.push(m(K::PNote, "update_status_item", r#"{"key": "none", "value": ""}"#));
    v.push(m(K::PNote, "remove_status_item", r#"{"key": "none"}"#));
    v.push(m(K::PNote, "show_hover", r#"{"request_id": 9, "result": {"Ok": {"content": "", "range": {"start": 18446744073709551615, "end": 0}}}}"#));
    v.push(m(K::PNote, "show_hover", r#"{"request_id": 9, "result": {"Err": "RequestFailed"}}"#));
    // edits that do not fit
    let edit = |els: &str, base: &str, rev: &str, extra: &str| {
        m(K::PNote, "edit", &format!(r#"{{"edit": {{"rev": {}, "delta": {{"base_len": {}, "els": {}}}, "priority": 65536, "after_cursor": false, "undo_group": null, "author": "p"{}}}}}"#, rev, base, els, extra))
    };
    let r = r#""$rev""#;
    v.push(edit(r#"[{"copy": [0, "$past"]}]"#, r#""$past""#, r, ""));
    v.push(edit(r#"[{"copy": [0, "$past"]}]"#, r#""$len""#, r, ""));
    v.push(edit(r#"[{"copy": [1, 0]}, {"insert": "q"}]"#, r#""$len""#, r, ""));
    v.push(edit(r#"[{"copy": [2, "$len"]}, {"copy": [0, 1]}]"#, r#""$len""#, r, ""));
    v.push(edit(r#"[{"copy": [0, 3]}, {"copy": [1, "$len"]}]"#, r#""$len""#, r, ""));
    v.push(edit(r#"[{"copy": [0, 2]}, {"insert": "q"}, {"copy": [2, "$len"]}]"#, r#""$len""#, r, ""));
    v.push(edit(&format!(r#"[{{"copy": [0, {}]}}]"#, BIG), r#""$len""#, r, ""));
    v.push(edit(r#"[{"insert": "q"}, {"copy": [0, "$len"]}]"#, r#""$len""#, "77", ""));
    v.push(edit(r#"[{"insert": "q"}, {"copy": [0, "$len"]}]"#, r#""$len""#, r#""$old""#, ""));
    v
}
fn plugin_asks() -> Vec<Msg> {
    let get = |s: &str, u: &str, n: &str, r: &str| m(K::PReq, "get_data", &format!(r#"{{"start": {}, "unit": "{}", "max_size": {}, "rev": {}}}"#, s, u, n, r));
    let mut v = vec![m(K::PReq, "line_count", "{}"), m(K::PReq, "get_selections", "{}")];
    for u in ["utf8", "line"] {
        v.push(get(r#""$past""#, u, "10", r#""$rev""#));
        v.push(get(BIG, u, BIG, r#""$rev""#));
        v.push(get("0", u, "0", r#""$rev""#));
        v.push(get("2", u, BIG, r#""$rev""#));
        v.push(get("2", u, "1", r#""$rev""#));
        v.push(get("0", u, "10", "77"));
        v.push(get("0", u, "10", r#""$old""#));
    }
    v
}

struct Run<'a> {
    c: &'a mut Core,
    ps: &'a mut Vec<FakePlugin>,
    f: Vec<F>,
    /// revisions the plugin has been told of, by view
    revs: BTreeMap<String, (u64, u64)>,
}

impl Run<'_> {
    fn hear(&mut self) -> Res {
        for (m, p) in self.c.take_log() {
            let Some(id) = p.get("view_id").and_then(|x| x.as_str()) else { continue };
            let Some(f) = self.f.iter_mut().find(|f| f.id == id) else { return Err(format!("{} for the view {}, which nobody opened", m, id)) };
            ensure!(f.open, "{} for the closed view {}", m, id);
            if m == "update" {
                f.mirror.apply(&p["update"])?;
            }
        }
        for p in self.ps.iter_mut() {
            for (m, q) in p.take_log() {
                if m == "update" {
                    if let (Some(id), Some(rev)) = (q["view_id"].as_str(), q["rev"].as_u64()) {
                        let e = self.revs.entry(id.to_string()).or_insert((rev, rev));
                        if e.0 != rev {
                            *e = (rev, e.0);
                        }
                    }
                } else if m == "new_buffer" {
                    for b in q["buffer_info"].as_array().unwrap() {
                        let rev = b["rev"].as_u64().unwrap();
                        for w in b["views"].as_array().unwrap() {
                            self.revs.insert(w.as_str().unwrap().to_string(), (rev, rev));
                        }
                    }
                }
            }
        }
        Ok(())
    }
    fn open(&mut self) -> Result<usize, String> {
        let id = self.c.new_view(None).map_err(|e| format!("new_view failed: {}", e))?;
        ensure!(!self.f.iter().any(|f| f.id == id), "the id {} was given twice", id);
        self.f.push(F { id, mirror: Mirror::default(), text: String::new(), open: true, ready: false });
        Ok(self.f.len() - 1)
    }
    fn contents(&mut self, id: &str) -> Result<Value, Value> {
        self.c.request("debug_get_contents", json!({ "view_id": id }))
    }
    /// Sends a message about the view `id`.
    fn send(&mut self, x: &Msg, id: &str) -> Result<Option<Result<Value, Value>>, String> {
        let (rev, old) = self.revs.get(id).copied().unwrap_or((0, 0));
        let len = self.f.iter().find(|f| f.id == id).map(|f| f.text.len()).unwrap_or(4);
        let p = fill(&x.params, id, rev, old, len);
        Ok(match x.kind {
            K::Edit => {
                self.c.edit(id, x.method, p);
                None
            }
            K::Ask => Some(self.c.edit_sync(id, x.method)),
            K::Note => {
                self.c.notify(x.method, p);
                None
            }
            K::Req => Some(self.c.request(x.method, p)),
            K::PNote => {
                self.ps[0].notify(id, x.method, p)?;
                None
            }
            K::PReq => Some(self.ps[0].request(id, x.method, p)),
        })
    }
    /// The texts are as they should be; `except` may have changed.
    fn texts(&mut self, except: Option<usize>) -> Res {
        for k in 0..self.f.len() {
            let id = self.f[k].id.clone();
            match (self.contents(&id), self.f[k].open) {
                (Ok(Value::String(s)), true) => {
                    if Some(k) == except {
                        self.f[k].text = s;
                    } else {
                        ensure_eq!(s, self.f[k].text, "text of another view, or after a message that is no edit");
                    }
                }
                (Err(e), false) => ensure_eq!(e["code"], 404, "error for a closed view"),
                (r, open) => return Err(format!("asked for the contents of a view (open={}) the core answers {:?}", open, r)),
            }
        }
        Ok(())
    }
    /// Lets all work finish; then what the front-end shows must be the text, and everything must still work.
    fn finish(&mut self) -> Res {
        self.c.peer.0.lock().unwrap().bad_width = 0;
        for _ in 0..3 {
            for p in self.ps.iter_mut() {
                while p.ack() {}
            }
            self.c.settle();
            self.hear()?;
        }
        for k in 0..self.f.len() {
            if !self.f[k].open {
                continue;
            }
            let id = self.f[k].id.clone();
            self.c.edit(&id, "request_lines", json!([0, 10_000]));
            self.c.settle();
            self.hear()?;
            self.texts(None)?;
            ensure_eq!(self.f[k].mirror.text(), self.f[k].text, "what the front-end shows");
            for l in self.f[k].mirror.lines.iter().flatten() {
                let mut at = 0i64;
                for t in l.styles.chunks(3) {
                    ensure!(t.len() == 3, "styles {:?}", l.styles);
                    let (s, e) = (at + t[0], at + t[0] + t[1]);
                    ensure!(s >= at && e >= s && e <= l.text.len() as i64, "styles {:?} of line {:?}", l.styles, l.text);
                    ensure!(l.text.is_char_boundary(s as usize) && l.text.is_char_boundary(e as usize), "styles {:?} of line {:?} split a character", l.styles, l.text);
                    at = e;
                }
            }
            self.c.edit(&id, "move_to_beginning_of_document", Value::Null);
            self.c.edit(&id, "insert", json!({"chars": "z"}));
            let t = self.f[k].text.clone();
            self.texts(Some(k))?;
            ensure_eq!(self.f[k].text, format!("z{}", t), "text after a letter was typed");
        }
        for k in 0..self.f.len() {
            if self.f[k].open {
                let id = self.f[k].id.clone();
                self.c.close(&id);
                self.f[k].open = false;
            }
        }
        for p in self.ps.iter_mut() {
            while p.ack() {}
        }
        self.c.settle();
        self.c.take_log();
        self.texts(None)
    }
}

/// Two views; `texts` typed into them.
fn begin<'a>(c: &'a mut Core, ps: &'a mut Vec<FakePlugin>, texts: [&str; 2]) -> Result<Run<'a>, String> {
    let mut r = Run { c, ps, f: vec![], revs: BTreeMap::new() };
    for t in texts {
        let k = r.open()?;
        r.c.settle();
        let id = r.f[k].id.clone();
        r.c.edit(&id, "insert", json!({ "chars": t }));
        r.c.settle();
        r.hear()?;
        while r.ps.iter_mut().any(|p| p.ack()) {}
        r.texts(Some(k))?;
    }
    Ok(r)
}

/// Sequences of messages, each for the first view, the second one, one that is closed, or one that never was.
fn messages(ch: &mut Ch, sets: &[&[Msg]], idle: bool, one: bool) -> Res {
    pooled(|c, ps| {
        let mut r = begin(c, ps, ["aé\n", "b"])?;
        for set in sets {
            let k = ch.pick(set.len());
            let x = &set[k];
            let to = if one { 0 } else { ch.pick(4) };
            let id = match to {
                0 | 1 => r.f[to].id.clone(),
                2 => {
                    // close the second view first
                    if r.f[1].open {
                        let id = r.f[1].id.clone();
                        r.c.close(&id);
                        r.hear_before_close(1)?;
                    }
                    r.f[1].id.clone()
                }
                _ => "view-id-999999".to_string(),
            };
            ch.log(|| format!("{} {} to view {}", x.method, x.params, ["A", "B", "B, closed", "none"][to]));
            ch.step();
            let alive = to == 0 || to == 1 && r.f[1].open;
            // one of the edits of a plugin fits some texts
            let fits = alive && x.kind == K::PNote && x.method == "edit" && (r.f[to].text.is_char_boundary(2) || x.params["edit"]["rev"] == "$old");
            let a = r.send(x, &id)?;
            r.hear()?;
            match (x.kind, &a) {
                (K::Ask, Some(Err(e))) | (K::PReq, Some(Err(e))) => {
                    ensure!(!alive || x.kind == K::PReq, "{} is refused: {}", x.method, e);
                    if !alive {
                        ensure_eq!(e["code"], 404, "error for a view that does not exist");
                    }
                }
                (K::Ask, Some(Ok(v))) | (K::PReq, Some(Ok(v))) => ensure!(alive, "{} of a view that does not exist is answered by {}", x.method, v),
                (K::Req, Some(v)) if x.method != "new_view" => ensure!(v.is_ok() == alive, "{} is answered by {:?}", x.method, v),
                (K::Req, Some(v)) => ensure!(v.is_err(), "new_view of {} succeeds", x.params),
                _ => {}
            }
            r.texts(if x.kind == K::Edit || x.kind == K::Ask || fits { Some(to).filter(|_| alive) } else { None })?;
            if idle && ch.flip() {
                ch.log(|| "idle".into());
                r.c.settle();
                r.hear()?;
                r.texts(None)?;
            }
            ch.nontrivial();
        }
        let snap: Vec<(String, bool)> = r.f.iter().map(|f| (f.text.clone(), f.open)).collect();
        ch.state(&snap);
        r.finish()
    })
}
impl Run<'_> {
    fn hear_before_close(&mut self, k: usize) -> Res {
        self.hear()?;
        self.f[k].open = false;
        Ok(())
    }
}

/// Front-ends that measure badly, for a while.
fn widths(ch: &mut Ch, depth: usize) -> Res {
    thread_local! { static WORD: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }
    // words that were never measured before
    let fresh = || {
        WORD.with(|w| {
            w.set(w.get() + 1);
            format!("{:06}", w.get())
        })
    };
    pooled(|c, ps| {
        let mut r = begin(c, ps, ["", ""])?;
        let id = r.f[0].id.clone();
        r.c.notify("modify_user_config", json!({"domain": {"user_override": id}, "changes": {"word_wrap": true}}));
        r.c.edit(&id, "resize", json!({"width": 120, "height": 100}));
        r.c.settle();
        r.hear()?;
        for _ in 0..depth {
            let k = ch.pick(4 + 10);
            ch.step();
            let k = match k {
                0 => {
                    let t = format!("{} {} {}\n{} ", fresh(), fresh(), fresh(), fresh());
                    ch.log(|| "words typed".into());
                    r.c.edit(&id, "insert", json!({ "chars": t }));
                    r.texts(Some(0))?;
                    continue;
                }
                1 | 2 => {
                    ch.log(|| format!("width {}", k * 60));
                    r.c.edit(&id, "resize", json!({"width": k * 60, "height": 100}));
                    continue;
                }
                3 => {
                    ch.log(|| "idle".into());
                    r.c.settle();
                    r.hear()?;
                    continue;
                }
                13 => 10,
                _ => k - 4,
            };
            ch.log(|| format!("measuring in way {}", k));
            r.c.peer.0.lock().unwrap().bad_width = k;
            ch.nontrivial();
        }
        r.texts(None)?;
        r.c.settle();
        r.hear()?;
        // now measured well; what was not measured must not count as known
        let bad = r.c.peer.0.lock().unwrap().bad_width;
        r.c.peer.0.lock().unwrap().bad_width = 0;
        ch.state(&(bad, r.f[0].text.len()));
        r.c.edit(&id, "resize", json!({"width": 59, "height": 100}));
        r.c.settle();
        r.c.edit(&id, "request_lines", json!([0, 100]));
        r.c.settle();
        r.hear()?;
        let shown: Vec<String> = r.f[0].mirror.lines.iter().map(|l| l.as_ref().map(|l| l.text.clone()).unwrap_or("?".into())).collect();
        ensure_eq!(shown.concat(), r.f[0].text, "what the front-end shows");
        // every word is 7 units of 8 wide, so that one fits a line; answers 9 and 10 are bad only in their values
        let want: Vec<String> = r.f[0].text.split_inclusive(|c| c == ' ' || c == '\n').map(|s| s.to_string()).collect();
        ensure!(shown.iter().filter(|l| !l.is_empty()).cloned().collect::<Vec<_>>() == want, "lines {:?}, expected {:?}", shown, want);
        r.finish()
    })
}

// ---- C30 ----

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Stage {
    Live,
    /// told to shut down, or ended by itself
    Gone,
}

struct P {
    plugin: FakePlugin,
    name: String,
    stage: Stage,
    known: BTreeSet<String>,
    forgotten: BTreeSet<String>,
    initialized: bool,
}

struct Life {
    c: Core,
    views: Vec<F>,
    ps: Vec<P>,
    /// (view, plugin) pairs the front-end believes to be running
    started: BTreeSet<(String, String)>,
    configured: BTreeSet<String>,
}

impl Life {
    fn hear(&mut self) -> Res {
        for (m, q) in self.c.take_log() {
            let Some(id) = q.get("view_id").and_then(|x| x.as_str()).map(|s| s.to_string()) else { continue };
            let Some(f) = self.views.iter_mut().find(|f| f.id == id) else { return Err(format!("{} for the view {}, which nobody opened", m, id)) };
            ensure!(f.open, "{} for the closed view {}", m, id);
            match m.as_str() {
                "update" => f.mirror.apply(&q["update"])?,
                "config_changed" => {
                    self.configured.insert(id);
                }
                "plugin_started" => {
                    let n = q["plugin"].as_str().or(q["plugin_name"].as_str()).ok_or("plugin_started without a name")?.to_string();
                    ensure!(self.ps.iter().any(|p| p.name == n && p.stage == Stage::Live), "plugin {} is reported as started, it is not running", n);
                    ensure!(self.started.insert((id.clone(), n.clone())), "plugin {} is reported as started twice for {}", n, id);
                }
                "plugin_stopped" => {
                    let n = q["plugin"].as_str().or(q["plugin_name"].as_str()).ok_or("plugin_stopped without a name")?.to_string();
                    ensure!(self.ps.iter().any(|p| p.name == n && p.stage == Stage::Gone), "plugin {} is reported as stopped, it was not", n);
                    ensure!(self.started.remove(&(id.clone(), n.clone())), "plugin {} is reported as stopped for {}, it was not running there", n, id);
                }
                _ => {}
            }
        }
        for p in &mut self.ps {
            for (m, q) in p.plugin.take_log() {
                let id = q.get("view_id").and_then(|x| x.as_str()).unwrap_or("").to_string();
                if p.stage == Stage::Gone {
                    return Err(format!("{} {} to the plugin {}, which has ended", m, q, p.name));
                }
                match m.as_str() {
                    "initialize" | "new_buffer" => {
                        ensure!(p.initialized != (m == "initialize"), "{} to the plugin {}, initialized={}", m, p.name, p.initialized);
                        p.initialized = true;
                        for b in q["buffer_info"].as_array().ok_or("no buffer_info")? {
                            for v in b["views"].as_array().ok_or("no views")? {
                                let v = v.as_str().unwrap().to_string();
                                let f = self.views.iter().find(|f| f.id == v && f.open).ok_or(format!("plugin is told of the view {}, which is not open", v))?;
                                ensure_eq!(b["buf_size"].as_u64().unwrap() as usize, f.text.len(), "size of the buffer a plugin is told of");
                                ensure_eq!(b["nb_lines"].as_u64().unwrap() as usize, f.text.matches('\n').count() + 1, "lines of the buffer a plugin is told of");
                                ensure!(b["config"].is_object() && b["syntax"].is_string(), "buffer info {}", b);
                                ensure!(!p.forgotten.contains(&v), "plugin {} is told of {} after that was closed", p.name, v);
                                ensure!(p.known.insert(v.clone()), "plugin {} is told of {} twice", p.name, v);
                            }
                        }
                    }
                    "did_close" => {
                        ensure!(p.known.remove(&id), "plugin {} is told that {} was closed, it did not know of it", p.name, id);
                        p.forgotten.insert(id);
                    }
                    "ping" => {}
                    _ => {
                        ensure!(p.initialized, "{} to the plugin {} before it was initialized", m, p.name);
                        if !id.is_empty() {
                            ensure!(p.known.contains(&id), "{} to the plugin {} about the view {}, which it does not know", m, p.name, id);
                        }
                    }
                }
            }
        }
        Ok(())
    }
    /// Sent to plugins that are about to end.
    fn hear_ending(&mut self, k: usize) -> Res {
        let log = self.ps[k].plugin.take_log();
        let n = log.iter().filter(|x| x.0 == "shutdown").count();
        ensure_eq!(n, 1, "messages asking the plugin to shut down");
        ensure!(log.last().unwrap().0 == "shutdown", "messages to a plugin after it was asked to shut down");
        self.ps[k].stage = Stage::Gone;
        self.hear()
    }
}

fn life(ch: &mut Ch, first: bool, rich: bool, depth: usize) -> Res {
    let mut l = Life { c: Core::new(json!({})), views: vec![], ps: vec![], started: Default::default(), configured: Default::default() };
    l.c.settle();
    l.c.take_log();
    let connect = |l: &mut Life| {
        let n = NEXT.with(|n| {
            n.set(n.get() + 1);
            n.get()
        });
        let name = format!("p{}", l.ps.len());
        let plugin = l.c.connect_plugin(&name, n);
        l.ps.push(P { plugin, name, stage: Stage::Live, known: Default::default(), forgotten: Default::default(), initialized: false });
    };
    if first {
        connect(&mut l);
        l.hear()?;
    }
    #[derive(Clone, Copy, Debug)]
    enum Op {
        New,
        Close(usize),
        Type(usize),
        Lang(usize),
        Config(usize),
        Idle,
        Timer,
        Connect,
        Stop(usize),
        Exit(usize),
        Ack(usize),
        Fail(usize),
        Rpc(usize, usize),
        Late(usize, usize),
    }
    for _ in 0..depth {
        let mut ops = vec![];
        if l.views.len() < 3 && l.views.iter().filter(|f| f.open).count() < 2 {
            ops.push(Op::New);
        }
        for (k, f) in l.views.iter().enumerate() {
            if f.open {
                ops.extend([Op::Close(k), Op::Type(k)]);
                if rich {
                    ops.extend([Op::Lang(k), Op::Config(k)]);
                }
            }
        }
        if !l.c.peer.0.lock().unwrap().idle.is_empty() {
            ops.push(Op::Idle);
        }
        if !l.c.peer.0.lock().unwrap().timers.is_empty() {
            ops.push(Op::Timer);
        }
        if l.ps.len() < 2 {
            ops.push(Op::Connect);
        }
        for (k, p) in l.ps.iter().enumerate() {
            if p.stage == Stage::Live {
                ops.push(Op::Stop(k));
                if !rich {
                    continue;
                }
                ops.push(Op::Exit(k));
                if p.plugin.pending() > 0 {
                    ops.extend([Op::Ack(k), Op::Fail(k)]);
                }
                for v in 0..l.views.len() {
                    if l.views[v].open {
                        ops.push(Op::Rpc(k, v));
                    }
                }
            } else if rich {
                for v in 0..l.views.len() {
                    ops.push(Op::Late(k, v));
                }
            }
        }
        let op = *ch.of(&ops);
        ch.log(|| format!("{:?}", op));
        ch.step();
        match op {
            Op::New => {
                let id = l.c.new_view(None).map_err(|e| format!("new_view failed: {}", e))?;
                ensure!(!l.views.iter().any(|f| f.id == id), "the id {} was given twice", id);
                l.views.push(F { id, mirror: Mirror::default(), text: String::new(), open: true, ready: false });
            }
            Op::Close(k) => {
                let id = l.views[k].id.clone();
                l.hear()?;
                l.c.close(&id);
                l.views[k].open = false;
                l.started.retain(|x| x.0 != id);
            }
            Op::Type(k) => {
                let id = l.views[k].id.clone();
                l.c.edit(&id, "insert", json!({"chars": "x\n"}));
                l.views[k].text.push_str("x\n");
            }
            Op::Lang(k) => {
                let id = l.views[k].id.clone();
                l.c.notify("set_language", json!({"view_id": id, "language_id": "Nope"}));
            }
            Op::Config(k) => {
                let id = l.views[k].id.clone();
                let n = l.views[k].text.len() + 5;
                l.c.notify("modify_user_config", json!({"domain": {"user_override": id}, "changes": {"tab_size": n}}));
            }
            Op::Idle => {
                l.c.idle_one();
            }
            Op::Timer => {
                l.c.timer_one();
            }
            Op::Connect => connect(&mut l),
            Op::Stop(k) => {
                l.hear()?;
                let v = l.views.first().map(|f| f.id.clone()).unwrap_or("view-id-77".into());
                let n = l.ps[k].name.clone();
                l.c.notify("plugin", json!({"command": "stop", "view_id": v, "plugin_name": n}));
                l.hear_ending(k)?;
            }
            Op::Exit(k) => {
                l.hear()?;
                l.ps[k].stage = Stage::Gone;
                l.ps[k].plugin.exit();
            }
            Op::Ack(k) => {
                l.ps[k].plugin.ack();
            }
            Op::Fail(k) => {
                l.ps[k].plugin.ack_with(ch.flip());
            }
            Op::Rpc(k, v) => {
                l.hear()?;
                let (id, n) = (l.views[v].id.clone(), l.ps[k].name.clone());
                let known = l.ps[k].known.contains(&id);
                l.c.notify("plugin", json!({"command": "plugin_rpc", "view_id": id, "receiver": n, "rpc": {"method": "m", "params": {}, "rpc_type": "notification"}}));
                if known {
                    let log = l.ps[k].plugin.take_log();
                    ensure!(log.len() == 1 && log[0].0 == "custom_command" && log[0].1["view_id"] == id.as_str() && log[0].1["method"] == "m", "a command for the plugin arrived as {:?}", log);
                    ch.nontrivial();
                } else {
                    l.ps[k].plugin.take_log();
                }
            }
            Op::Late(k, v) => {
                let id = l.views[v].id.clone();
                l.ps[k].plugin.notify(&id, "add_status_item", json!({"key": "k", "value": "v", "alignment": "left"}))?;
                let r = l.ps[k].plugin.request(&id, "line_count", json!({}));
                ensure!(r.is_err(), "a plugin that has ended is answered {:?}", r);
            }
        }
        l.hear()?;
        let sig: Vec<(bool, usize, bool)> = l.views.iter().map(|f| (f.open, f.text.len(), f.mirror.updates > 0)).collect();
        let psig: Vec<(bool, usize, usize)> = l.ps.iter().map(|p| (p.stage == Stage::Live, p.known.len(), p.plugin.pending())).collect();
        let w = { let i = l.c.peer.0.lock().unwrap(); (i.idle.len(), i.timers.len()) };
        ch.state(&(sig, psig, w));
        for f in &l.views {
            match l.c.request("debug_get_contents", json!({"view_id": f.id})) {
                Ok(v) => {
                    ensure!(f.open, "the closed view {} has contents", f.id);
                    ensure_eq!(v, json!(f.text), "text");
                }
                Err(e) => {
                    ensure!(!f.open, "the view {} has no contents: {}", f.id, e);
                    ensure_eq!(e["code"], 404, "error for a closed view");
                }
            }
        }
    }
    l.c.settle();
    l.hear()?;
    let open: BTreeSet<String> = l.views.iter().filter(|f| f.open).map(|f| f.id.clone()).collect();
    for p in l.ps.iter().filter(|p| p.stage == Stage::Live) {
        ensure_eq!(p.known, open, "views the plugin {} knows", p.name);
        ch.nontrivial();
    }
    let want: BTreeSet<(String, String)> = l.ps.iter().filter(|p| p.stage == Stage::Live).flat_map(|p| open.iter().map(move |v| (v.clone(), p.name.clone()))).collect();
    ensure_eq!(l.started, want, "plugins the front-end believes to be running");
    for f in l.views.iter().filter(|f| f.open) {
        ensure!(l.configured.contains(&f.id), "the front-end was never told the configuration of {}", f.id);
        ensure_eq!(f.mirror.text(), f.text, "what the front-end shows");
    }
    Ok(())
}

pub fn run30() -> ! {
    let k = is_thorough() as usize;
    mccommon::run(
        Opts { property: "C30".into(), level: "model_checking".into(), assumptions: vec![], single_thread: false },
        vec![
            section("from nothing", "every sequence of 5 (thorough: 6) of: open, close, type into, set the language or a setting of a view, one idle callback, one timer, connect, stop, exit of a plugin, a plugin acknowledging well or badly, a command for a plugin, a late message", move |ch| life(ch, false, true, 5 + k)),
            section("with a plugin", "the same with a plugin connected at the start", move |ch| life(ch, true, true, 5 + k)),
            section("longer", "every sequence of 7 (thorough: 8) of: open, close, type, idle, timer, connect, stop", move |ch| life(ch, false, false, 7 + k)),
        ],
    )
}

pub fn run29() -> ! {
    thread_local! {
        static E: &'static [Msg] = Box::leak(edits_plain().into_boxed_slice());
        static F: &'static [Msg] = Box::leak(edits_plain().into_iter().filter(|m| ["insert", "insert_tab", "insert_newline", "undo", "delete_backward", "indent", "outdent", "reindent", "duplicate_line", "select_all"].contains(&m.method)).collect::<Vec<_>>().into_boxed_slice());
        static N: &'static [Msg] = Box::leak(notes().into_boxed_slice());
        static P: &'static [Msg] = Box::leak(plugin_notes().into_iter().chain(plugin_asks()).collect::<Vec<_>>().into_boxed_slice());
        static ALL: &'static [Msg] = Box::leak(edits_plain().into_iter().chain(notes()).chain(plugin_notes()).chain(plugin_asks()).collect::<Vec<_>>().into_boxed_slice());
    }
    // everything that is saved or opened lies in a directory of our own
    std::fs::create_dir_all(format!("{}/dir", scratch())).expect("ENGINE: scratch");
    std::env::set_current_dir(format!("{}/dir", scratch())).expect("ENGINE: scratch");
    mccommon::run(
        Opts { property: "C29".into(), level: "model_checking".into(), assumptions: vec![], single_thread: false },
        vec![
            section("one", "every message", |ch| messages(ch, &[ALL.with(|x| *x)], true, false)),
            section("config, edit", "every setting, then every command", |ch| messages(ch, &[N.with(|x| *x), E.with(|x| *x)], true, false)),
            section("plugin, plugin", "every two messages of a plugin", |ch| messages(ch, &[P.with(|x| *x), P.with(|x| *x)], false, false)),
            section("any two", "every two messages to one view", |ch| messages(ch, &[ALL.with(|x| *x), ALL.with(|x| *x)], false, true)),
            section("three", "every setting, command and command for one view (thorough; quick: every setting, then every two of 12 commands)", move |ch| {
                let e = E.with(|x| *x);
                let few: &[Msg] = if is_thorough() { e } else { F.with(|x| *x) };
                messages(ch, &[N.with(|x| *x), few, few], false, true)
            }),
            section("widths", "every sequence of 3 (thorough: 4) of words typed, two widths, idle work and nine wrong ways to answer requests to measure", move |ch| widths(ch, 3 + is_thorough() as usize)),
            section("edit, plugin", "every command, then every message of a plugin", |ch| messages(ch, &[E.with(|x| *x), P.with(|x| *x)], false, false)),
        ],
    )
}
