//! C25: edits by plugins, made against any text they may still be looking at, merged with those of the user.
use crate::drv::{Core, FakePlugin};
use crate::model::*;
use mccommon::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use xi_rope::{Rope, RopeDelta};

thread_local! {
    static POOL: RefCell<BTreeMap<usize, (Core, Vec<FakePlugin>)>> = const { RefCell::new(BTreeMap::new()) };
}

/// Runs `f` on a core of this thread that has `n` plugins connected; it is kept unless the execution fails.
pub fn with_plugins(n: usize, f: impl FnOnce(&mut Core, &mut Vec<FakePlugin>) -> Res) -> Res {
    let (mut c, mut p) = POOL.with(|p| p.borrow_mut().remove(&n)).unwrap_or_else(|| {
        let mut c = Core::new(json!({}));
        c.settle();
        let p = (0..n).map(|i| c.connect_plugin(&format!("plugin{}", i + 1), i as u64 + 1)).collect();
        c.settle();
        c.take_log();
        (c, p)
    });
    let r = f(&mut c, &mut p);
    if r.is_ok() {
        for x in &mut p {
            while x.ack() {}
            x.take_log();
        }
        c.settle();
        c.take_log();
        POOL.with(|q| q.borrow_mut().insert(n, (c, p)));
    }
    r
}

/// A character that was inserted at some time.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
struct El {
    id: usize,
    c: char,
    group: usize,
    dels: BTreeSet<usize>,
}
/// One possible order of all characters that ever were.
type Union = Vec<El>;

/// All orders that are consistent with what was seen, and the undo stack.
#[derive(Clone)]
pub struct Doc {
    unions: BTreeSet<Union>,
    next_id: usize,
    undone: BTreeSet<usize>,
    live: Vec<usize>,
    cur: usize,
    next_group: usize,
    /// the texts (as ids) a plugin may refer to
    pub revs: Vec<(u64, Vec<usize>, Option<usize>)>,
}

impl Doc {
    fn new(text: &str) -> Doc {
        let u: Union = text.chars().enumerate().map(|(i, c)| El { id: i, c, group: 1, dels: BTreeSet::new() }).collect();
        if text.is_empty() {
            return Doc { next_id: 0, unions: [u].into(), undone: BTreeSet::new(), live: vec![0], cur: 1, next_group: 1, revs: vec![] };
        }
        Doc { next_id: u.len(), unions: [u].into(), undone: BTreeSet::new(), live: vec![0, 1], cur: 2, next_group: 2, revs: vec![] }
    }
    fn gone(&self, e: &El) -> bool {
        self.undone.contains(&e.group) || e.dels.iter().any(|g| !self.undone.contains(g))
    }
    fn ids(&self, u: &Union) -> Vec<usize> {
        u.iter().filter(|e| !self.gone(e)).map(|e| e.id).collect()
    }
    fn text(&self, u: &Union) -> String {
        u.iter().filter(|e| !self.gone(e)).map(|e| e.c).collect()
    }
    fn new_group(&mut self) -> usize {
        self.live.truncate(self.cur);
        let g = self.next_group;
        self.next_group += 1;
        self.live.push(g);
        if self.live.len() <= 20 {
            self.cur += 1;
        } else {
            self.live.remove(0);
        }
        g
    }
    /// The number of the group as the core knows it.
    fn known(&self, g: usize) -> usize {
        g
    }
    /// Applies an edit of the text `base`: replaces [a, b) by `s`.
    fn edit(&mut self, base: &[usize], a: usize, b: usize, s: &str, group: usize) {
        let mut next = BTreeSet::new();
        for u in &self.unions {
            let pos = |id: usize| u.iter().position(|e| e.id == id).unwrap();
            let mut w = u.clone();
            for id in &base[a..b] {
                w[pos(*id)].dels.insert(group);
            }
            if s.is_empty() {
                next.insert(w);
                continue;
            }
            // what is inserted goes between the neighbours it had in `base`; deleting does not move the place
            let lo = if a == 0 { 0 } else { pos(base[a - 1]) + 1 };
            let hi = if b == base.len() { u.len() } else { pos(base[b]) };
            for at in lo..=hi {
                let mut x = w.clone();
                for (k, c) in s.chars().enumerate() {
                    x.insert(at + k, El { id: self.next_id + k, c, group, dels: BTreeSet::new() });
                }
                next.insert(x);
            }
        }
        self.next_id += s.chars().count();
        self.unions = next;
    }
    fn observe(&mut self, text: &str) -> Res {
        let before: Vec<String> = self.unions.iter().map(|u| self.text(u)).collect::<BTreeSet<_>>().into_iter().collect();
        let keep: BTreeSet<Union> = self.unions.iter().filter(|u| self.text(u) == text).cloned().collect();
        ensure!(!keep.is_empty(), "the text is {:?}, it can only be one of {:?}", text, before);
        self.unions = keep;
        Ok(())
    }
}

struct Replica {
    text: Rope,
    rev: u64,
    /// revisions (indices into `Doc::revs`) that were sent and not acknowledged
    open: Vec<usize>,
    /// the latest acknowledged one
    at: usize,
}

struct Run<'a> {
    c: &'a mut Core,
    ps: &'a mut Vec<FakePlugin>,
    v: V,
    doc: Doc,
    reps: Vec<Replica>,
}

fn ids_now(d: &Doc) -> Vec<usize> {
    d.ids(d.unions.iter().next().unwrap())
}

impl Run<'_> {
    fn cmd(&mut self, m: &str, p: Value) -> Res {
        self.v.cmd(self.c, m, p)
    }
    /// Takes the updates the plugins were sent and applies them to their copies of the text.
    fn deliver(&mut self, author: &str) -> Res {
        let text = self.v.text(self.c);
        let mut pushed: Option<u64> = None;
        for k in 0..self.ps.len() {
            for (m, p) in self.ps[k].take_log() {
                if m != "update" || p["view_id"] != self.v.id.as_str() {
                    continue;
                }
                let d: Option<RopeDelta> = serde_json::from_value(p["delta"].clone()).map_err(|e| e.to_string())?;
                let d = d.ok_or("an update of a small edit without the edit")?;
                let r = &mut self.reps[k];
                ensure!(d.base_len == r.text.len(), "plugin {}: an edit of a text of {} bytes, it has {}", k, d.base_len, r.text.len());
                r.text = d.apply(&r.text);
                r.rev = p["rev"].as_u64().unwrap();
                ensure_eq!(p["new_len"].as_u64().unwrap() as usize, r.text.len(), "new_len");
                ensure_eq!(p["new_line_count"].as_u64().unwrap() as usize, String::from(&r.text).matches('\n').count() + 1, "new_line_count");
                ensure_eq!(p["author"].as_str().unwrap(), author, "author of an update");
                if pushed != Some(r.rev) {
                    ensure!(pushed.is_none(), "two updates for one edit");
                    pushed = Some(r.rev);
                    let ids = ids_now(&self.doc);
                    self.doc.revs.push((r.rev, ids, p["undo_group"].as_u64().map(|g| g as usize)));
                }
                r.open.push(self.doc.revs.len() - 1);
            }
            ensure_eq!(String::from(&self.reps[k].text), text, "the text plugin {} put together from its updates", k);
        }
        Ok(())
    }
    fn check(&mut self, author: &str) -> Res {
        let text = self.v.text(self.c);
        self.doc.observe(&text)?;
        self.deliver(author)?;
        ensure_eq!(self.v.mirror.text(), text, "the text the front-end has");
        for k in 0..self.ps.len() {
            // every text the plugin may still refer to
            let mut open = self.reps[k].open.clone();
            open.push(self.reps[k].at);
            for r in open {
                let (rev, ids, _) = self.doc.revs[r].clone();
                let u = self.doc.unions.iter().next().unwrap();
                let want: String = ids.iter().map(|i| u.iter().find(|e| e.id == *i).unwrap().c).collect();
                let id = self.v.id.clone();
                let d = self.ps[k].request(&id, "get_data", json!({"start": 0, "unit": "utf8", "max_size": 1000, "rev": rev})).map_err(|e| e.to_string())?;
                ensure!(!d.is_null(), "revision {} of {} is not available to plugin {}", r, self.doc.revs.len(), k);
                ensure_eq!(d["chunk"].as_str().unwrap(), want, "text of revision {} of {}", r, self.doc.revs.len());
            }
        }
        Ok(())
    }
    fn user(&mut self, a: usize, b: usize, s: &str) -> Res {
        let text = self.v.text(self.c);
        self.v.select(self.c, &text, &[(a, b)])?;
        if s.is_empty() {
            self.cmd("delete_backward", Value::Null)?;
        } else {
            self.cmd("insert", json!({ "chars": s }))?;
        }
        let g = self.doc.new_group();
        let base = ids_now(&self.doc);
        self.doc.edit(&base, a, b, s, g);
        self.check("core")?;
        let at = self.v.selection(&self.v.text(self.c))?;
        ensure_eq!(at, vec![(a + s.len(), a + s.len())], "caret after the user's edit");
        Ok(())
    }
    fn undo(&mut self, redo: bool) -> Res {
        if redo {
            if self.doc.cur < self.doc.live.len() {
                let g = self.doc.live[self.doc.cur];
                self.doc.undone.remove(&g);
                self.doc.cur += 1;
            }
        } else if self.doc.cur > 1 {
            self.doc.cur -= 1;
            let g = self.doc.live[self.doc.cur];
            self.doc.undone.insert(g);
        }
        self.cmd(if redo { "redo" } else { "undo" }, Value::Null)?;
        self.check("core")
    }
    fn plugin(&mut self, k: usize, rev: usize, a: usize, b: usize, s: &str, priority: u64, joined: bool) -> Res {
        let (token, base, group) = self.doc.revs[rev].clone();
        let mut els = vec![];
        if a > 0 {
            els.push(json!({"copy": [0, a]}));
        }
        if !s.is_empty() {
            els.push(json!({ "insert": s }));
        }
        if b < base.len() {
            els.push(json!({"copy": [b, base.len()]}));
        }
        let group = if joined { group } else { None };
        let before = self.v.text(self.c);
        let old = ids_now(&self.doc);
        let caret = self.v.selection(&before)?;
        let latest = rev == self.doc.revs.len() - 1;
        let id = self.v.id.clone();
        self.ps[k].notify(&id, "edit", json!({"edit": {"rev": token, "delta": {"els": els, "base_len": base.len()},
            "priority": priority, "after_cursor": false, "undo_group": group, "author": "p"}}))?;
        self.c.settle();
        self.v.sync(self.c)?;
        let g = match group {
            Some(g) => g,
            None => self.doc.new_group(),
        };
        let g = self.doc.known(g);
        let first = self.doc.next_id;
        self.doc.edit(&base, a, b, s, g);
        self.check(&format!("plugin-{}", k + 1))?;
        if latest {
            // nothing came in between
            let now = self.v.text(self.c);
            ensure_eq!(now, format!("{}{}{}", &before[..a], s, &before[b..]), "an edit of the latest text");
        }
        // what was selected stays so
        if caret.len() == 1 {
            let now = ids_now(&self.doc);
            let (x, y) = caret[0];
            let sel = self.v.selection(&self.v.text(self.c))?;
            ensure!(sel.len() == 1, "the selection became {:?}", sel);
            for (i, id) in now.iter().enumerate() {
                if *id >= first {
                    continue;
                }
                if let Some(j) = old.iter().position(|o| o == id) {
                    ensure!((j < x) == (i < sel[0].0), "the caret moved over a character: {:?} in {:?} became {:?} in {:?}", caret, before, sel, self.v.text(self.c));
                    ensure!((j < y) == (i < sel[0].1), "the caret moved over a character: {:?} in {:?} became {:?} in {:?}", caret, before, sel, self.v.text(self.c));
                }
            }
        }
        Ok(())
    }
    /// Edits that cannot be applied change nothing, the undo steps included.
    fn refused(&mut self, k: usize, how: usize) -> Res {
        let (token, base, _) = self.doc.revs.last().unwrap().clone();
        let n = base.len();
        let e = match how {
            0 => json!({"rev": 12345, "delta": {"els": [{"insert": "?"}], "base_len": n}}),
            _ => json!({"rev": token, "delta": {"els": [{"copy": [0, n + 1]}, {"insert": "?"}], "base_len": n + 1}}),
        };
        let mut e = e;
        e["priority"] = json!(1);
        e["after_cursor"] = json!(false);
        e["undo_group"] = Value::Null;
        e["author"] = json!("p");
        let id = self.v.id.clone();
        self.ps[k].notify(&id, "edit", json!({ "edit": e }))?;
        self.c.settle();
        self.v.sync(self.c)?;
        self.check("core")
    }
    fn ack(&mut self, k: usize) {
        if !self.reps[k].open.is_empty() {
            let r = self.reps[k].open.remove(0);
            self.reps[k].at = r;
            self.ps[k].ack();
        }
    }
    fn may_use(&self, k: usize) -> Vec<usize> {
        let mut v = vec![self.reps[k].at];
        v.extend(&self.reps[k].open);
        v
    }
}

pub fn start<'a>(c: &'a mut Core, ps: &'a mut Vec<FakePlugin>, text: &str) -> Result<V, String> {
    let v = V::open(c, text)?;
    for p in ps.iter_mut() {
        while p.ack() {}
    }
    Ok(v)
}

fn history(ch: &mut Ch, texts: &[&str], plugins: usize, n: usize, rich: bool, old: usize) -> Res {
    let text = *ch.of(texts);
    with_plugins(plugins, |c, ps| {
        let v = start(c, ps, text)?;
        // the last update sent carries the current revision
        let mut rev = None;
        for p in ps.iter_mut() {
            for (m, q) in p.take_log() {
                if m == "new_buffer" && q["buffer_info"][0]["views"][0] == v.id.as_str() {
                    rev = q["buffer_info"][0]["rev"].as_u64();
                }
                if m == "update" && q["view_id"] == v.id.as_str() {
                    rev = q["rev"].as_u64();
                }
            }
        }
        let rev = rev.ok_or("no update was sent")?;
        let mut doc = Doc::new(text);
        doc.revs.push((rev, (0..text.len()).collect(), Some(1)));
        let reps = (0..plugins).map(|_| Replica { text: Rope::from(text), rev, open: vec![], at: 0 }).collect();
        let mut r = Run { c, ps, v, doc, reps };
        let mut fresh = 'p';
        for i in 0..old {
            // edits that fill up the undo list
            r.user(2 + i, 2 + i, if i % 2 == 0 { "o" } else { "i" })?;
            for k in 0..plugins {
                if i + 2 < old {
                    r.ack(k);
                }
            }
        }
        for _ in 0..n {
            let len = r.v.text(r.c).len();
            let s = fresh.to_string();
            match ch.pick(6) {
                0 => {
                    let (a, b, t) = place(ch, len, rich);
                    ch.log(|| format!("user replaces {}..{} by {:?}", a, b, if t { &s } else { "" }));
                    r.user(a, b, if t { &s } else { "" })?;
                }
                1 => {
                    let k = ch.pick(plugins);
                    let revs = r.may_use(k);
                    let rev = revs[revs.len() - 1 - ch.pick(revs.len())];
                    let (a, b, t) = place(ch, r.doc.revs[rev].1.len(), rich);
                    let pri = *ch.of(if rich { &[1, 0x20000] } else { &[1] });
                    let joined = ch.flip();
                    ch.log(|| format!("plugin {} replaces {}..{} by {:?} in revision {}, priority {}{}", k, a, b, if t { &s } else { "" }, rev, pri, if joined { ", same undo group" } else { "" }));
                    r.plugin(k, rev, a, b, if t { &s } else { "" }, pri, joined)?;
                }
                2 => {
                    ch.log(|| "undo".into());
                    r.undo(false)?;
                }
                3 => {
                    ch.log(|| "redo".into());
                    r.undo(true)?;
                }
                4 => {
                    let k = ch.pick(plugins);
                    ch.log(|| format!("plugin {} acknowledges", k));
                    r.ack(k);
                    r.check("core")?;
                }
                _ => {
                    let k = ch.pick(plugins);
                    let how = if rich { ch.pick(2) } else { 0 };
                    ch.log(|| format!("plugin {} sends an edit that cannot be applied", k));
                    r.refused(k, how)?;
                }
            }
            fresh = (fresh as u8 + 1) as char;
            ch.step();
            let t = r.v.text(r.c);
            ch.state(&(t, r.doc.cur, r.doc.live.len()));
        }
        // back and forth through everything
        for k in 0..plugins {
            while !r.reps[k].open.is_empty() {
                r.ack(k);
            }
        }
        r.check("core")?;
        let depth = r.doc.cur;
        while r.doc.cur > 1 {
            r.undo(false)?;
        }
        while r.doc.cur < depth {
            r.undo(true)?;
        }
        if r.doc.revs.len() > 2 {
            ch.nontrivial();
        }
        let Run { c, v, .. } = r;
        v.close(c);
        Ok(())
    })
}

fn place(ch: &mut Ch, len: usize, rich: bool) -> (usize, usize, bool) {
    if rich {
        // every insertion, every deletion of one character, replacing everything
        let k = ch.pick(2 * len + 2);
        if k <= len {
            (k, k, true)
        } else if k <= 2 * len {
            (k - len - 1, k - len, false)
        } else {
            (0, len, true)
        }
    } else if len == 0 {
        (0, 0, true)
    } else {
        *ch.of(&[(0, 0, true), (len, len, true), (0, 1, false)])
    }
}

/// Pieces of the text that plugins ask for.
fn data(ch: &mut Ch) -> Res {
    let text = ["", "a", "é\n", "a\n\n", "\u{1f600}b\né", "ab\ncd\n\nef\u{1f600}\n", "\r\nx\ry\n"];
    let text = ch.of(&text).to_string();
    let lines = line_starts(&text);
    let line_unit = ch.flip();
    let start = ch.pick(if line_unit { lines.len() + 3 } else { text.len() + 3 });
    let max = *ch.of(&[4, 5, 6, 7, 8, 9, 10, 1000, 1 << 40]);
    ch.log(|| format!("{:?}, from {} {}, up to {}", text, if line_unit { "line" } else { "offset" }, start, max));
    with_plugins(1, |c, ps| {
        let v = start_view(c, ps, &text)?;
        let rev = last_rev(ps, &v);
        let id = v.id.clone();
        let got = ps[0].request(&id, "get_data", json!({"start": start, "unit": if line_unit { "line" } else { "utf8" }, "max_size": max, "rev": rev})).map_err(|e| e.to_string())?;
        ensure_eq!(ps[0].request(&id, "line_count", json!({})).map_err(|e| e.to_string())?, json!(lines.len()), "line_count");
        let floor = |mut i: usize| {
            while !text.is_char_boundary(i) {
                i -= 1;
            }
            i
        };
        let off = if line_unit {
            if start < lines.len() {
                Some(lines[start])
            } else if start == lines.len() {
                Some(text.len())
            } else {
                None
            }
        } else if start <= text.len() {
            Some(floor(start))
        } else {
            None
        };
        let want = match off {
            None => Value::Null,
            Some(o) => {
                let l = lines.iter().rposition(|s| *s <= o).unwrap();
                json!({"chunk": &text[o..floor(text.len().min(o.saturating_add(max)))], "offset": o, "first_line": l, "first_line_offset": o - lines[l]})
            }
        };
        ensure_eq!(got, want, "get_data");
        ch.state(&hash_of(&got.to_string()));
        v.close(c);
        Ok(())
    })
}

fn start_view(c: &mut Core, ps: &mut Vec<FakePlugin>, text: &str) -> Result<V, String> {
    V::open(c, text).map(|v| {
        for p in ps.iter_mut() {
            while p.ack() {}
        }
        v
    })
}

fn last_rev(ps: &mut Vec<FakePlugin>, v: &V) -> u64 {
    let mut rev = 0;
    for p in ps.iter_mut() {
        for (m, q) in p.take_log() {
            if m == "new_buffer" && q["buffer_info"][0]["views"][0] == v.id.as_str() {
                rev = q["buffer_info"][0]["rev"].as_u64().unwrap();
            }
            if m == "update" && q["view_id"] == v.id.as_str() {
                rev = q["rev"].as_u64().unwrap();
            }
        }
    }
    rev
}

/// Edits too large to be sent along: the plugin fetches the text piece by piece.
fn large(ch: &mut Ch) -> Res {
    let size = *ch.of(&[(1usize << 20) - 30, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, 3 << 20]);
    let unit = *ch.of(&["ab\n", "é"]);
    let max = *ch.of(&[1 << 30, 300_001]);
    let second = ch.flip();
    with_plugins(1, |c, ps| {
        let mut v = start_view(c, ps, "x")?;
        last_rev(ps, &v);
        let big = unit.repeat(size / unit.len() + 1);
        v.cmd(c, "paste", json!({ "chars": big }))?;
        if second {
            v.cmd(c, "undo", Value::Null)?;
            v.cmd(c, "redo", Value::Null)?;
        }
        let want = v.text(c);
        let mut rep: Option<Rope> = Some(Rope::from("x"));
        let mut rev = 0;
        let mut known = false;
        for (m, q) in ps[0].take_log() {
            if m != "update" || q["view_id"] != v.id.as_str() {
                continue;
            }
            rev = q["rev"].as_u64().unwrap();
            ensure_eq!(q["new_line_count"].as_u64().unwrap() as usize > 1, q["new_len"].as_u64().unwrap() > 1 && unit.contains('\n'), "line count");
            rep = match (rep, serde_json::from_value::<Option<RopeDelta>>(q["delta"].clone()).map_err(|e| e.to_string())?) {
                (Some(r), Some(d)) => Some(d.apply(&r)),
                _ => {
                    known = true;
                    None
                }
            };
        }
        if let Some(r) = rep {
            ensure_eq!(String::from(&r).len(), want.len(), "text put together");
            ensure!(String::from(&r) == want, "text put together differs");
        }
        ch.state(&known);
        ensure!(known == (size > (1 << 20)) || size.abs_diff(1 << 20) < 100, "whether an edit of {} bytes is sent", size);
        let mut have = String::new();
        let id = v.id.clone();
        while have.len() < want.len() {
            let d = ps[0].request(&id, "get_data", json!({"start": have.len(), "unit": "utf8", "max_size": max, "rev": rev})).map_err(|e| e.to_string())?;
            let chunk = d["chunk"].as_str().ok_or("no data")?;
            ensure!(!chunk.is_empty() && chunk.len() <= max.min(1 << 20), "a piece of {} bytes", chunk.len());
            ensure_eq!(d["offset"].as_u64().unwrap() as usize, have.len(), "offset");
            have += chunk;
        }
        ensure!(have == want, "the text fetched differs");
        v.close(c);
        Ok(())
    })
}

pub fn run() -> ! {
    let k = if is_thorough() { 1 } else { 0 };
    let secs = vec![
        section("short", "every sequence of edits at every place", move |ch| history(ch, &["", "ab"], 1, 3 + k, true, 0)),
        section("long", "every sequence of edits at the ends", move |ch| history(ch, &["ab"], 1, 4 + k, false, 0)),
        section("two plugins", "the same with two plugins", move |ch| history(ch, &["a\n"], 2, 3 + k, false, 0)),
        section("data", "every piece of seven texts", data),
        section("large", "edits around the size up to which they are sent along", large),
        section("many steps", "the same when the undo list is full", move |ch| history(ch, &["ab"], 1, 2 + k, false, 21)),
    ];
    mccommon::run(Opts { property: "C25".into(), level: "model_checking".into(), assumptions: vec![], single_thread: false }, secs)
}
