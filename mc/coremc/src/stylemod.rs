//! C28: what plugins say about the text (highlighting and annotations) stays with the text it was said of.
use crate::drv::{Core, FakePlugin};
use crate::model::*;
use crate::plugmod::with_plugins;
use mccommon::*;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};
use syntect::highlighting::{Highlighter, StyleModifier, Theme, ThemeSet};
use syntect::parsing::Scope;

const THEMES: [&str; 2] = ["InspiredGitHub", "base16-ocean.dark"];

/// Scope stacks, in the order in which the plugins register them: longer ones before their prefixes as well.
pub const STACKS: [&[&str]; 6] = [
    &["source.rust", "comment.line", "punctuation.definition.comment"],
    &["source.rust"],
    &["source.rust", "string.quoted.double"],
    &["source.rust", "comment.line"],
    &["markup.bold"],
    &["text.plain"],
];

thread_local! {
    static SET: Vec<Theme> = {
        let t = ThemeSet::load_defaults();
        THEMES.iter().map(|n| t.themes[*n].clone()).collect()
    };
}

/// The attributes a theme gives to a scope stack: those of the complete stack.
pub fn attrs(theme: usize, stack: usize) -> Map<String, Value> {
    SET.with(|set| {
        let h = Highlighter::new(&set[theme]);
        let st: Vec<Scope> = STACKS[stack].iter().map(|s| Scope::new(s).unwrap()).collect();
        let m: StyleModifier = h.style_mod_for_stack(&st);
        let argb = |c: syntect::highlighting::Color| json!(((c.a as u32) << 24) | ((c.r as u32) << 16) | ((c.g as u32) << 8) | c.b as u32);
        let mut o = Map::new();
        if let Some(c) = m.foreground {
            o.insert("fg_color".into(), argb(c));
        }
        if let Some(c) = m.background {
            o.insert("bg_color".into(), argb(c));
        }
        let f = m.font_style.map(|f| f.bits()).unwrap_or(0);
        if f & 1 != 0 {
            o.insert("weight".into(), json!(700));
        }
        if f & 2 != 0 {
            o.insert("underline".into(), json!(true));
        }
        if f & 4 != 0 {
            o.insert("italic".into(), json!(true));
        }
        o
    })
}
pub fn default_attrs(theme: usize) -> Map<String, Value> {
    SET.with(|set| {
        let c = set[theme].settings.foreground.unwrap();
        let mut o = Map::new();
        o.insert("fg_color".into(), json!(((c.a as u32) << 24) | ((c.r as u32) << 16) | ((c.g as u32) << 8) | c.b as u32));
        o
    })
}

/// What one plugin has said of a character.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum S {
    No,
    Is(usize),
    /// not specified: it was inserted into a region before the plugin knew
    Open,
}

#[derive(Clone, Debug)]
struct Ann {
    plugin: usize,
    ty: &'static str,
    payload: Value,
    /// the characters it was made for, and all characters of the text it was made for
    of: Vec<usize>,
    base: BTreeSet<usize>,
    /// it must still be shown
    must: bool,
    /// a part of it may have been replaced
    loose: bool,
    /// all that it was made for is gone
    ghost: bool,
}

struct Run<'a> {
    c: &'a mut Core,
    ps: &'a mut Vec<FakePlugin>,
    v: V,
    chars: Vec<char>,
    cur: Vec<usize>,
    undo: Vec<Vec<usize>>,
    revs: Vec<(u64, Vec<usize>)>,
    style: Vec<BTreeMap<usize, S>>,
    anns: Vec<Ann>,
    theme: usize,
}

fn style_spans(pat: usize, n: usize) -> (usize, usize, Vec<(usize, usize, u32)>) {
    match pat {
        // all of the text
        0 => (0, n, if n >= 2 { vec![(0, n / 2, 0), (n / 2, n, 2)] } else if n == 1 { vec![(0, 1, 0)] } else { vec![] }),
        // a part in the middle
        1 if n >= 3 => (1, n - 2, vec![(0, 1, 3)]),
        1 => (0, n, vec![]),
        // clears the rear half
        2 => (n / 2, n - n / 2, vec![]),
        // another kind of style at the front
        3 => (0, n / 2, if n / 2 > 0 { vec![(0, n / 2, 4)] } else { vec![] }),
        // adjacent spans, two of the same look, and a gap
        4 => (0, n, (0..n).filter(|i| i % 3 != 2).map(|i| (i, i + 1, if i % 3 == 0 { 1 } else { 5 })).collect()),
        // the last character
        _ => (n.saturating_sub(1), n - n.saturating_sub(1), if n > 0 { vec![(0, 1, 2)] } else { vec![] }),
    }
}

impl Run<'_> {
    fn text(&self) -> String {
        self.cur.iter().map(|i| self.chars[*i]).collect()
    }
    fn off(&self, i: usize) -> usize {
        self.cur[..i].iter().map(|i| self.chars[*i].len_utf8()).sum()
    }
    fn deliver(&mut self) -> Res {
        let cur = self.cur.clone();
        let id = self.v.id.clone();
        for p in self.ps.iter_mut() {
            for (m, q) in p.take_log() {
                if m == "update" && q["view_id"] == id.as_str() {
                    let rev = q["rev"].as_u64().unwrap();
                    if self.revs.last().unwrap().0 != rev {
                        self.revs.push((rev, cur.clone()));
                    }
                }
            }
        }
        Ok(())
    }
    /// The text became `new`.
    fn moved(&mut self, new: Vec<usize>) {
        let same = self.cur.iter().zip(&new).take_while(|(a, b)| a == b).count();
        let before: BTreeSet<usize> = self.cur.iter().cloned().collect();
        for s in &mut self.style {
            for i in &new {
                if !before.contains(i) {
                    s.insert(*i, S::No);
                }
            }
        }
        // the change may be described as beginning anywhere in a run of equal characters
        let mut first = same;
        while first > 0 && (new.get(first).map(|i| self.chars[*i]) == Some(self.chars[self.cur[first - 1]]) || self.cur.get(first).map(|i| self.chars[*i]) == Some(self.chars[self.cur[first - 1]])) {
            first -= 1;
        }
        let kept: BTreeSet<usize> = self.cur[..first].iter().cloned().collect();
        let stays: BTreeSet<usize> = new.iter().cloned().collect();
        for a in &mut self.anns {
            if !a.of.iter().all(|i| kept.contains(i)) {
                a.must = false;
            }
            // characters that come back do not become annotated again
            a.of.retain(|i| stays.contains(i));
        }
        self.anns.retain(|a| !a.of.is_empty() || a.ghost);
        self.cur = new;
    }
    fn user(&mut self, a: usize, b: usize, s: &str) -> Res {
        let text = self.text();
        let (x, y) = (self.off(a), self.off(b));
        self.v.select(self.c, &text, &[(x, y)])?;
        self.undo.push(self.cur.clone());
        if s.is_empty() {
            self.v.cmd(self.c, "delete_backward", Value::Null)?;
        } else {
            self.v.cmd(self.c, "insert", json!({ "chars": s }))?;
        }
        let mut new = self.cur[..a].to_vec();
        for c in s.chars() {
            self.chars.push(c);
            new.push(self.chars.len() - 1);
        }
        new.extend(&self.cur[b..]);
        self.moved(new);
        self.deliver()
    }
    fn undo(&mut self) -> Res {
        if let Some(t) = self.undo.pop() {
            self.v.cmd(self.c, "undo", Value::Null)?;
            self.moved(t);
            self.deliver()?;
        }
        Ok(())
    }
    /// Characters of the current text that were not in `base` and may count as lying within [a, b) of it.
    fn within(&self, base: &[usize], a: usize, b: usize) -> BTreeSet<usize> {
        let place: BTreeMap<usize, usize> = base.iter().enumerate().map(|(k, i)| (*i, k)).collect();
        let mut out = BTreeSet::new();
        for (k, i) in self.cur.iter().enumerate() {
            if place.contains_key(i) {
                continue;
            }
            // somewhere between the surviving neighbours
            let lo = self.cur[..k].iter().rev().find_map(|i| place.get(i)).map(|p| p + 1).unwrap_or(0);
            let hi = self.cur[k..].iter().find_map(|i| place.get(i)).copied().unwrap_or(base.len());
            if lo <= b && hi >= a {
                out.insert(*i);
            }
        }
        out
    }
    fn spans(&mut self, k: usize, rev: usize, pat: usize) -> Res {
        let (token, base) = self.revs[rev].clone();
        let (start, len, spans) = style_spans(pat, base.len());
        let at = |i: usize| -> usize { base[..i].iter().map(|i| self.chars[*i].len_utf8()).sum() };
        let s: Vec<Value> = spans.iter().map(|(a, b, id)| json!({"start": at(start + a) - at(start), "end": at(start + b) - at(start), "scope_id": id})).collect();
        let msg = json!({"start": at(start), "len": at(start + len) - at(start), "spans": s, "rev": token});
        let id = self.v.id.clone();
        self.ps[k].notify(&id, "update_spans", msg)?;
        self.c.settle();
        self.v.sync(self.c)?;
        for i in self.within(&base, start, start + len) {
            self.style[k].insert(i, S::Open);
        }
        for (j, i) in base.iter().enumerate().skip(start).take(len) {
            let is = spans.iter().find(|(a, b, _)| (start + a..start + b).contains(&j));
            self.style[k].insert(*i, is.map(|x| S::Is(x.2 as usize)).unwrap_or(S::No));
        }
        Ok(())
    }
    fn annotate(&mut self, k: usize, rev: usize, pat: usize, tag: usize) -> Res {
        let (token, base) = self.revs[rev].clone();
        let ty: &'static str = if pat >= 3 { "hint" } else { "lint" };
        let (start, len, spans) = match pat % 3 {
            0 => style_spans(0, base.len()),
            1 => style_spans(1, base.len()),
            _ => style_spans(2, base.len()),
        };
        let at = |i: usize| -> usize { base[..i].iter().map(|i| self.chars[*i].len_utf8()).sum() };
        let s: Vec<Value> = spans
            .iter()
            .enumerate()
            .map(|(n, (a, b, _))| json!({"start": at(start + a) - at(start), "end": at(start + b) - at(start), "data": {"by": k, "tag": tag, "n": n}}))
            .collect();
        let msg = json!({"start": at(start), "len": at(start + len) - at(start), "spans": s, "rev": token, "annotation_type": {"Other": ty}});
        let id = self.v.id.clone();
        self.ps[k].notify(&id, "update_annotations", msg)?;
        self.c.settle();
        self.v.sync(self.c)?;
        let latest = rev == self.revs.len() - 1;
        let region: BTreeSet<usize> = base[start..start + len].iter().cloned().collect();
        let unsure = self.within(&base, start, start + len);
        let mut next = vec![];
        for mut a in std::mem::take(&mut self.anns) {
            if a.plugin != k || a.ty != ty {
                next.push(a);
                continue;
            }
            if a.of.iter().any(|i| unsure.contains(i)) || !latest {
                a.loose = true;
                a.must = false;
                a.of.retain(|i| !region.contains(i));
                if !a.of.is_empty() {
                    next.push(a);
                }
                continue;
            }
            // what is outside of the region stays
            let cut: Vec<Vec<usize>> = a.of.split(|i| region.contains(i)).filter(|p| !p.is_empty()).map(|p| p.to_vec()).collect();
            let whole = cut.len() == 1 && cut[0].len() == a.of.len();
            if a.ghost {
                if self.cur.iter().any(|i| !region.contains(i)) {
                    next.push(a);
                }
                continue;
            }
            if !whole && self.cur.iter().any(|i| !a.base.contains(i)) {
                // it may have covered text that was inserted at its edge, and still does
                let mut b = a.clone();
                (b.of, b.must, b.ghost) = (vec![], false, true);
                next.push(b);
            }
            for p in cut {
                let mut b = a.clone();
                b.of = p;
                next.push(b);
            }
        }
        let alive: BTreeSet<usize> = self.cur.iter().cloned().collect();
        for (n, (a, b, _)) in spans.iter().enumerate() {
            let of: Vec<usize> = base[start + a..start + b].iter().filter(|i| alive.contains(i)).cloned().collect();
            // when all of it was replaced, it may be shown over the replacement
            let must = !of.is_empty();
            next.push(Ann { plugin: k, ty, payload: json!({"by": k, "tag": tag, "n": n}), ghost: !must, of, base: base.iter().cloned().collect(), must, loose: false });
        }
        self.anns = next;
        Ok(())
    }
    fn set_theme(&mut self, t: usize) -> Res {
        self.theme = t;
        self.c.notify("set_theme", json!({"theme_name": THEMES[t]}));
        self.c.settle();
        self.v.sync(self.c)
    }
    fn gone(&mut self, k: usize) {
        self.style[k].clear();
        self.anns.retain(|a| a.plugin != k);
    }
    fn check(&mut self, ch: &mut Ch) -> Res {
        let text = self.text();
        ensure_eq!(self.v.text(self.c), text, "text");
        ensure_eq!(self.v.mirror.text(), text, "the text the front-end has");
        // styles
        let lines = self.v.mirror.lines.clone();
        let mut shown: Vec<Option<i64>> = vec![];
        for l in &lines {
            let l = l.as_ref().ok_or("an invalid line")?;
            let mut of = vec![None; l.text.len()];
            let mut at = 0i64;
            for t in l.styles.chunks(3) {
                ensure!(t.len() == 3, "styles {:?}", l.styles);
                let (s, e) = (at + t[0], at + t[0] + t[1]);
                ensure!(s >= at && e > s && e <= l.text.len() as i64, "styles {:?} of line {:?}", l.styles, l.text);
                ensure!(l.text.is_char_boundary(s as usize) && l.text.is_char_boundary(e as usize), "styles {:?} of line {:?} split a character", l.styles, l.text);
                for x in s..e {
                    of[x as usize] = Some(t[2]);
                }
                at = e;
            }
            for (o, _) in l.text.char_indices() {
                shown.push(of[o]);
            }
        }
        for (n, i) in self.cur.iter().enumerate() {
            let said: Vec<S> = self.style.iter().map(|s| s.get(i).copied().unwrap_or(S::No)).collect();
            if said.contains(&S::Open) {
                continue;
            }
            let sets: Vec<usize> = said.iter().filter_map(|s| if let S::Is(x) = s { Some(*x) } else { None }).collect();
            match shown[n] {
                None => ensure!(sets.is_empty(), "character {} of {:?} is shown without style, it has scopes {:?}", n, text, sets),
                Some(id) => {
                    ensure!(!sets.is_empty(), "character {} of {:?} is shown in style {}, it has none", n, text, id);
                    let mut want = default_attrs(self.theme);
                    for s in &sets {
                        want.extend(attrs(self.theme, *s));
                    }
                    let mut got = self.c.peer.0.lock().unwrap().styles.get(&id).cloned().ok_or("a style that was not defined")?;
                    got.as_object_mut().unwrap().remove("id");
                    ensure_eq!(got, Value::Object(want), "style of character {} of {:?} with scopes {:?}", n, text, sets);
                    ch.nontrivial();
                }
            }
        }
        // annotations
        let sets: Vec<Value> = self.v.mirror.annotations.iter().filter(|a| a["type"] == "lint" || a["type"] == "hint").cloned().collect();
        let mut met = vec![0; self.anns.len()];
        for set in &sets {
            let r = set["ranges"].as_array().ok_or("no ranges")?;
            let p = set["payloads"].as_array().ok_or("no payloads")?;
            ensure_eq!(r.len(), p.len(), "payloads of {}", set);
            ensure_eq!(set["n"].as_u64().unwrap() as usize, r.len(), "n of {}", set);
            let mut last = (0, 0);
            for (q, p) in r.iter().zip(p) {
                let q: Vec<usize> = q.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
                ensure!(last <= (q[0], q[1]), "ranges out of order: {}", set);
                last = (q[0], q[1]);
                let st = line_starts(&text);
                ensure!(q[0] < st.len() && q[2] < st.len(), "an annotation at line {} or {} of {:?}", q[0], q[2], text);
                let (a, b) = (st[q[0]] + q[1], st[q[2]] + q[3]);
                ensure!(a < b && b <= text.len() && text.is_char_boundary(a) && text.is_char_boundary(b), "annotation {}..{} of {:?}", a, b, text);
                let covered: Vec<usize> = text.char_indices().zip(&self.cur).filter(|((o, _), _)| (a..b).contains(o)).map(|(_, i)| *i).collect();
                let hit = self.anns.iter().position(|x| {
                    x.ty == set["type"].as_str().unwrap()
                        && x.payload == *p
                        && if x.loose {
                            covered.iter().any(|i| x.of.contains(i))
                        } else {
                            let known: Vec<usize> = covered.iter().filter(|i| x.base.contains(i)).cloned().collect();
                            known == x.of
                        }
                });
                match hit {
                    Some(k) => met[k] += 1,
                    None => return Err(format!("annotation {} {} at {}..{} of {:?}, known are {:?}", set["type"], p, a, b, text, self.anns.iter().map(|x| (x.ty, &x.payload, &x.of)).collect::<Vec<_>>())),
                }
            }
        }
        for (a, n) in self.anns.iter().zip(&met) {
            ensure!(*n <= 1 || a.loose, "annotation {} is shown {} times", a.payload, n);
            ensure!(*n >= 1 || !a.must, "annotation {} {} is not shown", a.ty, a.payload);
            if *n == 1 {
                ch.nontrivial();
            }
        }
        ch.state(&(text, &shown, self.v.mirror.annotations.len()));
        Ok(())
    }
}

/// Text, plugins, and what may happen.
#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Styles,
    Annotations,
    Both,
}

fn history(ch: &mut Ch, texts: &'static [&'static str], np: usize, depth: usize, kind: Kind, rich: bool) -> Res {
    let text = *ch.of(texts);
    ch.log(|| format!("{:?}", text));
    with_plugins(np, |c, ps| {
        let v = crate::plugmod::start(c, ps, text)?;
        let id = v.id.clone();
        let mut rev = None;
        for p in ps.iter_mut() {
            for (m, q) in p.take_log() {
                if m == "update" && q["view_id"] == id.as_str() {
                    rev = q["rev"].as_u64();
                }
            }
            let all: Vec<Vec<&str>> = STACKS.iter().map(|s| s.to_vec()).collect();
            p.notify(&id, "add_scopes", json!({ "scopes": all }))?;
        }
        let chars: Vec<char> = text.chars().collect();
        let cur: Vec<usize> = (0..chars.len()).collect();
        let mut r = Run { c, ps, v, chars, cur: cur.clone(), undo: vec![], revs: vec![(rev.ok_or("no update for the first insertion")?, cur)], style: vec![BTreeMap::new(); np], anns: vec![], theme: 0 };
        let pats = match (kind, rich) {
            (Kind::Styles, true) => 6,
            (Kind::Styles, false) => 3,
            (_, true) => 6,
            (_, false) => 3,
        };
        for step in 0..depth {
            let n = r.cur.len();
            // deletions, insertions, undo, spans of a revision, annotations of a revision, theme
            let ins = n + 1;
            let dels = n + (n > 1) as usize;
            let rv = r.revs.len().min(3);
            let said = np * rv * pats;
            let (st, an) = (if kind != Kind::Annotations { said } else { 0 }, if kind != Kind::Styles { said } else { 0 });
            let themes = (kind != Kind::Annotations) as usize;
            // the first step is always something a plugin says
            let un = !r.undo.is_empty() as usize;
            let mut k = if step == 0 { ins + dels + 1 + un + ch.pick(st + an) } else { ch.pick(ins + dels + 1 + un + st + an + themes) };
            let say = |k: usize, revs: usize| (k % np, revs - 1 - k / np % rv, k / np / rv);
            if k < ins {
                ch.log(|| format!("user inserts at {}", k));
                ch.step();
                r.user(k, k, "x")?;
            } else if k < ins + dels {
                k -= ins;
                let (a, b) = if k < n { (k, k + 1) } else { (0, n) };
                ch.log(|| format!("user deletes {}..{}", a, b));
                ch.step();
                r.user(a, b, "")?;
            } else if k == ins + dels {
                ch.log(|| "user replaces all by two lines".into());
                ch.step();
                r.user(n / 2, n, "é\nz")?;
            } else if un == 1 && k == ins + dels + 1 {
                ch.log(|| "undo".into());
                ch.step();
                r.undo()?;
            } else if k < ins + dels + 1 + un + st {
                let (p, rev, pat) = say(k - ins - dels - 1 - un, r.revs.len());
                ch.log(|| format!("plugin {} styles revision {} by pattern {}", p, rev, pat));
                ch.step();
                r.spans(p, rev, pat)?;
            } else if k < ins + dels + 1 + un + st + an {
                let (p, rev, pat) = say(k - ins - dels - 1 - un - st, r.revs.len());
                ch.log(|| format!("plugin {} annotates revision {} by pattern {}", p, rev, pat));
                ch.step();
                r.annotate(p, rev, pat, step)?;
            } else {
                ch.log(|| "the other theme".into());
                ch.step();
                let t = 1 - r.theme;
                r.set_theme(t)?;
            }
            r.check(ch)?;
        }
        if r.theme != 0 {
            r.set_theme(0)?;
        }
        let Run { v, c, .. } = r;
        v.close(c);
        Ok(())
    })
}

/// A plugin that ends takes along what it said.
fn ends(ch: &mut Ch) -> Res {
    let text = "ab c";
    with_plugins(0, |c, none| {
        assert!(none.is_empty());
        let base = NEXT.with(|n| {
            n.set(n.get() + 10);
            n.get()
        });
        let mut ps: Vec<FakePlugin> = (0..2).map(|i| c.connect_plugin(&format!("p{}", i), base + i)).collect();
        c.settle();
        let v = crate::plugmod::start(c, &mut ps, text)?;
        let id = v.id.clone();
        let mut rev = 0;
        for p in ps.iter_mut() {
            for (m, q) in p.take_log() {
                if m == "update" && q["view_id"] == id.as_str() {
                    rev = q["rev"].as_u64().unwrap();
                }
            }
            let all: Vec<Vec<&str>> = STACKS.iter().map(|s| s.to_vec()).collect();
            p.notify(&id, "add_scopes", json!({ "scopes": all }))?;
        }
        let chars: Vec<char> = text.chars().collect();
        let cur: Vec<usize> = (0..chars.len()).collect();
        let mut r = Run { c, ps: &mut ps, v, chars, cur: cur.clone(), undo: vec![], revs: vec![(rev, cur)], style: vec![BTreeMap::new(); 2], anns: vec![], theme: 0 };
        let mut alive = [true, true];
        let mut bad = Ok(());
        for _ in 0..if is_thorough() { 5 } else { 4 } {
            let mut may = vec![0];
            for p in 0..2 {
                if alive[p] {
                    may.extend([1 + p, 3 + p, 5 + p]);
                }
            }
            let k = *ch.of(&may);
            ch.step();
            let e = match k {
                0 => r.user(1, 1, "x"),
                1 | 2 => r.spans(k - 1, r.revs.len() - 1, 0),
                3 | 4 => r.annotate(k - 3, r.revs.len() - 1, 0, 7),
                _ => {
                    let p = k - 5;
                    alive[p] = false;
                    let by_user = ch.flip();
                    ch.log(|| format!("plugin {} is stopped ({})", p, by_user));
                    if by_user {
                        let id = r.v.id.clone();
                        r.c.notify("plugin", json!({"command": "stop", "view_id": id, "plugin_name": format!("p{}", p)}));
                    } else {
                        r.ps[p].exit();
                    }
                    r.gone(p);
                    r.c.settle();
                    // what it still sends has no effect
                    let late = r.ps[p].notify(&r.v.id.clone(), "update_spans", json!({"start": 0, "len": 1, "spans": [{"start": 0, "end": 1, "scope_id": 0}], "rev": r.revs.last().unwrap().0}));
                    let late2 = r.ps[p].notify(&r.v.id.clone(), "update_annotations", json!({"start": 0, "len": 1, "spans": [{"start": 0, "end": 1, "data": 1}], "rev": r.revs.last().unwrap().0, "annotation_type": {"Other": "lint"}}));
                    r.c.settle();
                    late.and(late2).and(r.v.sync(r.c))
                }
            };
            bad = e.and_then(|_| r.check(ch));
            if bad.is_err() {
                break;
            }
        }
        let Run { v, c, ps, .. } = r;
        v.close(c);
        for p in ps.iter_mut() {
            while p.ack() {}
            p.exit();
        }
        c.settle();
        c.take_log();
        bad
    })
}
thread_local! {
    static NEXT: std::cell::Cell<u64> = const { std::cell::Cell::new(1000) };
}

/// Long texts: spans and annotations over many lines, seen through a window.
fn large(ch: &mut Ch) -> Res {
    let n = ch.of(&[40usize, 200]).clone();
    let text: String = (0..n).map(|i| format!("l{}\n", i % 7)).collect();
    let text: &'static str = Box::leak(text.into_boxed_str());
    with_plugins(1, |c, ps| {
        let v = crate::plugmod::start(c, ps, text)?;
        let id = v.id.clone();
        let mut rev = 0;
        for (m, q) in ps[0].take_log() {
            if m == "update" && q["view_id"] == id.as_str() {
                rev = q["rev"].as_u64().unwrap();
            }
        }
        let all: Vec<Vec<&str>> = STACKS.iter().map(|s| s.to_vec()).collect();
        ps[0].notify(&id, "add_scopes", json!({ "scopes": all }))?;
        let chars: Vec<char> = text.chars().collect();
        let cur: Vec<usize> = (0..chars.len()).collect();
        let mut r = Run { c, ps, v, chars, cur: cur.clone(), undo: vec![], revs: vec![(rev, cur)], style: vec![BTreeMap::new(); 1], anns: vec![], theme: 0 };
        for _ in 0..if is_thorough() { 4 } else { 3 } {
            ch.step();
            let len = r.cur.len();
            match ch.pick(7) {
                0 => r.spans(0, 0, 4)?,
                1 => r.spans(0, r.revs.len() - 1, 4)?,
                2 => r.spans(0, r.revs.len() - 1, 1)?,
                3 => r.user(len / 2, len / 2, "x\ny")?,
                4 => r.user(3, len / 3, "")?,
                5 => r.user(len - 4, len - 1, "zz")?,
                _ => r.undo()?,
            }
            // the whole text as the front-end would ask for it
            let total = r.text().matches('\n').count() + 1;
            r.v.cmd(r.c, "request_lines", json!([0, total]))?;
            r.check(ch)?;
        }
        let Run { v, c, .. } = r;
        v.close(c);
        Ok(())
    })
}

/// Annotations, the selection and matches as seen through every window of a text of several lines.
fn windows(ch: &mut Ch) -> Res {
    const LINES: usize = 9;
    let text = "ab\n".repeat(LINES - 1) + "ab";
    let at = [0usize, 1, 3, 4, 6, 9, 10, 12, 14, 18, 20, 21, 26];
    let full = is_thorough();
    let mut ivs: Vec<(usize, usize)> = vec![];
    let mut i = ch.pick(at.len() - 1);
    for _ in 0..2 {
        let j = i + 1 + ch.pick(if full { at.len() - 1 - i } else { (at.len() - 1 - i).min(4) });
        ivs.push((at[i], at[j]));
        if j + 1 >= at.len() {
            break;
        }
        // the next one may begin where this one ends, or within it
        i = (j - 1 + ch.pick(3)).min(at.len() - 2);
    }
    ivs.sort();
    let (sa, sb) = *ch.of(&[(0usize, 0usize), (4, 9), (9, 9), (12, 21), (26, 26)]);
    ch.log(|| format!("annotations at {:?}, selection {}..{}", ivs, sa, sb));
    with_plugins(1, |c, ps| {
        let mut v = crate::plugmod::start(c, ps, &text)?;
        let id = v.id.clone();
        let mut rev = 0;
        for (m, q) in ps[0].take_log() {
            if m == "update" && q["view_id"] == id.as_str() {
                rev = q["rev"].as_u64().unwrap();
            }
        }
        let s: Vec<Value> = ivs.iter().map(|(a, b)| json!({"start": a, "end": b, "data": {"iv": [a, b]}})).collect();
        ps[0].notify(&id, "update_annotations", json!({"start": 0, "len": text.len(), "spans": s, "rev": rev, "annotation_type": {"Other": "lint"}}))?;
        c.settle();
        v.select(c, &text, &[(sa, sb)])?;
        v.cmd_raw(c, "find", json!({"chars": "b\na", "case_sensitive": true, "regex": false, "whole_words": false}))?;
        c.settle();
        v.sync(c)?;
        let st = line_starts(&text);
        let off = |q: &Value, i: usize| -> Result<usize, String> {
            let l = q[i].as_u64().ok_or("a range that is none")? as usize;
            ensure!(l < st.len(), "line {} of {}", l, st.len());
            Ok(st[l] + q[i + 1].as_u64().ok_or("a range that is none")? as usize)
        };
        for first in 0..LINES {
            for h in [1usize, 2, 4, 9] {
                ch.step();
                v.cmd(c, "scroll", json!([first, first + h]))?;
                let (lo, hi) = (st[first], st.get(first + h).cloned().unwrap_or(text.len()));
                let mut seen = vec![];
                let (mut sel, mut found) = (vec![], vec![]);
                for set in &v.mirror.annotations {
                    let r = set["ranges"].as_array().ok_or("no ranges")?;
                    ensure_eq!(set["n"].as_u64().unwrap_or(0) as usize, r.len(), "n of {}", set);
                    if let Some(p) = set["payloads"].as_array() {
                        ensure_eq!(r.len(), p.len(), "lines {}..{}: payloads of {}", first, first + h, set);
                    }
                    for (k, q) in r.iter().enumerate() {
                        let iv = (off(q, 0)?, off(q, 2)?);
                        match set["type"].as_str() {
                            Some("lint") => {
                                ensure_eq!(set["payloads"][k]["iv"], json!([iv.0, iv.1]), "lines {}..{} of {:?}: what is said of {:?}", first, first + h, text, iv);
                                seen.push(iv);
                            }
                            Some("selection") => sel.push(iv),
                            Some("find") => found.push(iv),
                            _ => return Err(format!("unexpected annotations {}", set)),
                        }
                    }
                }
                ensure!(seen.windows(2).all(|w| w[0].0 <= w[1].0), "annotations out of order: {:?}", seen);
                for iv in &ivs {
                    let n = seen.iter().filter(|x| *x == iv).count();
                    ensure!(n <= ivs.iter().filter(|x| *x == iv).count(), "annotation {:?} is shown {} times", iv, n);
                    ensure!(n > 0 || iv.0 >= hi || iv.1 <= lo, "lines {}..{}: the annotation of {:?} is not shown", first, first + h, iv);
                    if n == 0 {
                        ch.nontrivial();
                    }
                }
                ensure!(seen.iter().all(|x| ivs.contains(x)), "annotations {:?}, known are {:?}", seen, ivs);
                ensure!(sel.iter().all(|x| *x == (sa, sb)) && sel.len() <= 1, "lines {}..{}: selection {:?}, it is {:?}", first, first + h, sel, (sa, sb));
                ensure!(sel.len() == 1 || sa >= hi && hi < text.len() || sb < lo, "lines {}..{}: the selection is not shown", first, first + h);
                for k in 0..LINES - 1 {
                    let m = (3 * k + 1, 3 * k + 4);
                    let n = found.iter().filter(|x| **x == m).count();
                    // the matches do not overlap: each begins on one line and ends on the next
                    ensure!(n == 1 || n == 0 && (m.0 >= hi || m.1 <= lo), "lines {}..{}: match {:?} is shown {} times", first, first + h, m, n);
                }
                ensure!(found.iter().all(|x| x.0 % 3 == 1 && x.1 == x.0 + 3), "matches {:?}", found);
                ch.state(&(first, h, &seen, &sel, found.len()));
            }
        }
        v.close(c);
        Ok(())
    })
}

pub fn run() -> ! {
    let k = is_thorough() as usize;
    mccommon::run(
        Opts {
            property: "C28".into(),
            level: "model_checking".into(),
            assumptions: vec!["syntect resolves a scope stack to attributes".into(), "text inserted into a region after the revision a plugin spoke of may or may not be covered".into()],
            single_thread: false,
        },
        vec![
            section("styles", "every sequence of 4 (thorough: 5) of insertions, deletions, undo, theme changes and 6 patterns of spans for any of the latest 3 revisions", move |ch| history(ch, &["abc", "é\nb"], 1, 4 + k, Kind::Styles, true)),
            section("two plugins", "the same with two plugins and 3 patterns", move |ch| history(ch, &["abc"], 2, 4 + k, Kind::Styles, false)),
            section("annotations", "the same with annotations of two types", move |ch| history(ch, &["abcd", "a\né"], 1, 4 + k, Kind::Annotations, true)),
            section("annotations of two", "the same with two plugins", move |ch| history(ch, &["abc"], 2, 4 + k, Kind::Annotations, false)),
            section("both", "styles and annotations", move |ch| history(ch, &["ab\n"], 1, 4 + k, Kind::Both, false)),
            section("ends", "every sequence of 4 (thorough: 5) of edits, spans, annotations, and two plugins that end", ends),
            section("windows", "every two intervals over 13 offsets of 9 lines as annotations, with 5 selections, and matches, seen through every window of 1, 2, 4 or 9 lines", windows),
            section("large", "three (thorough: four) operations on 40 and 200 lines", large),
        ],
    )
}
