//! C21: search matches against a plain scan of the text, through edits, changes of the query and partial searches.
use crate::drv::{drop_core, with_core, Core};
use crate::model::*;
use crate::refmodel::{class, Cl};
use mccommon::*;
use regex::RegexBuilder;
use serde_json::{json, Value};

#[derive(Clone, Debug)]
pub struct Q {
    pub chars: &'static str,
    pub cs: bool,
    pub re: bool,
    pub ww: bool,
}
const fn q(chars: &'static str, cs: bool, re: bool, ww: bool) -> Q {
    Q { chars, cs, re, ww }
}
impl Q {
    fn json(&self) -> Value {
        json!({"chars": self.chars, "case_sensitive": self.cs, "regex": self.re, "whole_words": self.ww})
    }
    /// whether an empty match is possible
    fn empty(&self) -> bool {
        self.re && regex::Regex::new(self.chars).unwrap().is_match("")
    }
}

fn lower(c: char) -> String {
    c.to_lowercase().collect()
}

/// Length of the match of a literal at the start of `t`.
fn literal_at(t: &str, pat: &str, cs: bool) -> Option<usize> {
    if cs {
        return if t.starts_with(pat) { Some(pat.len()) } else { None };
    }
    let p: String = pat.chars().map(lower).collect();
    let mut have = String::new();
    let mut n = 0;
    for c in t.chars() {
        have += &lower(c);
        n += c.len_utf8();
        if !p.starts_with(&have) {
            return None;
        }
        if have.len() == p.len() {
            return Some(n);
        }
    }
    None
}

fn word_edge(t: &str, a: usize, b: usize) -> bool {
    let edge = |i: usize| {
        let l = t[..i].chars().next_back().map(class);
        let r = t[i..].chars().next().map(class);
        l != r || l == Some(Cl::Lf)
    };
    edge(a) && edge(b)
}

/// All matches, scanning from the start of the text.
pub fn matches(t: &str, q: &Q) -> Vec<Reg> {
    let mut out = Vec::new();
    if q.chars.is_empty() {
        return out;
    }
    if !q.re {
        let mut i = 0;
        while i < t.len() {
            match literal_at(&t[i..], q.chars, q.cs) {
                Some(n) => {
                    if !q.ww || word_edge(t, i, i + n) {
                        out.push((i, i + n));
                    }
                    i += n;
                }
                None => i += t[i..].chars().next().unwrap().len_utf8(),
            }
        }
        return out;
    }
    let re = RegexBuilder::new(q.chars).case_insensitive(!q.cs).build().expect("ENGINE: regex");
    let multi = [r"\n", r"\r", "[[:space:]]"].iter().any(|m| q.chars.contains(m));
    let mut pieces = Vec::new();
    if multi {
        pieces.push((0, t));
    } else {
        let mut at = 0;
        for l in t.split_inclusive('\n') {
            pieces.push((at, l));
            at += l.len();
        }
    }
    for (at, l) in pieces {
        let mut i = 0;
        while i < l.len() {
            match re.find(&l[i..]) {
                Some(m) if m.start() < m.end() => {
                    if !q.ww || word_edge(t, at + i + m.start(), at + i + m.end()) {
                        out.push((at + i + m.start(), at + i + m.end()));
                    }
                    i += m.end();
                }
                Some(m) => i += m.end() + l[i + m.end()..].chars().next().map_or(1, |c| c.len_utf8()),
                None => break,
            }
        }
    }
    out
}

/// The matches as the annotations report them, per query id.
fn reported(v: &V, text: &str) -> Result<Vec<(u64, Reg)>, String> {
    let st = line_starts(text);
    let mut out = Vec::new();
    for a in v.mirror.annotations.iter().filter(|a| a["type"] == "find") {
        let rs = a["ranges"].as_array().unwrap();
        let ps = a["payloads"].as_array().ok_or("find annotations without payloads")?;
        ensure!(rs.len() == ps.len(), "{} ranges and {} payloads", rs.len(), ps.len());
        for (r, p) in rs.iter().zip(ps) {
            let x: Vec<usize> = r.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
            ensure!(x[0] < st.len() && x[2] < st.len(), "match {} names a line past the end ({} lines)", r, st.len());
            out.push((p["id"].as_u64().unwrap(), (st[x[0]] + x[1], st[x[2]] + x[3])));
        }
    }
    Ok(out)
}

/// Matches that overlap others of the same query depend on where a scan starts.
fn ambiguous(q: &Q) -> bool {
    !q.re && q.chars == "aba"
}

fn check(v: &mut V, c: &mut Core, queries: &[(Option<u64>, Q)]) -> Res {
    // brings the annotations up to date
    v.cmd(c, "scroll", json!([0, 59]))?;
    v.cmd(c, "scroll", json!([0, 60]))?;
    let t = v.text(c);
    let all = reported(v, &t)?;
    let mut ids: Vec<u64> = all.iter().map(|x| x.0).collect();
    ids.sort();
    ids.dedup();
    let st = line_starts(&t);
    if queries.len() == 1 {
        let got: Vec<Reg> = all.iter().map(|x| x.1).collect();
        compare(&t, &queries[0].1, &got)?;
    } else {
        for (id, q) in queries {
            let got: Vec<Reg> = all.iter().filter(|x| Some(x.0) == *id).map(|x| x.1).collect();
            compare(&t, q, &got)?;
        }
    }
    // the status that the front-end shows
    let s = v.find_status.as_array().cloned().unwrap_or_default();
    if !s.is_empty() {
        ensure!(s.len() == queries.len(), "{} queries in the status, {} were set", s.len(), queries.len());
        for (x, (_, q)) in s.iter().zip(queries) {
            let id = x["id"].as_u64().unwrap();
            let n = all.iter().filter(|y| y.0 == id).count();
            ensure_eq!(x["matches"].as_u64(), Some(n as u64), "number of matches in the status, matches {:?}", all);
            if let Some(ls) = x["lines"].as_array().filter(|_| x["chars"].is_string()) {
                let ls: Vec<usize> = ls.iter().map(|l| l.as_u64().unwrap() as usize).collect();
                let want: Vec<usize> = all.iter().filter(|y| y.0 == id).map(|y| st.iter().rposition(|s| *s <= y.1 .0).unwrap() + 1).collect();
                ensure_eq!(ls, want, "lines in the status");
                ensure_eq!(x["chars"], json!(q.chars), "query in the status");
                ensure_eq!(x["case_sensitive"], json!(q.cs), "case in the status");
                ensure_eq!(x["whole_words"], json!(q.ww), "whole words in the status");
                ensure_eq!(x["is_regex"], json!(q.re), "regex in the status");
            }
        }
    }
    Ok(())
}

fn compare(t: &str, q: &Q, got: &[Reg]) -> Res {
    let want = matches(t, q);
    for w in got.windows(2) {
        ensure!(w[0].1 <= w[1].0, "matches {:?} overlap or are out of order", got);
    }
    if q.empty() {
        for g in got {
            ensure!(g.1 <= t.len() && t.is_char_boundary(g.0) && t.is_char_boundary(g.1), "match {:?} outside the text", g);
        }
        let re = RegexBuilder::new(&format!("^(?:{})$", q.chars)).case_insensitive(!q.cs).build().unwrap();
        for g in got {
            ensure!(re.is_match(&t[g.0..g.1]), "{:?} is reported as a match of {:?} in {:?}", &t[g.0..g.1], q, t);
        }
        return Ok(());
    }
    if ambiguous(q) {
        for g in got {
            ensure!(literal_at(&t[g.0..], q.chars, q.cs) == Some(g.1 - g.0), "{:?} is reported as a match of {:?}", g, q);
        }
        let mut i = 0;
        while i < t.len() {
            if t.is_char_boundary(i) {
                if let Some(n) = literal_at(&t[i..], q.chars, q.cs) {
                    ensure!(got.iter().any(|g| g.0 < i + n && i < g.1), "match {:?} of {:?} in {:?} is not among {:?}", (i, i + n), q, t, got);
                }
            }
            i += 1;
        }
        return Ok(());
    }
    ensure_eq!(got.to_vec(), want, "{{{:?}}} matches of it in {:?}", q.chars, t);
    Ok(())
}

const QUERIES: [Q; 20] = [
    q("a", true, false, false),
    q("aa", true, false, false),
    q("ab", false, false, false),
    q("aba", true, false, false),
    q("a\nb", true, false, false),
    q("\n", true, false, false),
    q("B", false, false, false),
    q("a", true, false, true),
    q("ab", false, false, true),
    q("a+", true, true, false),
    q("ab*", true, true, false),
    q("[^b]+", false, true, false),
    q("a\\nb", true, true, false),
    q("a.", true, true, false),
    q("b?", true, true, false),
    q("É", false, false, false),
    q("b\\n?a", true, true, false),
    q("\\s", true, true, false),
    q("A|É+", false, true, false),
    q("a+", true, true, true),
];

fn with_view(text: &str, f: impl FnOnce(&mut V, &mut Core) -> Res) -> Res {
    let r = guarded(|| {
        with_core(|c| {
            let mut v = V::open(c, text)?;
            v.cmd(c, "scroll", json!([0, 60]))?;
            f(&mut v, c)?;
            v.close(c);
            Ok(())
        })
    });
    if r.is_err() {
        drop_core();
    }
    r
}

fn text_of(ch: &mut Ch, ab: &[&str], n: usize) -> String {
    let k = ch.range(0, n);
    (0..k).map(|_| *ch.of(ab)).collect()
}
fn bounds(t: &str) -> Vec<usize> {
    (0..=t.len()).filter(|i| t.is_char_boundary(*i)).collect()
}
fn region(ch: &mut Ch, t: &str, from: usize) -> Reg {
    let b: Vec<usize> = bounds(t).into_iter().filter(|x| *x >= from).collect();
    let i = ch.pick(b.len());
    let j = i + ch.pick(b.len() - i);
    (b[i], b[j])
}

/// One search, then edits at one or two regions.
fn edited(ab: &'static [&'static str], n: usize, two: bool, depth: usize) -> impl Fn(&mut Ch) -> Res {
    move |ch| {
        let text = text_of(ch, ab, n);
        let q = ch.of(&QUERIES).clone();
        let highlight = false;
        ch.log(|| format!("text {:?}, search {:?}", text, q));
        with_view(&text, |v, c| {
            if highlight {
                v.cmd(c, "highlight_find", json!({"visible": true}))?;
            }
            // the rest of the search may run only after the edits
            let late = !two && ch.flip();
            v.cmd_raw(c, "find", q.json())?;
            if !late {
                c.settle();
                v.sync(c)?;
                check(v, c, &[(None, q.clone())])?;
            }
            for _ in 0..depth {
                let t = v.text(c);
                let mut regs = vec![region(ch, &t, 0)];
                if two {
                    let r = region(ch, &t, regs[0].1);
                    if r.0 > regs[0].1 || (r.0 == regs[0].1 && r.0 != r.1 && regs[0].0 != regs[0].1) {
                        regs.push(r);
                    }
                }
                let ins = ch.of(&["", "a", "b", "\n", "ab"]).to_string();
                ch.log(|| format!("{:?} at {:?}, search {}", ins, regs, if late { "unfinished" } else { "done" }));
                ch.step();
                for (i, &(a, b)) in regs.iter().enumerate() {
                    let (l, col) = line_col(&t, a);
                    v.cmd_raw(c, "gesture", json!({"line": l, "col": col, "ty": {"select": {"granularity": "point", "multi": i > 0}}}))?;
                    let (l, col) = line_col(&t, b);
                    v.cmd_raw(c, "gesture", json!({"line": l, "col": col, "ty": {"select_extend": {"granularity": "point"}}}))?;
                }
                if ins.is_empty() {
                    if regs.iter().all(|r| r.0 == r.1) {
                        v.cmd_raw(c, "delete_backward", Value::Null)?;
                    } else {
                        v.cmd_raw(c, "delete_forward", Value::Null)?;
                    }
                } else {
                    v.cmd_raw(c, "insert", json!({ "chars": ins }))?;
                }
                if !late {
                    check(v, c, &[(None, q.clone())])?;
                }
                ch.state(&(v.text(c), q.chars));
            }
            if late {
                c.settle();
                v.sync(c)?;
                check(v, c, &[(None, q.clone())])?;
            } else {
                v.cmd(c, "undo", Value::Null)?;
                check(v, c, &[(None, q.clone())])?;
            }
            if !matches(&v.text(c), &q).is_empty() {
                ch.nontrivial();
            }
            Ok(())
        })
    }
}

/// Finding the next and previous match, all matches, and replacing them.
fn navigate(ab: &'static [&'static str], n: usize) -> impl Fn(&mut Ch) -> Res {
    const QS: [Q; 7] = [
        q("a", true, false, false),
        q("ab", false, false, false),
        q("a", true, false, true),
        q("a+", true, true, false),
        q("\n", true, false, false),
        q("É", false, false, false),
        q("[^b]", true, true, false),
    ];
    move |ch| {
        let text = text_of(ch, ab, n);
        let q = ch.of(&QS).clone();
        let r = region(ch, &text, 0);
        let op = ch.pick(9);
        ch.log(|| format!("text {:?}, search {:?}, selected {:?}, operation {}", text, q, r, op));
        let m = matches(&text, &q);
        with_view(&text, |v, c| {
            v.cmd(c, "find", q.json())?;
            v.select(c, &text, &[r])?;
            ch.step();
            match op {
                0 | 1 | 2 | 3 => {
                    let back = op % 2 == 1;
                    let adding = op >= 2;
                    let how = if adding { "add" } else { "set" };
                    v.cmd(c, if back { "find_previous" } else { "find_next" }, json!({"wrap_around": true, "allow_same": false, "modify_selection": how}))?;
                    let sel = v.selection(&text)?;
                    let want = if back { prev_of(&m, r) } else { next_of(&m, r) };
                    let mut full: Vec<Reg> = vec![];
                    match want {
                        None => full.push(r),
                        Some(w) if !adding => full.push(w),
                        Some(w) => {
                            let mut regs = vec![crate::refmodel::Rg::new(r.0, r.1)];
                            crate::refmodel::add(&mut regs, crate::refmodel::Rg::new(w.0, w.1));
                            full = regs.iter().map(|x| (x.min(), x.max())).collect();
                        }
                    }
                    ensure_eq!(sel, full, "selection after {} of {:?}, matches {:?}", if back { "find_previous" } else { "find_next" }, q, m);
                }
                4 => {
                    v.cmd(c, "find_all", Value::Null)?;
                    let sel = v.selection(&text)?;
                    ensure_eq!(sel, if m.is_empty() { vec![r] } else { m.clone() }, "selection after find_all");
                }
                5 => {
                    v.cmd(c, "replace", json!({"chars": "xy", "preserve_case": false}))?;
                    v.cmd(c, "replace_all", Value::Null)?;
                    let mut t = text.clone();
                    for x in m.iter().rev() {
                        t.replace_range(x.0..x.1, "xy");
                    }
                    ensure_eq!(v.text(c), t, "text after replace_all, matches were {:?}", m);
                    check(v, c, &[(None, q.clone())])?;
                    if !m.is_empty() {
                        v.cmd(c, "undo", Value::Null)?;
                        ensure_eq!(v.text(c), text, "text after undoing replace_all");
                        check(v, c, &[(None, q.clone())])?;
                    }
                }
                6 => {
                    // replacing the match that find_next selected, then the following one
                    v.cmd(c, "find_next", json!({"wrap_around": true, "allow_same": false, "modify_selection": "set"}))?;
                    let sel = v.selection(&text)?;
                    v.cmd(c, "replace", json!({"chars": "z", "preserve_case": false}))?;
                    v.cmd(c, "replace_next", Value::Null)?;
                    let mut t = text.clone();
                    if m.is_empty() {
                        ensure_eq!(v.text(c), t, "text after replace_next without matches");
                    } else {
                        if m.contains(&sel[0]) {
                            t.replace_range(sel[0].0..sel[0].1, "z");
                            ensure_eq!(v.text(c), t, "text after replacing {:?}", sel[0]);
                        }
                    }
                    check(v, c, &[(None, q.clone())])?;
                }
                7 => {
                    // going round visits every match
                    if m.is_empty() || r.0 != r.1 {
                        return Ok(());
                    }
                    let mut seen = Vec::new();
                    for _ in 0..m.len() {
                        v.cmd(c, "find_next", json!({"wrap_around": true, "allow_same": false, "modify_selection": "set"}))?;
                        seen.push(v.selection(&text)?[0]);
                    }
                    seen.sort();
                    ensure_eq!(seen, m, "matches visited by {} times find_next", m.len());
                }
                _ => {
                    // what is selected (or the word at the caret) becomes the query, as a whole word
                    v.cmd(c, "selection_for_find", json!({"case_sensitive": true}))?;
                    let w = if r.0 != r.1 {
                        r
                    } else {
                        let e = crate::refmodel::Ed::new(&text, &[r]);
                        e.word_at(r.0)
                    };
                    let s: &'static str = Box::leak(text[w.0..w.1].to_string().into_boxed_str());
                    let simple = s.chars().all(|c| class(c) == Cl::Ot);
                    if simple && s != "aba" {
                        check(v, c, &[(None, Q { chars: s, cs: true, re: false, ww: true })])?;
                    }
                }
            }
            if !m.is_empty() {
                ch.nontrivial();
            }
            ch.state(&(&text, r, op, q.chars));
            Ok(())
        })
    }
}
fn apart(x: &Reg, r: Reg) -> bool {
    if r.0 == r.1 {
        x.1 < r.0 || x.0 > r.1
    } else {
        x.1 <= r.0 || x.0 >= r.1
    }
}
fn next_of(m: &[Reg], r: Reg) -> Option<Reg> {
    let from = if r.0 == r.1 { r.1 } else { r.1 + 1 };
    m.iter().find(|x| x.1 >= from).or_else(|| m.iter().find(|x| apart(x, r))).copied()
}
fn prev_of(m: &[Reg], r: Reg) -> Option<Reg> {
    let p = if r.0 == 0 { None } else { m.iter().rev().find(|x| x.0 < r.0) };
    p.or_else(|| m.iter().rev().find(|x| apart(x, r))).copied()
}

/// Changing the query, or several queries at once, with edits in between.
fn queries(depth: usize) -> impl Fn(&mut Ch) -> Res {
    move |ch| {
        let text = *ch.of(&["ab a\nab\nA", "aaa\nb\n"]);
        let qs = [q("a", true, false, false), q("ab", false, false, true), q("", true, false, false), q("a+", true, true, false), q("a", false, false, false), q("b", true, false, false)];
        ch.log(|| format!("text {:?}", text));
        with_view(text, |v, c| {
            // (id, query), as the front-end knows them
            let mut cur: Vec<(Option<u64>, Q)> = vec![];
            for _ in 0..depth {
                match ch.pick(5) {
                    0 => {
                        let q = ch.of(&qs).clone();
                        ch.log(|| format!("find {:?}", q));
                        v.cmd(c, "find", q.json())?;
                        cur = vec![(cur.first().and_then(|x| x.0), q)];
                    }
                    1 => {
                        let (a, b) = (ch.of(&qs).clone(), ch.of(&qs).clone());
                        ch.log(|| format!("multi_find {:?} {:?}", a, b));
                        let mut js = vec![a.json(), b.json()];
                        for (i, j) in js.iter_mut().enumerate() {
                            if let Some((Some(id), _)) = cur.get(i) {
                                j["id"] = json!(id);
                            }
                        }
                        v.cmd(c, "multi_find", json!({ "queries": js }))?;
                        cur = vec![(cur.first().and_then(|x| x.0), a), (cur.get(1).and_then(|x| x.0), b)];
                    }
                    2 => {
                        ch.log(|| "insert a".into());
                        v.cmd(c, "insert", json!({"chars": "a"}))?;
                    }
                    3 => {
                        ch.log(|| "paste a line".into());
                        v.cmd(c, "paste", json!({"chars": "ab\n"}))?;
                    }
                    _ => {
                        ch.log(|| "undo".into());
                        v.cmd(c, "undo", Value::Null)?;
                    }
                }
                ch.step();
                if cur.is_empty() {
                    continue;
                }
                // the ids the core gave
                let s = v.find_status.as_array().cloned().unwrap_or_default();
                if s.len() == cur.len() {
                    for (x, y) in cur.iter_mut().zip(&s) {
                        let id = y["id"].as_u64();
                        if x.0.is_some() {
                            ensure_eq!(x.0, id, "id of a query in the status");
                        }
                        x.0 = id;
                    }
                }
                check(v, c, &cur)?;
                ch.state(&(v.text(c), cur.iter().map(|x| x.1.chars).collect::<Vec<_>>()));
                ch.nontrivial();
            }
            Ok(())
        })
    }
}

/// A text of several search batches, seen from the top, the middle or the end, edited while the search goes on.
fn batches(ch: &mut Ch) -> Res {
    let lines = 30_000usize;
    let width = 40usize;
    let q = ch.of(&[q("needle", true, false, false), q("N[e]+dle", false, true, false), q("needle\n", true, false, false), q("x\\nneedle", true, true, false)]).clone();
    let first = *ch.of(&[0usize, 14_000, 29_990]);
    let steps = ch.range(0, 4);
    let edit = *ch.of(&[None, Some(0usize), Some(600_000), Some(1_229_000)]);
    let ins = *ch.of(&["needle", "del"]);
    if edit.is_none() && (ins == "del" || steps > 0) {
        return Ok(());
    }
    ch.log(|| format!("{:?} seen from line {}, {} batches, then {:?} at {:?}", q, first, steps, ins, edit));
    let mut text = String::new();
    for i in 0..lines {
        if i % 977 == 3 || i % 12_200 < 2 {
            text += &format!("{:x<w$}\n", "needle", w = width);
        } else if i % 976 == 5 {
            text += &format!("{:x>w$}\n", "needle", w = width);
        } else {
            text += &format!("{:y<w$}x\n", i, w = width - 1);
        }
    }
    with_view("", |v, c| {
        v.cmd(c, "insert", json!({ "chars": text }))?;
        v.cmd_raw(c, "scroll", json!([first, first + 10]))?;
        c.settle();
        v.cmd_raw(c, "find", q.json())?;
        for _ in 0..steps {
            c.idle_one();
        }
        if let Some(at) = edit {
            let (l, col) = line_col(&text, at);
            v.cmd_raw(c, "gesture", json!({"line": l, "col": col, "ty": "point_select"}))?;
            if ins == "del" {
                v.cmd_raw(c, "gesture", json!({"line": l + 1, "col": 3, "ty": {"select_extend": {"granularity": "point"}}}))?;
                v.cmd_raw(c, "delete_backward", Value::Null)?;
            } else {
                v.cmd_raw(c, "insert", json!({ "chars": ins }))?;
            }
        }
        c.settle();
        v.sync(c)?;
        let t = v.text(c);
        let m = matches(&t, &q);
        ensure!(m.len() > 20, "ENGINE: few matches");
        v.cmd(c, "scroll", json!([0, lines + 2]))?;
        let got: Vec<Reg> = reported(v, &t)?.iter().map(|x| x.1).collect();
        ensure!(got == m, "matches of {:?}: {} expected, {} found; first difference {:?}", q, m.len(), got.len(), m.iter().zip(&got).find(|(a, b)| a != b));
        ch.nontrivial();
        ch.state(&(q.chars, first, steps, edit, ins));
        Ok(())
    })
}

pub fn run() -> ! {
    let th = is_thorough();
    const AB: [&str; 3] = ["a", "b", "\n"];
    const WIDE: [&str; 5] = ["a", "B", "é", " ", "\n"];
    mccommon::run(
        Opts { property: "C21".into(), level: "model_checking".into(), assumptions: vec![], single_thread: false },
        vec![
            section("edited", "20 queries on every text of up to 4 (thorough: 5) of 3 symbols, then every replacement of a region, search done or unfinished; and undo", edited(&AB, if th { 5 } else { 4 }, false, 1)),
            section("wide", "the same with texts of up to 3 of 5 symbols, multi-byte and blanks among them", edited(&WIDE, if th { 4 } else { 3 }, false, 1)),
            section("two", "the same with edits at two regions at once, texts of up to 3 symbols", edited(&AB, if th { 4 } else { 3 }, true, 1)),
            section("twice", "two edits in a row, texts of up to 1 (thorough: 3) symbols", edited(&AB, if th { 3 } else { 1 }, false, 2)),
            section("navigate", "find_next, find_previous, find_all, replacing and going round from every selection of texts of up to 4 symbols", navigate(&AB, if th { 5 } else { 4 })),
            section("navigate-wide", "the same with multi-byte and blanks", navigate(&WIDE, if th { 4 } else { 3 })),
            section("queries", "every sequence of 3 (thorough: 4) changes of one or two queries, edits and undo", queries(if th { 4 } else { 3 })),
            section("batches", "1.2 MB of text searched in batches, edited after 0 to 4 of them, seen from three places", batches),
        ],
    )
}
