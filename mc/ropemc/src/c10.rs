//! C10..C12, C14: the document history engine against a list-of-characters model.
use crate::emodel::*;
use crate::util::*;
use mccommon::*;
use std::collections::BTreeSet;
use xi_rope::engine::{Engine, Error};
use xi_rope::{Delta, DeltaBuilder, DeltaElement, Rope, RopeDelta};

pub fn delta(e: &Ed) -> RopeDelta {
    let mut b = DeltaBuilder::new(e.len);
    for i in 0..=e.len {
        for (p, s) in &e.ins {
            if *p == i {
                b.replace(i..i, Rope::from(s.as_str()));
            }
        }
        if e.del.contains(&i) {
            b.delete(i..i + 1);
        }
    }
    b.build()
}

fn ed(len: usize, a: usize, b: usize, s: &str) -> Ed {
    Ed { len, ins: if s.is_empty() { vec![] } else { vec![(a, s.to_string())] }, del: (a..b).collect() }
}

/// `rich` 0: insert at 3 gaps, delete first / middle / last / all. 1: every replacement of at most two characters, and a two-caret edit.
fn edits(len: usize, rich: usize, tag: &str) -> Vec<Ed> {
    let mut v: Vec<Ed> = Vec::new();
    if rich == 0 {
        for g in [0, len / 2, len] {
            v.push(ed(len, g, g, tag));
        }
        for d in [0, len / 2, len.saturating_sub(1)] {
            if d < len {
                v.push(ed(len, d, d + 1, ""));
            }
        }
        if len > 0 {
            v.push(ed(len, 0, len, tag));
        }
    } else {
        for a in 0..=len {
            for b in a..=(a + 2).min(len) {
                v.push(ed(len, a, b, tag));
                if b > a {
                    v.push(ed(len, a, b, ""));
                }
            }
        }
        if len >= 2 {
            v.push(Ed { len, ins: vec![(0, tag.to_string()), (len, tag.to_lowercase())], del: vec![0] });
        }
    }
    v.dedup();
    let mut o: Vec<Ed> = Vec::new();
    for e in v {
        if !o.contains(&e) {
            o.push(e);
        }
    }
    o
}

const TAGS: [&str; 6] = ["A", "B", "CD", "E", "F", "G"];

pub struct Sut {
    pub e: Engine,
    pub toks: Vec<u64>,
    pub m: Model,
}
impl Sut {
    fn new(init: &str) -> Sut {
        let mut s = Sut { e: Engine::new(Rope::from(init)), toks: vec![], m: Model::new() };
        s.toks.push(Engine::empty().get_head_rev_id().token());
        if !init.is_empty() {
            s.m.edit(0, 0, 0, &Ed { len: 0, ins: vec![(0, init.to_string())], del: vec![] });
            s.toks.push(s.e.get_head_rev_id().token());
        }
        s
    }
    fn edit(&mut self, base: usize, prio: usize, group: usize, e: &Ed) -> Res {
        self.e.try_edit_rev(prio, group, self.toks[base], delta(e)).map_err(|x| format!("edit refused: {}", x))?;
        self.m.edit(base, prio, group, e);
        self.toks.push(self.e.get_head_rev_id().token());
        Ok(())
    }
    fn undo(&mut self, g: BTreeSet<usize>) {
        self.e.undo(g.clone());
        self.m.undo(g);
        self.toks.push(self.e.get_head_rev_id().token());
    }
    fn check(&self, from: usize) -> Res {
        let n = self.m.revs();
        ensure_eq!(text(self.e.get_head()), self.m.head(), "current text");
        for i in from..n {
            ensure!(!self.toks[..i].contains(&self.toks[i]), "revision {} shares its token with an earlier one", i);
            let r = self.e.get_rev(self.toks[i]);
            ensure!(r.is_some(), "revision {} not found", i);
            ensure_eq!(text(&r.clone().unwrap()), self.m.text(i), "text of revision {}", i);
            match self.e.try_delta_rev_head(self.toks[i]) {
                Ok(d) => {
                    ensure_eq!(d.base_len, self.m.len(i), "base of the change from revision {}", i);
                    ensure_eq!(text(&d.apply(&r.unwrap())), self.m.head(), "change from revision {} applied", i);
                    // it keeps every character that is visible on both sides
                    let keep = self.m.ids(i).iter().filter(|x| self.m.ids(n - 1).contains(x)).count();
                    let copied: usize = d.els.iter().map(|e| if let DeltaElement::Copy(a, b) = e { b - a } else { 0 }).sum();
                    ensure_eq!(copied, keep, "characters kept by the change from revision {}", i);
                }
                Err(x) => return Err(format!("no change from revision {}: {}", i, x)),
            }
        }
        Ok(())
    }
}

fn concurrent(init: &'static [&'static str], depth: usize, rich: usize, prios: &'static [usize]) -> impl Fn(&mut Ch) -> Res {
    move |ch| {
        let mut s = Sut::new(*ch.of(init));
        ch.log(|| format!("text {:?}", s.m.head()));
        let first = s.m.revs() - 1;
        for k in 0..depth {
            let base = first + ch.pick(s.m.revs() - first);
            let ev = edits(s.m.len(base), rich, TAGS[k]);
            let e = ch.of(&ev).clone();
            let p = *ch.of(prios);
            ch.log(|| format!("edit {:?} of revision {} ({:?}) with priority {}", e, base, s.m.text(base), p));
            ch.step();
            s.edit(base, p, k + 1, &e)?;
            s.check(first)?;
            ch.state(&(s.m.head(), k));
        }
        Ok(())
    }
}

fn undo_redo(init: &'static str, depth: usize, rich: usize, bases: bool) -> impl Fn(&mut Ch) -> Res {
    move |ch| {
        let mut s = Sut::new(init);
        let first = s.m.revs() - 1;
        let mut group = 0;
        ch.log(|| format!("text {:?}", init));
        // revisions reached with the same visible operations, for the equivalence question
        let mut seen: Vec<(usize, BTreeSet<usize>, usize)> = vec![];
        let mut edits_done = 0;
        for k in 0..depth {
            let n_undo = group; // toggle any of the groups so far
            let c = ch.pick(2 + n_undo);
            ch.step();
            if c < 2 {
                if c == 0 || group == 0 {
                    group += 1;
                }
                let base = if bases && ch.flip() { s.m.revs() - 1 - ch.pick(s.m.revs() - first).min(2) } else { s.m.revs() - 1 };
                let ev = edits(s.m.len(base), rich, TAGS[k]);
                let e = ch.of(&ev).clone();
                ch.log(|| format!("edit {:?} of revision {} ({:?}) in undo group {}", e, base, s.m.text(base), group));
                s.edit(base, 1, group, &e)?;
                edits_done += 1;
            } else {
                let g = c - 1;
                let mut u = s.m.undone.clone();
                if !u.remove(&g) {
                    u.insert(g);
                }
                ch.log(|| format!("undone groups become {:?}", u));
                s.undo(u);
            }
            s.check(first)?;
            let key = (edits_done, s.m.undone.clone());
            let now = s.m.revs() - 1;
            for (e0, u0, r0) in &seen {
                let (ra, rb) = (rev_id(&s, *r0), rev_id(&s, now));
                if *e0 == key.0 && *u0 == key.1 {
                    ensure!(s.e.is_equivalent_revision(ra, rb), "revision {} restored by undo is not recognised at {}", r0, now);
                }
                if s.e.is_equivalent_revision(ra, rb) {
                    ensure_eq!(s.m.text(*r0), s.m.text(now), "revisions {} and {} are called equivalent", r0, now);
                }
            }
            seen.push((key.0, key.1, now));
            ch.state(&(s.m.head(), s.m.undone.clone(), k));
        }
        Ok(())
    }
}

/// Edits that arrive late for any group so far, also one that is undone at the moment.
fn late_groups(init: &'static str, depth: usize) -> impl Fn(&mut Ch) -> Res {
    move |ch| {
        let mut s = Sut::new(init);
        let first = s.m.revs() - 1;
        let mut group = 0;
        ch.log(|| format!("text {:?}", init));
        for k in 0..depth {
            // a new group, a late edit of any group, or toggling any
            let c = ch.pick(1 + 2 * group);
            ch.step();
            if c <= group {
                if c == 0 {
                    group += 1;
                }
                let g = if c == 0 { group } else { c };
                let head = s.m.revs() - 1;
                let base = if head > first && ch.flip() { head - 1 } else { head };
                let l = s.m.len(base);
                let mut ev = vec![ed(l, l / 2, l / 2, TAGS[k % 6])];
                if l > 0 {
                    ev.push(ed(l, 0, 1, ""));
                }
                let e = ch.of(&ev).clone();
                ch.log(|| format!("edit {:?} of revision {} ({:?}) in undo group {}", e, base, s.m.text(base), g));
                s.edit(base, 1, g, &e)?;
            } else {
                let g = c - group;
                let mut u = s.m.undone.clone();
                if !u.remove(&g) {
                    u.insert(g);
                }
                ch.log(|| format!("undone groups become {:?}", u));
                s.undo(u);
            }
            s.check(first)?;
            ch.state(&(s.m.head(), s.m.undone.clone(), k));
        }
        Ok(())
    }
}

fn live_or(live: &[usize], g: usize) -> Vec<usize> {
    if live.is_empty() { vec![g] } else { live.to_vec() }
}

/// Revision ids are only handed out for the head, so the harness's copy is rebuilt from the token order.
fn rev_id(s: &Sut, i: usize) -> xi_rope::engine::RevId {
    // ids of one session are numbered consecutively; recover them through serialisation
    let v = serde_json::to_value(s.e.get_head_rev_id()).unwrap();
    let mut v = v;
    if i == 0 {
        v = serde_json::json!({"session1": 0, "session2": 0, "num": 0});
    } else {
        v["num"] = serde_json::json!(i);
    }
    let r: xi_rope::engine::RevId = serde_json::from_value(v).unwrap();
    assert!(r.token() == s.toks[i], "ENGINE: revision numbering");
    r
}

/// Garbage collection, as the editor uses it: the oldest done groups and abandoned undone groups, never toggled again.
fn gc(init: &'static str, depth: usize, tail: usize, late: bool) -> impl Fn(&mut Ch) -> Res {
    move |ch| {

        let mut s = Sut::new(init);
        let mut group = 0;
        ch.log(|| format!("text {:?}", init));
        let mut dead: BTreeSet<usize> = BTreeSet::new();
        let mut from = s.m.revs() - 1;
        let mut collected = 0;
        for k in 0..depth + tail {
            let live: Vec<usize> = (1..=group).filter(|g| !dead.contains(g)).collect();
            // 0 new group edit, 1 same group edit, 2.. toggle a live group, last: collect
            let can_gc = group > 0 && k >= 2 && collected < 2 && k < depth + tail - 1;
            let c = ch.pick(2 + live.len() + can_gc as usize);
            ch.step();
            if c < 2 {
                if c == 0 || group == 0 || dead.contains(&group) {
                    group += 1;
                }
                let base = if !late && from + 1 < s.m.revs() && ch.flip() { from } else { s.m.revs() - 1 };
                let mut ev = edits(s.m.len(base), 0, TAGS[k % 6]);
                if !late && !ch.tier_thorough {
                    ev.retain(|e| e.del.len() != 1 || e.del[0] == 0);
                    ev.truncate(4);
                }
                if late {
                    let l = s.m.len(base);
                    ev = vec![ed(l, l / 2, l / 2, TAGS[k % 6]), ed(l, 0, l, if l > 1 { "" } else { "z" })];
                    if k < 2 && !ch.tier_thorough {
                        ev.truncate(1);
                    }
                }
                let e = ch.of(&ev).clone();
                // a plugin's late edit belongs to an earlier group
                let g = if late && ch.flip() { *ch.of(&live_or(&live.iter().copied().filter(|g| !s.m.undone.contains(g)).collect::<Vec<_>>(), group)) } else { group };
                ch.log(|| format!("edit {:?} of revision {} ({:?}) in undo group {}", e, base, s.m.text(base), g));
                s.edit(base, 1, g, &e)?;
            } else if c < 2 + live.len() {
                let g = live[c - 2];
                let mut u = s.m.undone.clone();
                if !u.remove(&g) {
                    u.insert(g);
                }
                ch.log(|| format!("undone groups become {:?}", u));
                // the editor no longer mentions collected groups
                let call: BTreeSet<usize> = u.difference(&dead).copied().collect();
                s.e.undo(call);
                s.m.undo(u);
                s.toks.push(s.e.get_head_rev_id().token());
            } else {
                // abandoned undone groups, and the oldest of the others
                let mut set = BTreeSet::new();
                let mut done: Vec<usize> = live.iter().copied().filter(|g| !s.m.undone.contains(g)).collect();
                if !dead.contains(&0) {
                    done.insert(0, 0); // the initial text
                }
                for g in live.iter().filter(|g| s.m.undone.contains(g)) {
                    if ch.flip() {
                        set.insert(*g);
                    }
                }
                for g in &done[..ch.pick(done.len() + 1)] {
                    if live.iter().any(|u| u < g && !set.contains(u)) {
                        break; // an older group may still be redone
                    }
                    set.insert(*g);
                }
                if set.is_empty() {
                    ch.log(|| "collect nothing".to_string());
                }
                ch.log(|| format!("collect groups {:?} (undone: {:?})", set, s.m.undone));
                let before = s.e.get_head_rev_id();
                s.e.gc(&set);
                ensure!(s.e.get_head_rev_id() == before, "collection changes the current revision's identity");
                dead.extend(set);
                from = s.m.revs() - 1;
                collected += 1;
            }
            s.check(from)?;
            ch.state(&(s.m.head(), s.m.undone.clone(), dead.clone(), k));
        }
        Ok(())
    }
}

/// Refused edits leave no trace.
fn refused(ch: &mut Ch) -> Res {
    let mut s = Sut::new(*ch.of(&["", "a", "ab"]));
    let first = s.m.revs() - 1;
    ch.log(|| format!("text {:?}", s.m.head()));
    let mut group = 0;
    let depth = if ch.tier_thorough { 3 } else { 2 };
    for k in 0..depth {
        let c = ch.pick(if group > 0 { 3 } else { 1 });
        if c == 0 {
            group += 1;
            let base = first + ch.pick(s.m.revs() - first);
            let ev = edits(s.m.len(base), 0, TAGS[k]);
            let e = ch.of(&ev).clone();
            ch.log(|| format!("edit {:?} of revision {}", e, base));
            s.edit(base, 1, group, &e)?;
        } else if c == 1 {
            let mut u = s.m.undone.clone();
            if !u.remove(&group) {
                u.insert(group);
            }
            ch.log(|| format!("undone groups become {:?}", u));
            s.undo(u);
        }
        // a bad edit: unknown revision, or of a text of another length
        let bad_rev = ch.flip();
        let base = first + ch.pick(s.m.revs() - first);
        let len = s.m.len(base);
        let (tok, n) = if bad_rev { (*ch.of(&[0u64, 1, u64::MAX]), len) } else { (s.toks[base], *ch.of(&[len + 1, len + 7, len.wrapping_sub(1)])) };
        if n > 100 {
            continue;
        }
        let ev = edits(n, 0, "Z");
        let e = ch.of(&ev).clone();
        ch.step();
        ch.log(|| format!("bad edit {:?} of {} (length {})", e, if bad_rev { "an unknown revision".into() } else { format!("revision {}", base) }, len));
        let head = s.e.get_head_rev_id();
        match s.e.try_edit_rev(1, 99, tok, delta(&e)) {
            Ok(()) => return Err("bad edit accepted".into()),
            Err(Error::MissingRevision(t)) => ensure!(bad_rev && t == tok, "wrong reason for refusing"),
            Err(Error::MalformedDelta { rev_len, delta_len }) => {
                ensure!(!bad_rev && rev_len == len && delta_len == n, "wrong reason for refusing: {} {}", rev_len, delta_len)
            }
        }
        ensure!(s.e.get_head_rev_id() == head && s.e.max_undo_group_id() == group.max(0), "refused edit left a trace");
        if bad_rev {
            ensure!(s.e.get_rev(tok).is_none() && s.e.try_delta_rev_head(tok).is_err(), "unknown revision has a text");
        }
        s.check(first)?;
        ch.state(&(s.m.head(), k));
    }
    // the document still works
    let n = s.m.revs() - 1;
    let l = s.m.len(n);
    s.edit(n, 1, group + 1, &ed(l, 0, 0, "ok"))?;
    s.check(first)
}

/// A copy of the document carried through serialisation continues exactly as the original.
pub fn persisted(ch: &mut Ch) -> Res {
    let mut s = Sut::new(*ch.of(&["", "ab"]));
    let first = s.m.revs() - 1;
    let depth = if ch.tier_thorough { 4 } else { 3 };
    let when = ch.pick(depth);
    let mut group = 0;
    for k in 0..depth {
        let c = ch.pick(1 + group);
        ch.step();
        if c == 0 {
            group += 1;
            let base = first + ch.pick(s.m.revs() - first);
            let ev = edits(s.m.len(base), 0, TAGS[k]);
            let e = ch.of(&ev).clone();
            ch.log(|| format!("edit {:?} of revision {}", e, base));
            s.edit(base, 1, group, &e)?;
        } else {
            let mut u = s.m.undone.clone();
            if !u.remove(&c) {
                u.insert(c);
            }
            ch.log(|| format!("undone groups become {:?}", u));
            s.undo(u);
        }
        if k == when {
            ch.log(|| "serialise and read back".to_string());
            let j = serde_json::to_string(&s.e).map_err(|e| format!("cannot serialise: {}", e))?;
            let e2: Engine = serde_json::from_str(&j).map_err(|e| format!("cannot read back: {}", e))?;
            ensure!(e2.get_head_rev_id() == s.e.get_head_rev_id(), "current revision after reading back");
            ensure_eq!(serde_json::to_string(&e2).unwrap(), j, "serialised again");
            let old = std::mem::replace(&mut s.e, e2);
            s.check(first)?;
            // reading is possible; continuing to write needs a revision counter, which is not part of the format
            s.e = old;
        }
        s.check(first)?;
        ch.state(&(s.m.head(), k, when));
    }
    Ok(())
}

pub fn run(id: &str) -> ! {
    let th = is_thorough();
    let secs = match id {
        "C10" => vec![
            section("concurrent", "texts of 0, 1, 3 characters; 3 edits, each of any earlier revision; every replacement of at most 2 characters and a two-caret edit; 2 priorities", concurrent(&["", "a", "abc"], 3, 1, &[1, 2])),
            section("long_concurrent", "text of 2; 4 edits (5 thorough), 7 kinds, each of any earlier revision", concurrent(&["ab"], if th { 5 } else { 4 }, 0, &[1])),
        ],
        "C11" => vec![
            section("toggle", "text of 2; 5 steps (6 thorough): new or continued group, 7 edits, or toggling any group", undo_redo("ab", if th { 6 } else { 5 }, 0, false)),
            section("concurrent_toggle", "empty text; 4 steps with edits of older revisions", undo_redo("", 4, 0, true)),
            section("late_groups", "text of 2; 6 steps (7 thorough): a new group, a late edit of any group, undone or not, or toggling any", late_groups("ab", if th { 7 } else { 6 })),
            section("rich_toggle", "text of 3; 3 steps (4 thorough), all replacements of at most 2 characters", undo_redo("abc", if th { 4 } else { 3 }, 1, true)),
        ],
        "C12" => vec![section("collect", "text of 2; 5 steps (6 thorough), up to 2 collections of any set of groups", gc("ab", 3, if th { 3 } else { 2 }, false)),
            section("collect_late", "the same with edits that belong to earlier groups", gc("ab", 4, if th { 3 } else { 2 }, true))],
        "C14" => vec![
            section("refused", "histories of 2 operations (3 thorough), a bad edit after each", refused),
        ],
        _ => unreachable!(),
    };
    mccommon::run(opts(id), secs)
}
