//! C05: the change algebra (apply, factor, synthesize, rebase, coordinate mapping) against lists.
use crate::util::*;
use mccommon::*;
use xi_rope::delta::{DeltaRegion, InsertDelta};
use xi_rope::multiset::{Subset, SubsetBuilder};
use xi_rope::{Delta, DeltaBuilder, DeltaElement, Interval, Rope, RopeDelta, RopeInfo, Transformer};

/// A change in the model: per gap an insertion, per character whether it is deleted.
#[derive(Clone, Debug, Hash)]
struct M {
    ins: Vec<String>,
    del: Vec<bool>,
}

fn choose(ch: &mut Ch, n: usize, tag: char, deletes: bool) -> M {
    let opts = [String::new(), tag.to_string(), format!("{}{}", tag, tag.to_ascii_lowercase())];
    let mut ins = Vec::new();
    let mut del = Vec::new();
    for i in 0..=n {
        ins.push(ch.of(&opts).clone());
        if i < n {
            del.push(deletes && ch.flip());
        }
    }
    M { ins, del }
}

/// `frag`: 0 coalesced, 1 every character its own copy, 2 through the builder.
fn to_delta(m: &M, frag: usize) -> RopeDelta {
    let n = m.del.len();
    if frag == 2 {
        let mut b = DeltaBuilder::new(n);
        for i in 0..=n {
            if !m.ins[i].is_empty() {
                b.replace(i..i, Rope::from(m.ins[i].as_str()));
            }
            if i < n && m.del[i] {
                b.delete(i..i + 1);
            }
        }
        return b.build();
    }
    let mut els: Vec<DeltaElement<RopeInfo>> = Vec::new();
    for i in 0..=n {
        if !m.ins[i].is_empty() {
            els.push(DeltaElement::Insert(Rope::from(m.ins[i].as_str())));
        }
        if i < n && !m.del[i] {
            match els.last_mut() {
                Some(DeltaElement::Copy(_, e)) if *e == i && frag == 0 => *e = i + 1,
                _ => els.push(DeltaElement::Copy(i, i + 1)),
            }
        }
    }
    Delta { els, base_len: n }
}

fn base(n: usize) -> String {
    "0123456789"[..n].to_string()
}

fn apply(m: &M, s: &str) -> String {
    let mut o = String::new();
    for (i, x) in m.ins.iter().enumerate() {
        o.push_str(x);
        if i < m.del.len() && !m.del[i] {
            o.push_str(&s[i..i + 1]);
        }
    }
    o
}

fn subset(v: &[bool]) -> Subset {
    let mut sb = SubsetBuilder::new();
    for b in v {
        sb.push_segment(1, *b as usize);
    }
    sb.build()
}

fn single(max: usize) -> impl Fn(&mut Ch) -> Res {
    move |ch| {
        let n = ch.pick(max + 1);
        let m = choose(ch, n, 'X', true);
        let frag = ch.pick(3);
        let d = to_delta(&m, frag);
        let s = base(n);
        let r = Rope::from(s.as_str());
        ch.log(|| format!("base {:?}, change {:?} as {:?}", s, m, d));
        ch.state(&(&m, frag));
        ch.step();
        let exp = apply(&m, &s);
        ensure_eq!(text(&d.apply(&r)), exp, "apply");
        ensure_eq!(d.new_document_len(), exp.len(), "new_document_len");
        ensure_eq!(d.inserts_len(), m.ins.iter().map(|x| x.len()).sum::<usize>(), "inserts_len");
        // summary
        let (iv, nl) = d.summary();
        let mut rr = s[..iv.start()].to_string();
        ensure!(iv.end() <= n && iv.start() + nl <= exp.len(), "summary {:?} {} out of range", iv, nl);
        rr.push_str(&exp[iv.start()..iv.start() + nl]);
        rr.push_str(&s[iv.end()..]);
        ensure_eq!(rr, exp, "replacing the summary interval {:?} by {} new characters", iv, nl);
        // classification (exact on coalesced deltas)
        let n_ins = m.ins.iter().filter(|x| !x.is_empty()).count();
        let n_del = m.del.iter().filter(|x| **x).count();
        let del_runs = (0..n).filter(|i| m.del[*i] && (*i == 0 || !m.del[*i - 1])).count();
        if frag == 0 {
            ensure_eq!(d.is_identity(), n_ins == 0 && n_del == 0, "is_identity");
            ensure_eq!(d.is_simple_delete(), n_ins == 0 && del_runs == 1, "is_simple_delete");
        } else {
            ensure!(!d.is_identity() || (n_ins == 0 && n_del == 0), "is_identity claims too much");
            ensure!(!d.is_simple_delete() || (n_ins == 0 && del_runs == 1), "is_simple_delete claims too much");
        }
        match d.as_simple_insert() {
            Some(node) => {
                ensure!(n_ins == 1 && n_del == 0, "as_simple_insert on a change that is not one");
                ensure_eq!(text(node), *m.ins.iter().find(|x| !x.is_empty()).unwrap(), "simple insert text");
            }
            None => ensure!(!(frag == 0 && n_ins == 1 && n_del == 0), "simple insert not recognised"),
        }
        // regions
        let mut ei = Vec::new();
        let mut ed: Vec<(usize, usize, usize)> = Vec::new();
        {
            let mut pos = 0;
            let mut i = 0;
            while i <= n {
                if !m.ins[i].is_empty() {
                    // several insertions inside one deleted run are anchored where the run's copy ended
                    let mut anchor = i;
                    while anchor > 0 && m.del[anchor - 1] {
                        anchor -= 1;
                    }
                    ei.push(DeltaRegion { old_offset: anchor, new_offset: pos, len: m.ins[i].len() });
                    pos += m.ins[i].len();
                }
                if i < n {
                    if m.del[i] {
                        match ed.last_mut() {
                            Some((a, _, l)) if *a + *l == i => *l += 1,
                            _ => ed.push((i, pos, 1)),
                        }
                    } else {
                        pos += 1;
                    }
                }
                i += 1;
            }
        }
        let gi: Vec<DeltaRegion> = d.iter_inserts().collect();
        ensure_eq!(gi, ei, "insert regions");
        let gd: Vec<(usize, usize)> = d.iter_deletions().map(|x| (x.old_offset, x.len)).collect();
        let ed2: Vec<(usize, usize)> = ed.iter().map(|x| (x.0, x.2)).collect();
        ensure_eq!(gd, ed2, "deleted regions");
        for (g, e) in d.iter_deletions().zip(&ed) {
            // the region's place in the new text: the text before it is what surviving text before it produced
            let lo = e.1;
            let mut hi = lo;
            for i in e.0..=e.0 + e.2 {
                hi += m.ins[i].len();
            }
            ensure!(g.new_offset >= lo.saturating_sub(m.ins[e.0].len()) && g.new_offset <= hi, "place {} of deleted region {:?} in the new text", g.new_offset, e);
        }
        // factor
        let (ins, del) = d.clone().factor();
        let del2 = del.transform_expand(&ins.inserted_subset());
        ensure_eq!(text(&del2.delete_from(&ins.apply(&r))), exp, "insert part then delete part");
        ensure_eq!(del, subset(&m.del), "deleted subset");
        ensure_eq!(ins.inserted_subset().delete_from_string(&text(&ins.apply(&r))), s, "inserted subset");
        // synthesize it back
        let u = ins.apply(&r);
        let from = ins.inserted_subset();
        let tomb = from.complement().delete_from(&u);
        let d2 = Delta::synthesize(&tomb, &from, &del2);
        ensure_eq!(text(&d2.apply(&r)), exp, "synthesized change");
        // coordinates
        let mut t = Transformer::new(&d);
        let anchor = |i: usize| {
            let mut a = i;
            while a > 0 && m.del[a - 1] {
                a -= 1;
            }
            a
        };
        for ix in 0..=n {
            for after in [false, true] {
                let mut e = (0..ix).filter(|i| !m.del[*i]).count();
                for g in 0..=n {
                    let a = anchor(g);
                    if a < ix || (a == ix && after) {
                        e += m.ins[g].len();
                    }
                }
                ensure_eq!(t.transform(ix, after), e, "position {} (after={})", ix, after);
            }
            for iy in ix + 1..=n {
                let touched = (ix..iy).any(|i| m.del[i]) || (ix + 1..iy).any(|g| !m.ins[g].is_empty());
                let u = t.interval_untouched(Interval::new(ix, iy));
                ensure!(!u || !touched, "interval {}..{} reported untouched", ix, iy);
            }
        }
        Ok(())
    }
}

fn ins_text(d: &InsertDelta<RopeInfo>, s: &str) -> String {
    text(&d.apply(&Rope::from(s)))
}

/// Two concurrent insertions rebased over each other converge, in the requested order.
fn rebase(max: usize) -> impl Fn(&mut Ch) -> Res {
    move |ch| {
        let n = ch.pick(max + 1);
        let (m1, m2) = (choose(ch, n, 'X', false), choose(ch, n, 'Y', false));
        let s = base(n);
        ch.log(|| format!("base {:?}, {:?} against {:?}", s, m1.ins, m2.ins));
        ch.state(&(&m1, &m2));
        ch.step();
        let (d1, _) = to_delta(&m1, 0).factor();
        let (d2, _) = to_delta(&m2, 0).factor();
        let mut exp = String::new();
        for i in 0..=n {
            exp.push_str(&m1.ins[i]);
            exp.push_str(&m2.ins[i]);
            if i < n {
                exp.push_str(&s[i..i + 1]);
            }
        }
        let d2x = d2.transform_expand(&d1.inserted_subset(), true);
        let d1x = d1.transform_expand(&d2.inserted_subset(), false);
        ensure_eq!(ins_text(&d2x, &ins_text(&d1, &s)), exp, "second rebased after the first");
        ensure_eq!(ins_text(&d1x, &ins_text(&d2, &s)), exp, "first rebased before the second");
        ensure_eq!(d2x.base_len, s.len() + d1.inserts_len(), "base length of the rebased change");
        // shrinking undoes expanding
        let back = d2x.transform_shrink(&d1.inserted_subset());
        ensure_eq!(ins_text(&back, &s), ins_text(&d2, &s), "shrunk back");
        let back = d1x.transform_shrink(&d2.inserted_subset());
        ensure_eq!(ins_text(&back, &s), ins_text(&d1, &s), "shrunk back");
        Ok(())
    }
}

/// Insertions taken from a text to a union text with deleted characters and back.
fn shrink(max: usize) -> impl Fn(&mut Ch) -> Res {
    move |ch| {
        let n = ch.pick(max + 1);
        let m = choose(ch, n, 'X', true); // insertion into the union; del = characters missing from the text
        let u = base(n);
        let dels = subset(&m.del);
        let (ins, _) = to_delta(&M { ins: m.ins.clone(), del: vec![false; n] }, 0).factor();
        let t = dels.delete_from_string(&u);
        let shr = ins.transform_shrink(&dels);
        ch.log(|| format!("union {:?} without {:?}, inserting {:?}", u, m.del, m.ins));
        ch.state(&m);
        ch.step();
        ensure_eq!(shr.base_len, t.len(), "base length after shrinking");
        ensure_eq!(ins_text(&shr, &t), apply(&m, &u), "insertion into the text without the deleted characters");
        // and expanded again over the deletions it inserts the same characters among the survivors
        for after in [false, true] {
            let ex = shr.transform_expand(&dels, after);
            let full = ins_text(&ex, &u);
            let back = dels.transform_expand(&ex.inserted_subset()).delete_from_string(&full);
            ensure_eq!(back, apply(&m, &u), "expanded again (after={})", after);
        }
        Ok(())
    }
}

fn synth(max: usize) -> impl Fn(&mut Ch) -> Res {
    move |ch| {
        let n = ch.pick(max + 1);
        let from: Vec<bool> = (0..n).map(|_| ch.flip()).collect();
        let to: Vec<bool> = (0..n).map(|_| ch.flip()).collect();
        let u = "abcdefghijkl"[..n].to_string();
        let (f, t) = (subset(&from), subset(&to));
        ch.log(|| format!("union {:?}, hidden before {:?}, hidden after {:?}", u, from, to));
        ch.state(&(&from, &to));
        ch.step();
        let tomb = f.complement().delete_from(&Rope::from(u.as_str()));
        let d = Delta::synthesize(&tomb, &f, &t);
        let old = f.delete_from_string(&u);
        ensure_eq!(d.base_len, old.len(), "base length");
        ensure_eq!(text(&d.apply(&Rope::from(old.as_str()))), t.delete_from_string(&u), "synthesized change");
        if from == to {
            ensure!(d.is_identity(), "unchanged visibility gives a change");
        }
        // minimal: copies everything visible on both sides
        let kept = (0..n).filter(|i| !from[*i] && !to[*i]).count();
        let copied: usize = d.els.iter().map(|e| if let DeltaElement::Copy(a, b) = e { b - a } else { 0 }).sum();
        ensure_eq!(copied, kept, "characters kept by the synthesized change");
        Ok(())
    }
}

pub fn run() -> ! {
    let th = is_thorough();
    let k = if th { 1 } else { 0 };
    mccommon::run(
        opts("C05"),
        vec![
            section("single", "all changes of texts of up to 6 characters (7 thorough): 3 insertions per gap, any deletions, 3 encodings", single(6 + k)),
            section("rebase", "all pairs of insertions into texts of up to 4 characters (5 thorough)", rebase(4 + k)),
            section("shrink", "all insertions into union texts of up to 6 characters (7 thorough) with any deletions", shrink(6 + k)),
            section("synthesize", "all pairs of visibility sets over up to 9 characters (10 thorough)", synth(9 + k)),
        ],
    )
}
