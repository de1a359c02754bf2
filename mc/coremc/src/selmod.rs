//! C15: sets of selected regions against plain lists.
use mccommon::*;
use xi_core_lib::selection::{InsertDrift, SelRegion, Selection};
use xi_rope::{Delta, DeltaElement, Rope, RopeDelta, RopeInfo};

type R = (usize, usize);
fn mn(r: R) -> usize {
    r.0.min(r.1)
}
fn mx(r: R) -> usize {
    r.0.max(r.1)
}
fn caret(r: R) -> bool {
    r.0 == r.1
}
/// Non-carets merge when their interiors meet, a caret merges with what it is in or at the edge of.
fn merges(a: R, b: R) -> bool {
    let (lo, hi) = (mn(a).max(mn(b)), mx(a).min(mx(b)));
    if caret(a) || caret(b) {
        lo <= hi
    } else {
        lo < hi
    }
}
/// The documented merging, applied from the left.
fn add(v: &[R], r: R) -> Vec<R> {
    let mut r = r;
    let mut out: Vec<R> = Vec::new();
    for &x in v {
        if merges(x, r) {
            let (a, b) = (mn(x).min(mn(r)), mx(x).max(mx(r)));
            r = if r.1 >= r.0 { (a, b) } else { (b, a) };
        } else {
            out.push(x);
        }
    }
    let at = out.iter().position(|x| mn(*x) >= mx(r)).unwrap_or(out.len());
    // a region that ends where r begins stays before it
    out.insert(at, r);
    out
}
fn valid(v: &[R]) -> bool {
    v.windows(2).all(|w| mx(w[0]) < mn(w[1]) || (mx(w[0]) == mn(w[1]) && !caret(w[0]) && !caret(w[1])))
}
fn list(s: &Selection) -> Vec<R> {
    s.iter().map(|r| (r.start, r.end)).collect()
}
fn invariant(s: &Selection) -> Res {
    ensure!(valid(&list(s)), "regions {:?} overlap or are out of order", list(s));
    Ok(())
}
fn sel(v: &[R]) -> Selection {
    let mut s = Selection::new();
    for r in v {
        s.add_region(SelRegion::new(r.0, r.1));
    }
    s
}
/// Every valid selection of at most `k` regions over 0..=n.
fn choose(ch: &mut Ch, n: usize, k: usize) -> Vec<R> {
    let mut v: Vec<R> = Vec::new();
    for _ in 0..k {
        let mut opts: Vec<Option<R>> = vec![None];
        for a in 0..=n {
            for b in 0..=n {
                let mut w = v.clone();
                w.push((a, b));
                if valid(&w) {
                    opts.push(Some((a, b)));
                }
            }
        }
        match *ch.of(&opts) {
            None => break,
            Some(r) => v.push(r),
        }
    }
    v
}

fn adds(n: usize, k: usize) -> impl Fn(&mut Ch) -> Res {
    move |ch| {
        let mut s = Selection::new();
        let mut m: Vec<R> = Vec::new();
        for _ in 0..k {
            let r = (ch.range(0, n), ch.range(0, n));
            ch.log(|| format!("add {:?} to {:?}", r, m));
            ch.step();
            s.add_region(SelRegion::new(r.0, r.1));
            m = add(&m, r);
            ensure_eq!(list(&s), m, "after adding {:?}", r);
            invariant(&s)?;
            ch.state(&m);
        }
        Ok(())
    }
}

fn queries(n: usize, k: usize) -> impl Fn(&mut Ch) -> Res {
    move |ch| {
        let v = choose(ch, n, k);
        let s = sel(&v);
        ch.log(|| format!("regions {:?}", v));
        ch.state(&v);
        ensure_eq!(list(&s), v, "selection built from its own regions");
        for off in 0..=n + 1 {
            let e = v.iter().position(|r| mx(*r) >= off).unwrap_or(v.len());
            ensure_eq!(s.search(off), e, "first region that does not end before {}", off);
        }
        for a in 0..=n {
            for b in a..=n {
                ch.step();
                let touch = |r: R| mx(r) >= a && mn(r) <= b;
                let got: Vec<R> = s.regions_in_range(a, b).iter().map(|r| (r.start, r.end)).collect();
                for r in v.iter() {
                    ensure!(!touch(*r) || got.contains(r), "region {:?} missing from those in {}..{}", r, a, b);
                    ensure!(touch(*r) || !got.contains(r), "region {:?} among those in {}..{}", r, a, b);
                }
                let mut t = s.clone();
                t.delete_range(a, b, true);
                let left = list(&t);
                for r in v.iter() {
                    ensure!(!touch(*r) || !left.contains(r), "region {:?} left after deleting {}..{} with what touches it", r, a, b);
                    ensure!(touch(*r) || left.contains(r), "region {:?} lost when deleting {}..{}", r, a, b);
                }
                invariant(&t)?;
                let mut t = s.clone();
                t.delete_range(a, b, false);
                let left = list(&t);
                let e: Vec<R> = v.iter().copied().filter(|r| !(mx(*r) > a && mn(*r) < b)).collect();
                ensure_eq!(left, e, "after deleting what meets {}..{}", a, b);
            }
        }
        Ok(())
    }
}

/// Occurrences of a search: of two that overlap the one that begins first stays.
fn distinct(n: usize, k: usize) -> impl Fn(&mut Ch) -> Res {
    move |ch| {
        let mut s = Selection::new();
        let mut m: Vec<R> = Vec::new();
        for _ in 0..k {
            let a = ch.range(0, n);
            let b = ch.range(a, n);
            let r = (a, b);
            ch.log(|| format!("add {:?} to {:?}", r, m));
            ch.step();
            s.add_range_distinct(SelRegion::new(a, b));
            let first = m.iter().any(|x| *x == r || (x.0 <= r.0 && x.1 > r.0));
            if !first {
                m.retain(|x| !(x.0 >= r.0 && x.0 < r.1 && x.1 > r.0));
                let at = m.iter().position(|x| x.0 >= r.1 && x.1 > r.0).unwrap_or(m.len());
                m.insert(at, r);
            }
            ensure_eq!(list(&s), m, "after adding {:?}", r);
        }
        Ok(())
    }
}

fn delta(ins: &[usize], del: &[bool]) -> RopeDelta {
    let n = del.len();
    let mut els: Vec<DeltaElement<RopeInfo>> = Vec::new();
    for i in 0..=n {
        if ins[i] > 0 {
            els.push(DeltaElement::Insert(Rope::from("x".repeat(ins[i]))));
        }
        if i < n && !del[i] {
            match els.last_mut() {
                Some(DeltaElement::Copy(_, e)) if *e == i => *e = i + 1,
                _ => els.push(DeltaElement::Copy(i, i + 1)),
            }
        }
    }
    Delta { els, base_len: n }
}

fn through(n: usize, k: usize) -> impl Fn(&mut Ch) -> Res {
    move |ch| {
        let v = choose(ch, n, k);
        let mut ins = Vec::new();
        let mut del = Vec::new();
        for i in 0..=n {
            ins.push(ch.pick(2) * 2);
            if i < n {
                del.push(ch.flip());
            }
        }
        ch.log(|| format!("regions {:?}, insertions {:?}, deletions {:?}", v, ins, del));
        ch.step();
        ch.state(&(&v, &ins, &del));
        let s = sel(&v);
        let d = delta(&ins, &del);
        // text inserted inside of a deleted run counts as inserted where the run begins
        let pos = |p: usize, after: bool| {
            let mut e = (0..p).filter(|i| !del[*i]).count();
            for g in 0..=n {
                let mut a = g;
                while a > 0 && del[a - 1] {
                    a -= 1;
                }
                if a < p || (a == p && after) {
                    e += ins[g];
                }
            }
            e
        };
        for after in [false, true] {
            for drift in 0..3 {
                let dr = [InsertDrift::Default, InsertDrift::Inside, InsertDrift::Outside][drift];
                let got = s.apply_delta(&d, after, dr);
                invariant(&got)?;
                let mut m: Vec<R> = Vec::new();
                for &r in &v {
                    let fwd = r.0 < r.1;
                    // inside: text inserted at an edge joins the region; outside: it stays out of it
                    let (sa, ea) = if caret(r) || drift == 0 {
                        (after, after)
                    } else if drift == 1 {
                        (!fwd, fwd)
                    } else {
                        (fwd, !fwd)
                    };
                    m = add(&m, (pos(r.0, sa), pos(r.1, ea)));
                }
                ensure_eq!(list(&got), m, "regions after the edit (after={}, drift {})", after, drift);
            }
        }
        Ok(())
    }
}

pub fn run() -> ! {
    let th = is_thorough();
    let (an, ak) = if th { (6, 4) } else { (5, 4) };
    let (qn, qk) = if th { (8, 4) } else { (7, 4) };
    let (dn, dk) = if th { (6, 4) } else { (5, 4) };
    let (tn, tk) = if th { (5, 3) } else { (4, 3) };
    mccommon::run(
        Opts { property: "C15".into(), level: "model_checking".into(), assumptions: vec![], single_thread: false },
        vec![
            section("adds", "every sequence of 4 added regions, either direction, over 6 (thorough: 7) positions", adds(an, ak)),
            section("queries", "every selection of up to 4 regions over 8 (thorough: 9) positions, every range", queries(qn, qk)),
            section("distinct", "every sequence of 4 occurrences over 6 (thorough: 7) positions", distinct(dn, dk)),
            section("through", "every selection of up to 3 regions over 5 (thorough: 6) positions through every edit", through(tn, tk)),
        ],
    )
}
