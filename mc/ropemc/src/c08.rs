//! C08: break sets behave as a sorted list of offsets.
use crate::util::*;
use mccommon::*;
use xi_rope::breaks::{BreakBuilder, Breaks, BreaksBaseMetric, BreaksMetric};
use xi_rope::{Cursor, Interval};

#[derive(Clone, Hash, Debug, PartialEq)]
struct M {
    len: usize,
    v: Vec<usize>,
}
fn build(m: &M) -> Breaks {
    let mut b = BreakBuilder::new();
    let mut p = 0;
    for x in &m.v {
        b.add_break(x - p);
        p = *x;
    }
    b.add_no_break(m.len - p);
    b.build()
}
fn sub(m: &M, a: usize, b: usize) -> M {
    M { len: b - a, v: m.v.iter().filter(|x| a < **x && **x <= b).map(|x| x - a).collect() }
}
fn cat(a: &M, b: &M) -> M {
    let mut v = a.v.clone();
    v.extend(b.v.iter().map(|x| x + a.len));
    M { len: a.len + b.len, v }
}
fn check(s: &Breaks, m: &M, pts: &[usize]) -> Res {
    ensure_eq!(s.len(), m.len, "length");
    ensure_eq!(s.measure::<BreaksMetric>(), m.v.len(), "number of breaks");
    let mut c = Cursor::new(s, 0);
    let got: Vec<usize> = c.iter::<BreaksMetric>().collect();
    ensure_eq!(got, m.v, "breaks forwards");
    let mut c = Cursor::new(s, m.len);
    let mut back = Vec::new();
    while let Some(p) = c.prev::<BreaksMetric>() {
        ensure!(back.len() <= m.v.len() + 1, "backward iteration does not end");
        back.push(p);
    }
    back.reverse();
    let exp: Vec<usize> = m.v.iter().copied().filter(|x| *x < m.len).collect();
    ensure_eq!(back, exp, "breaks backwards from the end");
    for i in 0..=m.v.len() {
        if m.v.len() > 80 && i > 3 && i + 3 < m.v.len() && i % 16 > 1 {
            continue;
        }
        ensure_eq!(s.count_base_units::<BreaksMetric>(i), if i == 0 { 0 } else { m.v[i - 1] }, "offset of break {}", i);
    }
    for &p in pts {
        if p > m.len {
            continue;
        }
        ensure_eq!(s.count::<BreaksMetric>(p), m.v.iter().filter(|x| **x <= p).count(), "breaks up to {}", p);
        let at = m.v.contains(&p);
        ensure_eq!(Cursor::new(s, p).is_boundary::<BreaksMetric>(), at, "is {} a break", p);
        ensure_eq!(Cursor::new(s, p).is_boundary::<BreaksBaseMetric>(), at, "is {} a break (base)", p);
        let nx = m.v.iter().copied().find(|x| *x > p);
        let pv = m.v.iter().copied().rev().find(|x| *x < p);
        ensure_eq!(Cursor::new(s, p).next::<BreaksMetric>(), nx, "break after {}", p);
        ensure_eq!(Cursor::new(s, p).prev::<BreaksMetric>(), pv, "break before {}", p);
        ensure_eq!(Cursor::new(s, p).at_or_next::<BreaksMetric>(), if at { Some(p) } else { nx }, "break at or after {}", p);
        ensure_eq!(Cursor::new(s, p).at_or_prev::<BreaksMetric>(), if at { Some(p) } else { pv }, "break at or before {}", p);
        // a cursor that has moved answers as a fresh one
        let mut c = Cursor::new(s, p);
        if let Some(q) = c.next::<BreaksMetric>() {
            ensure_eq!(c.pos(), q, "cursor position");
            ensure_eq!(c.prev::<BreaksMetric>(), m.v.iter().copied().rev().find(|x| *x < q), "back after moving forward from {}", p);
        }
        let mut c = Cursor::new(s, p);
        if let Some(q) = c.prev::<BreaksMetric>() {
            ensure_eq!(c.next::<BreaksMetric>(), m.v.iter().copied().find(|x| *x > q), "forward after moving back from {}", p);
        }
    }
    Ok(())
}

fn small(max: usize) -> impl Fn(&mut Ch) -> Res {
    move |ch| {
        let n = ch.pick(max + 1);
        let m = M { len: n, v: (1..=n).filter(|_| ch.flip()).collect() };
        let k = ch.pick(4);
        let o = M { len: k, v: (1..=k).filter(|_| ch.flip()).collect() };
        ch.log(|| format!("{:?} edited with {:?}", m, o));
        ch.state(&(&m, &o));
        let s = build(&m);
        let all: Vec<usize> = (0..=n + 3).collect();
        check(&s, &m, &all)?;
        for a in 0..=n {
            for b in a..=n {
                ch.step();
                check(&s.subseq(Interval::new(a, b)), &sub(&m, a, b), &all)?;
                let mut t = s.clone();
                t.edit(a..b, build(&o));
                check(&t, &cat(&cat(&sub(&m, 0, a), &o), &sub(&m, b, n)), &all)?;
            }
        }
        Ok(())
    }
}

fn regular(n: usize, w: usize, tail: usize) -> M {
    M { len: n * w + tail, v: (1..=n).map(|i| i * w).collect() }
}

fn bulk(depth: usize) -> impl Fn(&mut Ch) -> Res {
    move |ch| {
        let n = *ch.of(if is_thorough() { &[0usize, 1, 31, 33, 64, 65, 97, 200, 700][..] } else { &[1usize, 33, 65, 200, 700][..] });
        let (w, tail) = *ch.of(&[(1usize, 0usize), (3, 0), (3, 2)]);
        let mut m = regular(n, w, tail);
        let mut s = build(&m);
        ch.log(|| format!("{} breaks every {} and {} after the last", n, w, tail));
        for _ in 0..depth {
            let n = m.len;
            let cuts = [0, 1, n / 3, n / 2 + 1, (32 * w).min(n), (64 * w).min(n), n.saturating_sub(4), n];
            let (a, b) = *ch.of(&pairs(n, &cuts));
            let op = ch.pick(5);
            ch.step();
            ch.log(|| format!("op {} on {}..{}", op, a, b));
            if op == 4 {
                s = s.subseq(Interval::new(a, b));
                m = sub(&m, a, b);
            } else {
                let o = match op {
                    0 => M { len: 0, v: vec![] },
                    1 => M { len: 300, v: vec![] },
                    2 => regular(1, 2, 1),
                    _ => regular(70, 2, 0),
                };
                s.edit(a..b, if o.v.is_empty() { Breaks::new_no_break(o.len) } else { build(&o) });
                m = cat(&cat(&sub(&m, 0, a), &o), &sub(&m, b, n));
            }
            ch.state(&m);
            let l = m.len;
            let mut pts = vec![0, 1, 2, l / 3, l / 2, l.saturating_sub(1), l, a, a + 1, a.saturating_sub(1), b, 31 * w, 32 * w, 33 * w, 64 * w, 64 * w + 1];
            pts.sort();
            pts.dedup();
            check(&s, &m, &pts)?;
        }
        Ok(())
    }
}

pub fn run() -> ! {
    let k = if is_thorough() { 2 } else { 0 };
    mccommon::run(
        opts("C08"),
        vec![
            section("small", "all break sets over up to 6 units (8 thorough); all parts and all replacements by all sets over up to 3 units", small(6 + k)),
            section("bulk", "27 sets of 0..700 breaks; 2 edits of 5 kinds at all pairs of 8 cut points", bulk(2)),
        ],
    )
}
