//! C07: spans behave as a plain list of (start, end, value).
use crate::util::*;
use mccommon::*;
use xi_rope::spans::{Spans, SpansBuilder};
use xi_rope::{Delta, DeltaElement, Interval, Rope, RopeDelta, Transformer};

type L = Vec<(usize, usize, u32)>;
#[derive(Clone, Hash, Debug, PartialEq)]
struct M {
    len: usize,
    v: L,
}

fn build(m: &M) -> Spans<u32> {
    let mut b = SpansBuilder::new(m.len);
    for (s, e, d) in &m.v {
        b.add_span(*s..*e, *d);
    }
    b.build()
}
fn list(s: &Spans<u32>) -> M {
    M { len: s.len(), v: s.iter().map(|(iv, d)| (iv.start(), iv.end(), *d)).collect() }
}
fn same(s: &Spans<u32>, m: &M, what: &str) -> Res {
    let g = list(s);
    if g != *m {
        if m.v.len() < 8 {
            return Err(format!("{}: got {:?}, expected {:?}", what, g, m));
        }
        let i = g.v.iter().zip(&m.v).position(|(a, b)| a != b).unwrap_or(g.v.len().min(m.v.len()));
        return Err(format!(
            "{}: length {} (expected {}), {} spans (expected {}), first difference at {}: {:?} (expected {:?})",
            what, g.len, m.len, g.v.len(), m.v.len(), i, g.v.get(i), m.v.get(i)
        ));
    }
    Ok(())
}
fn sub(m: &M, a: usize, b: usize) -> M {
    M {
        len: b - a,
        v: m.v.iter().filter_map(|(s, e, d)| {
            let (s, e) = ((*s).max(a), (*e).min(b));
            if s < e { Some((s - a, e - a, *d)) } else { None }
        }).collect(),
    }
}
fn cat(a: &M, b: &M) -> M {
    let mut v = a.v.clone();
    v.extend(b.v.iter().map(|(s, e, d)| (s + a.len, e + a.len, *d)));
    M { len: a.len + b.len, v }
}
fn shape(m: &M, d: &RopeDelta) -> M {
    let mut o = M { len: 0, v: vec![] };
    for el in &d.els {
        o = match el {
            DeltaElement::Copy(a, b) => cat(&o, &sub(m, *a, *b)),
            DeltaElement::Insert(r) => cat(&o, &M { len: r.len(), v: vec![] }),
        };
    }
    o
}
fn merge(a: &M, b: &M) -> M {
    // per unit: which span of a and of b covers it; a run of equal pairs is one span
    let owner = |m: &M| {
        let mut o = vec![None; m.len];
        for (i, (s, e, _)) in m.v.iter().enumerate() {
            o[*s..*e].iter_mut().for_each(|x| *x = Some(i));
        }
        o
    };
    let (oa, ob) = (owner(a), owner(b));
    let mut v: L = vec![];
    let mut i = 0;
    while i < a.len {
        let mut j = i + 1;
        while j < a.len && oa[j] == oa[i] && ob[j] == ob[i] {
            j += 1;
        }
        let val = match (oa[i], ob[i]) {
            (Some(x), Some(y)) => Some(a.v[x].2 * 100 + b.v[y].2),
            (Some(x), None) => Some(a.v[x].2 * 1000),
            (None, Some(y)) => Some(b.v[y].2 * 1000),
            _ => None,
        };
        if let Some(x) = val {
            v.push((i, j, x));
        }
        i = j;
    }
    M { len: a.len, v }
}
fn domerge(a: &Spans<u32>, b: &Spans<u32>) -> Spans<u32> {
    a.merge(b, |x, y| match y {
        Some(y) => x * 100 + y,
        None => x * 1000,
    })
}
fn repl(len: usize, a: usize, b: usize, k: usize) -> RopeDelta {
    Delta::simple_edit(a..b, Rope::from("x".repeat(k)), len)
}

fn layout(ch: &mut Ch, n: usize, base: u32) -> M {
    let mut v: L = vec![];
    for i in 0..n {
        match ch.pick(3) {
            0 => (),
            1 => v.push((i, i + 1, base + v.len() as u32)),
            _ => match v.last_mut() {
                Some((_, e, _)) if *e == i => *e += 1,
                _ => v.push((i, i + 1, base + 7)),
            },
        }
    }
    M { len: n, v }
}

fn small_merge(max: usize) -> impl Fn(&mut Ch) -> Res {
    move |ch| {
        let n = ch.pick(max + 1);
        let (a, b) = (layout(ch, n, 1), layout(ch, n, 11));
        ch.log(|| format!("merge {:?} with {:?}", a, b));
        ch.state(&(&a, &b));
        ch.step();
        let (sa, sb) = (build(&a), build(&b));
        same(&sa, &a, "built spans")?;
        same(&domerge(&sa, &sb), &merge(&a, &b), "merged spans")
    }
}

fn small_edit(max: usize) -> impl Fn(&mut Ch) -> Res {
    move |ch| {
        let n = ch.pick(max + 1);
        let m = layout(ch, n, 1);
        ch.log(|| format!("spans {:?}", m));
        ch.state(&m);
        let s = build(&m);
        for a in 0..=n {
            for b in a..=n {
                ch.step();
                same(&s.subseq(Interval::new(a, b)), &sub(&m, a, b), &format!("part {}..{}", a, b))?;
                let mut t = s.clone();
                t.delete_after(Interval::new(a, b));
                let k = m.v.iter().position(|(_, e, _)| *e > a).unwrap_or(m.v.len());
                same(&t, &M { len: n, v: m.v[..k].to_vec() }, &format!("after deleting from {}..{}", a, b))?;
                for k in [0usize, 1, 3] {
                    let d = repl(n, a, b, k);
                    let mut t = s.clone();
                    t.apply_shape(&d);
                    same(&t, &shape(&m, &d), &format!("after replacing {}..{} by {}", a, b, k))?;
                    // positional mapping of a part that is to be inserted into the changed text
                    for lo in 0..=n {
                        for hi in lo..=n {
                            let map = |p: usize, after: bool| {
                                if p < a || (p == a && !after) { p }
                                else if p == a { a + k }
                                else { a + k + p.saturating_sub(b) }
                            };
                            let part = sub(&m, lo, hi);
                            let (ns, ne) = (map(lo, false), map(hi, true));
                            let exp = M {
                                len: ne - ns,
                                v: part.v.iter().map(|(s, e, d)| (map(s + lo, false) - ns, map(e + lo, false) - ns, *d)).filter(|x| x.0 < x.1).collect(),
                            };
                            let mut x = Transformer::new(&d);
                            let got = build(&part).transform(lo, hi, &mut x);
                            same(&got, &exp, &format!("part {}..{} carried over replacing {}..{} by {}", lo, hi, a, b, k))?;
                        }
                    }
                }
            }
        }
        Ok(())
    }
}

fn bulk_layout(n: usize, w: usize, g: usize, lead: usize, salt: u32) -> M {
    let mut v: L = vec![];
    let mut p = lead;
    for i in 0..n {
        v.push((p, p + w, (i as u32 + salt) % 89 + 1));
        p += w + g;
    }
    M { len: p + 3, v }
}

fn bulk(depth: usize) -> impl Fn(&mut Ch) -> Res {
    move |ch| {
        let n = *ch.of(if is_thorough() { &[0usize, 1, 31, 33, 64, 65, 97, 200, 700][..] } else { &[1usize, 33, 65, 200, 700][..] });
        let (w, g, lead) = *ch.of(&[(2usize, 0usize, 0usize), (2, 1, 5), (3, 4, 0)]);
        let mut m = bulk_layout(n, w, g, lead, 0);
        let mut s = build(&m);
        ch.log(|| format!("{} spans of {} every {}", n, w, w + g));
        same(&s, &m, "built spans")?;
        for _ in 0..depth {
            let n = m.len;
            let per = w + g;
            let cuts = [0, 1, n / 3, n / 2 + 1, (32 * per + lead).min(n), (64 * per + lead).min(n), n.saturating_sub(4), n];
            let (a, b) = *ch.of(&pairs(n, &cuts));
            let op = ch.pick(7);
            ch.step();
            ch.log(|| format!("op {} on {}..{}", op, a, b));
            match op {
                0 | 1 => {
                    let d = repl(n, a, b, op * 5);
                    s.apply_shape(&d);
                    m = shape(&m, &d);
                }
                2 | 3 | 4 => {
                    let o = bulk_layout([1, 40, 130][op - 2], 1, op - 2, 0, 40);
                    s.edit(a..b, build(&o));
                    m = cat(&cat(&sub(&m, 0, a), &o), &sub(&m, b, n));
                }
                5 => {
                    s = s.subseq(Interval::new(a, b));
                    m = sub(&m, a, b);
                }
                _ => {
                    let o = M { len: n, v: (0..n.saturating_sub(b) / 5).map(|i| (b + i * 5, b + i * 5 + 4, 1 + (i % 80) as u32)).collect() };
                    let x = domerge(&s, &build(&o));
                    same(&x, &merge(&m, &o), "merged spans")?;
                    let mut t = s.clone();
                    t.delete_after(Interval::new(a, b));
                    let k = m.v.iter().position(|(_, e, _)| *e > a).unwrap_or(m.v.len());
                    same(&t, &M { len: n, v: m.v[..k].to_vec() }, "after delete_after")?;
                }
            }
            same(&s, &m, "spans")?;
            ch.state(&m);
        }
        Ok(())
    }
}

pub fn run() -> ! {
    let k = if is_thorough() { 1 } else { 0 };
    mccommon::run(
        opts("C07"),
        vec![
            section("small_merge", "all pairs of span lists over up to 5 units (6 thorough)", small_merge(5 + k)),
            section("small_edit", "all span lists over up to 5 units (6 thorough); all parts, replacements, carried parts", small_edit(5 + k)),
            section("bulk", "27 span lists of 0..700 spans; 2 operations of 7 kinds at all pairs of 8 cut points", bulk(2)),
        ],
    )
}
