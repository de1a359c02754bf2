//! C01: an edited text buffer equals a plain string; older versions are unaffected; the tree stays balanced.
use crate::util::*;
use mccommon::*;
use std::cell::Cell;
use xi_rope::interval::Interval;
use xi_rope::tree::{DefaultMetric, Leaf, Metric, Node, NodeInfo, TreeBuilder};
use xi_rope::{Cursor, Rope};

// ---- a tree with tiny leaves, so that all shapes are reachable with few elements ----
#[derive(Clone, Default, Debug)]
struct TLeaf(Vec<u8>);
const TMIN: usize = 2;
const TMAX: usize = 4;
impl Leaf for TLeaf {
    fn len(&self) -> usize {
        self.0.len()
    }
    fn is_ok_child(&self) -> bool {
        self.0.len() >= TMIN
    }
    fn push_maybe_split(&mut self, other: &Self, iv: Interval) -> Option<Self> {
        let (s, e) = iv.start_end();
        self.0.extend_from_slice(&other.0[s..e]);
        if self.0.len() <= TMAX {
            None
        } else {
            let split = TMIN.max(self.0.len() - TMAX).max(self.0.len() / 2);
            let r = self.0.split_off(split);
            Some(TLeaf(r))
        }
    }
}
#[derive(Clone)]
struct TInfo(usize);
impl NodeInfo for TInfo {
    type L = TLeaf;
    fn accumulate(&mut self, o: &Self) {
        self.0 += o.0;
    }
    fn compute_info(l: &TLeaf) -> Self {
        TInfo(l.0.iter().filter(|b| **b % 3 == 0).count())
    }
    fn identity() -> Self {
        TInfo(0)
    }
}
#[derive(Clone, Copy)]
struct TBase;
impl DefaultMetric for TInfo {
    type DefaultMetric = TBase;
}
impl Metric<TInfo> for TBase {
    fn measure(_: &TInfo, len: usize) -> usize {
        len
    }
    fn to_base_units(_: &TLeaf, n: usize) -> usize {
        n
    }
    fn from_base_units(_: &TLeaf, n: usize) -> usize {
        n
    }
    fn is_boundary(_: &TLeaf, _: usize) -> bool {
        true
    }
    fn prev(_: &TLeaf, o: usize) -> Option<usize> {
        o.checked_sub(1)
    }
    fn next(l: &TLeaf, o: usize) -> Option<usize> {
        if o < l.len() {
            Some(o + 1)
        } else {
            None
        }
    }
    fn can_fragment() -> bool {
        false
    }
}
thread_local! { static EVALS: Cell<usize> = const { Cell::new(0) }; }
/// Marks: elements divisible by three; a boundary is just after a mark (like a newline).
#[derive(Clone, Copy)]
struct TMark;
impl Metric<TInfo> for TMark {
    fn measure(i: &TInfo, _: usize) -> usize {
        EVALS.with(|e| e.set(e.get() + 1));
        i.0
    }
    fn to_base_units(l: &TLeaf, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        let mut k = 0;
        for (i, b) in l.0.iter().enumerate() {
            if b % 3 == 0 {
                k += 1;
                if k == n {
                    return i + 1;
                }
            }
        }
        panic!("to_base_units called with an argument beyond the leaf")
    }
    fn from_base_units(l: &TLeaf, n: usize) -> usize {
        l.0[..n].iter().filter(|b| **b % 3 == 0).count()
    }
    fn is_boundary(l: &TLeaf, o: usize) -> bool {
        o > 0 && l.0[o - 1] % 3 == 0
    }
    fn prev(l: &TLeaf, o: usize) -> Option<usize> {
        (1..o).rev().find(|i| l.0[i - 1] % 3 == 0)
    }
    fn next(l: &TLeaf, o: usize) -> Option<usize> {
        (o + 1..=l.len()).find(|i| l.0[i - 1] % 3 == 0)
    }
    fn can_fragment() -> bool {
        true
    }
}
type T = Node<TInfo>;

fn contents(t: &T) -> (Vec<u8>, Vec<usize>) {
    let mut v = Vec::new();
    let mut lens = Vec::new();
    let mut c = Cursor::new(t, 0);
    let mut cur = c.get_leaf().map(|x| x.0.clone());
    while let Some(l) = cur {
        v.extend_from_slice(&l.0);
        lens.push(l.len());
        cur = c.next_leaf().map(|x| x.0.clone());
    }
    (v, lens)
}

fn build(n: usize, style: usize, salt: usize) -> (T, Vec<u8>) {
    let data: Vec<u8> = (0..n).map(|i| ((i * 5 + salt * 11 + i / 7) % 251) as u8).collect();
    let mut b = TreeBuilder::new();
    match style {
        0 | 1 => {
            // full leaves / minimal leaves
            let sz = if style == 0 { TMAX } else { TMIN };
            let mut i = 0;
            while i < n {
                let mut e = (i + sz).min(n);
                if n - e > 0 && n - e < TMIN {
                    e = n; // keep the last leaf legal
                }
                let e = if e - i > TMAX { i + TMIN } else { e };
                b.push_leaf(TLeaf(data[i..e].to_vec()));
                i = e;
            }
            (b.build(), data)
        }
        2 => {
            // one at a time through concatenation
            let mut t = T::default();
            for x in &data {
                t = T::concat(t, T::from_leaf(TLeaf(vec![*x])));
            }
            (t, data)
        }
        _ => {
            // prepend one at a time, then slice out of something bigger
            let mut t = T::from_leaf(TLeaf(vec![1, 2]));
            for x in data.iter().rev() {
                t = T::concat(T::from_leaf(TLeaf(vec![*x])), t);
            }
            t = T::concat(T::from_leaf(TLeaf(vec![9, 9, 9])), t);
            (t.subseq(3..3 + n), data)
        }
    }
}

fn height_bound(leaves: usize) -> usize {
    // every interior node but the root has at least 4 children and the root at least 2
    let mut h = 0;
    let mut cap = 1;
    while cap * 4 <= leaves.max(1) * 2 {
        cap *= 4;
        h += 1;
    }
    h + 1
}

fn check_tree(t: &T, m: &[u8], what: &str, deep: bool) -> Res {
    ensure_eq!(t.len(), m.len(), "{}: length", what);
    let (v, lens) = contents(t);
    ensure!(v == m, "{}: elements {:?} expected {:?}", what, v, m);
    let marks = m.iter().filter(|b| **b % 3 == 0).count();
    ensure_eq!(t.measure::<TMark>(), marks, "{}: measure", what);
    for l in &lens {
        ensure!(*l <= TMAX, "{}: leaf of {} elements", what, l);
        ensure!(lens.len() == 1 || *l >= TMIN, "{}: leaf of {} elements among {}", what, l, lens.len());
    }
    // Looking up any position costs at most (max children) metric evaluations per level.
    let bound = 9 * height_bound(lens.len()) + 9;
    let step = if deep { 1 } else { (m.len() / 7).max(1) };
    let mut o = 0;
    while o <= m.len() {
        EVALS.with(|e| e.set(0));
        let k = t.count::<TMark>(o);
        let ev = EVALS.with(|e| e.get());
        let exp = m[..o].iter().filter(|b| **b % 3 == 0).count();
        ensure_eq!(k, exp, "{}: marks before {}", what, o);
        ensure!(ev <= bound, "{}: lookup at {} took {} steps for {} leaves (bound {})", what, o, ev, lens.len(), bound);
        o += step;
    }
    let mut k = 0;
    while k <= marks {
        EVALS.with(|e| e.set(0));
        let o = t.count_base_units::<TMark>(k);
        let ev = EVALS.with(|e| e.get());
        let exp = if k == 0 {
            0
        } else {
            m.iter().enumerate().filter(|(_, b)| **b % 3 == 0).nth(k - 1).unwrap().0 + 1
        };
        ensure_eq!(o, exp, "{}: offset of mark {}", what, k);
        ensure!(ev <= bound, "{}: offset lookup took {} steps (bound {})", what, ev, bound);
        k += if deep { 1 } else { (marks / 5).max(1) };
    }
    Ok(())
}

fn tiny_edits(sizes: &'static [usize], depth: usize) -> impl Fn(&mut Ch) -> Res {
    move |ch| {
        let n = *ch.of(sizes);
        let style = ch.pick(4);
        let (mut t, mut m) = build(n, style, 0);
        ch.log(|| format!("start: {} elements, built in style {}", n, style));
        check_tree(&t, &m, "initial", false)?;
        let mut versions: Vec<(T, Vec<u8>)> = vec![(t.clone(), m.clone())];
        for d in 0..depth {
            let len = m.len();
            let (a, b) = if len <= 9 || (d == 0 && len <= 24) {
                let a = ch.range(0, len);
                (a, ch.range(a, len))
            } else {
                let pts: Vec<usize> = {
                    let mut p = vec![0, 1, 2, 4, 5, len / 2, len / 2 + 1, len - 3, len - 1, len];
                    p.retain(|x| *x <= len);
                    p.sort();
                    p.dedup();
                    p
                };
                let i = ch.pick(pts.len());
                let j = i + ch.pick(pts.len() - i);
                (pts[i], pts[j])
            };
            let ins = ch.pick(5);
            let (nt, nm) = match ins {
                0 => (T::default(), vec![]),
                1 => build(1, 0, d + 3),
                2 => build(5, 2, d + 3),
                3 => build(40, 1, d + 3),
                _ => {
                    // a slice of the previous version: shares structure
                    let (pt, pm) = versions[0].clone();
                    let s = pm.len() / 3;
                    (pt.subseq(s..pm.len()), pm[s..].to_vec())
                }
            };
            ch.log(|| format!("replace [{}, {}) of {} by {} elements", a, b, len, nm.len()));
            t.edit(a..b, nt);
            m.splice(a..b, nm);
            ch.step();
            check_tree(&t, &m, &format!("after edit {}", d + 1), len <= 24)?;
            ch.state(&m);
            for (i, (vt, vm)) in versions.iter().enumerate() {
                ensure!(contents(vt).0 == *vm, "version {} changed by a later edit", i);
            }
            versions.push((t.clone(), m.clone()));
        }
        Ok(())
    }
}

fn tiny_concat(ch: &mut Ch) -> Res {
    // every pair of shapes: heights 0..4 on both sides
    const SZ: [usize; 17] = [0, 1, 2, 3, 5, 8, 9, 16, 17, 31, 33, 63, 66, 130, 257, 300, 700];
    let (n1, s1) = (*ch.of(&SZ), ch.pick(4));
    let (n2, s2) = (*ch.of(&SZ), ch.pick(4));
    let (a, ma) = build(n1, s1, 1);
    let (b, mb) = build(n2, s2, 2);
    ch.log(|| format!("concat {} elements (style {}) with {} (style {})", n1, s1, n2, s2));
    let c = T::concat(a.clone(), b.clone());
    let mut m = ma.clone();
    m.extend_from_slice(&mb);
    ch.step();
    ch.state(&(n1, n2, s1, s2));
    check_tree(&c, &m, "concat", false)?;
    check_tree(&a, &ma, "left operand", false)?;
    check_tree(&b, &mb, "right operand", false)?;
    // a builder fed the same pieces
    let mut bl = TreeBuilder::new();
    bl.push(a.clone());
    bl.push(T::default());
    bl.push(b);
    bl.push(a);
    let mut m2 = m.clone();
    m2.extend_from_slice(&ma);
    check_tree(&bl.build(), &m2, "builder", false)?;
    // every slice near interesting ends
    let l = m.len();
    for (s, e) in [(0, l / 2), (l / 2, l), (l / 3, l - l / 3), (l.min(1), l), (0, l.saturating_sub(1))] {
        if s <= e {
            ch.step();
            check_tree(&c.subseq(s..e), &m[s..e], &format!("slice {}..{}", s, e), false)?;
        }
    }
    Ok(())
}

// ---- the real text rope ----
fn text_edits(depth: usize) -> impl Fn(&mut Ch) -> Res {
    move |ch| {
        let start = ch.pick(7);
        let init: String = match start {
            0 => String::new(),
            1 => "héllo\nwörld\r\n\u{1F600}".into(),
            2 => filler(1024, 0),
            3 => filler(1025, 0),
            4 => "é".repeat(1100),
            5 => filler(1024 * 9, 5),
            _ => format!("{}\u{1F600}{}", filler(510, 1), filler(1022 * 40, 3)),
        };
        let mut r = Rope::from(init.as_str());
        let mut m = init;
        ch.log(|| format!("start text #{} of {} bytes", start, m.len()));
        check_rope(&r, &m, "initial")?;
        let mut vers = vec![(r.clone(), m.clone())];
        for d in 0..depth {
            let l = m.len();
            let mut pts: Vec<usize> = vec![0, 1, 510, 511, 512, 1023, 1024, 1025, l / 2, l.saturating_sub(512), l.saturating_sub(1), l]
                .into_iter()
                .map(|o| snap(&m, o))
                .collect();
            if d > 0 {
                pts = vec![0, 3, 600, l / 2, l.saturating_sub(2), l].into_iter().map(|o| snap(&m, o)).collect();
            }
            pts.sort();
            pts.dedup();
            let i = ch.pick(pts.len());
            let j = i + ch.pick(pts.len() - i);
            let (a, b) = (pts[i], pts[j]);
            let k = ch.pick(if d == 0 { 7 } else { 6 });
            let big;
            let ins: &str = match k {
                0 => "",
                1 => "z",
                2 => "\r\n\u{1F600}é\n",
                3 => {
                    big = filler(511, 9);
                    &big
                }
                4 => {
                    big = "\n".repeat(1500);
                    &big
                }
                5 => {
                    big = "\u{20AC}".repeat(400);
                    &big
                }
                _ => {
                    big = filler(9000, 2);
                    &big
                }
            };
            let via = if k == 6 || k == 1 { ch.pick(2) } else { 0 };
            ch.log(|| format!("replace [{}, {}) of {} with kind {} ({} bytes) via {}", a, b, l, k, ins.len(), via));
            if via == 0 {
                r.edit(a..b, Rope::from(ins));
            } else {
                // delete, then concatenate pieces
                let left = r.slice(..a);
                let right = r.slice(b..);
                check_rope(&left, &m[..a], "left slice")?;
                check_rope(&right, &m[b..], "right slice")?;
                r = left + Rope::from(ins) + right;
            }
            m.replace_range(a..b, ins);
            ch.step();
            ch.state(&m);
            check_rope(&r, &m, &format!("after edit {}", d + 1))?;
            ensure!(String::from(&r) == m, "string conversion differs");
            for (i, (vr, vm)) in vers.iter().enumerate() {
                ensure!(text(vr) == *vm, "version {} changed by a later edit", i);
            }
            vers.push((r.clone(), m.clone()));
        }
        Ok(())
    }
}

pub fn run() -> ! {
    let th = is_thorough();
    mccommon::run(
        opts("C01"),
        vec![
            section("tiny_concat", "all pairs of 68 tree shapes (0..700 elements, 4 build styles), leaves of 2..4", tiny_concat),
            section(
                "tiny_edits",
                "leaves of 2..4 elements; every interval x 5 replacements, 2 edits deep (3 thorough)",
                tiny_edits(&[0, 1, 3, 4, 8, 9, 17], if th { 3 } else { 2 }),
            ),
            section("tiny_edits_tall", "trees of height 2..4; 10 cut points, 2 edits", tiny_edits(if is_thorough() { &[33, 70, 140, 290, 1100] } else { &[33, 70, 290] }, 2)),
            section("text_edits", "7 start texts, 12 cut points, 7 replacements, 2 edits (3 thorough)", text_edits(if th { 3 } else { 2 })),
        ],
    )
}
