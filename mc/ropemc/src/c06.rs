//! C06: multi-subset algebra against vectors of counts.
use crate::util::*;
use mccommon::*;
use xi_rope::multiset::{CountMatcher, Subset, SubsetBuilder};
use xi_rope::Rope;

fn choose(ch: &mut Ch, n: usize, k: &[usize]) -> Vec<usize> {
    (0..n).map(|_| ch.of(k).clone()).collect()
}
fn sub(v: &[usize]) -> Subset {
    let mut sb = SubsetBuilder::new();
    for c in v {
        sb.push_segment(1, *c);
    }
    sb.build()
}
fn del(v: &[usize], s: &str) -> String {
    s.chars().zip(v).filter(|(_, c)| **c == 0).map(|(x, _)| x).collect()
}
const S: &str = "abcdefghijklmnop";

fn unary(max: usize, k: &'static [usize]) -> impl Fn(&mut Ch) -> Res {
    move |ch| {
        let n = ch.pick(max + 1);
        let v = choose(ch, n, k);
        let s = sub(&v);
        ch.log(|| format!("counts {:?}", v));
        ch.state(&v);
        ch.step();
        let z = v.iter().filter(|c| **c == 0).count();
        ensure_eq!(s.len(), n, "length");
        ensure_eq!(s.len_after_delete(), z, "length after deletion");
        ensure_eq!(s.count(CountMatcher::NonZero), n - z, "non-zero count");
        ensure_eq!(s.is_empty(), z == n, "is_empty");
        ensure_eq!(s.delete_from_string(&S[..n]), del(&v, &S[..n]), "delete_from_string");
        ensure_eq!(text(&s.delete_from(&Rope::from(&S[..n]))), del(&v, &S[..n]), "delete_from");
        ensure_eq!(s.complement(), sub(&v.iter().map(|c| (*c == 0) as usize).collect::<Vec<_>>()), "complement");
        for (m, f) in [
            (CountMatcher::Zero, (|c| c == 0) as fn(usize) -> bool),
            (CountMatcher::NonZero, |c| c != 0),
            (CountMatcher::All, |_| true),
        ] {
            let mut got = vec![false; n];
            let mut last = 0;
            for (b, e) in s.range_iter(m) {
                ensure!(b < e && e <= n && b >= last, "range {}..{} of {:?}", b, e, m);
                last = e;
                got[b..e].iter_mut().for_each(|x| *x = true);
            }
            ensure_eq!(got, v.iter().map(|c| f(*c)).collect::<Vec<_>>(), "ranges of {:?}", m);
            // mapping in every non-decreasing pattern: all points, and with each single point or pair skipped
            for skip in 0..=n + 1 {
                let mut mp = s.mapper(m);
                for i in 0..=n {
                    if i == skip {
                        continue;
                    }
                    let e = v[..i].iter().filter(|c| f(**c)).count();
                    ensure_eq!(mp.doc_index_to_subset(i), e, "mapping {} with {:?}", i, m);
                    if i % 2 == 0 {
                        ensure_eq!(mp.doc_index_to_subset(i), e, "mapping {} again with {:?}", i, m);
                    }
                }
            }
        }
        // builders agree
        let mut sb = SubsetBuilder::new();
        let mut i = 0;
        while i < n {
            let mut j = i;
            while j < n && v[j] == v[i] {
                j += 1;
            }
            if v[i] > 0 {
                sb.add_range(i, j, v[i]);
            }
            i = j;
        }
        sb.pad_to_len(n);
        ensure_eq!(sb.build(), s, "add_range/pad_to_len");
        Ok(())
    }
}

fn binary(max: usize, k: &'static [usize]) -> impl Fn(&mut Ch) -> Res {
    move |ch| {
        let n = ch.pick(max + 1);
        let (a, b) = (choose(ch, n, k), choose(ch, n, k));
        let (sa, sb) = (sub(&a), sub(&b));
        ch.log(|| format!("counts {:?} and {:?}", a, b));
        ch.state(&(&a, &b));
        ch.step();
        let map2 = |f: fn(usize, usize) -> usize| -> Vec<usize> { a.iter().zip(&b).map(|(x, y)| f(*x, *y)).collect() };
        ensure_eq!(sa.union(&sb), sub(&map2(|x, y| x + y)), "union");
        ensure_eq!(sa.bitxor(&sb), sub(&map2(|x, y| x ^ y)), "xor");
        ensure_eq!(sa.bitxor(&sb).bitxor(&sb), sa, "xor twice");
        ensure_eq!(sa.union(&sb).subtract(&sb), sa, "union then subtract");
        ensure_eq!((sa == sb), (a == b), "equality");
        let shr: Vec<usize> = a.iter().zip(&b).filter(|(_, y)| **y == 0).map(|(x, _)| *x).collect();
        ensure_eq!(sa.transform_shrink(&sb), sub(&shr), "transform_shrink");
        Ok(())
    }
}

fn expand(max: usize, k: &'static [usize]) -> impl Fn(&mut Ch) -> Res {
    move |ch| {
        let n = ch.pick(max + 1);
        let b = choose(ch, n, k);
        let z = b.iter().filter(|c| **c == 0).count();
        let a = choose(ch, z, k);
        let (sa, sb) = (sub(&a), sub(&b));
        ch.log(|| format!("counts {:?} through {:?}", a, b));
        ch.state(&(&a, &b));
        ch.step();
        let mut it = a.iter();
        let ex: Vec<usize> = b.iter().map(|c| if *c == 0 { *it.next().unwrap() } else { 0 }).collect();
        let un: Vec<usize> = ex.iter().zip(&b).map(|(x, y)| x + y).collect();
        ensure_eq!(sa.transform_expand(&sb), sub(&ex), "transform_expand");
        ensure_eq!(sa.transform_union(&sb), sub(&un), "transform_union");
        ensure_eq!(sa.transform_expand(&sb).transform_shrink(&sb), sa, "shrunk back");
        let s = &S[..n];
        ensure_eq!(
            sa.transform_union(&sb).delete_from_string(s),
            sa.delete_from_string(&sb.delete_from_string(s)),
            "two deletions in a row"
        );
        let c = sa.transform_expand(&sb);
        ensure_eq!(
            sb.transform_shrink(&c).delete_from_string(&c.delete_from_string(s)),
            sa.delete_from_string(&sb.delete_from_string(s)),
            "deletions commute"
        );
        Ok(())
    }
}

pub fn run() -> ! {
    let k = if is_thorough() { 2 } else { 0 };
    mccommon::run(
        opts("C06"),
        vec![
            section("unary", "all count vectors over {0,1,2} of length up to 10 (12 thorough)", unary(10 + k, &[0, 1, 2])),
            section("binary", "all pairs of count vectors over {0,1,2} of length up to 6 (8 thorough)", binary(6 + k, &[0, 1, 2])),
            section("expand", "all pairs where one lives in the gaps of the other, length up to 8 (10 thorough)", expand(8 + k, &[0, 1, 2])),
            section("unary_large", "all count vectors over {0,1,3,6} of length up to 7 (9)", unary(7 + k, &[0, 1, 3, 6])),
            section("binary_large", "all pairs of count vectors over {0,1,3,6} of length up to 4 (6)", binary(4 + k, &[0, 1, 3, 6])),
            section("expand_large", "the same pairs of gaps and counts over {0,1,3,6}, length up to 6 (8)", expand(6 + k, &[0, 1, 3, 6])),
        ],
    )
}
