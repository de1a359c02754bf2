//! C04: comparing and diffing two texts.
use crate::util::*;
use mccommon::*;
use xi_rope::compare::{ne_idx, ne_idx_fallback, ne_idx_rev, ne_idx_rev_fallback, RopeScanner};
use xi_rope::diff::{Diff, LineHashDiff};
use xi_rope::engine::Engine;
use xi_rope::{DeltaElement, Rope};

fn lcp(a: &str, b: &str) -> usize {
    let n = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    snap(a, n).min(snap(b, n))
}
fn lcs(a: &str, b: &str) -> usize {
    let mut n = a.bytes().rev().zip(b.bytes().rev()).take_while(|(x, y)| x == y).count();
    while !a.is_char_boundary(a.len() - n) || !b.is_char_boundary(b.len() - n) {
        n -= 1;
    }
    n
}

const TA: [&str; 7] = ["a", "b", "é", "ĩ", "\u{1F648}", "\u{1F608}", "\u{9F648}"];

fn word(ch: &mut Ch, max: usize) -> String {
    let n = ch.pick(max + 1);
    (0..n).map(|_| *ch.of(&TA)).collect()
}

/// A rope with the given text embedded so that leaves of the two operands are cut at different places.
fn embed(w: &str, cut: usize, layout: usize) -> (Rope, String) {
    match layout {
        0 => (Rope::from(w), w.to_string()),
        1 => {
            let (l, r) = ("p".repeat(511) + &w[..cut], w[cut..].to_string() + &"q".repeat(511));
            (rope_of(&[&l, &r]), l + &r)
        }
        _ => {
            // same text as layout 1 but cut elsewhere
            let t = "p".repeat(511) + w + &"q".repeat(511);
            (Rope::from(t.as_str()), t)
        }
    }
}

fn scan(max: usize) -> impl Fn(&mut Ch) -> Res {
    move |ch| {
        let (w1, w2) = (word(ch, max), word(ch, max));
        let lay = *ch.of(&[(0usize, 0usize), (1, 1), (1, 2), (2, 1)]);
        let cuts1: Vec<usize> = w1.char_indices().map(|x| x.0).chain([w1.len()]).collect();
        let c1 = if lay.0 == 1 { *ch.of(&cuts1) } else { 0 };
        let cuts2: Vec<usize> = w2.char_indices().map(|x| x.0).chain([w2.len()]).collect();
        let c2 = if lay.1 == 1 { cuts2[cuts2.len() / 2] } else { 0 };
        let (r1, t1) = embed(&w1, c1, lay.0);
        let (r2, t2) = embed(&w2, c2, lay.1);
        ch.log(|| format!("{:?} vs {:?}, layouts {:?}, cuts {} {}", w1, w2, lay, c1, c2));
        ch.state(&(&w1, &w2, lay));
        let b = if lay.0 == 0 { 0 } else { 511 };
        let mut sc = RopeScanner::new(&r1, &r2);
        for o1 in cuts1.iter().map(|c| c + b).chain([0, t1.len()]) {
            for o2 in cuts2.iter().map(|c| c + b).chain([0, t2.len()]) {
                ch.step();
                let n = lcp(&t1[o1..], &t2[o2..]);
                ensure_eq!(sc.find_ne_char(o1, o2, None), n, "common prefix from {} and {}", o1, o2);
                let m = lcs(&t1[..o1], &t2[..o2]);
                ensure_eq!(sc.find_ne_char_back(o1, o2, None), m, "common suffix before {} and {}", o1, o2);
                for stop in [0usize, 1, 512] {
                    ensure_eq!(sc.find_ne_char(o1, o2, stop), n.min(stop), "bounded prefix from {} and {}", o1, o2);
                    ensure_eq!(sc.find_ne_char_back(o1, o2, stop), m.min(stop), "bounded suffix before {} and {}", o1, o2);
                }
            }
        }
        let (s, e) = RopeScanner::new(&r1, &r2).find_min_diff_range();
        let es = lcp(&t1, &t2);
        ensure_eq!(s, es, "start of the differing range");
        let ee = lcs(&t1[es..], &t2[es..]);
        ensure_eq!(e, ee, "end of the differing range");
        check_diff(&r1, &t1, &r2, &t2)
    }
}

fn check_diff(r1: &Rope, t1: &str, r2: &Rope, t2: &str) -> Res {
    let d = LineHashDiff::compute_delta(r1, r2);
    ensure_eq!(d.base_len, t1.len(), "delta base length");
    // shape: copies strictly forward and disjoint
    let mut last = 0;
    for el in &d.els {
        if let DeltaElement::Copy(a, b) = el {
            ensure!(*a >= last && b >= a && *b <= t1.len(), "copy [{}, {}) after {} in the difference of {:?} and {:?}", a, b, last, t1, t2);
            ensure!(t1.is_char_boundary(*a) && t1.is_char_boundary(*b), "copy [{}, {}) splits a character", a, b);
            last = *b;
        }
    }
    let out = d.apply(r1);
    ensure!(text(&out) == t2, "applying the difference of {:?} and {:?} gives {:?}", t1, t2, text(&out));
    if t1.len() < 4000 {
        // as an editor would use it: through the revision engine, and undone again
        let mut e = Engine::new(r1.clone());
        let rev = e.get_head_rev_id().token();
        e.edit_rev(1, 1, rev, d);
        ensure!(text(e.get_head()) == t2, "through the engine: {:?}", text(e.get_head()));
        e.undo([1usize].iter().cloned().collect());
        ensure!(text(e.get_head()) == t1, "undone: {:?}", text(e.get_head()));
    }
    Ok(())
}

/// Documents made of long lines (hashable) and short ones, with repeats, moves and indentation changes.
fn line_docs(n1: usize, n2: usize) -> impl Fn(&mut Ch) -> Res {
    move |ch| {
        let lines: [String; 6] = [
            format!("{}A\n", "one long line that is hashed by the diff "),
            format!("{}B\n", "one long line that is hashed by the diff "),
            format!("    {}A\n", "one long line that is hashed by the diff "),
            "short\n".to_string(),
            format!("{}é\n", "an altogether different hashed line, longer "),
            "\n".to_string(),
        ];
        let k1 = ch.pick(n1 + 1);
        let a: String = (0..k1).map(|_| lines[ch.pick(5)].as_str().to_string()).collect();
        let k2 = ch.pick(n2 + 1);
        let b: String = (0..k2).map(|_| lines[ch.pick(5)].as_str().to_string()).collect();
        let trim = ch.pick(2) == 1;
        let b = if trim { b.trim_end_matches('\n').to_string() } else { b };
        ch.log(|| format!("base {:?} target {:?}", a, b));
        ch.step();
        ch.state(&(&a, &b));
        check_diff(&Rope::from(a.as_str()), &a, &Rope::from(b.as_str()), &b)
    }
}

fn big_docs(ch: &mut Ch) -> Res {
    // documents larger than a leaf, edited in two places, with a block moved
    let n = *ch.of(&[20usize, 60, 200]);
    let mk = |i: usize| format!("line {} with enough characters to be considered by the diff {}\n", i, i * i % 7);
    let mut v: Vec<String> = (0..n).map(mk).collect();
    let base = v.concat();
    let kind = ch.pick(6);
    let (p, q) = (*ch.of(&[0usize, 1, n / 2, n - 1]), *ch.of(&[0usize, 2, n / 2 + 1, n - 1]));
    match kind {
        0 => {
            let l = v.remove(p);
            v.insert(q.min(v.len()), l);
        }
        1 => {
            v[p].insert_str(3, "zz");
            v[q].push_str("tail");
        }
        2 => {
            v.truncate(q.max(1));
            v.extend(v.clone());
        }
        3 => {
            let l = v[p].clone();
            v.insert(q, l.clone());
            v.insert(0, l);
        }
        4 => v.swap(p, q),
        _ => v.reverse(),
    }
    let t = v.concat();
    ch.log(|| format!("{} lines, change {} at {} and {}", n, kind, p, q));
    ch.step();
    ch.state(&t);
    check_diff(&Rope::from(base.as_str()), &base, &Rope::from(t.as_str()), &t)?;
    check_diff(&Rope::from(t.as_str()), &t, &Rope::from(base.as_str()), &base)
}

/// The vectorised comparison agrees with the plain one for all alignments and mismatch positions.
fn vectors(ch: &mut Ch) -> Res {
    let n1 = ch.pick(70);
    let n2 = (n1 + ch.pick(3)).saturating_sub(1);
    ch.log(|| format!("lengths {} {}", n1, n2));
    ch.state(&(n1, n2));
    let base: Vec<u8> = (0..160).map(|i| (i * 7 % 251) as u8).collect();
    for off in 0..3 {
        for bad in 0..=n1 {
            for bad2 in [bad, bad + 1, bad + 17] {
                ch.step();
                let a = base[off..off + n1].to_vec();
                let mut b = base[off..off + n2].to_vec();
                for x in [bad, bad2] {
                    if x < b.len() {
                        b[x] ^= 0x55;
                    }
                }
                let exp = a.iter().zip(&b).position(|(x, y)| x != y);
                ensure_eq!(ne_idx(&a, &b), exp, "first difference of {} and {} bytes, changed {} {}", n1, n2, bad, bad2);
                ensure_eq!(ne_idx_fallback(&a, &b), exp, "fallback first difference");
                let mut b = base[off..off + n2].to_vec();
                if n1 <= n2 {
                    b = base[off + n1..off + n1 + n2 - n1].iter().copied().chain(a.iter().copied()).collect();
                }
                let bl = b.len();
                for x in [bad, bad2] {
                    if x < bl {
                        b[bl - 1 - x] ^= 0x55;
                    }
                }
                let exp = a.iter().rev().zip(b.iter().rev()).position(|(x, y)| x != y);
                ensure_eq!(ne_idx_rev(&a, &b), exp, "last difference of {} and {} bytes, changed {} {}", n1, n2, bad, bad2);
                ensure_eq!(ne_idx_rev_fallback(&a, &b), exp, "fallback last difference");
            }
        }
    }
    Ok(())
}

pub fn run() -> ! {
    let th = is_thorough();
    mccommon::run(
        opts("C04"),
        vec![
            section("scan", "all pairs of texts of up to 3 symbols of 7 (sharing UTF-8 bytes), 4 leaf layouts, all cuts and offsets", scan(3)),
            section(
                "line_docs",
                "all base documents of up to 4 lines x targets of up to 4 lines (5 thorough) over 5 line kinds",
                line_docs(4, if th { 5 } else { 4 }),
            ),
            section("big_docs", "20..200 line documents, 6 change kinds at 4x4 places, both directions", big_docs),
            section("vectors", "vectorised byte comparison: all lengths up to 70, all mismatch positions", vectors),
        ],
    )
}
