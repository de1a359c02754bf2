use mccommon::*;
use xi_rope::tree::TreeBuilder;
use xi_rope::{LinesMetric, Rope};
use xi_rope::rope::Utf16CodeUnitsMetric;

pub fn opts(p: &str) -> Opts {
    Opts {
        property: p.to_string(),
        level: "model_checking".to_string(),
        assumptions: vec![
            "the reference model (plain strings / vectors) in the harness states the intended behaviour".into(),
            "behaviour outside the stated alphabet and bounds is not covered".into(),
        ],
        single_thread: false,
    }
}

/// A rope whose leaves are exactly the given pieces (each must be a legal leaf length unless alone).
pub fn rope_of(pieces: &[&str]) -> Rope {
    let mut b = TreeBuilder::new();
    for p in pieces {
        if !p.is_empty() {
            b.push_leaf(p.to_string());
        }
    }
    b.build()
}

pub fn text(r: &Rope) -> String {
    let mut s = String::new();
    for c in r.iter_chunks(..) {
        s.push_str(c);
    }
    s
}

/// Deterministic filler of exactly `n` bytes, position dependent so that misplaced bytes show.
pub fn filler(n: usize, salt: usize) -> String {
    let mut s = String::with_capacity(n);
    for i in 0..n {
        let k = i + salt;
        s.push(if k % 37 == 36 { '\n' } else { (b'a' + ((k * 7 + k / 26) % 26) as u8) as char });
    }
    s
}

pub fn snap(s: &str, mut o: usize) -> usize {
    o = o.min(s.len());
    while !s.is_char_boundary(o) {
        o -= 1;
    }
    o
}

pub fn check_rope(r: &Rope, m: &str, what: &str) -> Res {
    ensure!(r.len() == m.len(), "{}: length {} but the plain string has {}", what, r.len(), m.len());
    ensure!(r.is_empty() == m.is_empty(), "{}: is_empty", what);
    let t = text(r);
    if t != m {
        let i = t.bytes().zip(m.bytes()).position(|(a, b)| a != b).unwrap_or(t.len().min(m.len()));
        return Err(format!("{}: content differs from the plain string at byte {}", what, i));
    }
    let nl = m.bytes().filter(|b| *b == b'\n').count();
    ensure_eq!(r.measure::<LinesMetric>(), nl, "{}: newline count", what);
    ensure_eq!(r.measure::<Utf16CodeUnitsMetric>(), m.encode_utf16().count(), "{}: utf16 length", what);
    let n = r.iter_chunks(..).count();
    for (i, c) in r.iter_chunks(..).enumerate() {
        ensure!(c.len() <= 1024, "{}: leaf {} has {} bytes", what, i, c.len());
        ensure!(n == 1 || c.len() >= 511, "{}: leaf {} of {} has only {} bytes", what, i, n, c.len());
    }
    Ok(())
}

/// All ordered pairs of distinct cut points within a length.
pub fn pairs(n: usize, cuts: &[usize]) -> Vec<(usize, usize)> {
    let mut c: Vec<usize> = cuts.iter().copied().filter(|x| *x <= n).collect();
    c.sort();
    c.dedup();
    let mut v = Vec::new();
    for (i, a) in c.iter().enumerate() {
        for b in &c[i..] {
            v.push((*a, *b));
        }
    }
    v
}
