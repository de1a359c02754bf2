//! C02: navigation (characters, graphemes, lines, chunks) agrees with the plain text for any storage layout.
use crate::util::*;
use mccommon::*;
use unicode_segmentation::UnicodeSegmentation;
use xi_rope::rope::{BaseMetric, Utf16CodeUnitsMetric};
use xi_rope::{Cursor, LinesMetric, Rope};

const ALPHA: [&str; 10] =
    ["a", "\n", "\r", "é", "\u{301}", "\u{1F1E6}", "\u{200D}", "\u{1F469}", "\u{1100}", "\u{1161}"];

fn word(ch: &mut Ch, max: usize) -> String {
    let n = ch.pick(max + 1);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(ch.of(&ALPHA));
    }
    s
}

/// Padding of legal leaf size; the variants differ in whether they contain newlines and in their edge characters.
fn pad(v: usize, n: usize) -> String {
    match v {
        0 => filler(n, 3),
        1 => "x".repeat(n),
        2 => "\u{301}".repeat(n / 2) + if n % 2 == 1 { "b" } else { "" },
        3 => "\u{1F1E6}".repeat(n / 4) + &"y".repeat(n % 4),
        _ => "y".repeat(n % 4) + &"\u{1F1E6}".repeat(n / 4),
    }
}

struct Ref {
    s: String,
    lines: Vec<usize>, // offsets just after a newline
    chars: Vec<usize>,
    graphemes: Vec<usize>,
}
impl Ref {
    fn new(s: String) -> Ref {
        let lines = s.bytes().enumerate().filter(|(_, b)| *b == b'\n').map(|(i, _)| i + 1).collect();
        let mut chars: Vec<usize> = s.char_indices().map(|x| x.0).collect();
        chars.push(s.len());
        let mut graphemes: Vec<usize> = s.grapheme_indices(true).map(|x| x.0).collect();
        graphemes.push(s.len());
        Ref { s, lines, chars, graphemes }
    }
    fn prev(v: &[usize], p: usize) -> Option<usize> {
        v.iter().rev().find(|x| **x < p).copied()
    }
    fn next(v: &[usize], p: usize) -> Option<usize> {
        v.iter().find(|x| **x > p).copied()
    }
    fn at(v: &[usize], p: usize) -> bool {
        v.contains(&p)
    }
}

fn check_point(r: &Rope, m: &Ref, p: usize) -> Res {
    let len = m.s.len();
    let boundary = m.s.is_char_boundary(p);
    ensure_eq!(r.is_codepoint_boundary(p), boundary, "is_codepoint_boundary({})", p);
    ensure_eq!(
        r.at_or_prev_codepoint_boundary(p),
        if boundary { Some(p) } else { Ref::prev(&m.chars, p) },
        "character boundary at or before {}",
        p
    );
    ensure_eq!(
        r.at_or_next_codepoint_boundary(p),
        if boundary { Some(p) } else { Ref::next(&m.chars, p) },
        "character boundary at or after {}",
        p
    );
    if p < len {
        ensure_eq!(r.byte_at(p), m.s.as_bytes()[p], "byte at {}", p);
    }
    if !boundary {
        return Ok(());
    }
    ensure_eq!(r.prev_codepoint_offset(p), Ref::prev(&m.chars, p), "previous character before {}", p);
    ensure_eq!(r.next_codepoint_offset(p), Ref::next(&m.chars, p), "next character after {}", p);
    ensure_eq!(r.line_of_offset(p), m.lines.iter().filter(|x| **x <= p).count(), "line of offset {}", p);
    ensure_eq!(
        r.count::<Utf16CodeUnitsMetric>(p),
        m.s[..p].encode_utf16().count(),
        "utf16 units before {}",
        p
    );
    ensure_eq!(
        r.count_base_units::<Utf16CodeUnitsMetric>(m.s[..p].encode_utf16().count()),
        p,
        "offset for utf16 position of {}",
        p
    );
    let mut c = Cursor::new(r, p);
    ensure_eq!(c.peek_next_codepoint(), m.s[p..].chars().next(), "character at {}", p);
    ensure_eq!(c.next_codepoint(), m.s[p..].chars().next(), "next_codepoint at {}", p);
    let mut c = Cursor::new(r, p);
    if p > 0 {
        ensure_eq!(c.prev_codepoint(), m.s[..p].chars().next_back(), "prev_codepoint at {}", p);
    }
    ensure_eq!(r.prev_grapheme_offset(p), Ref::prev(&m.graphemes, p), "previous grapheme before {}", p);
    ensure_eq!(r.next_grapheme_offset(p), Ref::next(&m.graphemes, p), "next grapheme after {}", p);
    // one cursor operation per metric, and every pair of operations on the same cursor
    for o1 in 0..10 {
        let mut c = Cursor::new(r, p);
        let e = cursor_op(&mut c, m, p, o1)?;
        if let Some(q) = e {
            ensure_eq!(c.pos(), q, "cursor position after op {} at {}", o1, p);
            for o2 in 0..10 {
                let mut c2 = Cursor::new(r, p);
                cursor_op(&mut c2, m, p, o1)?;
                if let Some(q2) = cursor_op(&mut c2, m, q, o2)? {
                    ensure_eq!(c2.pos(), q2, "cursor position after ops {} {} at {}", o1, o2, p);
                }
            }
        } else {
            // after a miss the cursor can be re-used by setting its position
            c.set(p);
            if len > 0 {
                for o2 in [1, 3, 6] {
                    cursor_op(&mut c, m, p, o2)?;
                    c.set(p);
                }
            }
        }
    }
    Ok(())
}

/// Runs one cursor operation and compares it with the reference; returns the new position if still valid.
fn cursor_op<'a>(c: &mut Cursor<'a, xi_rope::RopeInfo>, m: &Ref, p: usize, op: usize) -> Result<Option<usize>, String> {
    let (got, exp) = match op {
        0 => (c.next::<BaseMetric>(), Ref::next(&m.chars, p)),
        1 => (c.prev::<BaseMetric>(), Ref::prev(&m.chars, p)),
        2 => (c.next::<LinesMetric>(), Ref::next(&m.lines, p)),
        3 => (c.prev::<LinesMetric>(), Ref::prev(&m.lines, p)),
        4 => (c.at_or_next::<LinesMetric>(), if Ref::at(&m.lines, p) { Some(p) } else { Ref::next(&m.lines, p) }),
        5 => (c.at_or_prev::<LinesMetric>(), if Ref::at(&m.lines, p) { Some(p) } else { Ref::prev(&m.lines, p) }),
        6 => (c.next::<Utf16CodeUnitsMetric>(), Ref::next(&m.chars, p)),
        7 => (c.prev::<Utf16CodeUnitsMetric>(), Ref::prev(&m.chars, p)),
        8 => {
            let b = c.is_boundary::<LinesMetric>();
            ensure_eq!(b, Ref::at(&m.lines, p), "line boundary at {}", p);
            (Some(c.pos()), Some(p))
        }
        _ => {
            let b = c.is_boundary::<BaseMetric>();
            ensure_eq!(b, true, "character boundary at {}", p);
            (Some(c.pos()), Some(p))
        }
    };
    ensure_eq!(got, exp, "cursor operation {} from {}", op, p);
    Ok(got)
}

fn check_range(r: &Rope, m: &Ref, a: usize, b: usize) -> Res {
    let s = &m.s[a..b];
    ensure_eq!(r.slice_to_cow(a..b).into_owned().as_str(), s, "slice_to_cow {}..{}", a, b);
    let chunks: String = r.iter_chunks(a..b).collect();
    ensure_eq!(chunks.as_str(), s, "chunks {}..{}", a, b);
    if !s.is_empty() {
        ensure!(r.iter_chunks(a..b).all(|c| !c.is_empty()), "empty chunk in {}..{}", a, b);
    }
    let got: Vec<String> = r.lines_raw(a..b).map(|c| c.into_owned()).collect();
    let exp: Vec<String> = s.split_inclusive('\n').map(|c| c.to_string()).collect();
    ensure_eq!(got, exp, "raw lines of {}..{}", a, b);
    let got: Vec<String> = r.lines(a..b).map(|c| c.into_owned()).collect();
    let exp: Vec<String> = s.lines().map(|c| c.to_string()).collect();
    ensure_eq!(got, exp, "lines of {}..{}", a, b);
    Ok(())
}

fn check_lines(r: &Rope, m: &Ref) -> Res {
    let n = m.lines.len();
    for l in 0..=n {
        let exp = if l == 0 { 0 } else { m.lines[l - 1] };
        ensure_eq!(r.offset_of_line(l), exp, "offset of line {}", l);
    }
    ensure_eq!(r.offset_of_line(n + 1), m.s.len(), "offset past the last line");
    let mut c = Cursor::new(r, 0);
    let got: Vec<usize> = c.iter::<LinesMetric>().collect();
    ensure_eq!(got, m.lines, "line iteration");
    let mut c = Cursor::new(r, 0);
    let got: Vec<usize> = c.iter::<BaseMetric>().collect();
    ensure_eq!(got, m.chars[1.min(m.chars.len())..].to_vec(), "character iteration");
    Ok(())
}

fn boundary_words(max: usize) -> impl Fn(&mut Ch) -> Res {
    move |ch| {
        let w = word(ch, max);
        let pieces: Vec<usize> = w.char_indices().map(|x| x.0).chain(std::iter::once(w.len())).collect();
        let cut = *ch.of(&pieces);
        let (pv, qv) = *ch.of(&[(0usize, 0usize), (1, 1), (1, 3), (3, 1), (2, 2), (3, 4), (4, 0)]);
        let left = pad(pv, 511) + &w[..cut];
        let right = w[cut..].to_string() + &pad(qv, 511);
        ch.log(|| format!("leaf boundary inside {:?} at {}, padding {}/{}", w, cut, pv, qv));
        let r = rope_of(&[&left, &right]);
        let m = Ref::new(format!("{}{}", left, right));
        ensure!(text(&r) == m.s, "ENGINE: builder");
        ensure!(r.iter_chunks(..).next().unwrap().len() == left.len(), "ENGINE: leaf boundary not where intended");
        ch.state(&(w.clone(), cut, pv, qv));
        let mid = left.len();
        let lo = mid.saturating_sub(cut + 3);
        let hi = (mid + (w.len() - cut) + 5).min(m.s.len());
        for p in (lo..=hi).chain([0, 1, m.s.len() - 1, m.s.len()]) {
            ch.step();
            check_point(&r, &m, p)?;
        }
        let pts: Vec<usize> = [0, lo, mid.saturating_sub(1), mid, mid + 1, hi, m.s.len()].iter().map(|p| snap(&m.s, *p)).collect();
        for (i, a) in pts.iter().enumerate() {
            for b in &pts[i..] {
                if a <= b {
                    check_range(&r, &m, *a, *b)?;
                }
            }
        }
        check_lines(&r, &m)
    }
}

/// Short texts in a single leaf, every position and every range.
fn small(ch: &mut Ch) -> Res {
    let w = word(ch, 4);
    let r = Rope::from(w.as_str());
    let m = Ref::new(w.clone());
    ch.log(|| format!("text {:?}", w));
    ch.state(&w);
    for p in 0..=w.len() {
        ch.step();
        if w.is_empty() {
            ensure_eq!(r.line_of_offset(0), 0, "line of offset 0");
            continue;
        }
        check_point(&r, &m, p)?;
    }
    for a in &m.chars {
        for b in &m.chars {
            if a <= b {
                check_range(&r, &m, *a, *b)?;
            }
        }
    }
    check_lines(&r, &m)
}

/// Newlines only in a chosen subset of many leaves: line motion must find them across empty-measure leaves and levels.
fn sparse_lines(ch: &mut Ch) -> Res {
    let n = *ch.of(&[2usize, 3, 7, 9, 34, 70]);
    let k = ch.pick(3); // number of newlines
    let mut marks: Vec<(usize, usize)> = Vec::new();
    for _ in 0..k {
        let leafs: Vec<usize> = {
            let mut v = vec![0, 1, n / 2, n - 2, n - 1];
            v.sort();
            v.dedup();
            v
        };
        let l = *ch.of(&leafs);
        let o = *ch.of(&[0usize, 300, 510]);
        marks.push((l, o));
    }
    let mut leaves: Vec<String> = (0..n).map(|_| "x".repeat(511)).collect();
    for (l, o) in &marks {
        leaves[*l].replace_range(*o..*o + 1, "\n");
    }
    let refs: Vec<&str> = leaves.iter().map(|s| s.as_str()).collect();
    let r = rope_of(&refs);
    let m = Ref::new(leaves.concat());
    ch.log(|| format!("{} leaves of 511 bytes, newlines at (leaf, offset) {:?}", n, marks));
    ch.state(&(n, &marks));
    let mut pts = vec![0, 1, 511, 512, m.s.len() - 511, m.s.len() - 1, m.s.len(), 511 * (n / 2)];
    for (l, o) in &marks {
        let p = l * 511 + o;
        pts.extend([p.saturating_sub(1), p, p + 1, p + 2]);
    }
    pts.retain(|p| *p <= m.s.len());
    for p in &pts {
        ch.step();
        check_point(&r, &m, *p)?;
    }
    for a in &pts {
        for b in &pts {
            if a <= b {
                check_range(&r, &m, *a, *b)?;
            }
        }
    }
    check_lines(&r, &m)
}

/// Grapheme clusters and flag runs that span several leaves.
fn long_clusters(ch: &mut Ch) -> Res {
    let unit = *ch.of(&["\u{301}", "\u{1F1E6}", "\u{1F469}\u{200D}", "\u{1100}", "\r\n"]);
    let head = *ch.of(&["", "e", "\n", "\u{1F1E6}", "xyz"]);
    let tail = *ch.of(&["", "b", "\u{1F1E6}", "\u{301}"]);
    let total = *ch.of(&[600usize, 1100, 1700, 2600, 4000]);
    let body = unit.repeat(total / unit.len());
    let s = format!("{}{}{}", head, body, tail);
    // cut into leaves of about 511..520 bytes at character boundaries
    let sz = *ch.of(&[511usize, 513, 700]);
    let mut pieces: Vec<&str> = Vec::new();
    let mut i = 0;
    while i < s.len() {
        let mut e = (i + sz).min(s.len());
        while !s.is_char_boundary(e) {
            e += 1;
        }
        if s.len() - e < 511 {
            e = s.len();
            if e - i > 1024 {
                e = i + 511;
                while !s.is_char_boundary(e) {
                    e += 1;
                }
            }
        }
        pieces.push(&s[i..e]);
        i = e;
    }
    let r = rope_of(&pieces);
    ch.log(|| format!("{:?} + {} bytes of {:?} + {:?}, leaves {:?}", head, total, unit, tail, pieces.iter().map(|p| p.len()).collect::<Vec<_>>()));
    ensure!(text(&r) == s, "ENGINE: builder");
    let m = Ref::new(s.clone());
    ch.state(&(unit, head, tail, total, sz));
    let mut pts: Vec<usize> = vec![0, head.len(), s.len() - tail.len(), s.len()];
    let mut o = 0;
    for p in &pieces {
        o += p.len();
        pts.extend([snap(&s, o.saturating_sub(1)), snap(&s, o), snap(&s, o + 4)]);
    }
    for p in pts {
        ch.step();
        ensure_eq!(r.next_grapheme_offset(p), Ref::next(&m.graphemes, p), "next grapheme after {} of {}", p, s.len());
        ensure_eq!(r.prev_grapheme_offset(p), Ref::prev(&m.graphemes, p), "previous grapheme before {} of {}", p, s.len());
    }
    Ok(())
}

pub fn run() -> ! {
    let th = is_thorough();
    mccommon::run(
        opts("C02"),
        vec![
            section("small", "all texts of up to 4 symbols over a 10-symbol alphabet, every position, range and pair of cursor moves", small),
            section(
                "leaf_boundary",
                "all words of up to 3 symbols (4 thorough) with a leaf boundary at every character, 7 paddings",
                boundary_words(if th { 4 } else { 3 }),
            ),
            section("sparse_lines", "2..70 leaves, up to 2 newlines at chosen leaves", sparse_lines),
            section("long_clusters", "clusters and flag runs across up to 8 leaves", long_clusters),
        ],
    )
}
