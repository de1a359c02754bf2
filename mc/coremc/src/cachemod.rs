//! C32: what a plugin sees of a document through the caches of plugin-lib
//! is the document, and incremental work driven by the state cache ends
//! where work from scratch would.
//!
//! The caches are the real ones; the document they fetch from is a plain
//! string, handed out in pieces of at most a few bytes, so that the caches
//! hold a part of it just as they do of a document of many megabytes.

use mccommon::*;
use std::cell::Cell;
use std::collections::HashMap;
use xi_core_lib::plugin_rpc::{GetDataResponse, TextUnit};
use xi_plugin_lib::{Cache, ChunkCache, DataSource, Error, StateCache};
use xi_rope::{DeltaBuilder, Interval, Rope, RopeDelta, RopeInfo};

struct Src<'a> {
    text: &'a str,
    rev: u64,
    piece: usize,
    calls: Cell<usize>,
}

fn line_starts(text: &str) -> Vec<usize> {
    let mut v = vec![0];
    v.extend(text.match_indices('\n').map(|(i, _)| i + 1));
    v
}

impl<'a> DataSource for Src<'a> {
    fn get_data(
        &self,
        start: usize,
        unit: TextUnit,
        max_size: usize,
        rev: u64,
    ) -> Result<GetDataResponse, Error> {
        self.calls.set(self.calls.get() + 1);
        if self.calls.get() > 60 {
            panic!("the cache asks for data again and again");
        }
        assert_eq!(rev, self.rev, "asks for data of another revision");
        let starts = line_starts(self.text);
        let bad = || Error::Other("the core has no such data".into());
        let offset = match unit {
            TextUnit::Utf8 => {
                if start > self.text.len() {
                    return Err(bad());
                }
                let mut o = start;
                while !self.text.is_char_boundary(o) {
                    o -= 1;
                }
                o
            }
            TextUnit::Line => {
                if start > starts.len() {
                    return Err(bad());
                }
                starts.get(start).cloned().unwrap_or(self.text.len())
            }
        };
        let mut end = offset.saturating_add(max_size.min(self.piece)).min(self.text.len());
        while !self.text.is_char_boundary(end) {
            end -= 1;
        }
        let first_line = starts.iter().rposition(|s| *s <= offset).unwrap();
        Ok(GetDataResponse {
            chunk: self.text[offset..end].to_string(),
            offset,
            first_line,
            first_line_offset: offset - starts[first_line],
        })
    }
}

#[derive(Clone, Debug)]
enum Query {
    Line(usize),
    Region(usize, usize),
    OffsetOfLine(usize),
    LineOfOffset(usize),
    Document,
    Clear,
}

fn queries(text: &str) -> Vec<Query> {
    let mut v = vec![Query::Document, Query::Clear];
    let n = line_starts(text).len();
    for i in 0..=n + 1 {
        v.push(Query::Line(i));
        v.push(Query::OffsetOfLine(i));
    }
    let bs = bounds(text);
    for (i, a) in bs.iter().enumerate() {
        for b in &bs[i..] {
            v.push(Query::Region(*a, *b));
        }
        v.push(Query::Region(*a, text.len() + 1));
    }
    v.push(Query::Region(text.len() + 1, text.len() + 2));
    for o in 0..=text.len() + 1 {
        v.push(Query::LineOfOffset(o));
    }
    v
}

/// The queries that bring each part of a text into the cache.
fn loads(text: &str) -> Vec<Query> {
    let mut v = vec![Query::Clear, Query::Document];
    for o in bounds(text) {
        v.push(Query::LineOfOffset(o));
    }
    for i in 0..line_starts(text).len() {
        v.push(Query::Line(i));
    }
    v
}

fn bounds(text: &str) -> Vec<usize> {
    (0..=text.len()).filter(|i| text.is_char_boundary(*i)).collect()
}

fn ask<C: Cache>(c: &mut C, src: &Src, q: &Query) -> Result<(), String> {
    src.calls.set(0);
    let text = src.text;
    let starts = line_starts(text);
    let n = starts.len();
    match *q {
        Query::Line(i) => {
            let got = c.get_line(src, i).map(|s| s.to_string());
            if i >= n {
                ensure!(got.is_err(), "get_line({}) of {:?} ({} lines) = {:?}", i, text, n, got);
            } else {
                let want = &text[starts[i]..starts.get(i + 1).cloned().unwrap_or(text.len())];
                ensure!(
                    got.as_ref().ok().map(|s| s.as_str()) == Some(want),
                    "get_line({}) of {:?} = {:?}, not {:?}",
                    i,
                    text,
                    got,
                    want
                );
            }
        }
        Query::Region(a, b) => {
            let got = c.get_region(src, a..b).map(|s| s.to_string());
            if b > text.len() {
                ensure!(got.is_err(), "get_region({}..{}) of {:?} = {:?}", a, b, text, got);
            } else {
                ensure!(
                    got.as_ref().ok().map(|s| s.as_str()) == Some(&text[a..b]),
                    "get_region({}..{}) of {:?} = {:?}",
                    a,
                    b,
                    text,
                    got
                );
            }
        }
        Query::OffsetOfLine(i) => {
            let got = c.offset_of_line(src, i);
            let want = if i > n { None } else { Some(starts.get(i).cloned().unwrap_or(text.len())) };
            ensure!(
                got.as_ref().ok() == want.as_ref(),
                "offset_of_line({}) of {:?} = {:?}, not {:?}",
                i,
                text,
                got,
                want
            );
        }
        Query::LineOfOffset(o) => {
            let got = c.line_of_offset(src, o);
            let want =
                if o > text.len() { None } else { starts.iter().rposition(|s| *s <= o) };
            ensure!(
                got.as_ref().ok() == want.as_ref(),
                "line_of_offset({}) of {:?} = {:?}, not {:?}",
                o,
                text,
                got,
                want
            );
        }
        Query::Document => {
            let got = c.get_document(src);
            ensure!(
                got.as_ref().ok().map(|s| s.as_str()) == Some(text),
                "get_document of {:?} = {:?}",
                text,
                got
            );
        }
        Query::Clear => c.clear(),
    }
    Ok(())
}

/// An edit: replace each of the ranges by the text; `None` for `delta` where
/// the core sends no delta.
#[derive(Clone, Debug)]
struct Ed {
    parts: Vec<(usize, usize, &'static str)>,
    silent: bool,
}

impl Ed {
    fn apply(&self, text: &str) -> String {
        let mut s = String::new();
        let mut last = 0;
        for (a, b, t) in &self.parts {
            s.push_str(&text[last..*a]);
            s.push_str(t);
            last = *b;
        }
        s.push_str(&text[last..]);
        s
    }
    fn delta(&self, len: usize) -> Option<RopeDelta> {
        if self.silent {
            return None;
        }
        let mut b: DeltaBuilder<RopeInfo> = DeltaBuilder::new(len);
        for (s, e, t) in &self.parts {
            b.replace(Interval::new(*s, *e), Rope::from(*t));
        }
        Some(b.build())
    }
}

/// Every edit of `text` at one place, with `ins` as inserted texts and at
/// most `del` bytes deleted, and some at two places.
fn edits(text: &str, ins: &[&'static str], del: usize, two: bool) -> Vec<Ed> {
    let bs = bounds(text);
    let mut v = Vec::new();
    for (i, a) in bs.iter().enumerate() {
        for b in &bs[i..] {
            if b - a > del && !(*a == 0 && *b == text.len()) {
                continue;
            }
            for t in ins {
                v.push(Ed { parts: vec![(*a, *b, t)], silent: false });
            }
            if b > a {
                v.push(Ed { parts: vec![(*a, *b, "")], silent: false });
            }
        }
    }
    v.push(Ed { parts: vec![], silent: false });
    v.push(Ed { parts: vec![(0, text.len(), "n\n\u{e9}w\ntext")], silent: true });
    v.push(Ed { parts: vec![(text.len(), text.len(), "w")], silent: true });
    if two {
        for (i, a) in bs.iter().enumerate() {
            for b in &bs[i + 1..] {
                v.push(Ed { parts: vec![(*a, *a, "1\n"), (*b, *b, "2")], silent: false });
                let next = bs.iter().find(|x| *x > b);
                if let Some(e) = next {
                    v.push(Ed { parts: vec![(*a, *a, "\n"), (*b, *e, "")], silent: false });
                    v.push(Ed { parts: vec![(*a, *b, ""), (*e, *e, "3")], silent: false });
                    v.push(Ed { parts: vec![(*a, *b, ""), (*b, *b, "4"), (*e, *e, "")], silent: false });
                }
            }
            if let Some(b) = bs.get(i + 1) {
                if let (Some(c), Some(d)) = (bs.get(i + 2), bs.get(i + 3)) {
                    v.push(Ed { parts: vec![(*a, *b, ""), (*c, *d, "")], silent: false });
                }
            }
        }
    }
    v
}

fn doc(ch: &mut Ch, max: usize) -> String {
    let n = ch.range(0, max);
    (0..n).map(|_| *ch.of(&["a", "\n", "\u{e9}"])).collect()
}

fn chunk_case(ch: &mut Ch, max: usize, rounds: usize, ins: &[&'static str], two: bool, pieces: &[usize]) -> Result<(), String> {
    let piece = *ch.of(pieces);
    let mut text = doc(ch, max);
    let mut rev = 1;
    ch.log(|| format!("a document {:?} in pieces of {}", text, piece));
    let mut c = ChunkCache::new(text.len(), rev, line_starts(&text).len());
    for r in 0..rounds {
        {
            let src = Src { text: &text, rev, piece, calls: Cell::new(0) };
            let ls = loads(&text);
            let q = ch.of(&ls).clone();
            ch.log(|| format!("ask {:?}", q));
            ch.step();
            ask(&mut c, &src, &q)?;
        }
        let es = edits(&text, ins, 6, two && r == 0);
        let e = ch.of(&es).clone();
        ch.log(|| format!("edit {:?}", e));
        ch.step();
        let new = e.apply(&text);
        let d = e.delta(text.len());
        rev += 1;
        c.update(d.as_ref(), new.len(), line_starts(&new).len(), rev);
        text = new;
    }
    let src = Src { text: &text, rev, piece, calls: Cell::new(0) };
    ch.state(&(format!("{:?}", c), &text));
    if !text.is_empty() {
        ch.nontrivial();
    }
    for q in queries(&text) {
        let mut k = c.clone();
        ch.step();
        ask(&mut k, &src, &q).map_err(|e| format!("{} (asking {:?} at the end)", e, q))?;
    }
    Ok(())
}

/// Sequences of questions without an edit between them.
fn ask_case(ch: &mut Ch, max: usize, n: usize) -> Result<(), String> {
    let piece = *ch.of(&[4usize, 5, 7]);
    let text = doc(ch, max);
    ch.log(|| format!("a document {:?} in pieces of {}", text, piece));
    let src = Src { text: &text, rev: 1, piece, calls: Cell::new(0) };
    let mut c = ChunkCache::new(text.len(), 1, line_starts(&text).len());
    let qs = queries(&text);
    for _ in 0..n {
        let q = ch.of(&qs).clone();
        ch.log(|| format!("ask {:?}", q));
        ch.step();
        ask(&mut c, &src, &q)?;
        ch.state(&(format!("{:?}", c), &text));
    }
    ch.nontrivial();
    for q in &qs {
        let mut k = c.clone();
        ask(&mut k, &src, q).map_err(|e| format!("{} (asking {:?} at the end)", e, q))?;
    }
    Ok(())
}

// ------------------------------------------------------------------ states

/// What is computed of a line: `+` counts, `0` starts over.
fn f(state: Option<u8>, line: &str) -> Option<u8> {
    let mut s = state.unwrap_or(0);
    for c in line.chars() {
        match c {
            '+' => s = (s + 1) % 3,
            '0' => s = 0,
            _ => (),
        }
    }
    Some(s)
}

struct Doc {
    text: String,
    ids: Vec<u32>,
    next: u32,
    rev: u64,
    /// For a line, given by its bytes, the state it was last computed from.
    out: HashMap<Vec<u32>, u8>,
    piece: usize,
}

impl Doc {
    fn new(text: &str, piece: usize) -> Doc {
        let n = text.len() as u32;
        Doc { text: text.into(), ids: (0..n).collect(), next: n, rev: 1, out: HashMap::new(), piece }
    }
    fn edit(&mut self, e: &Ed) -> Option<RopeDelta> {
        let d = e.delta(self.text.len());
        let mut ids = Vec::new();
        let mut last = 0;
        for (a, b, t) in &e.parts {
            ids.extend_from_slice(&self.ids[last..*a]);
            for _ in 0..t.len() {
                ids.push(self.next);
                self.next += 1;
            }
            last = *b;
        }
        ids.extend_from_slice(&self.ids[last..]);
        self.text = e.apply(&self.text);
        self.ids = ids;
        self.rev += 1;
        d
    }
    fn lines(&self) -> usize {
        line_starts(&self.text).len()
    }
    fn src(&self) -> Src<'_> {
        Src { text: &self.text, rev: self.rev, piece: self.piece, calls: Cell::new(0) }
    }
    /// The state before each line.
    fn truth(&self) -> Vec<u8> {
        let starts = line_starts(&self.text);
        let mut v = vec![0];
        for w in starts.windows(2) {
            let s = f(Some(*v.last().unwrap()), &self.text[w[0]..w[1]]).unwrap();
            v.push(s);
        }
        v
    }
}

/// Works on one line, the way the syntax highlighter does.
fn work_one(ch: &mut Ch, c: &mut StateCache<Option<u8>>, d: &mut Doc) -> Result<bool, String> {
    let front = match c.get_frontier() {
        Some(l) => l,
        None => return Ok(false),
    };
    ch.step();
    let (line, offset, state) = c.get_prev(front);
    ensure!(line <= front, "get_prev({}) is line {}", front, line);
    let (next, len) = {
        let src = Src { text: &d.text, rev: d.rev, piece: d.piece, calls: Cell::new(0) };
        match c.get_line(&src, line) {
            Ok("") => (None, 0),
            Ok(s) => {
                let n = f(state, s);
                (if s.ends_with('\n') { Some((n, line + 1)) } else { None }, s.len())
            }
            Err(_) => (None, 0),
        }
    };
    d.out.insert(d.ids[offset..offset + len].to_vec(), state.unwrap_or(0));
    if let Some((n, l)) = next {
        if c.get(l) != Some(&n) {
            c.set(&d.src(), l, n);
            c.update_frontier(l);
            return Ok(true);
        }
    }
    c.close_frontier();
    Ok(true)
}

fn consistent(c: &StateCache<Option<u8>>, d: &Doc) -> Result<(), String> {
    let starts = line_starts(&d.text);
    for l in 0..starts.len() {
        let (line, offset, _) = c.get_prev(l);
        ensure!(
            line <= l && offset == starts[line],
            "get_prev({}) is (line {}, offset {}), lines of {:?} start at {:?}",
            l,
            line,
            offset,
            d.text,
            starts
        );
    }
    if let Some(front) = c.get_frontier() {
        ensure!(front < starts.len(), "the frontier {} is past the end of {:?}", front, d.text);
        // what comes before the frontier is done with
        let truth = d.truth();
        for l in 0..=front {
            if let Some(s) = c.get(l) {
                ensure!(
                    s.unwrap_or(0) == truth[l],
                    "the state before line {} of {:?} is {:?}, not {}, while the frontier is {}",
                    l,
                    d.text,
                    s,
                    truth[l],
                    front
                );
            }
        }
    }
    Ok(())
}

fn finish(ch: &mut Ch, c: &mut StateCache<Option<u8>>, d: &mut Doc) -> Result<(), String> {
    let mut n = 0;
    while work_one(ch, c, d)? {
        n += 1;
        ensure!(n < 200, "the work never ends");
    }
    let truth = d.truth();
    let starts = line_starts(&d.text);
    for l in 0..starts.len() {
        let end = starts.get(l + 1).cloned().unwrap_or(d.text.len());
        if let Some(s) = c.get(l) {
            ensure!(
                s.unwrap_or(0) == truth[l],
                "all work is done, but the state before line {} of {:?} is {:?}, not {}",
                l,
                d.text,
                s,
                truth[l]
            );
        }
        if end > starts[l] {
            let got = d.out.get(&d.ids[starts[l]..end]);
            ensure!(
                got == Some(&truth[l]),
                "all work is done, but line {} of {:?} was computed from {:?}, not from {}",
                l,
                d.text,
                got,
                truth[l]
            );
        }
    }
    Ok(())
}

fn state_case(
    ch: &mut Ch,
    docs: &[&'static str],
    pieces: &[usize],
    rounds: usize,
    ins: &[&'static str],
    del: usize,
    works: &[usize],
    evict: &[usize],
) -> Result<(), String> {
    let text = *ch.of(docs);
    let piece = *ch.of(pieces);
    let size = *ch.of(evict);
    let mut d = Doc::new(text, piece);
    ch.log(|| format!("a document {:?} in pieces of {}, {} states", text, piece, size));
    xi_plugin_lib::verif::set_cache_size(size);
    xi_plugin_lib::verif::set_victim(None);
    let mut c: StateCache<Option<u8>> = StateCache::new(text.len(), d.rev, d.lines());
    c.reset();
    for r in 0..=rounds {
        let w = *ch.of(works);
        ch.log(|| format!("work on {} lines", w));
        if size < 100 {
            evict_choice(ch, size);
        }
        for _ in 0..w {
            if !work_one(ch, &mut c, &mut d)? {
                break;
            }
        }
        consistent(&c, &d)?;
        if r < rounds {
            let es = state_edits(&d.text, ins, del);
            let e = ch.of(&es).clone();
            ch.log(|| format!("edit {:?} of {:?}", e, d.text));
            ch.step();
            let delta = d.edit(&e);
            c.update(delta.as_ref(), d.text.len(), d.lines(), d.rev);
            consistent(&c, &d)?;
        }
    }
    ch.state(&(&d.text, c.get_frontier(), (0..d.lines()).map(|l| c.get(l).cloned()).collect::<Vec<_>>()));
    ch.nontrivial();
    finish(ch, &mut c, &mut d)
}

/// A reset forgets every state, and all work is to be done again.
fn reset_case(ch: &mut Ch) -> Result<(), String> {
    let mut d = Doc::new(*ch.of(&["", "+", "+\n+\n0\n+"]), 64);
    let mut c: StateCache<Option<u8>> = StateCache::new(d.text.len(), d.rev, d.lines());
    c.reset();
    let w = ch.range(0, 4);
    for _ in 0..w {
        work_one(ch, &mut c, &mut d)?;
    }
    let set: Vec<usize> = (0..d.lines()).filter(|_| ch.flip()).collect();
    for l in &set {
        c.set(&d.src(), *l, Some(2));
    }
    ch.log(|| format!("{:?}: work on {} lines, set states of {:?}, reset", d.text, w, set));
    ch.step();
    if ch.flip() {
        c.reset();
    } else {
        c.clear();
    }
    for l in 0..d.lines() {
        ensure!(c.get(l).is_none(), "the state of line {} of {:?} outlives a reset", l, d.text);
    }
    ensure_eq!(c.get_frontier(), Some(0), "the frontier after a reset");
    ch.nontrivial();
    d.out.clear();
    finish(ch, &mut c, &mut d)
}

/// Which of the states goes when there are too many is chosen here.
fn evict_choice(ch: &mut Ch, size: usize) {
    let v = ch.pick(size);
    xi_plugin_lib::verif::set_victim(Some(v));
}

fn state_edits(text: &str, ins: &[&'static str], del: usize) -> Vec<Ed> {
    let mut v = Vec::new();
    for a in 0..=text.len() {
        for t in ins {
            v.push(Ed { parts: vec![(a, a, t)], silent: false });
        }
        for b in a + 1..=(a + del).min(text.len()) {
            v.push(Ed { parts: vec![(a, b, "")], silent: false });
        }
        if a < text.len() {
            v.push(Ed { parts: vec![(a, a + 1, "0\n")], silent: false });
        }
    }
    v.push(Ed { parts: vec![(0, 0, "+\n")], silent: true });
    if text.len() > 2 {
        v.push(Ed { parts: vec![(1, 1, "+"), (text.len(), text.len(), "\n")], silent: false });
    }
    v
}

pub fn run() {
    let th = is_thorough();
    let (m1, m2) = if th { (6, 4) } else { (5, 3) };
    let mut s = vec![
        section("ask", "documents of up to 5 characters of a, newline and é, pieces of 4, 5 and 7 bytes; one question (thorough: two) and then each question", move |ch| {
            ask_case(ch, 5, if th { 2 } else { 1 })
        }),
        section("edit", "documents of up to 5 (thorough: 6) characters, pieces of 4 bytes; each part loaded, each edit at one place or (some) at two, then each question", move |ch| {
            chunk_case(ch, m1, 1, &["x", "\n", "\u{e9}y\n12"], true, &[4])
        }),
        section("edit, edit", "documents of up to 3 (thorough: 4) characters, pieces of 4 and 6 bytes; twice a part loaded and an edit, then each question", move |ch| {
            chunk_case(ch, m2, 2, &["x\n", "\u{e9}yz"], false, if th { &[4, 6] } else { &[4] })
        }),
    ];
    let works: &'static [usize] = if th { &[0, 1, 2, 3, 20] } else { &[0, 1, 3, 20] };
    s.push(section("states", "documents of 4 lines, all in the cache or in pieces of 4 bytes; work on 0, 1, 3 or all lines between 2 edits, one of each kind at each place", move |ch| {
        state_case(ch, &["+\n+\n+\n+", "+\n\n0\n+\n", "\n0\n\n+"], &[4, 64], 2, &["+", "\n", "+\n\n0"], 4, works, &[1000])
    }));
    s.push(section("states of edits", "a document of 4 lines; 3 edits of each kind at each place, with no, 1 or all lines worked on between them", move |ch| {
        state_case(ch, &["+\n+\n+\n+"], if th { &[4, 64] } else { &[64] }, 3, &["+", "\n\n"], 2, if th { &[0, 1, 20] } else { &[0, 20] }, &[1000])
    }));
    s.push(section("few states", "a cache of 2 or 3 states, each choice of which one goes; 2 edits (thorough: 3)", move |ch| {
        state_case(ch, &["+\n+\n\n+\n+"], &[64], if th { 3 } else { 2 }, &["+", "\n"], 3, &[0, 2, 4], &[2, 3])
    }));
    s.push(section("reset", "documents of up to 4 lines, each set of states, reset or cleared", reset_case));
    run_all(s)
}

fn run_all(s: Vec<Section>) -> ! {
    mccommon::run(
        Opts {
            property: "C32".into(),
            level: "model_checking".into(),
            assumptions: vec![
                "the core answers get_data as it does (checked with the real core in C33 and C25)".into(),
                "offsets asked for are character boundaries".into(),
                "incremental work follows the documented protocol of the state cache, as the syntax highlighter does".into(),
            ],
            single_thread: false,
        },
        s,
    )
}
