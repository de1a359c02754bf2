//! A plain reference editor: a string, a list of regions, and what every command does to them.
use serde_json::Value;
use unicode_segmentation::{GraphemeCursor, UnicodeSegmentation};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Rg {
    pub s: usize,
    pub e: usize,
    pub h: Option<usize>,
}
impl Rg {
    pub fn new(s: usize, e: usize) -> Rg {
        Rg { s, e, h: None }
    }
    pub fn min(&self) -> usize {
        self.s.min(self.e)
    }
    pub fn max(&self) -> usize {
        self.s.max(self.e)
    }
    pub fn caret(&self) -> bool {
        self.s == self.e
    }
}

pub fn add(v: &mut Vec<Rg>, r: Rg) {
    let merges = |a: &Rg, b: &Rg| {
        let (lo, hi) = (a.min().max(b.min()), a.max().min(b.max()));
        if a.caret() || b.caret() {
            lo <= hi
        } else {
            lo < hi
        }
    };
    let mut r = r;
    let mut out = Vec::new();
    for x in v.iter() {
        if merges(x, &r) {
            let (a, b) = (x.min().min(r.min()), x.max().max(r.max()));
            r = if r.e >= r.s { Rg::new(a, b) } else { Rg::new(b, a) };
        } else {
            out.push(*x);
        }
    }
    let at = out.iter().position(|x| x.min() >= r.max()).unwrap_or(out.len());
    out.insert(at, r);
    *v = out;
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cl {
    Lf,
    Sp,
    Pu,
    Ot,
}
pub fn class(c: char) -> Cl {
    match c {
        '\n' => Cl::Lf,
        c if c <= ' ' => Cl::Sp,
        c if c.is_ascii_punctuation() && c != '_' => Cl::Pu,
        _ => Cl::Ot,
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Drift {
    Default,
    Inside,
    Outside,
}

#[derive(Clone, Debug)]
pub struct Ed {
    pub text: String,
    pub regs: Vec<Rg>,
    pub kill: String,
    pub tab: usize,
    pub soft: bool,
    pub eol: &'static str,
    pub height: usize,
    /// base selection, anchor range, granularity
    pub drag: Option<(Vec<Rg>, usize, usize, String)>,
    /// what the latest cut or copy returned
    pub clip: Option<String>,
}

/// What is known about the outcome of a command.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Known {
    All,
    /// the text, but not the selection
    Text,
    Nothing,
}

impl Ed {
    pub fn new(text: &str, regs: &[(usize, usize)]) -> Ed {
        Ed {
            text: text.into(),
            regs: regs.iter().map(|r| Rg::new(r.0, r.1)).collect(),
            kill: String::new(),
            tab: 4,
            soft: true,
            eol: "\n",
            height: 10,
            drag: None,
            clip: None,
        }
    }
    fn len(&self) -> usize {
        self.text.len()
    }
    pub fn starts(&self) -> Vec<usize> {
        crate::model::line_starts(&self.text)
    }
    pub fn line_of(&self, off: usize) -> usize {
        self.text.as_bytes()[..off].iter().filter(|b| **b == b'\n').count()
    }
    pub fn start_of(&self, line: usize) -> usize {
        self.starts().get(line).copied().unwrap_or(self.len())
    }
    fn bounds(&self) -> Vec<usize> {
        let mut v: Vec<usize> = self.text.grapheme_indices(true).map(|x| x.0).collect();
        v.push(self.len());
        v
    }
    pub fn prev_g(&self, off: usize) -> Option<usize> {
        self.bounds().into_iter().rev().find(|b| *b < off)
    }
    pub fn next_g(&self, off: usize) -> Option<usize> {
        // the rest of the text decides, but flags before the position count
        if off >= self.len() {
            return None;
        }
        let mut c = GraphemeCursor::new(off, self.len(), true);
        c.next_boundary(&self.text, 0).unwrap()
    }
    /// the last position of a line: before its line ending
    fn content_end(&self, line: usize) -> usize {
        let st = self.starts();
        if line + 1 >= st.len() {
            self.len()
        } else {
            self.prev_g(st[line + 1]).unwrap_or(0)
        }
    }
    pub fn at(&self, line: usize, col: usize) -> usize {
        let st = self.starts();
        if line >= st.len() {
            return self.len();
        }
        let want = st[line].saturating_add(col).min(self.len());
        let snapped = self.bounds().into_iter().rev().find(|b| *b <= want).unwrap();
        snapped.min(self.content_end(line))
    }
    fn col(&self, off: usize) -> usize {
        off - self.start_of(self.line_of(off))
    }
    fn chars(&self) -> Vec<(usize, Cl)> {
        self.text.char_indices().map(|(i, c)| (i, class(c))).collect()
    }
    /// a line feed, or blanks, then punctuation, then letters
    pub fn word_right(&self, off: usize) -> Option<usize> {
        let rest = &self.text[off..];
        let first = rest.chars().next()?;
        if first == '\n' {
            return Some(off + 1);
        }
        let mut phase = 0;
        for (i, c) in rest.char_indices() {
            let p = match class(c) {
                Cl::Lf => return Some(off + i),
                Cl::Sp => 0,
                Cl::Pu => 1,
                Cl::Ot => 2,
            };
            if i > 0 && p < phase {
                return Some(off + i);
            }
            phase = p;
        }
        Some(self.len())
    }
    /// a line feed, or letters, then punctuation, then blanks, ending here
    pub fn word_left(&self, off: usize) -> Option<usize> {
        let rest = &self.text[..off];
        let last = rest.chars().next_back()?;
        if last == '\n' {
            return Some(off - 1);
        }
        let mut phase = 0;
        for (i, c) in rest.char_indices().rev() {
            let p = match class(c) {
                Cl::Lf => return Some(i + 1),
                Cl::Sp => 0,
                Cl::Pu => 1,
                Cl::Ot => 2,
            };
            if p < phase {
                return Some(i + c.len_utf8());
            }
            phase = p;
        }
        Some(0)
    }
    /// the unit of text that a double click selects
    pub fn word_at(&self, off: usize) -> (usize, usize) {
        #[derive(PartialEq, Clone, Copy)]
        enum B {
            In,
            St,
            En,
            Both,
        }
        use B::*;
        use Cl::*;
        fn cb(a: Cl, b: Cl) -> B {
            match (a, b) {
                (Lf, _) | (_, Lf) => Both,
                (Sp, Ot) | (Sp, Pu) | (Pu, Ot) => St,
                (Ot, Sp) | (Pu, Sp) | (Ot, Pu) => En,
                _ => In,
            }
        }
        let cs = self.chars();
        let n = cs.len();
        let i = cs.iter().position(|c| c.0 == off).unwrap_or(n);
        let pos = |k: usize| if k < n { cs[k].0 } else { self.len() };
        let init = if i > 0 && i < n {
            match (cs[i - 1].1, cs[i].1) {
                (Lf, Ot) => St,
                (Ot, Lf) => En,
                (Lf, Sp) | (Lf, Pu) | (Sp, Lf) | (Pu, Lf) | (Sp, Pu) | (Pu, Sp) => In,
                (a, b) => cb(a, b),
            }
        } else {
            Both
        };
        let mut k = if i == n && n > 0 { i - 1 } else { i };
        while k > 0 && k < n {
            let stop = if k == i {
                init == St || init == Both
            } else if init == In {
                cb(cs[k - 1].1, cs[k].1) != In
            } else {
                matches!(cb(cs[k - 1].1, cs[k].1), St | Both)
            };
            if stop {
                break;
            }
            k -= 1;
        }
        let mut j = if i == 0 && n > 0 { 1 } else { i };
        while j > 0 && j < n {
            let stop = if j == i {
                init == En || init == Both
            } else if init == In {
                cb(cs[j - 1].1, cs[j].1) != In
            } else {
                matches!(cb(cs[j - 1].1, cs[j].1), En | Both)
            };
            if stop {
                break;
            }
            j += 1;
        }
        (pos(k), pos(j))
    }
    fn vertical(&self, r: &Rg, d: isize, modify: bool) -> (usize, Option<usize>) {
        let active = if modify { r.e } else if d < 0 { r.min() } else { r.max() };
        let col = r.h.unwrap_or_else(|| self.col(active));
        let line = self.line_of(active) as isize + d;
        if line < 0 {
            return (0, Some(col));
        }
        if line as usize >= self.starts().len() {
            return (self.len(), Some(col));
        }
        (self.at(line as usize, col), Some(col))
    }
    /// `None`: not specified
    fn moved(&self, m: &str, r: &Rg, modify: bool) -> Option<Rg> {
        let (off, h) = match m {
            "left" if r.caret() || modify => match self.prev_g(r.e) {
                Some(o) => (o, None),
                None => (0, r.h),
            },
            "left" => (r.min(), None),
            "right" if r.caret() || modify => match self.next_g(r.e) {
                Some(o) => (o, None),
                None => (r.e, r.h),
            },
            "right" => (r.max(), None),
            "word_left" => (self.word_left(r.e).unwrap_or(0), None),
            "word_right" => (self.word_right(r.e).unwrap_or(self.len()), None),
            "left_end_of_line" => (self.start_of(self.line_of(r.e)), None),
            "right_end_of_line" => (self.content_end(self.line_of(r.e)), None),
            "beginning_of_paragraph" => {
                let l = self.line_of(r.e);
                if r.e == self.start_of(l) && l > 0 {
                    return None;
                }
                (self.start_of(l), None)
            }
            "end_of_paragraph" => (self.content_end(self.line_of(r.e)), None),
            "kill" => {
                let l = self.line_of(r.e);
                let c = self.content_end(l);
                (if c > r.e { c } else { self.start_of(l + 1) }, None)
            }
            "up" => self.vertical(r, -1, modify),
            "down" => self.vertical(r, 1, modify),
            "page_up" => self.vertical(r, -((self.height as isize - 2).max(1)), modify),
            "page_down" => self.vertical(r, (self.height as isize - 2).max(1), modify),
            "beginning_of_document" => (0, None),
            "end_of_document" => (self.len(), None),
            _ => panic!("ENGINE: movement {}", m),
        };
        Some(Rg { s: if modify { r.s } else { off }, e: off, h })
    }
    fn move_all(&mut self, m: &str, modify: bool) -> Known {
        let mut v = Vec::new();
        self.drag = None;
        for r in self.regs.clone() {
            match self.moved(m, &r, modify) {
                Some(x) => add(&mut v, x),
                None => return Known::Nothing,
            }
        }
        self.regs = v;
        Known::All
    }
    /// Replaces ranges (ascending, disjoint) and carries the selection along.
    fn edit(&mut self, edits: &[(usize, usize, String)], drift: Drift) -> Known {
        self.drag = None;
        let mut out = String::new();
        let mut last = 0;
        for (s, e, t) in edits {
            out.push_str(&self.text[last..*s]);
            out.push_str(t);
            last = *e;
        }
        out.push_str(&self.text[last..]);
        // a position at the edge of text that another replacement removes is not specified
        let touching = edits.windows(2).any(|w| w[0].1 == w[1].0 && (w[0].0 < w[0].1 || w[1].0 < w[1].1) && drift != Drift::Outside);
        let pos = |p: usize, after: bool| {
            let mut d = 0isize;
            for (s, e, t) in edits {
                if *e < p || (*e == p && *s < p) {
                    d += t.len() as isize - (e - s) as isize;
                } else if *s < p {
                    // inside of what is replaced
                    d += t.len() as isize - (p - s) as isize;
                } else if *s == p && after {
                    d += t.len() as isize;
                }
            }
            (p as isize + d) as usize
        };
        let mut v = Vec::new();
        for r in &self.regs {
            let fwd = r.s < r.e;
            let (sa, ea) = match drift {
                Drift::Inside if !r.caret() => (!fwd, fwd),
                Drift::Outside if !r.caret() => (fwd, !fwd),
                _ => (true, true),
            };
            add(&mut v, Rg::new(pos(r.s, sa), pos(r.e, ea)));
        }
        let changed = out != self.text || !edits.is_empty();
        self.text = out;
        if changed {
            self.regs = v;
        }
        if touching {
            Known::Text
        } else {
            Known::All
        }
    }
    fn insert(&mut self, t: &str) -> Known {
        let e: Vec<_> = self.regs.iter().map(|r| (r.min(), r.max(), t.to_string())).collect();
        self.edit(&e, Drift::Default)
    }
    fn delete(&mut self, v: &[Rg]) -> Known {
        let e: Vec<_> = v.iter().filter(|r| !r.caret()).map(|r| (r.min(), r.max(), String::new())).collect();
        if e.is_empty() {
            return Known::All;
        }
        // deleted runs that touch leave one position behind
        self.edit(&e, Drift::Default);
        Known::All
    }
    fn delete_to(&mut self, m: &str) -> Known {
        let mut v = Vec::new();
        for r in self.regs.clone() {
            if r.caret() {
                match self.moved(m, &r, true) {
                    Some(x) => add(&mut v, Rg { h: None, ..x }),
                    None => return Known::Nothing,
                }
            } else {
                add(&mut v, r);
            }
        }
        if m == "kill" {
            self.kill = self.joined(&v).unwrap_or_default();
        }
        self.delete(&v)
    }
    fn joined(&self, v: &[Rg]) -> Option<String> {
        let t: Vec<&str> = v.iter().filter(|r| !r.caret()).map(|r| &self.text[r.min()..r.max()]).collect();
        if t.is_empty() {
            None
        } else {
            Some(t.join("\n"))
        }
    }
    fn tab_text(&self, n: usize) -> String {
        if self.soft {
            " ".repeat(n)
        } else {
            "\t".into()
        }
    }
    fn lines_of(&self, r: &Rg) -> std::ops::Range<usize> {
        let a = self.line_of(r.min());
        let mut b = self.line_of(r.max());
        if b > a && self.start_of(b) == r.max() {
            b -= 1;
        }
        a..b + 1
    }
    fn all_lines(&self) -> Vec<usize> {
        let s: std::collections::BTreeSet<usize> = self.regs.iter().flat_map(|r| self.lines_of(r)).collect();
        s.into_iter().collect()
    }
    fn unit(&self, off: usize, g: &str) -> (usize, usize) {
        match g {
            "point" => (off, off),
            "word" => self.word_at(off),
            _ => {
                let l = self.line_of(off);
                (self.start_of(l), self.start_of(l + 1))
            }
        }
    }
    fn stretch(&self, from: (usize, usize), off: usize, g: &str) -> Rg {
        let u = self.unit(off, g);
        if off >= from.0 {
            Rg::new(from.0, u.1)
        } else {
            Rg::new(from.1, u.0)
        }
    }
    fn gesture(&mut self, off: usize, ty: &Value) -> Known {
        if let Some(sel) = ty.get("select") {
            let g = sel["granularity"].as_str().unwrap();
            let multi = sel["multi"] == true;
            if multi && g == "point" {
                let hit: Vec<usize> = (0..self.regs.len()).filter(|i| self.regs[*i].min() <= off && off <= self.regs[*i].max()).collect();
                if hit.len() > 1 {
                    return Known::Nothing;
                }
                if hit.len() == 1 && self.regs.len() > 1 {
                    self.regs.remove(hit[0]);
                    self.drag = None;
                    return Known::All;
                }
            }
            let (a, b) = self.unit(off, g);
            let base = if multi { self.regs.clone() } else { vec![] };
            let mut v = base.clone();
            add(&mut v, Rg::new(a, b));
            self.regs = v;
            self.drag = Some((base, a, b, g.into()));
        } else if let Some(sel) = ty.get("select_extend") {
            let g = sel["granularity"].as_str().unwrap();
            let last = *self.regs.last().unwrap();
            let base: Vec<Rg> = self.regs[..self.regs.len() - 1].to_vec();
            let mut v = base.clone();
            add(&mut v, self.stretch((last.s, last.s), off, g));
            self.regs = v;
            self.drag = Some((base, last.s, last.s, g.into()));
        } else if ty == "drag" {
            if let Some((base, a, b, g)) = self.drag.clone() {
                let mut v = base.clone();
                add(&mut v, self.stretch((a, b), off, &g));
                self.regs = v;
            }
        } else {
            panic!("ENGINE: gesture {}", ty)
        }
        Known::All
    }
    fn add_by(&mut self, up: bool) -> Known {
        let mut v: Vec<Rg> = Vec::new();
        for r in self.regs.clone() {
            add(&mut v, r);
            let active = if up { r.min() } else { r.max() };
            let line = self.line_of(active);
            let col = r.h.unwrap_or_else(|| self.col(active));
            if r.h.is_some() {
                return Known::Nothing;
            }
            let n = self.starts().len();
            let size = |l: usize| self.start_of(l + 1) - self.start_of(l);
            let found = if up { (0..line).rev().find(|l| size(*l) > col) } else { (line + 1..n).find(|l| size(*l) > col) };
            if found.is_none() && !up && line + 1 < n && size(n - 1) == col {
                return Known::Nothing;
            }
            add(&mut v, Rg { h: Some(col), ..{ let o = self.at(found.unwrap_or(line), col); Rg::new(o, o) } });
        }
        self.regs = v;
        Known::All
    }
    fn number(&mut self, d: i128) -> Known {
        let mut e: Vec<(usize, usize, String)> = Vec::new();
        let mut last = 0;
        for r in self.regs.clone() {
            let (mut s, t) = self.word_at(r.e);
            if s > 0 && self.text.as_bytes()[s - 1] == b'-' {
                s -= 1;
            }
            if s < last {
                continue;
            }
            if let Some(n) = self.text[s..t].parse::<i128>().ok().and_then(|n| n.checked_add(d)) {
                e.push((s, t, n.to_string()));
                last = t;
            }
        }
        if e.is_empty() {
            return Known::All;
        }
        self.edit(&e, Drift::Default)
    }
    /// What a backspace removes before a caret that no tab stop applies to; only well-formed sequences.
    pub fn backspace_unit(&self, off: usize) -> usize {
        let t = &self.text[..off];
        if t.ends_with("\r\n") {
            return off - 2;
        }
        let c: Vec<char> = t.chars().collect();
        let ri = |c: &char| ('\u{1F1E6}'..='\u{1F1FF}').contains(c);
        let run = c.iter().rev().take_while(|c| ri(c)).count();
        let n = if run > 0 { 2 - run % 2 } else { 1 };
        off - c[c.len() - n..].iter().map(|c| c.len_utf8()).sum::<usize>()
    }
    fn backspace(&mut self) -> Known {
        let mut v = Vec::new();
        for r in self.regs.clone() {
            if !r.caret() {
                add(&mut v, Rg::new(r.min(), r.max()));
                continue;
            }
            if r.e == 0 {
                add(&mut v, Rg::new(0, 0));
                continue;
            }
            let col = self.col(r.e);
            let stop = if col % self.tab == 0 { self.tab } else { col % self.tab };
            let s = r.e.saturating_sub(stop);
            if self.soft && self.text.as_bytes()[s..r.e].iter().all(|b| *b == b' ') {
                add(&mut v, Rg::new(s, r.e));
            } else {
                let odd = |c: char| matches!(c, '\u{200d}' | '\u{20e3}' | '\u{fe0f}' | '\u{1F3FB}'..='\u{1F3FF}' | '\u{e0020}'..='\u{e007f}');
                if self.text[..r.e].chars().any(odd) {
                    return Known::Nothing;
                }
                add(&mut v, Rg::new(self.backspace_unit(r.e), r.e));
            }
        }
        self.delete(&v)
    }
    fn transpose(&mut self) -> Known {
        let selected: Vec<Rg> = self.regs.iter().copied().filter(|r| !r.caret()).collect();
        if selected.len() == self.regs.len() {
            // every region takes the text of the one before it, the first one that of the last
            let n = selected.len();
            let e: Vec<_> = (0..n)
                .map(|i| {
                    let f = selected[(i + n - 1) % n];
                    (selected[i].min(), selected[i].max(), self.text[f.min()..f.max()].to_string())
                })
                .collect();
            return self.edit(&e, Drift::Inside);
        }
        if self.regs.len() > 1 {
            return Known::Nothing;
        }
        let p = self.regs[0].e;
        let line = self.line_of(p);
        let (l, r) = (self.prev_g(p), self.next_g(p));
        let (a, b, c) = match (l, r) {
            // at the beginning of the text there is nothing to exchange; whether the caret moves is not specified
            (None, _) => return Known::Text,
            // in a line: the clusters around the caret
            (Some(l), Some(r)) if p < self.content_end(line) => {
                if self.start_of(self.line_of(r)) == r {
                    return Known::Nothing;
                }
                (l, p, r)
            }
            // at its end: the two before it
            (Some(l), _) => {
                // at the end of the text, and before a final line break (an existing test wants that one exchanged)
                if self.start_of(line + 1) == self.len() {
                    return Known::Nothing;
                }
                match self.prev_g(l) {
                    Some(ll) => (ll, l, p),
                    None => return Known::Nothing,
                }
            }
        };
        if self.start_of(line) > a {
            return Known::Nothing;
        }
        let t = format!("{}{}", &self.text[b..c], &self.text[a..b]);
        self.edit(&[(a, c, t)], Drift::Inside)
    }
    fn capitalize(&mut self) -> Known {
        let mut e: Vec<(usize, usize, String)> = Vec::new();
        let mut last = 0;
        let mut sel = Vec::new();
        for r in self.regs.clone() {
            add(&mut sel, Rg::new(r.max(), r.max()));
            let mut p = r.min();
            loop {
                let (a, b) = self.word_at(p);
                if a < b && a >= last {
                    let w = &self.text[a..b];
                    let mut cs = w.chars();
                    let first: String = cs.next().unwrap().to_uppercase().collect();
                    e.push((a, b, first + &cs.as_str().to_lowercase()));
                    last = b;
                }
                match self.word_right(b) {
                    Some(n) if b <= r.max() => p = n,
                    _ => break,
                }
            }
        }
        self.regs = sel;
        if e.is_empty() {
            return Known::All;
        }
        let touching = e.windows(2).any(|w| w[0].1 == w[1].0);
        let k = self.edit(&e, Drift::Default);
        if touching {
            Known::Text
        } else {
            k
        }
    }

    pub fn run(&mut self, m: &str, p: &Value) -> Known {
        self.clip = None;
        let body = m.strip_suffix("_and_modify_selection");
        let modify = body.is_some();
        let name = body.unwrap_or(m);
        let movement = match name {
            "scroll_page_up" | "page_up" => Some("page_up"),
            "scroll_page_down" | "page_down" => Some("page_down"),
            n => n.strip_prefix("move_").map(|n| n.strip_prefix("to_").unwrap_or(n)),
        };
        if let Some(mv) = movement {
            return self.move_all(mv, modify);
        }
        match m {
            "insert" => {
                let t = p["chars"].as_str().unwrap();
                let close = match t {
                    "\"" => "\"",
                    "'" => "'",
                    "{" => "}",
                    "[" => "]",
                    _ => "",
                };
                if !close.is_empty() && self.regs.iter().all(|r| !r.caret()) {
                    let mut e: Vec<(usize, usize, String)> = Vec::new();
                    for r in &self.regs {
                        e.push((r.min(), r.min(), t.into()));
                        e.push((r.max(), r.max(), close.into()));
                    }
                    let k = self.edit(&e, Drift::Outside);
                    return if e.windows(2).any(|w| w[0].1 == w[1].0) { Known::Text } else { k };
                }
                self.insert(t)
            }
            "paste" => {
                let t = p["chars"].as_str().unwrap();
                let lines: Vec<&str> = t.lines().collect();
                if self.regs.len() > 1 && lines.len() == self.regs.len() {
                    let e: Vec<_> = self.regs.iter().zip(lines).map(|(r, l)| (r.min(), r.max(), l.to_string())).collect();
                    return self.edit(&e, Drift::Default);
                }
                self.insert(t)
            }
            "yank" => {
                let t = self.kill.clone();
                self.insert(&t)
            }
            "insert_newline" => self.insert(self.eol),
            "insert_tab" => {
                let mut e = std::collections::BTreeMap::new();
                for r in &self.regs {
                    let ls = self.lines_of(r);
                    if ls.len() > 1 {
                        for l in ls {
                            e.insert((self.start_of(l), self.start_of(l)), self.tab_text(self.tab));
                        }
                    } else {
                        e.insert((r.min(), r.max()), self.tab_text(self.tab - self.col(r.s) % self.tab));
                    }
                }
                // from the far edge of a region that ends on the next line the column is that of the other line
                let odd = self.regs.iter().any(|r| self.lines_of(r).len() == 1 && self.line_of(r.s) != self.line_of(r.min()));
                let e: Vec<_> = e.into_iter().map(|((a, b), t)| (a, b, t)).collect();
                if odd {
                    return Known::Nothing;
                }
                self.edit(&e, Drift::Default)
            }
            "delete_forward" => self.delete_to("right"),
            "delete_word_forward" => self.delete_to("word_right"),
            "delete_word_backward" => self.delete_to("word_left"),
            "delete_to_beginning_of_line" => self.delete_to("left_end_of_line"),
            "delete_to_end_of_paragraph" => self.delete_to("kill"),
            "delete_backward" => self.backspace(),
            "cut" => {
                self.clip = self.joined(&self.regs);
                let v = self.regs.clone();
                self.delete(&v)
            }
            "copy" => {
                self.clip = self.joined(&self.regs);
                Known::All
            }
            "uppercase" | "lowercase" => {
                let e: Vec<_> = self
                    .regs
                    .iter()
                    .filter(|r| !r.caret())
                    .map(|r| {
                        let t = &self.text[r.min()..r.max()];
                        (r.min(), r.max(), if m == "uppercase" { t.to_uppercase() } else { t.to_lowercase() })
                    })
                    .collect();
                if e.is_empty() {
                    return Known::All;
                }
                self.edit(&e, Drift::Default)
            }
            "capitalize" => self.capitalize(),
            "transpose" => self.transpose(),
            "increase_number" => self.number(1),
            "decrease_number" => self.number(-1),
            "indent" => {
                let e: Vec<_> = self.all_lines().into_iter().map(|l| (self.start_of(l), self.start_of(l), self.tab_text(self.tab))).collect();
                self.edit(&e, Drift::Default)
            }
            "outdent" => {
                let tab = self.tab_text(self.tab);
                let mut e = Vec::new();
                for l in self.all_lines() {
                    let s = self.start_of(l);
                    let line = &self.text[s..self.content_end(l)];
                    if line.starts_with(&tab) {
                        e.push((s, s + tab.len(), String::new()));
                    } else {
                        let lead: usize = line.chars().take_while(|c| c.is_whitespace()).map(|c| c.len_utf8()).sum();
                        if lead >= tab.len() && (!self.soft || line[..lead].contains('\t')) || lead == line.len() && lead > 0 {
                            return Known::Nothing;
                        }
                        if lead > 0 {
                            e.push((s, s + lead, String::new()));
                        }
                    }
                }
                self.edit(&e, Drift::Default)
            }
            "duplicate_line" => {
                let mut e = std::collections::BTreeSet::new();
                for r in &self.regs {
                    let a = self.start_of(self.line_of(r.min()));
                    let l = self.line_of(r.max());
                    let b = self.start_of(l + 1);
                    if l + 1 == self.starts().len() && self.start_of(l) == self.len() {
                        // the empty last line
                        return Known::Nothing;
                    }
                    e.insert((a, b));
                }
                let e: Vec<(usize, usize)> = e.into_iter().collect();
                if e.windows(2).any(|w| w[1].0 < w[0].1) {
                    return Known::Nothing;
                }
                let e: Vec<_> = e
                    .into_iter()
                    .map(|(a, b)| {
                        let mut t = self.text[a..b].to_string();
                        if !t.ends_with('\n') {
                            t.push_str(self.eol);
                        }
                        (a, a, t)
                    })
                    .collect();
                self.edit(&e, Drift::Default)
            }
            "select_all" => {
                self.regs = vec![Rg::new(0, self.len())];
                Known::All
            }
            "collapse_selections" => {
                let r = self.regs[0].e;
                self.regs = vec![Rg { s: r, ..self.regs[0] }];
                Known::All
            }
            "selection_into_lines" => {
                let mut v = Vec::new();
                for r in &self.regs {
                    if r.caret() {
                        add(&mut v, Rg::new(r.e, r.e));
                        continue;
                    }
                    let mut p = r.min();
                    while p < r.max() {
                        let nl = self.text[p..r.max()].find('\n').map(|i| p + i);
                        add(&mut v, Rg::new(p, nl.unwrap_or(r.max())));
                        p = nl.map(|n| n + 1).unwrap_or(r.max());
                    }
                }
                self.regs = v;
                Known::All
            }
            "goto_line" => {
                let o = self.at(p["line"].as_u64().unwrap() as usize, 0);
                self.regs = vec![Rg::new(o, o)];
                Known::All
            }
            "add_selection_above" => self.add_by(true),
            "add_selection_below" => self.add_by(false),
            "gesture" => {
                let o = self.at(p["line"].as_u64().unwrap() as usize, p["col"].as_u64().unwrap() as usize);
                self.gesture(o, &p["ty"])
            }
            _ => panic!("ENGINE: no model for {}", m),
        }
    }
}
