//! C22: line wrapping.
use crate::drv::{drop_core, width_of, with_core, Core};
use crate::model::*;
use mccommon::*;
use serde_json::{json, Value};
use unicode_segmentation::UnicodeSegmentation;
use xi_unicode::LineBreakIterator;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum W {
    Off,
    /// columns, one per code point
    Cols(usize),
    /// width of the window in units measured by the front-end
    Px(f64),
}

/// Visual lines of `text`: the greedy layout of the unbreakable units of each line.
pub fn layout(text: &str, w: W) -> Vec<(String, Option<usize>)> {
    let mut out = Vec::new();
    for (n, line) in lines_of(text).into_iter().enumerate() {
        let measure = |s: &str| match w {
            W::Off => 0.0,
            W::Cols(_) => s.chars().count() as f64,
            W::Px(_) => width_of(s),
        };
        let max = match w {
            W::Off => f64::INFINITY,
            W::Cols(k) => k as f64,
            W::Px(p) => p,
        };
        let first = out.len();
        let mut cur = String::new();
        let mut width = 0.0;
        let mut prev = 0;
        for (end, hard) in LineBreakIterator::new(line) {
            let unit = &line[prev..end];
            let u = measure(unit);
            if !cur.is_empty() && width + u > max {
                out.push((std::mem::take(&mut cur), None));
                width = 0.0;
            }
            cur.push_str(unit);
            width += u;
            prev = end;
            // mandatory breaks other than the line break itself are honoured where the line is laid out at all
            if hard && end < line.len() && w != W::Off {
                out.push((std::mem::take(&mut cur), None));
                width = 0.0;
            }
        }
        if !cur.is_empty() || out.len() == first {
            out.push((cur, None));
        }
        out[first].1 = Some(n + 1);
    }
    out
}

fn config(c: &mut Core, v: &mut V, w: W, settle: bool) -> Res {
    let ch_ = match w {
        W::Off => json!({"wrap_width": 0, "word_wrap": false}),
        W::Cols(k) => json!({"wrap_width": k, "word_wrap": false}),
        W::Px(p) => {
            v.cmd_raw(c, "resize", json!({"width": p, "height": 100.0}))?;
            json!({"word_wrap": true})
        }
    };
    c.notify("modify_user_config", json!({"domain": {"user_override": v.id}, "changes": ch_}));
    if settle {
        c.settle();
    }
    v.mirror.wrapped = true;
    v.sync(c)
}

fn all_lines(c: &mut Core, v: &mut V) -> Result<Vec<(String, Option<usize>)>, String> {
    // throw away what the front-end holds, so that every line is sent again
    let hl = v.highlight;
    v.cmd_raw(c, "highlight_find", json!({ "visible": hl }))?;
    v.cmd_raw(c, "request_lines", json!([0, 1_000_000]))?;
    ensure!(v.mirror.lines.iter().all(|l| l.is_some()), "a request for all lines left lines out");
    Ok(v.mirror.lines.iter().map(|l| l.as_ref().unwrap()).map(|l| (l.text.clone(), l.ln)).collect())
}

pub fn check(c: &mut Core, v: &mut V, w: W) -> Res {
    let text = v.text(c);
    let have = all_lines(c, v)?;
    let want = layout(&text, w);
    if have != want {
        let i = (0..have.len().max(want.len())).find(|i| have.get(*i) != want.get(*i)).unwrap();
        return Err(format!("wrapping at {:?}: {} visual lines, expected {}; line {} is {:?}, expected {:?}; text {}", w, have.len(), want.len(), i, have.get(i), want.get(i), short(&text)));
    }
    Ok(())
}

fn short(t: &str) -> String {
    if t.len() < 200 {
        format!("{:?}", t)
    } else {
        format!("of {} bytes", t.len())
    }
}

fn widths() -> Vec<W> {
    vec![W::Cols(1), W::Cols(2), W::Cols(3), W::Cols(5), W::Px(0.0), W::Px(8.0), W::Px(16.0), W::Px(20.0), W::Px(32.0)]
}

fn text_of(ch: &mut Ch, syms: &[&str], max: usize) -> String {
    let n = ch.range(0, max);
    (0..n).map(|_| *ch.of(syms)).collect()
}

fn exec(ch: &mut Ch, f: impl FnOnce(&mut Ch, &mut Core) -> Res) -> Res {
    let r = guarded(|| with_core(|c| f(ch, c)));
    if r.is_err() {
        drop_core();
    }
    r
}

fn fresh(ch: &mut Ch, syms: &[&str], max: usize, ws: &[W]) -> Res {
    let w = *ch.of(ws);
    let early = ch.flip();
    let text = text_of(ch, syms, max);
    ch.log(|| format!("text {:?}, {:?}, wrapping set {} the text is inserted", text, w, if early { "before" } else { "after" }));
    exec(ch, |ch, c| {
        let mut v = V::open(c, if early { "" } else { &text })?;
        config(c, &mut v, w, true)?;
        if early && !text.is_empty() {
            v.cmd(c, "insert", json!({ "chars": text }))?;
        }
        check(c, &mut v, w)?;
        ch.step();
        ch.state(&(&text, format!("{:?}", w)));
        // offsets and visual positions correspond
        let lay = layout(&text, w);
        if lay.len() > 1 + text.matches('\n').count() {
            ch.nontrivial();
        }
        let mut off = 0;
        for (l, (s, _)) in lay.iter().enumerate() {
            let end = if l + 1 == lay.len() { s.len() + 1 } else { s.len() };
            // positions inside a cluster are moved to its edge
            let edges: Vec<usize> = text.grapheme_indices(true).map(|x| x.0).chain([text.len()]).collect();
            for col in (0..end).filter(|i| edges.contains(&(off + *i))) {
                v.cmd(c, "gesture", json!({"line": l, "col": col, "ty": {"select": {"granularity": "point", "multi": false}}}))?;
                ensure_eq!(v.carets(), vec![(l, col)], "caret after clicking on visual position ({}, {}) of {:?} wrapped at {:?}", l, col, text, w);
                ensure_eq!(v.regions_wrapped(&lay)?, vec![(off + col, off + col)], "region after clicking on visual position ({}, {}) of {:?} wrapped at {:?}", l, col, text, w);
            }
            off += s.len();
        }
        v.close(c);
        Ok(())
    })
}

/// Edits of short wrapped texts.
fn edits(ch: &mut Ch, syms: &[&str], max: usize, ws: &[W], n: usize) -> Res {
    let w = *ch.of(ws);
    let text = text_of(ch, syms, max);
    let mut t = text.clone();
    let mut plan = Vec::new();
    for _ in 0..n {
        let b: Vec<usize> = t.char_indices().map(|x| x.0).chain([t.len()]).collect();
        let i = ch.pick(b.len());
        let j = ch.range(i, (b.len() - 1).min(i + 3));
        let ins = *ch.of(&["", "a", " ", "\n", "a b", "é\n "]);
        plan.push((b[i], b[j], ins));
        t.replace_range(b[i]..b[j], ins);
    }
    ch.log(|| format!("text {:?}, {:?}", text, w));
    exec(ch, |ch, c| {
        let mut v = V::open(c, &text)?;
        config(c, &mut v, w, true)?;
        let mut t = text.clone();
        for (a, b, ins) in &plan {
            ch.log(|| format!("replace {}..{} by {:?}", a, b, ins));
            ch.step();
            v.select_wrapped(c, &layout(&t, w), *a, *b)?;
            if !ins.is_empty() {
                v.cmd(c, "insert", json!({ "chars": ins }))?;
            } else if a != b {
                v.cmd(c, "delete_backward", Value::Null)?;
            }
            t.replace_range(a..b, ins);
            ensure_eq!(v.text(c), t, "text after the edit");
            check(c, &mut v, w)?;
            ch.state(&(&t, format!("{:?}", w)));
        }
        if layout(&text, w).len() != layout(&t, w).len() {
            ch.nontrivial();
        }
        v.close(c);
        Ok(())
    })
}

/// Changes of the settings between edits, with idle work done early or late.
fn settings(ch: &mut Ch, texts: &[&str], n: usize) -> Res {
    let text = ch.of(texts).to_string();
    #[derive(Debug, Clone, Copy)]
    enum Op {
        Set(W),
        Resize(f64),
        Ins(&'static str),
        Cmd(&'static str),
        Scroll(usize, usize),
        Idle,
    }
    let ops = [
        Op::Set(W::Off), Op::Set(W::Cols(3)), Op::Set(W::Cols(6)), Op::Set(W::Px(16.0)), Op::Set(W::Px(40.0)),
        Op::Resize(24.0), Op::Resize(64.0), Op::Ins("x"), Op::Ins(" y\nz"), Op::Cmd("delete_backward"), Op::Cmd("move_to_end_of_document"),
        Op::Cmd("delete_to_end_of_paragraph"), Op::Cmd("undo"), Op::Scroll(0, 3), Op::Scroll(3, 6), Op::Idle,
    ];
    let seq: Vec<Op> = (0..n).map(|_| *ch.of(&ops)).collect();
    let lazy = ch.flip();
    ch.log(|| format!("text {:?}, idle work {}", text, if lazy { "at the end" } else { "at once" }));
    exec(ch, |ch, c| {
        let mut v = V::open(c, &text)?;
        v.cmd(c, "resize", json!({"width": 48.0, "height": 100.0}))?;
        let mut w = W::Off;
        let mut width = 48.0;
        for op in &seq {
            ch.log(|| format!("{:?}", op));
            ch.step();
            match *op {
                Op::Set(x) => {
                    config(c, &mut v, x, false)?;
                    w = x;
                    if let W::Px(p) = x {
                        width = p;
                    }
                }
                Op::Resize(p) => {
                    v.cmd_raw(c, "resize", json!({"width": p, "height": 100.0}))?;
                    width = p;
                    if let W::Px(_) = w {
                        w = W::Px(width);
                    }
                }
                Op::Ins(s) => v.cmd_raw(c, "insert", json!({ "chars": s }))?,
                Op::Cmd(m) => v.cmd_raw(c, m, Value::Null)?,
                Op::Scroll(a, b) => v.cmd_raw(c, "scroll", json!([a, b]))?,
                Op::Idle => {
                    c.idle_one();
                    v.sync(c)?;
                }
            }
            if !lazy {
                c.settle();
                v.sync(c)?;
            }
        }
        c.settle();
        v.sync(c)?;
        let t = v.text(c);
        ch.state(&(&t, format!("{:?}", w)));
        check(c, &mut v, w)?;
        v.close(c);
        Ok(())
    })
}

/// A document that takes several batches to wrap.
fn batches(ch: &mut Ch, n: usize, ops: usize, mirror: bool) -> Res {
    let text: String = (0..n).map(|i| if i % 7 == 3 { "\n".to_string() } else { format!("l{} bb {}\n", i, "c d ".repeat(i % 5)) }).collect();
    #[derive(Debug, Clone, Copy)]
    enum Op {
        Resize(f64),
        Goto(usize),
        Ins(&'static str),
        Del,
        DelMany,
        Undo,
        Scroll(usize),
        Idle,
        Settle,
    }
    let all = [
        Op::Resize(40.0), Op::Resize(90.0), Op::Goto(2), Op::Goto(n / 2), Op::Goto(n), Op::Ins("x"), Op::Ins("p q\nr s t u\n"), Op::Del, Op::DelMany,
        Op::Undo, Op::Scroll(0), Op::Scroll(n / 2), Op::Scroll(4 * n), Op::Idle, Op::Settle,
    ];
    let cols = ch.flip();
    let seq: Vec<Op> = (0..ops).map(|_| *ch.of(&all)).collect();
    ch.log(|| format!("{} lines, wrapped at {}", n, if cols { "6 columns" } else { "60 px" }));
    exec(ch, |ch, c| {
        let mut v = V::open(c, &text)?;
        c.settle();
        v.sync(c)?;
        let mut w = if cols { W::Cols(6) } else { W::Px(60.0) };
        config(c, &mut v, w, false)?;
        for op in &seq {
            ch.log(|| format!("{:?}", op));
            ch.step();
            match *op {
                Op::Resize(p) => {
                    v.cmd_raw(c, "resize", json!({"width": p, "height": 100.0}))?;
                    if !cols {
                        w = W::Px(p);
                    }
                }
                Op::Goto(l) => v.cmd_raw(c, "goto_line", json!({ "line": l }))?,
                Op::Ins(s) => v.cmd_raw(c, "insert", json!({ "chars": s }))?,
                Op::Del => v.cmd_raw(c, "delete_backward", Value::Null)?,
                Op::DelMany => {
                    for _ in 0..30 {
                        v.cmd_raw(c, "move_down_and_modify_selection", Value::Null)?;
                    }
                    v.cmd_raw(c, "delete_backward", Value::Null)?;
                }
                Op::Undo => v.cmd_raw(c, "undo", Value::Null)?,
                Op::Scroll(a) => v.cmd_raw(c, "scroll", json!([a, a + 20]))?,
                Op::Idle => {
                    c.idle_one();
                    v.sync(c)?;
                }
                Op::Settle => {
                    c.settle();
                    v.sync(c)?;
                }
            }
        }
        c.settle();
        v.sync(c)?;
        if mirror {
            crate::seq::fresh_check(c, &mut v, true)?;
        }
        ch.state(&hash_of(&v.text(c)));
        check(c, &mut v, w)?;
        v.close(c);
        Ok(())
    })
}

/// A text whose storage is split into leaves at every possible place next to what matters.
fn leaves(ch: &mut Ch) -> Res {
    let tail = *ch.of(&["aa bb\ncc\n", "a\nb\nc d\n", "é é\n\n\nx", "\u{2028}a b", "c-d e\u{301}\u{301} f"]);
    let filler = *ch.of(&["w\n", "ab ", "é\n", "x"]);
    let pad = ch.range(1000, 1030);
    let w = *ch.of(&[W::Cols(4), W::Px(0.0), W::Px(33.0)]);
    let edit = ch.pick(4);
    ch.log(|| format!("{} bytes of {:?}, then {:?} twice; {:?}; edit {}", pad, filler, tail, w, edit));
    exec(ch, |ch, c| {
        let mut text = String::new();
        while text.len() + filler.len() <= pad {
            text.push_str(filler);
        }
        while text.len() < pad {
            text.push('-');
        }
        text.push_str(tail);
        text.push_str(tail);
        let mut v = V::open(c, &text)?;
        config(c, &mut v, w, true)?;
        check(c, &mut v, w)?;
        ch.step();
        match edit {
            1 => v.cmd(c, "insert", json!({"chars": "q r\n"}))?,
            2 => {
                v.cmd(c, "goto_line", json!({"line": layout(&text, w).iter().filter(|l| l.1.is_some()).count().saturating_sub(2)}))?;
                v.cmd(c, "insert", json!({"chars": "z z "}))?;
            }
            3 => {
                v.cmd(c, "move_to_end_of_document", Value::Null)?;
                v.cmd(c, "insert", json!({"chars": "k l m n"}))?;
            }
            _ => {}
        }
        check(c, &mut v, w)?;
        ch.state(&hash_of(&v.text(c)));
        v.close(c);
        Ok(())
    })
}

/// Views with settings of their own do not influence each other.
fn two_views(ch: &mut Ch, n: usize) -> Res {
    let ws = [W::Off, W::Cols(3), W::Cols(9), W::Px(24.0), W::Px(70.0)];
    let seq: Vec<(usize, W)> = (0..n).map(|_| (ch.pick(2), *ch.of(&ws))).collect();
    drop_core();
    exec(ch, |ch, c| {
        let text = "ab cd ef\nab cd\né é ab ";
        let mut v = [V::open(c, text)?, V::open(c, text)?];
        let mut w = [W::Off, W::Off];
        for (k, x) in &seq {
            ch.log(|| format!("view {} {:?}", k, x));
            ch.step();
            c.take_log();
            config(c, &mut v[*k], *x, true)?;
            w[*k] = *x;
            for i in 0..2 {
                check(c, &mut v[i], w[i])?;
            }
        }
        ch.state(&format!("{:?}", w));
        let [a, b] = v;
        a.close(c);
        b.close(c);
        Ok(())
    })
}

pub fn run() -> ! {
    let t = is_thorough();
    let mut secs = vec![];
    const SYM: [&str; 5] = ["a", " ", "\n", "é", "-"];
    let d = if t { 6 } else { 5 };
    secs.push(section("texts", "every text over 5 symbols (quick: up to 5, thorough: 6), every width; every visual position", move |ch| fresh(ch, &SYM, d, &widths())));
    let d = if t { 5 } else { 4 };
    secs.push(section("unicode", "every text over 8 symbols (quick: up to 4, thorough: 5): ideographs, emoji, combining marks, other line separators", move |ch| {
        fresh(ch, &["a", " ", "\n", "漢", "🇫🇷", "e\u{301}", "\u{2028}", "\r\n"], d, &[W::Cols(2), W::Px(0.0), W::Px(24.0)])
    }));
    let d = if t { 5 } else { 4 };
    secs.push(section("edits", "every replacement in every text over 3 symbols", move |ch| edits(ch, &["a", " ", "\n"], d, &[W::Cols(1), W::Cols(2), W::Px(16.0), W::Px(24.0)], 1)));
    let d = if t { 3 } else { 2 };
    secs.push(section("two edits", "every two replacements in every text over 3 symbols", move |ch| edits(ch, &["a", " ", "\n"], d, &[W::Cols(2), W::Px(24.0)], 2)));
    let n = if t { 5 } else { 4 };
    secs.push(section("settings", "every sequence of setting changes, resizes, edits and scrolls on 3 texts, idle work early or late", move |ch| {
        settings(ch, &["aa bb cc\ndd ee\n\nff gg hh ii jj", "aaaaaaaa bbbbbbb\n", ""], n)
    }));
    secs.push(section("leaves", "texts stored in several leaves, all positions of the split", leaves));
    let n = if t { 5 } else { 3 };
    secs.push(section("two views", "every sequence of settings of two views of one core", move |ch| two_views(ch, n)));
    let n = if t { 4 } else { 3 };
    secs.push(section("batches", "every sequence of edits, resizes, scrolls and idle steps on 1100 lines", move |ch| batches(ch, 1100, n, true)));
    mccommon::run(Opts { property: "C22".into(), level: "model_checking".into(), assumptions: vec![], single_thread: false }, secs)
}
