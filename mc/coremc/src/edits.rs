//! C17 and C20: single commands and short sequences against the reference editor.
use crate::drv::{drop_core, with_core, Core};
use crate::model::*;
use crate::refmodel::{Ed, Known, Rg};
use mccommon::*;
use serde_json::{json, Value};

type Cmd = (&'static str, Value);

fn edit_cmds() -> Vec<Cmd> {
    let mut v: Vec<Cmd> = [
        "delete_backward", "delete_forward", "delete_word_forward", "delete_word_backward", "delete_to_end_of_paragraph",
        "delete_to_beginning_of_line", "insert_newline", "insert_tab", "yank", "transpose", "uppercase", "lowercase",
        "capitalize", "indent", "outdent", "duplicate_line", "increase_number", "decrease_number", "cut", "copy",
    ]
    .iter()
    .map(|s| (*s, Value::Null))
    .collect();
    for t in ["x", "", "é\n🌍", "{", "'"] {
        v.push(("insert", json!({ "chars": t })));
    }
    for t in ["pq", "p\nq", "p\nq\n", "p\r\nq\ns", "\n", " p\n\nq\t "] {
        v.push(("paste", json!({ "chars": t })));
    }
    v
}

const MOVES: [&str; 17] = [
    "move_up", "move_down", "move_left", "move_right", "move_word_left", "move_word_right", "move_to_beginning_of_paragraph",
    "move_to_end_of_paragraph", "move_to_left_end_of_line", "move_to_right_end_of_line", "move_to_beginning_of_document",
    "move_to_end_of_document", "scroll_page_up", "scroll_page_down", "select_all", "collapse_selections", "selection_into_lines",
];

fn move_cmds() -> Vec<Cmd> {
    let mut v: Vec<Cmd> = Vec::new();
    for m in MOVES {
        v.push((m, Value::Null));
        let both: Option<&'static str> = match m {
            "scroll_page_up" => Some("page_up_and_modify_selection"),
            "scroll_page_down" => Some("page_down_and_modify_selection"),
            m if m.starts_with("move") => Some(Box::leak(format!("{}_and_modify_selection", m).into_boxed_str())),
            _ => None,
        };
        if let Some(b) = both {
            v.push((b, Value::Null));
        }
    }
    v.push(("add_selection_above", Value::Null));
    v.push(("add_selection_below", Value::Null));
    v.push(("goto_line", json!({"line": 1})));
    v.push(("goto_line", json!({"line": 9})));
    v
}

fn gesture(line: usize, col: usize, ty: Value) -> Cmd {
    ("gesture", json!({"line": line, "col": col, "ty": ty}))
}
fn gesture_types() -> Vec<Value> {
    let mut v = Vec::new();
    for g in ["point", "word", "line"] {
        v.push(json!({"select": {"granularity": g, "multi": false}}));
        v.push(json!({"select": {"granularity": g, "multi": true}}));
        v.push(json!({"select_extend": {"granularity": g}}));
    }
    v.push(json!("drag"));
    v
}

fn show(m: &str, p: &Value) -> String {
    if p.is_null() {
        m.to_string()
    } else {
        format!("{} {}", m, p)
    }
}

/// Compares the view with the model.
fn compare(c: &mut Core, v: &mut V, ed: &Ed, known: Known, what: &str) -> Res {
    if known == Known::Nothing {
        return Ok(());
    }
    let t = v.text(c);
    ensure_eq!(t, ed.text, "text after {}", what);
    if known == Known::Text {
        return Ok(());
    }
    let sel = v.selection(&t)?;
    let want: Vec<Reg> = ed.regs.iter().map(|r| (r.min(), r.max())).collect();
    ensure_eq!(sel, want, "selection after {} (text {:?})", what, t);
    let st = line_starts(&t);
    let mut carets: Vec<usize> = v.carets().iter().map(|(l, c)| st[*l] + c).collect();
    let mut ends: Vec<usize> = ed.regs.iter().map(|r| r.e).collect();
    carets.sort();
    ends.sort();
    ensure_eq!(carets, ends, "moving edges after {} (text {:?}, selection {:?})", what, t, sel);
    Ok(())
}

/// Selections of a text: every region, and every two or three carets or regions of a coarser choice.
pub fn selections(text: &str, rich: bool) -> Vec<Vec<Reg>> {
    let ed = Ed::new(text, &[]);
    let mut b: Vec<usize> = vec![0];
    while let Some(n) = ed.next_g(*b.last().unwrap()) {
        b.push(n);
    }
    let mut v: Vec<Vec<Reg>> = Vec::new();
    for &x in &b {
        for &y in &b {
            if rich || x == y || (x < y) == ((x + y) % 2 == 0) {
                v.push(vec![(x, y)]);
            }
        }
    }
    let n = b.len();
    for i in 0..n {
        for j in i + 1..n {
            v.push(vec![(b[i], b[i]), (b[j], b[j])]);
            if j + 1 < n {
                v.push(vec![(b[i], b[j]), (b[j + 1], b[j + 1])]);
                if i > 0 {
                    v.push(vec![(b[i - 1], b[i - 1]), (b[j], b[i])]);
                }
                if j + 2 < n {
                    v.push(vec![(b[j], b[i]), (b[j + 1], b[n - 1])]);
                }
            }
        }
    }
    if n > 2 {
        v.push(b.iter().map(|x| (*x, *x)).collect());
    }
    v
}

struct Plan {
    text: String,
    sel: Vec<Reg>,
    cmds: Vec<Cmd>,
    hard: bool,
    /// so high that all lines are shown
    tall: bool,
}

/// Line endings as the front-end sees lines: a text may not begin with its caret inside of a cluster.
fn run_plan(ch: &mut Ch, p: &Plan) -> Res {
    ch.log(|| format!("text {:?}{}", p.text, if p.hard { ", tab size 3, hard tabs, CRLF" } else { "" }));
    ch.log(|| format!("select {:?}", p.sel));
    let r = guarded(|| {
        with_core(|c| {
            let mut v = V::open(c, "")?;
            if p.hard {
                let ch_ = json!({"tab_size": 3, "translate_tabs_to_spaces": false, "line_ending": "\r\n"});
                c.notify("modify_user_config", json!({"domain": {"user_override": v.id}, "changes": ch_}));
                c.settle();
            }
            let mut ed = Ed::new(&p.text, &p.sel);
            ed.kill = "k\nl".into();
            // the kill ring belongs to the core
            v.cmd(c, "insert", json!({"chars": "k\nl"}))?;
            v.cmd(c, "select_all", Value::Null)?;
            v.cmd(c, "delete_to_end_of_paragraph", Value::Null)?;
            if !p.text.is_empty() {
                v.cmd(c, "insert", json!({ "chars": p.text }))?;
            }
            if p.tall {
                v.cmd(c, "scroll", json!([0, 60]))?;
                ed.height = 60;
            }
            v.select(c, &p.text, &p.sel)?;
            if p.hard {
                ed.tab = 3;
                ed.soft = false;
                ed.eol = "\r\n";
            }
            // a drag goes on from the latest gesture
            let (a, b) = *p.sel.last().unwrap();
            let mut base: Vec<Rg> = Vec::new();
            for r in &p.sel[..p.sel.len() - 1] {
                base.push(Rg::new(r.0, r.1));
            }
            ed.drag = Some((base, a, a, "point".into()));
            let _ = b;
            compare(c, &mut v, &ed, Known::All, "selecting")?;
            for (m, q) in &p.cmds {
                ch.log(|| show(m, q));
                ch.step();
                let before = ed.text.clone();
                let clip = if *m == "cut" || *m == "copy" {
                    let x = c.edit_sync(&v.id, m);
                    c.settle();
                    v.sync(c)?;
                    x.ok()
                } else {
                    v.cmd(c, m, q.clone())?;
                    None
                };
                let known = ed.run(m, q);
                if known != Known::Nothing && ed.text != before {
                    ch.nontrivial();
                }
                if known != Known::Nothing {
                    if let Some(x) = clip {
                        ensure_eq!(x.as_str().map(|s| s.to_string()), ed.clip, "answer of {}", m);
                    }
                }
                if *m == "transpose" && known == Known::Nothing {
                    // at least nothing is lost
                    let sorted = |s: &str| {
                        let mut v: Vec<char> = s.chars().collect();
                        v.sort();
                        v
                    };
                    let t = v.text(c);
                    if p.sel.iter().all(|r| r.0 == r.1) {
                        ensure_eq!(sorted(&t), sorted(&before), "characters after transpose of {:?}", before);
                    }
                }
                compare(c, &mut v, &ed, known, m)?;
                if known != Known::All {
                    break;
                }
                ch.state(&(&ed.text, &ed.regs));
            }
            v.close(c);
            Ok(())
        })
    });
    if r.is_err() {
        drop_core();
    }
    r
}

fn word(ch: &mut Ch, alphabet: &[&str], lo: usize, hi: usize) -> String {
    let n = ch.range(lo, hi);
    (0..n).map(|_| *ch.of(alphabet)).collect()
}

pub const TEXTS: [&str; 12] = [
    "ab c\nde\n\nf",
    "é🌍\nÉa\u{301}b\n",
    "a 12 -7\t\n  x1é\r\nß",
    "  🇫🇷\n\t\n    aa",
    "aaa\naaa",
    "(a) [b] \"c\"",
    "-9 99999999999999999999999999999999999999999\n-0x1F +1 007 --5",
    "if (x){\n        y;\n    }\n",
    "ab\n",
    "a\r\nbc\r\n",
    "foo.bar  Baz_q\n",
    "short\na much longer line\n\nmid one\nx",
];

fn small(cmds: fn() -> Vec<Cmd>, alphabet: &'static [&'static str], lo: usize, hi: usize, rich: bool, hard: bool) -> impl Fn(&mut Ch) -> Res {
    move |ch| {
        let text = word(ch, alphabet, lo, hi);
        let s = selections(&text, rich);
        let sel = ch.of(&s).clone();
        let cs = cmds();
        let c = ch.of(&cs).clone();
        run_plan(ch, &Plan { text, sel, cmds: vec![c], hard, tall: false })
    }
}

fn curated(cmds: fn() -> Vec<Cmd>, hard: bool) -> impl Fn(&mut Ch) -> Res {
    move |ch| {
        let text = ch.of(&TEXTS).to_string();
        let s = selections(&text, false);
        // every region, and a spread of the others
        let s: Vec<Vec<Reg>> = s.iter().enumerate().filter(|(i, x)| x.len() == 1 && x[0].0 == x[0].1 || i % 7 == 0).map(|x| x.1.clone()).collect();
        let sel = ch.of(&s).clone();
        let cs = cmds();
        let c = ch.of(&cs).clone();
        run_plan(ch, &Plan { text, sel, cmds: vec![c], hard, tall: true })
    }
}

fn chain(texts: &'static [&'static str], cmds: fn() -> Vec<Cmd>, depth: usize) -> impl Fn(&mut Ch) -> Res {
    move |ch| {
        let text = ch.of(texts).to_string();
        let n = text.len();
        let ed = Ed::new(&text, &[]);
        let mid = ed.next_g(ed.next_g(0).unwrap_or(0)).unwrap_or(n);
        let far = ed.prev_g(n).unwrap_or(0);
        let mut s: Vec<Vec<Reg>> = vec![vec![(mid, mid)], vec![(far, mid)]];
        if mid < far {
            s.push(vec![(mid, mid), (far, far)]);
        }
        let sel = ch.of(&s).clone();
        let cs = cmds();
        let cmds = (0..depth).map(|_| ch.of(&cs).clone()).collect();
        run_plan(ch, &Plan { text, sel, cmds, hard: false, tall: false })
    }
}

fn gestures(depth: usize) -> impl Fn(&mut Ch) -> Res {
    move |ch| {
        let text = ch.of(&["ab c\nde", "a\r\n.x🇫🇷 é\n"]).to_string();
        let ty = gesture_types();
        let mut cmds = Vec::new();
        for i in 0..depth {
            let line = ch.range(0, 2);
            let col = *ch.of(&[0, 1, 3, 9]);
            let t = if i + 1 == depth && depth > 2 { json!("drag") } else { ch.of(&ty).clone() };
            cmds.push(gesture(line, col, t));
        }
        run_plan(ch, &Plan { text, sel: vec![(0, 0)], cmds, hard: false, tall: false })
    }
}

fn mixed() -> Vec<Cmd> {
    let mut v = edit_cmds();
    v.retain(|c| !(c.0 == "paste" && c.1["chars"] != "p\nq") && c.0 != "copy");
    for m in ["move_left", "move_up", "move_word_right_and_modify_selection", "move_to_end_of_paragraph", "add_selection_below", "select_all"] {
        v.push((m, Value::Null));
    }
    v
}
fn vertical() -> Vec<Cmd> {
    ["move_up", "move_down", "move_up_and_modify_selection", "move_down_and_modify_selection", "move_right", "move_to_right_end_of_line", "scroll_page_down", "move_left_and_modify_selection", "page_up_and_modify_selection"]
        .iter()
        .map(|s| (*s, Value::Null))
        .collect()
}

pub fn run(id: &str) -> ! {
    let th = is_thorough();
    const AB: [&str; 6] = ["a", " ", "\n", ".", "É", "1"];
    const CL: [&str; 6] = ["a\u{301}", "\r\n", "🇫🇷", "\t", "-", "\n"];
    const MV: [&str; 5] = ["a", " ", "\n", ".", "🌍"];
    let o = Opts { property: id.into(), level: "model_checking".into(), assumptions: vec![], single_thread: false };
    let n = if th { 4 } else { 3 };
    if id == "C17" {
        mccommon::run(
            o,
            vec![
                section("words", "every edit command from every text of up to 3 (thorough: 4) of 6 symbols and every selection of up to two regions", small(edit_cmds, &AB, 0, n, th, false)),
                section("clusters", "the same over clusters and line endings", small(edit_cmds, &CL, 1, n - 1 + th as usize, true, false)),
                section("hard-tabs", "the same with tab size 3, hard tabs and CRLF as line ending", small(edit_cmds, &CL, 1, n - 1, true, true)),
                section("curated", "every edit command from 12 texts and a spread of selections", curated(edit_cmds, false)),
                section("curated-hard", "the same with hard tabs and CRLF", curated(edit_cmds, true)),
                section("chains", "every two (thorough: three) commands from 4 texts", chain(if th { &TEXTS[..3] } else { &TEXTS[..4] }, mixed, if th { 3 } else { 2 })),
            ],
        )
    }
    mccommon::run(
        o,
        vec![
            section("words", "every movement from every text of up to 3 (thorough: 4) of 5 symbols and every selection of up to two regions", small(move_cmds, &MV, 0, n, true, false)),
            section("clusters", "the same over clusters and line endings", small(move_cmds, &CL, 1, n, true, false)),
            section("curated", "every movement from 12 texts and a spread of selections", curated(move_cmds, false)),
            section("pairs", "every two movements from 4 texts", chain(&TEXTS[..4], move_cmds, 2)),
            section("vertical", "every four (thorough: five) vertical and other movements over lines of different lengths", chain(&["short\na much longer line\n\nmid one\nx"], vertical, if th { 5 } else { 4 })),
            section("gestures", "every two gestures of 10 kinds at 12 positions", gestures(2)),
            section("drags", "every two (thorough: three) gestures followed by a drag", gestures(if th { 4 } else { 3 })),
        ],
    )
}
