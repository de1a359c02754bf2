//! C35: recorded commands, played back.
use crate::drv::{drop_core, with_core, Core};
use crate::model::*;
use crate::plugmod::with_plugins;
use crate::seq::fresh_check;
use mccommon::*;
use serde_json::{json, Value};
use xi_rope::{Rope, RopeDelta};

type Cmd = (&'static str, Value);

/// Commands a recording can hold, with the note that a command never touches the text.
fn cmds() -> Vec<(Cmd, bool)> {
    let g = |l: u64, c: u64, ty: Value| json!({"line": l, "col": c, "ty": ty});
    let n = Value::Null;
    vec![
        // the short list
        (("insert", json!({"chars": "a"})), false),
        (("insert", json!({"chars": "{"})), false),
        (("insert", json!({"chars": "é\n"})), false),
        (("delete_backward", n.clone()), false),
        (("transpose", n.clone()), false),
        (("paste", json!({"chars": "p"})), false),
        (("paste", json!({"chars": "x\ny"})), false),
        (("yank", n.clone()), false),
        (("delete_to_end_of_paragraph", n.clone()), false),
        (("indent", n.clone()), false),
        (("move_right_and_modify_selection", n.clone()), true),
        (("move_left", n.clone()), true),
        (("select_all", n.clone()), true),
        // the rest
        (("insert", json!({"chars": "["})), false),
        (("insert_newline", n.clone()), false),
        (("insert_tab", n.clone()), false),
        (("delete_word_backward", n.clone()), false),
        (("delete_forward", n.clone()), false),
        (("uppercase", n.clone()), false),
        (("outdent", n.clone()), false),
        (("duplicate_line", n.clone()), false),
        (("increase_number", n.clone()), false),
        (("move_word_right", n.clone()), true),
        (("move_to_end_of_document", n.clone()), true),
        (("move_down_and_modify_selection", n.clone()), true),
        (("add_selection_below", n.clone()), true),
        (("gesture", g(0, 1, json!({"select": {"granularity": "word", "multi": true}}))), true),
        (("gesture", g(1, 1, json!({"select": {"granularity": "point", "multi": false}}))), true),
        (("gesture", g(1, 2, json!({"select_extend": {"granularity": "line"}}))), true),
        (("find", json!({"chars": "a", "case_sensitive": true})), true),
        (("find_next", json!({"wrap_around": true, "allow_same": true, "modify_selection": "set"})), true),
        (("find_all", n.clone()), true),
        (("replace", json!({"chars": "RR"})), true),
        (("replace_next", n.clone()), false),
        (("replace_all", n.clone()), false),
        (("selection_into_lines", n.clone()), true),
        (("collapse_selections", n.clone()), true),
        (("selection_for_find", json!({"case_sensitive": true})), true),
        (("goto_line", json!({"line": 1})), true),
        (("highlight_find", json!({"visible": true})), true),
    ]
}
const SHORT: usize = 13;

const TEXTS: [&str; 5] = ["ab 12\ncab\n", "", "aa\naa", "é{x}\n", "abc def ghi"];

fn starts(text: &str) -> Vec<Vec<Reg>> {
    let cp: Vec<usize> = text.char_indices().map(|(i, _)| i).chain([text.len()]).collect();
    let at = |i: usize| cp[i.min(cp.len() - 1)];
    let mut v = vec![vec![(at(2), at(2))], vec![(at(0), at(2))], vec![(at(1), at(1)), (at(4), at(4))], vec![(at(2), at(1)), (at(3), at(5))]];
    v.retain(|r| r.windows(2).all(|w| w[0].0.max(w[0].1) < w[1].0.min(w[1].1)));
    v.dedup();
    v
}

/// What the core keeps between views: a known kill ring, no recording underway and none kept.
fn reset(c: &mut Core) -> Res {
    let mut v = V::open(c, "K")?;
    v.cmd(c, "delete_to_end_of_paragraph", Value::Null)?;
    v.close(c);
    Ok(())
}
fn stop(c: &mut Core) -> Res {
    let mut v = V::open(c, "")?;
    v.cmd(c, "toggle_recording", json!({"recording_name": "zz"}))?;
    v.cmd(c, "toggle_recording", json!({}))?;
    for n in ["zz", "r", "a", "b"] {
        v.cmd(c, "clear_recording", json!({ "recording_name": n }))?;
    }
    v.close(c);
    Ok(())
}
fn killed(c: &mut Core) -> Result<String, String> {
    let mut v = V::open(c, "")?;
    v.cmd(c, "yank", Value::Null)?;
    let t = v.text(c);
    v.close(c);
    Ok(t)
}

/// A view of `text` with a selection, a first line of history and all lines shown.
fn opened(c: &mut Core, text: &str, sel: &[Reg], pre: usize) -> Result<V, String> {
    let mut v = V::open(c, text)?;
    v.cmd(c, "scroll", json!([0, 60]))?;
    v.select(c, text, sel)?;
    match pre {
        // typing that what follows could be joined to
        1 => v.cmd(c, "insert", json!({"chars": "q"}))?,
        // an undone step
        2 => {
            v.cmd(c, "paste", json!({"chars": "w"}))?;
            v.cmd(c, "undo", Value::Null)?;
            v.select(c, text, sel)?;
        }
        _ => {}
    }
    Ok(v)
}

fn same_as_typed(ch: &mut Ch, text: &str, sel: &[Reg], pre: usize, seq: &[(Cmd, bool)]) -> Res {
    let r = guarded(|| {
        with_core(|c| {
            stop(c)?;
            reset(c)?;
            // typed
            let mut v = opened(c, text, sel, pre)?;
            v.cmd(c, "toggle_recording", json!({"recording_name": "r"}))?;
            let mut changed = false;
            let mut at = v.text(c);
            for ((m, p), _) in seq {
                v.cmd(c, m, p.clone())?;
                let t = v.text(c);
                changed |= t != at;
                at = t;
            }
            v.cmd(c, "toggle_recording", json!({"recording_name": "r"}))?;
            let want = at;
            let want_sel = v.regions(&want)?;
            let found = |s: &Value| s.as_array().map(|q| q.iter().map(|q| q["matches"].clone()).collect::<Vec<_>>());
            let want_find = found(&v.find_status);
            let highlight = v.highlight;
            let want_kill = killed(c)?;
            v.close(c);
            // played
            reset(c)?;
            let mut w = opened(c, text, sel, pre)?;
            let before = w.text(c);
            w.cmd(c, "play_recording", json!({"recording_name": "r"}))?;
            ch.step();
            let got = w.text(c);
            ensure_eq!(got, want, "the text after the recording was played, against the same commands typed");
            let got_sel = w.regions(&got)?;
            ensure!(got_sel == want_sel, "the selection after the recording was played is {:?}, after the same commands were typed {:?} (text {:?})", got_sel, want_sel, got);
            ensure_eq!(killed(c)?, want_kill, "what yank inserts after the recording was played, against typed");
            ensure!(found(&w.find_status) == want_find, "matches found: played {:?}, typed {:?}", found(&w.find_status), want_find);
            w.highlight = highlight;
            if changed {
                ch.nontrivial();
            }
            ch.state(&(&got, &got_sel));
            let mut f = Vec::new();
            std::mem::swap(&mut f, &mut w.scrolls);
            fresh_check(c, &mut w, false)?;
            // one step
            let edits = seq.iter().any(|(_, view)| !view);
            if changed {
                w.cmd(c, "undo", Value::Null)?;
                ensure_eq!(w.text(c), before, "one undo takes the whole playback back");
                w.cmd(c, "redo", Value::Null)?;
                ensure_eq!(w.text(c), got, "one redo brings the whole playback back");
                w.cmd(c, "undo", Value::Null)?;
                ensure_eq!(w.text(c), before, "and it can be taken back again");
                if pre == 1 {
                    w.cmd(c, "undo", Value::Null)?;
                    // the typed letter is a step of its own
                    ensure_eq!(w.text(c), text, "what was typed before the playback is another step");
                }
            } else if !edits {
                if pre == 1 {
                    w.cmd(c, "undo", Value::Null)?;
                    ensure_eq!(w.text(c), text, "a playback that edits nothing is no step to take back");
                    w.cmd(c, "redo", Value::Null)?;
                    ensure_eq!(w.text(c), before, "redo");
                }
                if pre == 2 {
                    w.cmd(c, "redo", Value::Null)?;
                    ensure!(w.text(c) != before, "a playback that edits nothing threw the redo history away");
                }
            }
            w.close(c);
            // what follows is a step of its own
            if changed && pre == 0 {
                let mut w = opened(c, text, sel, 0)?;
                reset(c)?;
                w.cmd(c, "play_recording", json!({"recording_name": "r"}))?;
                let t = w.text(c);
                w.cmd(c, "insert", json!({"chars": "z"}))?;
                w.cmd(c, "undo", Value::Null)?;
                ensure_eq!(w.text(c), t, "what is typed after the playback is a step of its own");
                w.close(c);
            }
            Ok(())
        })
    });
    if r.is_err() {
        drop_core();
    }
    r
}

/// Which of the recorded commands (true: an edit) survive the undos and redos among them.
#[derive(Clone, Copy, PartialEq, Debug)]
enum E {
    Edit(usize),
    Move,
    Undo,
    Redo,
}
fn survivors(seq: &[E]) -> Vec<usize> {
    // the history as the document has it; negative: steps from before the recording
    let mut hist: Vec<usize> = Vec::new();
    let (mut cur, mut outside) = (0usize, 0usize);
    for (i, e) in seq.iter().enumerate() {
        match e {
            E::Edit(_) => {
                hist.truncate(cur);
                outside = 0;
                hist.push(i);
                cur += 1;
            }
            E::Undo => {
                if cur > 0 {
                    cur -= 1
                } else {
                    outside += 1
                }
            }
            E::Redo => {
                if outside > 0 {
                    outside -= 1
                } else if cur < hist.len() {
                    cur += 1
                }
            }
            E::Move => {}
        }
    }
    (0..seq.len()).filter(|i| seq[*i] == E::Move || hist[..cur].contains(i)).collect()
}

fn with_undos(ch: &mut Ch, seq: &[E]) -> Res {
    let edits: [Cmd; 3] = [("paste", json!({"chars": "1"})), ("duplicate_line", Value::Null), ("uppercase", Value::Null)];
    let cmd = |e: &E| match e {
        E::Edit(k) => edits[*k].clone(),
        E::Move => ("move_left", Value::Null),
        E::Undo => ("undo", Value::Null),
        E::Redo => ("redo", Value::Null),
    };
    let text = "ab\nc";
    let r = guarded(|| {
        with_core(|c| {
            stop(c)?;
            let mut v = opened(c, text, &[(1, 2)], 0)?;
            for _ in 0..seq.len() {
                v.cmd(c, "paste", json!({"chars": "."}))?;
            }
            v.cmd(c, "select_all", Value::Null)?;
            v.cmd(c, "toggle_recording", json!({"recording_name": "r"}))?;
            for e in seq {
                let (m, p) = cmd(e);
                if let E::Edit(2) = e {
                    // an edit only where there is something to edit
                    v.cmd_raw(c, "select_all", Value::Null)?;
                }
                v.cmd(c, m, p)?;
            }
            v.cmd(c, "toggle_recording", json!({}))?;
            v.close(c);
            let mut w = opened(c, text, &[(1, 2)], 0)?;
            w.cmd(c, "play_recording", json!({"recording_name": "r"}))?;
            ch.step();
            let got = w.text(c);
            w.close(c);
            let mut x = opened(c, text, &[(1, 2)], 0)?;
            let keep = survivors(seq);
            for i in 0..seq.len() {
                if let E::Edit(2) = seq[i] {
                    x.cmd(c, "select_all", Value::Null)?;
                }
                if keep.contains(&i) {
                    let (m, p) = cmd(&seq[i]);
                    x.cmd(c, m, p)?;
                }
            }
            if keep.len() < seq.len() {
                ch.nontrivial();
            }
            let want = x.text(c);
            x.close(c);
            ensure!(got == want, "played: {:?}; what undo and redo left of the commands, typed: {:?}", got, want);
            ch.state(&got);
            Ok(())
        })
    });
    if r.is_err() {
        drop_core();
    }
    r
}

/// The recordings, as the protocol describes them; commands: "x" (typed), "y" (pasted), "<" (caret to the left).
#[derive(Default, Clone)]
struct Names {
    active: Option<String>,
    buf: Vec<char>,
    kept: std::collections::BTreeMap<String, Vec<char>>,
}
fn switchboard(ch: &mut Ch, ops: &[(usize, usize)]) -> Res {
    let r = guarded(|| {
        with_core(|c| {
            stop(c)?;
            let mut vs = [opened(c, "", &[(0, 0)], 0)?, opened(c, "-", &[(1, 1)], 0)?];
            let mut m = Names::default();
            let mut docs = [(String::new(), 0usize), ("-".to_string(), 1)];
            let apply = |d: &mut (String, usize), k: char| match k {
                '<' => d.1 = d.1.saturating_sub(1),
                k => {
                    d.0.insert(d.1, k);
                    d.1 += 1;
                }
            };
            for &(view, op) in ops {
                let v = &mut vs[view];
                let d = &mut docs[view];
                let name = |n: &str| json!({ "recording_name": n });
                let (meth, p) = match op {
                    0 => ("toggle_recording", name("a")),
                    1 => ("toggle_recording", name("b")),
                    2 => ("toggle_recording", json!({})),
                    3 => ("insert", json!({"chars": "x"})),
                    4 => ("paste", json!({"chars": "y"})),
                    5 => ("move_left", Value::Null),
                    6 => ("play_recording", name("a")),
                    7 => ("play_recording", name("b")),
                    8 => ("clear_recording", name("a")),
                    _ => ("clear_recording", name("b")),
                };
                ch.log(|| format!("view {}: {} {}", view, meth, p));
                ch.step();
                match op {
                    0..=2 => {
                        let n = [Some("a".to_string()), Some("b".to_string()), None][op].clone();
                        match (m.active.take(), n) {
                            (Some(was), None) => {
                                m.kept.insert(was, std::mem::take(&mut m.buf));
                            }
                            (Some(was), Some(n)) if was == n => {
                                m.kept.insert(was, std::mem::take(&mut m.buf));
                            }
                            (_, n) => {
                                m.buf.clear();
                                m.active = n;
                            }
                        }
                    }
                    3..=5 => {
                        let k = ['x', 'y', '<'][op - 3];
                        if m.active.is_some() {
                            m.buf.push(k);
                        }
                        apply(d, k);
                    }
                    6 | 7 => {
                        let n = ["a", "b"][op - 6];
                        if m.active.as_deref() != Some(n) {
                            for k in m.kept.get(n).cloned().unwrap_or_default() {
                                apply(d, k);
                                ch.nontrivial();
                            }
                        }
                    }
                    _ => {
                        m.kept.remove(["a", "b"][op - 8]);
                    }
                }
                v.cmd(c, meth, p)?;
                let t = v.text(c);
                ensure_eq!(t, d.0, "text after {}", meth);
                let sel = v.selection(&t)?;
                ensure!(sel == [(d.1, d.1)], "the caret is at {:?}, expected {} (text {:?})", sel, d.1, t);
                ensure_eq!(v.mirror.text(), t, "what the front-end shows");
            }
            ch.state(&(&docs, &m.kept.iter().collect::<Vec<_>>(), &m.active));
            for v in vs {
                v.close(c);
            }
            Ok(())
        })
    });
    if r.is_err() {
        drop_core();
    }
    r
}

/// A plugin follows a playback, and its edits of a text from before are merged.
fn plugin_follows(ch: &mut Ch, text: &str, sel: &[Reg], seq: &[(Cmd, bool)], times: usize, late: usize) -> Res {
    guarded(|| {
        with_plugins(1, |c, ps| {
            stop(c)?;
            let mut v = opened(c, text, sel, 0)?;
            v.cmd(c, "toggle_recording", json!({"recording_name": "r"}))?;
            for ((m, p), _) in seq {
                v.cmd(c, m, p.clone())?;
            }
            v.cmd(c, "toggle_recording", json!({}))?;
            v.close(c);
            let mut w = opened(c, text, sel, 0)?;
            while ps[0].ack() {}
            let mut rev = 0;
            for (m, p) in ps[0].take_log() {
                if m == "update" && p["view_id"] == w.id.as_str() {
                    rev = p["rev"].as_u64().unwrap();
                }
                if m == "new_buffer" {
                    rev = p["buffer_info"][0]["rev"].as_u64().ok_or("new_buffer without a revision")?;
                }
            }
            let mut have = Rope::from(text);
            for _ in 0..times {
                let before = w.text(c);
                w.cmd_raw(c, "play_recording", json!({"recording_name": "r"}))?;
                let t = w.text(c);
                let mut updates = 0;
                let mut news = Vec::new();
                for (m, p) in ps[0].take_log() {
                    if m == "update" && p["view_id"] == w.id.as_str() {
                        updates += 1;
                        let d: RopeDelta = serde_json::from_value(p["delta"].clone()).map_err(|e| format!("update without a usable delta: {} {}", p, e))?;
                        let n = d.apply(&have);
                        ensure!(p["new_len"] == n.len() && p["new_line_count"] == 1 + n.to_string().matches('\n').count(), "sizes in {}", p);
                        have = n;
                        news.push(p["rev"].as_u64().unwrap());
                    }
                }
                ch.step();
                ensure!(updates <= 1, "{} updates for one playback", updates);
                ensure!(updates == 1 || t == before, "no update");
                ensure_eq!(have.to_string(), t, "the text as the plugin knows it");
                let acked = rev;
                if let Some(r) = news.last() {
                    if late == 0 {
                        rev = *r;
                    }
                }
                if late < 2 {
                    c.settle();
                }
                w.sync(c)?;
                // the plugin edits the text it has seen, or still sees
                let base = if late == 0 { t.clone() } else { before.clone() };
                let at = base.len();
                let delta = json!({"els": [{"copy": [0, at]}, {"insert": "!"}], "base_len": at});
                let rev_used = if late == 0 { rev } else { acked };
                let els = if at == 0 { json!({"els": [{"insert": "!"}], "base_len": 0}) } else { delta };
                ps[0].notify(&w.id, "edit", json!({"edit": {"rev": rev_used, "delta": els, "priority": 0x10000, "after_cursor": false, "undo_group": null, "author": "p"}}))?;
                let u = w.text(c);
                ensure!(u.matches('!').count() == t.matches('!').count() + 1 && u.len() == t.len() + 1, "the text is {:?} after the plugin inserted '!' into {:?}, which is {:?} by now", u, base, t);
                if late == 0 {
                    ensure_eq!(u, format!("{}!", t), "the plugin's edit");
                }
                while ps[0].ack() {}
                for (m, p) in ps[0].take_log() {
                    if m == "update" && p["view_id"] == w.id.as_str() {
                        let d: RopeDelta = serde_json::from_value(p["delta"].clone()).map_err(|e| e.to_string())?;
                        have = d.apply(&have);
                        rev = p["rev"].as_u64().unwrap();
                    }
                }
                ensure_eq!(have.to_string(), u, "the text as the plugin knows it");
                c.settle();
                w.sync(c)?;
                ensure_eq!(w.mirror.text(), u, "what the front-end shows");
                if t != before {
                    ch.nontrivial();
                }
            }
            ch.state(&w.text(c));
            fresh_check(c, &mut w, false)?;
            w.close(c);
            Ok(())
        })
    })
}

pub fn run() -> ! {
    let thorough = is_thorough();
    let all = cmds();
    let secs = vec![
        section("pairs", "every sequence of up to 2 of 40 recordable commands (typed characters, auto-surround, edits, kill and yank, selections, gestures, find and replace) from every start (5 texts x up to 4 selections) with 3 histories: played == typed (text, selection, kill ring, find, what the front-end shows), one undo step", {
            let all = all.clone();
            move |ch| {
                let text = *ch.of(&TEXTS);
                let st = starts(text);
                let sel = st[ch.pick(st.len())].clone();
                let pre = ch.pick(3);
                let n = ch.pick(3);
                let seq: Vec<_> = (0..n).map(|_| all[ch.pick(all.len())].clone()).collect();
                same_as_typed(ch, text, &sel, pre, &seq)
            }
        }),
        section("longer", "every sequence of 3 commands (quick: of 13 kinds; thorough: of 20 kinds, and 4 of 13) from 2 starts", {
            let all = all.clone();
            move |ch| {
                let n = if thorough { 3 + ch.pick(2) } else { 3 };
                let k = if n == 3 && thorough { 20 } else { SHORT };
                let seq: Vec<_> = (0..n).map(|_| all[ch.pick(k)].clone()).collect();
                let text = TEXTS[0];
                let sel = starts(text)[[1, 3][ch.pick(2)]].clone();
                same_as_typed(ch, text, &sel, 0, &seq)
            }
        }),
        section("undo", "every recording of up to 6 (thorough: 7) of 3 kinds of edits (each an undo step of its own), a motion, undo and redo, with earlier history to run into: played == what undo and redo left", move |ch| {
            let n = 1 + ch.pick(if thorough { 7 } else { 6 });
            let k = if n > 5 { 1 } else { 2 };
            let mut seq = Vec::new();
            for _ in 0..n {
                let i = ch.pick(k + 3);
                seq.push(match i {
                    0 => E::Undo,
                    1 => E::Redo,
                    2 => E::Move,
                    i => E::Edit(i - 3),
                });
            }
            with_undos(ch, &seq)
        }),
        section("names", "every sequence of up to 5 (thorough: 6) of 10 commands (toggle a, b or none; type, paste, move; play a, b; clear a, b) in one view, and up to 4 in two views, against a model of the recordings", move |ch| {
            let two = ch.flip();
            let n = 1 + ch.pick(if two { 4 } else if thorough { 6 } else { 5 });
            let mut ops = Vec::new();
            let mut view = 0;
            for i in 0..n {
                if two && i > 0 {
                    view = ch.pick(2);
                }
                ops.push((view, ch.pick(10)));
            }
            switchboard(ch, &ops)
        }),
        section("plugins", "every recording of up to 2 of 13 commands from 2 texts, played 1 or 2 times while a plugin follows, which then edits the text it has seen, or one it still sees: one update per playback, and nobody loses an edit", {
            let all = all.clone();
            move |ch| {
                let text = *ch.of(&[TEXTS[0], ""]);
                let sel = starts(text)[0].clone();
                let n = ch.pick(3);
                let seq: Vec<_> = (0..n).map(|_| all[ch.pick(SHORT)].clone()).collect();
                let times = 1 + ch.pick(2);
                let late = ch.pick(3);
                plugin_follows(ch, text, &sel, &seq, times, late)
            }
        }),
    ];
    mccommon::run(
        Opts {
            property: "C35".into(),
            level: "model_checking".into(),
            assumptions: vec![
                "commands that the protocol handles as requests (cut, copy) or as special commands (resize, request_lines, reindent, playback itself) are not recordable".into(),
                "an undo while recording is judged for edits that are undo steps of their own".into(),
            ],
            single_thread: false,
        },
        secs,
    )
}
