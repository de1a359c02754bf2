//! C16 and C19: sequences of editing commands.
use crate::drv::{drop_core, with_core, Core};
use crate::model::*;
use mccommon::*;
use serde_json::{json, Value};

pub fn plain() -> Vec<(&'static str, Value)> {
    [
        "delete_backward", "delete_forward", "delete_word_forward", "delete_word_backward",
        "delete_to_end_of_paragraph", "delete_to_beginning_of_line", "insert_newline", "insert_tab",
        "move_up", "move_up_and_modify_selection", "move_down", "move_down_and_modify_selection",
        "move_left", "move_left_and_modify_selection", "move_right", "move_right_and_modify_selection",
        "move_word_left", "move_word_left_and_modify_selection", "move_word_right", "move_word_right_and_modify_selection",
        "move_to_beginning_of_paragraph", "move_to_beginning_of_paragraph_and_modify_selection",
        "move_to_end_of_paragraph", "move_to_end_of_paragraph_and_modify_selection",
        "move_to_left_end_of_line", "move_to_left_end_of_line_and_modify_selection",
        "move_to_right_end_of_line", "move_to_right_end_of_line_and_modify_selection",
        "move_to_beginning_of_document", "move_to_beginning_of_document_and_modify_selection",
        "move_to_end_of_document", "move_to_end_of_document_and_modify_selection",
        "scroll_page_up", "page_up_and_modify_selection", "scroll_page_down", "page_down_and_modify_selection",
        "select_all", "add_selection_above", "add_selection_below", "yank", "transpose", "undo", "redo",
        "uppercase", "lowercase", "capitalize", "indent", "outdent", "duplicate_line", "increase_number", "decrease_number",
        "selection_into_lines", "collapse_selections", "find_all", "replace_next", "replace_all", "cut", "copy",
        "debug_print_spans", "reindent", "debug_toggle_comment", "debug_rewrap", "debug_wrap_width",
    ]
    .iter()
    .map(|s| (*s, Value::Null))
    .collect()
}

pub fn with_args() -> Vec<(&'static str, Value)> {
    let g = |l: u64, c: u64, ty: Value| json!({"line": l, "col": c, "ty": ty});
    let sel = |gr: &str, m: bool| json!({"select": {"granularity": gr, "multi": m}});
    let ext = |gr: &str| json!({"select_extend": {"granularity": gr}});
    vec![
        ("insert", json!({"chars": "a"})),
        ("insert", json!({"chars": "\n"})),
        ("insert", json!({"chars": "(",})),
        ("insert", json!({"chars": "é\n🌍"})),
        ("insert", json!({"chars": ""})),
        ("paste", json!({"chars": "x\ny"})),
        ("paste", json!({"chars": ""})),
        ("paste", json!({"chars": "\n"})),
        ("goto_line", json!({"line": 1})),
        ("goto_line", json!({"line": 99})),
        ("scroll", json!([0, 2])),
        ("scroll", json!([1, 1])),
        ("scroll", json!([2, 40])),
        ("scroll", json!([30, 40])),
        ("scroll", json!([3, 1])),
        ("scroll", json!([-5, 3])),
        ("request_lines", json!([0, 2])),
        ("request_lines", json!([2, 1])),
        ("request_lines", json!([1, 50])),
        ("request_lines", json!([-1, 1])),
        ("request_lines", json!([50, 60])),
        ("resize", json!({"width": 32.0, "height": 20.0})),
        ("resize", json!({"width": 0.0, "height": 0.0})),
        ("gesture", g(0, 1, sel("point", false))),
        ("gesture", g(1, 0, sel("point", true))),
        ("gesture", g(1, 2, sel("word", false))),
        ("gesture", g(0, 2, sel("word", true))),
        ("gesture", g(1, 1, sel("line", false))),
        ("gesture", g(9, 9, sel("line", true))),
        ("gesture", g(1, 1, ext("point"))),
        ("gesture", g(0, 0, ext("word"))),
        ("gesture", g(0, 3, ext("line"))),
        ("gesture", g(1, 1, json!("drag"))),
        ("gesture", g(0, 0, json!("drag"))),
        ("gesture", g(0, 1, json!("toggle_sel"))),
        ("click", json!([0, 1, 0, 2])),
        ("click", json!([1, 1, 2, 1])),
        ("drag", json!([0, 2, 0])),
        ("find", json!({"chars": "a", "case_sensitive": false})),
        ("find", json!({"chars": "", "case_sensitive": false})),
        ("find", json!({"chars": "\\b", "case_sensitive": true, "regex": true})),
        ("find", json!({"chars": "a*", "case_sensitive": true, "regex": true})),
        ("find", json!({"chars": "(", "case_sensitive": true, "regex": true})),
        ("find", json!({"chars": "a\\s", "case_sensitive": true, "regex": true})),
        ("find", json!({"chars": "é", "case_sensitive": false, "whole_words": true})),
        ("multi_find", json!({"queries": [{"id": null, "chars": "a", "case_sensitive": true}, {"id": null, "chars": "1", "case_sensitive": true}]})),
        ("multi_find", json!({"queries": []})),
        ("find_next", json!({"wrap_around": true, "allow_same": true, "modify_selection": "set"})),
        ("find_next", json!({"modify_selection": "add"})),
        ("find_next", json!({"modify_selection": "none"})),
        ("find_previous", json!({"wrap_around": true, "modify_selection": "set"})),
        ("find_previous", json!({"modify_selection": "add_removing_current"})),
        ("highlight_find", json!({"visible": true})),
        ("selection_for_find", json!({"case_sensitive": false})),
        ("replace", json!({"chars": "zé\n"})),
        ("selection_for_replace", json!({})),
        ("request_hover", json!({"request_id": 1, "position": null})),
        ("request_hover", json!({"request_id": 1, "position": {"line": 77, "column": 3}})),
        ("toggle_recording", json!({"recording_name": "r"})),
        ("play_recording", json!({"recording_name": "r"})),
        ("clear_recording", json!({"recording_name": "r"})),
    ]
}

pub fn all_cmds() -> Vec<(&'static str, Value)> {
    let mut v = plain();
    v.extend(with_args());
    v
}

pub const TEXTS: [&str; 9] = [
    "",
    "\n",
    "ab c\nde\n\nf",
    "é🌍\nÉa\u{301}b\n",
    "a 12 -7\t\n  x1é\r\nß",
    "  🇫🇷👩\u{200d}👧\n\t\n aa",
    "aaa\naaa",
    "(a) [b] \"c\"",
    "99999999999999999999999999999999999999999\n-0x1F +1",
];

pub fn sels(text: &str) -> Vec<Vec<Reg>> {
    let cp: Vec<usize> = text.char_indices().map(|(i, _)| i).chain([text.len()]).collect();
    let n = cp.len();
    let mut v: Vec<Vec<Reg>> = vec![vec![(0, 0)]];
    let at = |i: usize| cp[i.min(n - 1)];
    v.push(vec![(at(n), at(n))]);
    v.push(vec![(at(2), at(2))]);
    v.push(vec![(at(1), at(3))]);
    v.push(vec![(at(5), at(1))]);
    v.push(vec![(at(0), at(0)), (at(2), at(2)), (at(4), at(4))]);
    v.push(vec![(at(1), at(2)), (at(3), at(3)), (at(6), at(5))]);
    v.push(vec![(at(0), at(n))]);
    v.push(cp.iter().map(|i| (*i, *i)).collect());
    v.dedup();
    v
}

/// Starts from a known kill ring and without recordings (state the core keeps between views).
pub fn reset_shared(c: &mut Core) -> Res {
    let mut v = V::open(c, "K")?;
    v.cmd(c, "delete_to_end_of_paragraph", Value::Null)?;
    v.cmd(c, "clear_recording", json!({"recording_name": "r"}))?;
    v.close(c);
    Ok(())
}

pub fn fresh_check(c: &mut Core, v: &mut V, wrapped: bool) -> Res {
    // what the front-end holds
    let have = v.mirror.lines.clone();
    let pristine = v.mirror.pristine;
    let annotations = v.mirror.annotations.clone();
    // a redraw of the same window
    let hl = v.highlight;
    v.cmd(c, "highlight_find", json!({"visible": hl}))?;
    ensure_eq!(annotations, v.mirror.annotations, "annotations");
    // a full redraw of everything
    v.cmd(c, "scroll", json!([0, 12000]))?;
    v.cmd(c, "highlight_find", json!({"visible": hl}))?;
    let want = v.mirror.lines.clone();
    ensure!(have.len() == want.len(), "the front-end holds {} lines, a full redraw has {}", have.len(), want.len());
    ensure!(want.iter().all(|l| l.is_some()), "a full redraw left lines out");
    for (i, (h, w)) in have.iter().zip(&want).enumerate() {
        if let (Some(h), Some(w)) = (h, w) {
            ensure_eq!(h.text, w.text, "text of cached line {}", i);
            ensure_eq!(h.cursor, w.cursor, "cursors of cached line {} ({:?})", i, h.text);
            ensure_eq!(h.styles, w.styles, "styles of cached line {} ({:?})", i, h.text);
            if !h.ln_unknown {
                ensure_eq!(h.ln, w.ln, "number of cached line {} ({:?})", i, h.text);
            }
        }
    }
    ensure_eq!(pristine, v.mirror.pristine, "pristine flag");
    // the redraw itself
    let text = v.text(c);
    let carets: usize = want.iter().map(|l| l.as_ref().unwrap().cursor.len()).sum();
    let sel = v.mirror.annotations.iter().find(|a| a["type"] == "selection").ok_or("no selection annotation")?;
    ensure_eq!(carets, sel["ranges"].as_array().unwrap().len(), "number of cursors drawn, against selected regions");
    let joined: String = want.iter().map(|l| l.as_ref().unwrap().text.clone()).collect();
    ensure_eq!(joined, text, "lines of a full redraw joined");
    if !wrapped {
        let ls = lines_of(&text);
        ensure_eq!(want.len(), ls.len(), "number of lines");
        for (i, (l, w)) in ls.iter().zip(&want).enumerate() {
            ensure_eq!(w.as_ref().unwrap().text, *l, "text of line {}", i);
            ensure_eq!(w.as_ref().unwrap().ln, Some(i + 1), "line number of line {}", i);
        }
    }
    Ok(())
}

/// Selections used where every pair of commands is tried: a caret, a backward region, and several regions.
fn few(v: Vec<Vec<Reg>>) -> Vec<Vec<Reg>> {
    let n = v.len();
    v.into_iter().enumerate().filter(|(i, _)| [2, 4, 6].contains(i) || *i == n - 1).map(|x| x.1).collect()
}

fn one(ch: &mut Ch, texts: &[&str], cmds: &[(&'static str, Value)], depth: usize, mirror: bool, wrap: u8, all: bool) -> Res {
    let text = ch.of(texts).to_string();
    let ss = if all { sels(&text) } else { few(sels(&text)) };
    let s = ch.of(&ss).clone();
    let seq: Vec<&(&str, Value)> = (0..depth).map(|_| ch.of(cmds)).collect();
    ch.log(|| format!("text {:?}", text));
    ch.log(|| format!("select {:?}", s));
    let r = guarded(|| {
        with_core(|c| {
            reset_shared(c)?;
            let mut v = V::open(c, &text)?;
            v.mirror.wrapped = wrap > 0;
            if wrap > 0 {
                v.cmd(c, "resize", json!({"width": 24.0, "height": 100.0}))?;
                let ch_ = if wrap == 1 { json!({"wrap_width": 3, "word_wrap": false}) } else { json!({"word_wrap": true}) };
                c.notify("modify_user_config", json!({"domain": {"user_override": v.id}, "changes": ch_}));
                c.settle();
                v.sync(c)?;
            }
            v.select(c, &text, &s)?;
            for (m, p) in &seq {
                ch.log(|| if p.is_null() { m.to_string() } else { format!("{} {}", m, p) });
                ch.step();
                v.cmd(c, m, p.clone())?;
                let t = v.text(c);
                if wrap == 0 {
                    let sel = v.selection(&t)?;
                    // regions outside of the visible part are not reported
                    if !sel.is_empty() {
                        check_selection(&t, &sel)?;
                    }
                    ch.state(&(&t, &sel));
                } else {
                    ch.state(&t);
                }
                if mirror {
                    visible_valid(&v, if wrap == 0 { Some(lines_of(&t).len()) } else { None })?;
                }
            }
            // recordings are per core
            v.cmd(c, "toggle_recording", json!({"recording_name": null}))?;
            if mirror {
                fresh_check(c, &mut v, wrap > 0)?;
            } else {
                v.cmd(c, "scroll", json!([0, 12000]))?;
                v.cmd(c, "highlight_find", json!({"visible": true}))?;
                if wrap == 0 {
                    let t = v.text(c);
                    let sel = v.selection(&t)?;
                    check_selection(&t, &sel)?;
                    let _ = v.regions(&t)?;
                }
            }
            v.close(c);
            Ok(())
        })
    });
    if r.is_err() {
        drop_core();
    }
    r
}

/// The front-end's cache has the right number of lines, and holds every line it shows.
fn visible_valid(v: &V, lines: Option<usize>) -> Res {
    let n = v.mirror.lines.len();
    if let Some(l) = lines {
        ensure_eq!(n, l, "number of lines in the front-end's cache");
    }
    if let Some((a, b)) = v.window {
        for i in a..b.min(n) {
            ensure!(v.mirror.lines[i].is_some(), "line {} is shown ({}..{}) but not in the front-end's cache", i, a, b);
        }
    }
    if let Some((l, _)) = v.scrolled {
        ensure!(l < n && v.mirror.lines[l].is_some(), "the core scrolls to line {}, which it has not sent", l);
    }
    Ok(())
}

/// Commands for documents that are longer than what is shown.
fn long_cmds() -> Vec<(&'static str, Value)> {
    vec![
        ("scroll", json!([0, 10])),
        ("scroll", json!([5, 12])),
        ("scroll", json!([20, 40])),
        ("scroll", json!([1400, 1420])),
        ("scroll", json!([2090, 2300])),
        ("request_lines", json!([12, 25])),
        ("request_lines", json!([1000, 1400])),
        ("move_to_end_of_document", Value::Null),
        ("move_to_beginning_of_document", Value::Null),
        ("scroll_page_down", Value::Null),
        ("move_down_and_modify_selection", Value::Null),
        ("goto_line", json!({"line": 17})),
        ("insert", json!({"chars": "x"})),
        ("insert", json!({"chars": "p\nq\nr\n"})),
        ("delete_backward", Value::Null),
        ("delete_to_end_of_paragraph", Value::Null),
        ("select_all", Value::Null),
        ("indent", Value::Null),
        ("undo", Value::Null),
        ("find", json!({"chars": "7", "case_sensitive": false})),
        ("highlight_find", json!({"visible": true})),
        ("add_selection_below", Value::Null),
    ]
}

fn long(ch: &mut Ch, lines: usize, depth: usize) -> Res {
    let text: String = (0..lines).map(|i| format!("l{}\n", i)).collect();
    let cmds = long_cmds();
    let seq: Vec<&(&str, Value)> = (0..depth).map(|_| ch.of(&cmds)).collect();
    let lazy = ch.flip();
    ch.log(|| format!("a document of {} lines{}", lines, if lazy { ", idle work only at the end" } else { "" }));
    let r = guarded(|| {
        with_core(|c| {
            reset_shared(c)?;
            let mut v = V::open(c, &text)?;
            for (m, p) in &seq {
                ch.log(|| if p.is_null() { m.to_string() } else { format!("{} {}", m, p) });
                ch.step();
                if lazy {
                    v.cmd_raw(c, m, p.clone())?;
                } else {
                    v.cmd(c, m, p.clone())?;
                }
                visible_valid(&v, Some(line_starts(&v.text(c)).len()))?;
            }
            c.settle();
            v.sync(c)?;
            visible_valid(&v, None)?;
            ch.state(&hash_of(&format!("{:?}", v.mirror.annotations)));
            fresh_check(c, &mut v, false)?;
            v.close(c);
            Ok(())
        })
    });
    if r.is_err() {
        drop_core();
    }
    r
}

pub fn run(id: &str) -> ! {
    let thorough = is_thorough();
    const FEW: [&str; 4] = [TEXTS[2], TEXTS[3], TEXTS[4], TEXTS[6]];
    let mirror = id == "C19";
    let mut secs = vec![section("single", "every command from every initial text and selection", move |ch| {
        one(ch, &TEXTS, &all_cmds(), 1, mirror, 0, true)
    })];
    if thorough {
        secs.push(section("pairs", "every two commands from every initial text and selection", move |ch| {
            one(ch, &TEXTS, &all_cmds(), 2, mirror, 0, true)
        }));
        secs.push(section("triples", "every three commands from 4 texts and 4 selections each", move |ch| {
            one(ch, &FEW[..2], &all_cmds(), 3, mirror, 0, false)
        }));
    } else {
        secs.push(section("pairs", "every two commands from 4 texts and 4 selections each", move |ch| {
            one(ch, &FEW, &all_cmds(), 2, mirror, 0, false)
        }));
    }
    let wd = if thorough { 2 } else { 1 };
    secs.push(section("wrapped", "commands with wrapping at 3 bytes (quick: one, thorough: two)", move |ch| {
        one(ch, &TEXTS, &all_cmds(), wd, mirror, 1, true)
    }));
    secs.push(section("word-wrapped", "commands with wrapping at measured widths (quick: one, thorough: two)", move |ch| {
        one(ch, &TEXTS, &all_cmds(), wd, mirror, 2, true)
    }));
    if mirror {
        let d = if thorough { 4 } else { 3 };
        secs.push(section("scrolled", "every sequence of commands (quick: 3, thorough: 4) on 30 lines of which 10 are shown", move |ch| long(ch, 30, d)));
        secs.push(section("long", "every two commands on 2100 lines, more than the cache keeps", move |ch| long(ch, 2100, 2)));
    }
    run_(id, secs)
}

fn run_(id: &str, secs: Vec<Section>) -> ! {
    mccommon::run(
        Opts { property: id.into(), level: "model_checking".into(), assumptions: vec![], single_thread: false },
        secs,
    )
}
