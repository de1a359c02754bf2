//! C18: undo, redo and the pristine flag of one document against a stack of snapshots.
use crate::drv::{drop_core, with_core};
use crate::model::*;
use mccommon::*;
use serde_json::{json, Value};
use std::sync::atomic::{AtomicUsize, Ordering};

#[derive(Clone, Copy, PartialEq, Debug)]
enum T {
    Other,
    Insert,
    Newline,
    Indent,
    Delete,
    Undo,
    Redo,
    Transpose,
    Surround,
}

/// name, params, kind on arrival, kind left behind
fn cmds() -> Vec<(&'static str, Value, Option<(T, T)>)> {
    vec![
        ("insert", json!({"chars": "x"}), Some((T::Insert, T::Insert))),
        ("delete_backward", Value::Null, Some((T::Delete, T::Delete))),
        ("move_left", Value::Null, None),
        ("undo", Value::Null, Some((T::Undo, T::Undo))),
        ("redo", Value::Null, Some((T::Redo, T::Redo))),
        ("save", Value::Null, None),
        ("insert_newline", Value::Null, Some((T::Other, T::Newline))),
        ("paste", json!({"chars": "p\n"}), Some((T::Other, T::Other))),
        ("indent", Value::Null, Some((T::Other, T::Insert))),
        ("transpose", Value::Null, Some((T::Transpose, T::Transpose))),
        ("select_all", Value::Null, None),
        ("insert", json!({"chars": "{"}), Some((T::Insert, T::Insert))),
        ("insert_tab", Value::Null, Some((T::Other, T::Insert))),
        ("request_lines", json!([0, 1]), None),
        ("uppercase", Value::Null, Some((T::Other, T::Other))),
        ("delete_word_backward", Value::Null, Some((T::Delete, T::Delete))),
        ("find", json!({"chars": "x", "case_sensitive": true}), None),
    ]
}

const MAX: usize = 20;

struct M {
    /// texts, oldest first, each with an identity of its own
    states: Vec<(String, usize)>,
    cur: usize,
    last: T,
    saved: Option<(String, usize)>,
    /// history was discarded since the last save
    gc: bool,
    next: usize,
}
impl M {
    fn new(t: &str) -> M {
        M { states: vec![(t.into(), 0)], cur: 0, last: T::Other, saved: None, gc: false, next: 1 }
    }
    fn edit(&mut self, text: String, k: (T, T)) {
        let joins = k.0 != T::Other && k.0 != T::Transpose && k.0 == self.last;
        let id = self.next;
        self.next += 1;
        if joins {
            // also when the latest step has been undone in between, which a command of another kind prevents
            self.states[self.cur] = (text, id);
        } else {
            if self.states.len() > self.cur + 1 {
                self.gc = true;
            }
            self.states.truncate(self.cur + 1);
            self.states.push((text, id));
            if self.states.len() > MAX {
                self.states.remove(0);
                self.gc = true;
            } else {
                self.cur += 1;
            }
        }
        self.last = k.1;
    }
}

static N: AtomicUsize = AtomicUsize::new(0);

fn run_seq(ch: &mut Ch, base: &str, sel: &[Reg], seq: &[(&'static str, Value, Option<(T, T)>)], pre: usize) -> Res {
    let r = guarded(|| {
        with_core(|c| {
            let dir = scratch();
            let path = format!("{}/u{}.txt", dir, N.fetch_add(1, Ordering::Relaxed));
            let mut v = V::open(c, base)?;
            v.cmd(c, "scroll", json!([0, 60]))?;
            let mut m = M::new("");
            if !base.is_empty() {
                m.edit(base.into(), (T::Insert, T::Insert));
                m.last = T::Other;
            }
            v.select(c, base, sel)?;
            for i in 0..pre {
                // steps of their own
                let t = ["q", "rs", "t\n"][i % 3];
                v.cmd(c, "paste", json!({ "chars": t }))?;
                let t = v.text(c);
                m.edit(t, (T::Other, T::Other));
            }
            let r = (|| -> Res {
                for (name, p, k) in seq {
                    ch.log(|| if p.is_null() { name.to_string() } else { format!("{} {}", name, p) });
                    ch.step();
                    let before = v.text(c);
                    let sel_before = v.selection(&before)?;
                    if *name == "save" {
                        c.notify("save", json!({"view_id": v.id, "file_path": path}));
                        c.settle();
                        v.sync(c)?;
                        ensure!(v.alerts == 0, "saving failed");
                        m.saved = Some(m.states[m.cur].clone());
                        m.gc = false;
                        // rendered with the next update
                        v.cmd(c, "request_lines", json!([0, 1]))?;
                        continue;
                    }
                    v.cmd(c, name, p.clone())?;
                    let t = v.text(c);
                    match *k {
                        Some((T::Undo, _)) => {
                            if m.cur > 0 {
                                m.cur -= 1;
                                m.last = T::Undo;
                                ch.nontrivial();
                            }
                            ensure_eq!(t, m.states[m.cur].0, "text after undo");
                        }
                        Some((T::Redo, _)) => {
                            if m.cur + 1 < m.states.len() {
                                m.cur += 1;
                                m.last = T::Redo;
                            }
                            ensure_eq!(t, m.states[m.cur].0, "text after redo");
                        }
                        Some(mut k) => {
                            let wraps = *name == "insert" && p["chars"] == "{" && sel_before.iter().all(|r| r.0 != r.1);
                            if wraps {
                                k = (T::Surround, T::Surround);
                            }
                            if *name == "insert_tab" {
                                let nl = |r: &Reg| before[r.0..r.1].trim_end_matches('\n').contains('\n');
                                if sel_before.len() > 1 || nl(&sel_before[0]) {
                                    k.1 = T::Indent;
                                }
                            }
                            // a deletion or exchange that changes nothing is no step; other commands always are one
                            let skips = matches!(*name, "delete_backward" | "delete_word_backward" | "transpose");
                            let idle = skips && t == before && idle(name, &before, &sel_before);
                            if *name == "uppercase" && t == before {
                                // whether this is a step is left open
                                return Ok(());
                            }
                            if !idle {
                                m.edit(t.clone(), k);
                            } else {
                                ensure_eq!(t, before, "text after {}", name);
                            }
                        }
                        None => {
                            ensure_eq!(t, before, "text after {}", name);
                            if *name != "request_lines" {
                                m.last = T::Other;
                            }
                        }
                    }
                    ch.state(&(&m.states, m.cur));
                    if let Some((st, id)) = &m.saved {
                        if *id == m.states[m.cur].1 && !m.gc {
                            ensure!(v.mirror.pristine, "not pristine although the text is again the saved {:?}", st);
                        }
                        if v.mirror.pristine {
                            ensure_eq!(t, *st, "text of a document reported as pristine");
                        }
                    }
                }
                // all the way back and forth
                while m.cur > 0 {
                    v.cmd(c, "undo", Value::Null)?;
                    m.cur -= 1;
                    ensure_eq!(v.text(c), m.states[m.cur].0, "text after undoing everything, {} steps left", m.cur);
                }
                v.cmd(c, "undo", Value::Null)?;
                ensure_eq!(v.text(c), m.states[0].0, "text after an undo with nothing to undo");
                while m.cur + 1 < m.states.len() {
                    v.cmd(c, "redo", Value::Null)?;
                    m.cur += 1;
                    ensure_eq!(v.text(c), m.states[m.cur].0, "text after redoing everything, step {}", m.cur);
                }
                v.cmd(c, "redo", Value::Null)?;
                ensure_eq!(v.text(c), m.states[m.cur].0, "text after a redo with nothing to redo");
                Ok(())
            })();
            let _ = std::fs::remove_file(&path);
            r?;
            v.close(c);
            Ok(())
        })
    });
    if r.is_err() {
        drop_core();
    }
    r
}

/// Commands that are known to leave no step behind.
fn idle(name: &str, text: &str, sel: &[Reg]) -> bool {
    match name {
        "transpose" => text.is_empty(),
        _ => sel.iter().all(|r| r.0 == 0 && r.1 == 0),
    }
}

fn seqs(n: usize, depth: usize) -> impl Fn(&mut Ch) -> Res {
    move |ch| {
        let all = cmds();
        let b = ch.pick(3);
        let (base, sel): (&str, Vec<Reg>) = [("", vec![(0, 0)]), ("ab\ncd", vec![(4, 4)]), ("ab\ncd", vec![(0, 1), (4, 4)])][b].clone();
        let seq: Vec<_> = (0..depth).map(|_| ch.of(&all[..n]).clone()).collect();
        ch.log(|| format!("text {:?}, selection {:?}", base, sel));
        run_seq(ch, base, &sel, &seq, 0)
    }
}

fn many(depth: usize) -> impl Fn(&mut Ch) -> Res {
    move |ch| {
        let all = cmds();
        let pre = *ch.of(&[17, 18, 19, 20, 23, 41]);
        let un = *ch.of(&[0, 1, 3, 18, 19, 20]);
        ch.log(|| format!("{} steps, {} undone", pre, un));
        let mut seq: Vec<_> = (0..un).map(|_| all[3].clone()).collect();
        for _ in 0..depth {
            seq.push(ch.of(&all[..6]).clone());
        }
        run_seq(ch, "", &[(0, 0)], &seq, pre)
    }
}

pub fn run() -> ! {
    let th = is_thorough();
    let (d1, d2, d3) = if th { (7, 4, 4) } else { (6, 3, 3) };
    mccommon::run(
        Opts { property: "C18".into(), level: "model_checking".into(), assumptions: vec![], single_thread: false },
        vec![
            section("core", "every sequence of 6 (thorough: 7) of typing, deleting, moving, undo, redo, saving", seqs(6, d1)),
            section("kinds", "every sequence of 3 (thorough: 4) of 17 kinds of commands", seqs(17, d2)),
            section("limit", "17 to 41 steps, some undone, then 3 (thorough: 4) more commands", many(d3)),
        ],
    )
}
