//! Plain-text helpers shared by the checks of the core.
use crate::drv::Core;
use crate::mirror::Mirror;
use mccommon::{ensure, Res};
use serde_json::{json, Value};

/// (start, end): `end` is the moving edge.
pub type Reg = (usize, usize);

pub fn lines_of(text: &str) -> Vec<&str> {
    let mut v: Vec<&str> = text.split_inclusive('\n').collect();
    if text.is_empty() || text.ends_with('\n') {
        v.push("");
    }
    v
}
pub fn line_starts(text: &str) -> Vec<usize> {
    let mut v = vec![0];
    v.extend(text.bytes().enumerate().filter(|(_, b)| *b == b'\n').map(|(i, _)| i + 1));
    v
}
pub fn line_col(text: &str, off: usize) -> (usize, usize) {
    let st = line_starts(text);
    let l = st.iter().rposition(|s| *s <= off).unwrap();
    (l, off - st[l])
}

/// A view under test together with the front-end that watches it.
pub struct V {
    pub id: String,
    pub mirror: Mirror,
    pub scrolls: Vec<(usize, usize)>,
    pub alerts: usize,
    pub find_status: Value,
    pub styles: std::collections::BTreeMap<i64, Value>,
    /// whether the front-end asked for find highlights
    pub highlight: bool,
    /// the lines the front-end shows, as long as the core has not told it to scroll
    pub window: Option<(usize, usize)>,
    /// where the latest command made the core scroll to
    pub scrolled: Option<(usize, usize)>,
}

impl V {
    /// A fresh view holding `text` (put there by one insertion) with the caret at 0.
    pub fn open(c: &mut Core, text: &str) -> Result<V, String> {
        let id = c.new_view(None).map_err(|e| format!("new_view failed: {}", e))?;
        let mut v = V { id, mirror: Mirror::default(), scrolls: vec![], alerts: 0, find_status: Value::Null, styles: Default::default(), highlight: false, window: Some((0, 10)), scrolled: None };
        c.settle();
        v.sync(c)?;
        if !text.is_empty() {
            v.cmd(c, "insert", json!({ "chars": text }))?;
            v.cmd(c, "move_to_beginning_of_document", Value::Null)?;
        }
        Ok(v)
    }
    /// Opens a file in a new view.
    pub fn open_file(c: &mut Core, path: &str) -> Result<V, String> {
        let id = c.new_view(Some(path)).map_err(|e| format!("new_view failed: {}", e))?;
        let mut v = V { id, mirror: Mirror::default(), scrolls: vec![], alerts: 0, find_status: Value::Null, styles: Default::default(), highlight: false, window: Some((0, 10)), scrolled: None };
        c.settle();
        v.sync(c)?;
        Ok(v)
    }
    /// Hands everything the core has sent to the simulated front-end.
    pub fn sync(&mut self, c: &mut Core) -> Res {
        for (m, p) in c.take_log() {
            if p.get("view_id").map(|x| x == self.id.as_str()).unwrap_or(true) {
                match m.as_str() {
                    "update" => self.mirror.apply(&p["update"])?,
                    "scroll_to" => {
                        let to = (p["line"].as_u64().unwrap() as usize, p["col"].as_u64().unwrap() as usize);
                        self.scrolls.push(to);
                        self.scrolled = Some(to);
                        self.window = None;
                    }
                    "alert" => self.alerts += 1,
                    "find_status" => self.find_status = p["queries"].clone(),
                    "def_style" => {
                        self.styles.insert(p["id"].as_i64().unwrap(), p.clone());
                    }
                    _ => {}
                }
            }
        }
        Ok(())
    }
    pub fn cmd(&mut self, c: &mut Core, method: &str, params: Value) -> Res {
        self.cmd_raw(c, method, params)?;
        c.settle();
        self.sync(c)
    }
    /// Runs a command without letting idle work happen.
    pub fn cmd_raw(&mut self, c: &mut Core, method: &str, params: Value) -> Res {
        self.scrolled = None;
        if method == "highlight_find" {
            self.highlight = params["visible"] == true;
        }
        if method == "scroll" {
            let at = |i: usize| params[i].as_i64().unwrap().max(0) as usize;
            self.window = Some((at(0), at(1)));
        }
        if method == "cut" || method == "copy" {
            let _ = c.edit_sync(&self.id, method);
        } else {
            let id = self.id.clone();
            c.edit(&id, method, params);
        }
        self.sync(c)
    }
    pub fn text(&self, c: &mut Core) -> String {
        c.text(&self.id)
    }
    pub fn close(self, c: &mut Core) {
        c.close(&self.id);
        c.settle();
        c.take_log();
    }
    /// Selects `regs` (ascending, disjoint) through gestures. Positions are of unwrapped lines.
    pub fn select(&mut self, c: &mut Core, text: &str, regs: &[Reg]) -> Res {
        for (i, &(a, b)) in regs.iter().enumerate() {
            let (l, col) = line_col(text, a);
            self.cmd(c, "gesture", json!({"line": l, "col": col, "ty": {"select": {"granularity": "point", "multi": i > 0}}}))?;
            if a != b {
                let (l, col) = line_col(text, b);
                self.cmd(c, "gesture", json!({"line": l, "col": col, "ty": {"select_extend": {"granularity": "point"}}}))?;
            }
        }
        Ok(())
    }
    /// The selection as (min, max) offsets, as the latest update reported it (visible lines only).
    pub fn selection(&self, text: &str) -> Result<Vec<Reg>, String> {
        let st = line_starts(text);
        let sel = self.mirror.annotations.iter().find(|a| a["type"] == "selection").ok_or("no selection annotation in the update")?;
        let mut out = Vec::new();
        for r in sel["ranges"].as_array().unwrap() {
            let q: Vec<usize> = r.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
            ensure!(q[0] < st.len() && q[2] < st.len(), "selection range {} names a line past the end ({} lines)", r, st.len());
            out.push((st[q[0]] + q[1], st[q[2]] + q[3]));
        }
        Ok(out)
    }
    /// Like `selection`, for a layout of visual lines.
    pub fn regions_wrapped(&self, lay: &[(String, Option<usize>)]) -> Result<Vec<Reg>, String> {
        let mut st = vec![0];
        for l in lay {
            st.push(st.last().unwrap() + l.0.len());
        }
        let sel = self.mirror.annotations.iter().find(|a| a["type"] == "selection").ok_or("no selection annotation in the update")?;
        let mut out = Vec::new();
        for r in sel["ranges"].as_array().unwrap() {
            let q: Vec<usize> = r.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
            ensure!(q[0] < lay.len() && q[2] < lay.len(), "selection range {} names a line past the end ({} lines)", r, lay.len());
            out.push((st[q[0]] + q[1], st[q[2]] + q[3]));
        }
        Ok(out)
    }
    /// Selects one region by clicking on visual positions of a layout.
    pub fn select_wrapped(&mut self, c: &mut Core, lay: &[(String, Option<usize>)], a: usize, b: usize) -> Res {
        let at = |off: usize| {
            let (mut l, mut st) = (0, 0);
            while l + 1 < lay.len() && st + lay[l].0.len() <= off {
                st += lay[l].0.len();
                l += 1;
            }
            (l, off - st)
        };
        let (l, col) = at(a);
        self.cmd(c, "gesture", json!({"line": l, "col": col, "ty": {"select": {"granularity": "point", "multi": false}}}))?;
        if a != b {
            let (l, col) = at(b);
            self.cmd(c, "gesture", json!({"line": l, "col": col, "ty": {"select_extend": {"granularity": "point"}}}))?;
        }
        Ok(())
    }
    /// The moving edges of the selection, from the cursors the front-end draws on valid lines.
    pub fn carets(&self) -> Vec<(usize, usize)> {
        let mut v = Vec::new();
        for (i, l) in self.mirror.lines.iter().enumerate() {
            if let Some(l) = l {
                v.extend(l.cursor.iter().map(|c| (i, *c)));
            }
        }
        v
    }
    /// Selection with direction: (start, end) where end carries the cursor. Needs unwrapped, fully rendered lines.
    pub fn regions(&self, text: &str) -> Result<Vec<Reg>, String> {
        let st = line_starts(text);
        let carets: Vec<usize> = self.carets().iter().map(|(l, c)| st.get(*l).copied().unwrap_or(usize::MAX / 2) + c).collect();
        self.selection(text)?
            .iter()
            .map(|&(a, b)| {
                if carets.contains(&b) {
                    Ok((a, b))
                } else if carets.contains(&a) {
                    Ok((b, a))
                } else {
                    Err(format!("no cursor is drawn for the selected region {}..{} (cursors {:?})", a, b, carets))
                }
            })
            .collect()
    }
}

/// The selection is non-empty, ordered, disjoint and lies on code point boundaries of `text`.
pub fn check_selection(text: &str, sel: &[Reg]) -> Res {
    ensure!(!sel.is_empty(), "the selection is empty");
    for &(a, b) in sel {
        ensure!(a <= b && b <= text.len(), "selected region {}..{} of a text of {} bytes", a, b, text.len());
        ensure!(text.is_char_boundary(a) && text.is_char_boundary(b), "selected region {}..{} splits a character of {:?}", a, b, text);
    }
    for w in sel.windows(2) {
        ensure!(w[0].1 <= w[1].0 && w[0] != w[1], "selected regions {:?} and {:?} overlap or are out of order", w[0], w[1]);
    }
    Ok(())
}
