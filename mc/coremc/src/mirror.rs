//! The front-end's line cache, as docs/docs/frontend-protocol.md defines it.
use mccommon::{ensure, Res};
use serde_json::Value;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Line {
    pub text: String,
    pub cursor: Vec<usize>,
    pub styles: Vec<i64>,
    /// `None` for the continuation of a wrapped line
    pub ln: Option<usize>,
    /// the line number cannot be known from the protocol (a copied run with invalid, wrapped lines before it)
    pub ln_unknown: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Mirror {
    pub lines: Vec<Option<Line>>,
    pub pristine: bool,
    pub annotations: Vec<Value>,
    pub updates: usize,
    pub wrapped: bool,
}

fn usizes(v: &Value) -> Result<Vec<usize>, String> {
    v.as_array().ok_or("not an array")?.iter().map(|x| x.as_u64().map(|x| x as usize).ok_or(format!("bad number in {}", v))).collect()
}

pub fn parse_line(v: &Value) -> Result<Line, String> {
    Ok(Line {
        text: v["text"].as_str().ok_or_else(|| format!("inserted line without text: {}", v))?.to_string(),
        cursor: if v["cursor"].is_null() { vec![] } else { usizes(&v["cursor"])? },
        styles: v["styles"].as_array().map(|a| a.iter().map(|x| x.as_i64().unwrap()).collect()).unwrap_or_default(),
        ln: v["ln"].as_u64().map(|x| x as usize),
        ln_unknown: false,
    })
}

impl Mirror {
    /// The text of all lines, when all of them are valid.
    pub fn text(&self) -> String {
        self.lines.iter().map(|l| l.as_ref().map(|l| l.text.as_str()).unwrap_or("?")).collect()
    }
    pub fn apply(&mut self, u: &Value) -> Res {
        let mut out: Vec<Option<Line>> = Vec::new();
        let mut old_ix = 0;
        self.updates += 1;
        for op in u["ops"].as_array().ok_or("update without ops")? {
            let n = op["n"].as_u64().ok_or("op without n")? as usize;
            ensure!(n > 0, "an op with n = 0 in {}", u);
            match op["op"].as_str().unwrap_or("") {
                "skip" => old_ix += n,
                "invalidate" => out.extend((0..n).map(|_| None)),
                "ins" => {
                    let ls = op["lines"].as_array().ok_or("ins without lines")?;
                    ensure!(ls.len() == n, "ins of {} lines with n = {}", ls.len(), n);
                    for l in ls {
                        out.push(Some(parse_line(l)?));
                    }
                }
                "copy" => {
                    ensure!(old_ix + n <= self.lines.len(), "copy of {} lines from {} but the client holds {}", n, old_ix, self.lines.len());
                    let mut cur = op["ln"].as_u64().map(|x| x as usize);
                    let mut unknown = cur.is_none();
                    for i in 0..n {
                        let mut l = self.lines[old_ix + i].clone();
                        match l.as_mut() {
                            None => {
                                if self.wrapped {
                                    unknown = true;
                                } else if i > 0 {
                                    cur = cur.map(|c| c + 1);
                                }
                            }
                            Some(l) => {
                                if l.ln_unknown {
                                    unknown = true;
                                } else if l.ln.is_some() {
                                    if i > 0 {
                                        cur = cur.map(|c| c + 1);
                                    }
                                    if unknown {
                                        l.ln_unknown = true;
                                    } else {
                                        l.ln = cur;
                                    }
                                }
                            }
                        }
                        out.push(l);
                    }
                    old_ix += n;
                }
                "update" => {
                    let ls = op["lines"].as_array().ok_or("update without lines")?;
                    ensure!(ls.len() == n, "update of {} lines with n = {}", ls.len(), n);
                    ensure!(old_ix + n <= self.lines.len(), "update of {} lines from {} but the client holds {}", n, old_ix, self.lines.len());
                    let mut cur = op["ln"].as_u64().map(|x| x as usize);
                    for i in 0..n {
                        let mut l = self.lines[old_ix + i].clone();
                        if let Some(l) = l.as_mut() {
                            let v = &ls[i];
                            ensure!(v.get("text").is_none(), "an update op with text: {}", v);
                            if !v["cursor"].is_null() {
                                l.cursor = usizes(&v["cursor"])?;
                            }
                            if let Some(a) = v["styles"].as_array() {
                                l.styles = a.iter().map(|x| x.as_i64().unwrap()).collect();
                            }
                            if l.ln.is_some() {
                                if let Some(c) = cur {
                                    l.ln = Some(if i == 0 { c } else { c + 1 });
                                    cur = l.ln;
                                    l.ln_unknown = false;
                                }
                            }
                            if let Some(x) = v["ln"].as_u64() {
                                l.ln = Some(x as usize);
                                l.ln_unknown = false;
                            }
                        }
                        out.push(l);
                    }
                    old_ix += n;
                }
                o => return Err(format!("unknown op {:?}", o)),
            }
        }
        self.lines = out;
        self.pristine = u["pristine"].as_bool().ok_or("no pristine flag")?;
        self.annotations = u["annotations"].as_array().cloned().unwrap_or_default();
        Ok(())
    }
}
