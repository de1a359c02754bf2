//! C26: files against a model of them; C27: saves under faults and crashes.
use crate::drv::{drop_core, with_core, Core};
use crate::io::{self, Fault, Io, Op, Snap};
use crate::mirror::Mirror;
use mccommon::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::os::unix::fs::PermissionsExt;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::{Duration, SystemTime};

const BOM: &[u8] = b"\xef\xbb\xbf";
static DIRS: AtomicUsize = AtomicUsize::new(0);

struct Fv {
    id: String,
    mirror: Mirror,
    path: Option<String>,
    /// the text as it was last loaded or saved
    synced: String,
    /// modification time and mode of the file then
    stamp: Option<SystemTime>,
    mode: u32,
    bom: bool,
    /// the text before the reload that was the last thing to change it
    before_reload: Option<String>,
    /// whether changes of the file must be noticed
    follow: bool,
    dead: bool,
}

struct W<'a> {
    c: &'a mut Core,
    dir: String,
    notify: Arc<notify::Shared>,
    queue: Vec<notify::Event>,
    views: Vec<Fv>,
    /// paths changed by others since events were last delivered
    touched: Vec<String>,
    tick: u64,
    alerts: Vec<String>,
}

fn decode(b: &[u8]) -> Option<(String, bool)> {
    let s = std::str::from_utf8(b).ok()?;
    Some(match s.strip_prefix('\u{feff}') {
        Some(r) => (r.to_string(), true),
        None => (s.to_string(), false),
    })
}
fn mtime(p: &str) -> Option<SystemTime> {
    std::fs::metadata(p).ok().and_then(|m| m.modified().ok())
}
fn mode(p: &str) -> u32 {
    std::fs::metadata(p).map(|m| m.permissions().mode() & 0o7777).unwrap_or(0)
}

impl<'a> W<'a> {
    fn new(c: &'a mut Core) -> W<'a> {
        let dir = format!("{}/f{}", scratch(), DIRS.fetch_add(1, Ordering::Relaxed));
        std::fs::create_dir_all(&dir).unwrap();
        let notify = WATCHER.with(|w| {
            let mut w = w.borrow_mut();
            if let Some(n) = notify::latest() {
                *w = Some(n);
            }
            w.clone().expect("ENGINE: no watcher")
        });
        notify.poll();
        W { c, dir, notify, queue: vec![], views: vec![], touched: vec![], tick: 0, alerts: vec![] }
    }
    fn p(&self, name: &str) -> String {
        format!("{}/{}", self.dir, name)
    }
    /// Another program writes.
    fn ext_write(&mut self, path: &str, content: &[u8], replace: bool) {
        self.tick += 1;
        let t = SystemTime::UNIX_EPOCH + Duration::from_secs(2_000_000_000 + self.tick);
        ext(path, content, replace, t);
        self.touched.push(path.to_string());
        self.poll();
    }
    fn poll(&mut self) {
        let dir = self.dir.clone();
        for e in self.notify.poll() {
            if e.paths[0].starts_with(&dir) {
                self.queue.push(e);
            }
        }
    }
    fn sync(&mut self) -> Res {
        self.c.settle();
        for (m, p) in self.c.take_log() {
            match m.as_str() {
                "update" => {
                    let id = p["view_id"].as_str().unwrap();
                    if let Some(v) = self.views.iter_mut().find(|v| v.id == id) {
                        v.mirror.apply(&p["update"])?;
                    }
                }
                "alert" => self.alerts.push(p["msg"].as_str().unwrap_or("").to_string()),
                _ => {}
            }
        }
        self.poll();
        Ok(())
    }
    /// What holds for every view at all times.
    fn check(&mut self) -> Res {
        for i in 0..self.views.len() {
            if self.views[i].dead {
                continue;
            }
            let id = self.views[i].id.clone();
            let t = self.c.text(&id);
            let v = &self.views[i];
            ensure_eq!(v.mirror.text(), t, "what the front-end shows of {}", id);
            if v.mirror.pristine {
                ensure!(t == v.synced, "view {} counts as unmodified with {:?}, but what was last loaded or saved is {:?}", id, t, v.synced);
            }
        }
        Ok(())
    }
    fn open(&mut self, path: Option<&str>) -> Result<Option<usize>, String> {
        let before = path.and_then(|p| std::fs::read(p).ok());
        let r = self.c.new_view(path);
        let want = match &before {
            None => Some((String::new(), false)),
            Some(b) => decode(b),
        };
        let id = match (r, &want) {
            (Ok(id), Some(_)) => id,
            (Err(e), None) => {
                ensure!(e.to_string().contains("ecod"), "an undecodable file is refused for another reason: {}", e);
                self.sync()?;
                return Ok(None);
            }
            (r, w) => return Err(format!("opening {:?} gave {:?}, decodable: {}", path, r, w.is_some())),
        };
        let (text, bom) = want.unwrap();
        let existing = before.is_some();
        self.views.push(Fv {
            id: id.clone(),
            mirror: Mirror::default(),
            path: path.filter(|_| existing).map(str::to_string),
            synced: text.clone(),
            stamp: path.and_then(mtime),
            mode: path.map(mode).unwrap_or(0),
            bom,
            before_reload: None,
            follow: existing,
            dead: false,
        });
        self.sync()?;
        ensure_eq!(self.c.text(&id), text, "text of the view of {:?}", path);
        ensure!(self.views.last().unwrap().mirror.pristine, "a freshly opened file counts as modified");
        Ok(Some(self.views.len() - 1))
    }
    fn close(&mut self, i: usize) -> Res {
        let id = self.views[i].id.clone();
        self.views[i].dead = true;
        self.c.close(&id);
        self.sync()
    }
    fn for_save(&mut self, i: usize) -> String {
        let id = self.views[i].id.clone();
        let mut t = self.c.text(&id);
        let cfg = self.c.request("get_config", json!({ "view_id": id })).unwrap();
        let le = cfg["line_ending"].as_str().unwrap();
        if cfg["save_with_newline"] == true && !t.is_empty() && !t.ends_with(le) {
            t.push_str(le);
        }
        t
    }
    fn must_refuse(&self, i: usize, path: &str) -> bool {
        let v = &self.views[i];
        v.path.as_deref() == Some(path) && mtime(path).map_or(false, |t| Some(t) != v.stamp)
    }
    fn encoded(&mut self, i: usize) -> Vec<u8> {
        let t = self.for_save(i);
        let mut b = if self.views[i].bom { BOM.to_vec() } else { vec![] };
        b.extend(t.as_bytes());
        b
    }
    fn save(&mut self, i: usize, path: &str) -> Res {
        if self.views[i].dead {
            return Ok(());
        }
        let id = self.views[i].id.clone();
        let refuse = self.must_refuse(i, path);
        let want = self.encoded(i);
        let text = self.c.text(&id);
        let dir_before = io::snapshot(&self.dir);
        let stamp_before = mtime(path);
        let before_content = std::fs::read(path).ok().and_then(|b| decode(&b));
        let pristine_before = self.views[i].mirror.pristine;
        self.alerts.clear();
        self.c.notify("save", json!({"view_id": id, "file_path": path}));
        self.sync()?;
        ensure_eq!(self.c.text(&id), text, "the text after a save");
        let mut dir_after = io::snapshot(&self.dir);
        let name = path.rsplit('/').next().unwrap().to_string();
        // a view that is not told of changes may have been reloaded all the same
        let either = refuse && !self.views[i].follow && before_content == Some((self.views[i].synced.clone(), self.views[i].bom));
        if refuse && (!either || !self.alerts.is_empty()) {
            ensure!(dir_after == dir_before && mtime(path) == stamp_before, "a save went over what another program had put into {} (there: {:?})", name, dir_after.get(&name));
            ensure!(self.alerts.len() == 1, "a refused save shows {} alerts", self.alerts.len());
            ensure_eq!(self.views[i].mirror.pristine, pristine_before, "unmodified, after a refused save");
            return Ok(());
        }
        ensure!(self.alerts.is_empty(), "saving to {} failed: {:?}", name, self.alerts);
        let got = dir_after.remove(&name);
        ensure!(got.is_some(), "{} does not exist after it was saved", name);
        let got = got.unwrap();
        ensure!(got.0 == want, "contents of {} after a save: {:?}, expected {:?}", name, String::from_utf8_lossy(&got.0), String::from_utf8_lossy(&want));
        let v = &mut self.views[i];
        if v.path.is_some() {
            ensure!(got.1 == v.mode, "permissions {:o} after a save, the file had {:o}", got.1, v.mode);
        }
        let mut others = dir_before;
        others.remove(&name);
        ensure!(others == dir_after, "saving {} changed other files: {:?} before, {:?} after", name, others.keys(), dir_after.keys());
        ensure!(v.mirror.pristine, "the view counts as modified after it was saved");
        v.synced = text;
        v.mode = got.1;
        v.stamp = mtime(path);
        v.follow = true;
        v.path = Some(path.to_string());
        // everybody else who had this path is no longer told about it
        for k in 0..self.views.len() {
            if k != i && self.views[k].path.as_deref() == Some(path) {
                self.views[k].follow = false;
            }
        }
        Ok(())
    }
    fn edit(&mut self, i: usize, m: &str, params: Value) -> Res {
        if self.views[i].dead {
            return Ok(());
        }
        let id = self.views[i].id.clone();
        self.c.edit(&id, m, params);
        self.sync()?;
        if m == "undo" {
            if let Some(b) = self.views[i].before_reload.take() {
                ensure_eq!(self.c.text(&id), b, "undo after a reload");
            }
        }
        self.views[i].before_reload = None;
        Ok(())
    }
    /// All pending events are handled.
    fn deliver(&mut self) -> Res {
        let before: Vec<(String, bool)> = (0..self.views.len())
            .map(|i| if self.views[i].dead { (String::new(), false) } else { (self.c.text(&self.views[i].id.clone()), self.views[i].mirror.pristine) })
            .collect();
        let mut n = 0;
        while !self.queue.is_empty() {
            let e = self.queue.remove(0);
            self.notify.emit(e);
            self.sync()?;
            n += 1;
            ensure!(n < 50, "events without end");
        }
        let touched = std::mem::take(&mut self.touched);
        for i in 0..self.views.len() {
            if self.views[i].dead {
                continue;
            }
            let id = self.views[i].id.clone();
            let t = self.c.text(&id);
            let path = match self.views[i].path.clone() {
                Some(p) => p,
                None => {
                    ensure_eq!(t, before[i].0, "text of a view without a file");
                    continue;
                }
            };
            let now = std::fs::read(&path).ok();
            let changed = touched.contains(&path) && now.is_some() && mtime(&path) != self.views[i].stamp;
            let readable = now.as_ref().and_then(|b| decode(b));
            if t != before[i].0 || (self.views[i].mirror.pristine && !before[i].1) {
                // it was reloaded
                ensure!(before[i].1, "a view with unsaved changes was replaced by what is on disk ({:?} became {:?})", before[i].0, t);
                ensure!(readable.is_some(), "the view of a file that cannot be read now has {:?} instead of {:?}", t, before[i].0);
            }
            let v = &mut self.views[i];
            if changed && before[i].1 && v.follow {
                if let Some((text, bom)) = &readable {
                    ensure!(t == *text, "another program changed the file to {:?}, the unmodified view still has {:?}", text, t);
                    ensure!(v.mirror.pristine, "the view counts as modified after a reload");
                }
            }
            if let Some((text, bom)) = readable {
                if before[i].1 && changed && t == text && v.mirror.pristine {
                    if v.follow {
                        v.synced = text;
                        v.stamp = mtime(&path);
                        v.mode = mode(&path);
                        v.bom = bom;
                        v.before_reload = if before[i].0 == t { None } else { Some(before[i].0.clone()) };
                    }
                }
            }
            if now.is_none() && touched.contains(&path) {
                self.views[i].follow = false;
            }
        }
        Ok(())
    }
    fn finish(mut self) -> Res {
        for i in 0..self.views.len() {
            if !self.views[i].dead {
                self.close(i)?;
            }
        }
        let _ = std::fs::remove_dir_all(&self.dir);
        Ok(())
    }
    fn key(&mut self) -> u64 {
        let mut h = vec![];
        for i in 0..self.views.len() {
            let v = &self.views[i];
            if !v.dead {
                let (id, pr, pa) = (v.id.clone(), v.mirror.pristine, v.path.clone());
                h.push((self.c.text(&id), pr, pa.map(|p| p[self.dir.len()..].to_string())));
            }
        }
        hash_of(&(h, self.queue.len(), io::snapshot(&self.dir)))
    }
}

/// What another program does: replaces the file by a new one, or rewrites it.
fn ext(path: &str, content: &[u8], replace: bool, t: SystemTime) {
    use std::io::Write;
    if replace {
        let tmp = format!("{}.other", path);
        std::fs::write(&tmp, content).unwrap();
        std::fs::File::options().write(true).open(&tmp).unwrap().set_modified(t).unwrap();
        std::fs::rename(&tmp, path).unwrap();
    } else {
        let mut f = std::fs::File::create(path).unwrap();
        f.write_all(content).unwrap();
        f.set_modified(t).unwrap();
    }
}

thread_local! {
    static WATCHER: std::cell::RefCell<Option<Arc<notify::Shared>>> = const { std::cell::RefCell::new(None) };
}

fn world(f: impl FnOnce(&mut W) -> Res) -> Res {
    let r = guarded(|| {
        with_core(|c| {
            let mut w = W::new(c);
            f(&mut w)?;
            w.finish()
        })
    });
    if r.is_err() {
        drop_core();
        WATCHER.with(|w| *w.borrow_mut() = None);
    }
    r
}

const START: [&[u8]; 4] = [b"a\nb\n", b"\xef\xbb\xbfa\r\nb", b"", b"one line"];

fn one_view(depth: usize, ops: &'static [usize]) -> impl Fn(&mut Ch) -> Res {
    move |ch| {
        let start = *ch.of(&START[..3]);
        let q = ch.flip();
        world(|w| {
            let (p, pq) = (w.p("p.txt"), w.p("q"));
            w.ext_write(&p, start, false);
            std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o640)).unwrap();
            if q {
                w.ext_write(&pq, b"other\n", false);
            }
            w.touched.clear();
            w.queue.clear();
            ch.log(|| format!("p.txt holds {:?}", String::from_utf8_lossy(start)));
            let mut i = w.open(Some(&p))?.unwrap();
            let mut n = 0u8;
            for _ in 0..depth {
                let op = *ch.of(ops);
                ch.step();
                n += 1;
                match op {
                    0 => {
                        ch.log(|| "type".into());
                        w.edit(i, "insert", json!({"chars": "x"}))?
                    }
                    1 => {
                        ch.log(|| "save".into());
                        w.save(i, &p)?
                    }
                    2 => {
                        ch.log(|| "another program rewrites p.txt".into());
                        w.ext_write(&p, &[b'e', b'0' + n, b'\n'], false)
                    }
                    3 => {
                        ch.log(|| "another program replaces p.txt".into());
                        w.ext_write(&p, &[b'r', b'0' + n, b'\n', b'z'], true)
                    }
                    4 => {
                        ch.log(|| "events are handled".into());
                        w.deliver()?
                    }
                    5 => {
                        ch.log(|| "another program removes p.txt".into());
                        let _ = std::fs::remove_file(&p);
                        w.touched.push(p.clone());
                        w.poll();
                    }
                    6 => {
                        ch.log(|| "save as q".into());
                        w.save(i, &pq)?
                    }
                    7 => {
                        ch.log(|| "undo".into());
                        w.edit(i, "undo", Value::Null)?
                    }
                    8 => {
                        ch.log(|| "another program writes bytes that are no text".into());
                        w.ext_write(&p, b"ab\xff", false)
                    }
                    9 => {
                        ch.log(|| "another program rewrites q".into());
                        w.ext_write(&pq, &[b'q', b'0' + n], n % 2 == 0)
                    }
                    10 => {
                        ch.log(|| "close, open p.txt".into());
                        w.close(i)?;
                        match w.open(Some(&p))? {
                            Some(k) => i = k,
                            None => return Ok(()),
                        }
                    }
                    11 => {
                        ch.log(|| "another program writes a byte order mark".into());
                        w.ext_write(&p, &[0xef, 0xbb, 0xbf, b'b', b'0' + n], false)
                    }
                    _ => unreachable!(),
                }
                w.check()?;
                ch.state(&w.key());
            }
            ch.nontrivial();
            Ok(())
        })
    }
}

/// Two views, of the same file or of two.
fn two_views(depth: usize) -> impl Fn(&mut Ch) -> Res {
    move |ch| {
        let same = ch.flip();
        world(|w| {
            let (p, pq) = (w.p("p.txt"), w.p("q"));
            w.ext_write(&p, b"a\n", false);
            w.ext_write(&pq, b"other\n", false);
            w.touched.clear();
            w.queue.clear();
            let a = w.open(Some(&p))?.unwrap();
            let second = if same { p.clone() } else { pq.clone() };
            let b = w.open(Some(&second))?.unwrap();
            ch.log(|| if same { "two views of p".into() } else { "views of p and q".into() });
            if same {
                w.views[a].follow = false;
                w.views[b].follow = false;
            }
            let mut n = 0u8;
            for _ in 0..depth {
                ch.step();
                n += 1;
                match ch.pick(11) {
                    0 => {
                        ch.log(|| "type into the first".into());
                        w.edit(a, "insert", json!({"chars": "x"}))?
                    }
                    1 => {
                        ch.log(|| "type into the second".into());
                        w.edit(b, "insert", json!({"chars": "y"}))?
                    }
                    2 => {
                        ch.log(|| "save the first as p".into());
                        w.save(a, &p)?;
                        if same {
                            w.views[a].follow = false;
                        }
                    }
                    3 => {
                        ch.log(|| "save the second in place".into());
                        w.save(b, &second)?;
                        if same {
                            w.views[b].follow = false;
                        }
                    }
                    4 => {
                        ch.log(|| "save the second as p".into());
                        w.save(b, &p)?;
                        w.views[b].follow = false;
                    }
                    5 => {
                        ch.log(|| "another program rewrites p".into());
                        w.ext_write(&p, &[b'e', b'0' + n, b'\n'], n % 2 == 0)
                    }
                    6 => {
                        ch.log(|| "another program rewrites q".into());
                        w.ext_write(&pq, &[b'f', b'0' + n, b'\n'], n % 2 == 1)
                    }
                    7 => {
                        ch.log(|| "events are handled".into());
                        // a view that is not told may still be reloaded by luck
                        w.deliver()?
                    }
                    9 => {
                        ch.log(|| "close the first".into());
                        w.close(a)?
                    }
                    10 => {
                        ch.log(|| "close the second".into());
                        w.close(b)?
                    }
                    _ => {
                        ch.log(|| "save the first as q".into());
                        w.save(a, &pq)?;
                        w.views[a].follow = false;
                    }
                }
                resync(w);
                w.check()?;
                ch.state(&w.key());
            }
            ch.nontrivial();
            Ok(())
        })
    }
}
/// Views whose following is not specified may have been reloaded.
fn resync(w: &mut W) {
    for i in 0..w.views.len() {
        if w.views[i].dead || w.views[i].follow {
            continue;
        }
        let t = w.c.text(&w.views[i].id.clone());
        let v = &mut w.views[i];
        if let Some(p) = &v.path {
            if let Some((d, bom)) = std::fs::read(p).ok().and_then(|b| decode(&b)) {
                if v.mirror.pristine && d == t && d != v.synced {
                    v.synced = d;
                    v.stamp = mtime(p);
                    v.mode = mode(p);
                    v.bom = bom;
                }
            }
        }
    }
}

/// A view without a file is saved for the first time.
fn new_file(ch: &mut Ch) -> Res {
    let named = ch.flip();
    let exists = ch.flip();
    let name = *ch.of(&["n.txt", "n", ".n", "n.tar.gz", "ñ 1.txt", "n.swp"]);
    let decoy = ch.flip();
    let text = *ch.of(&["", "x", "x\n", "é\r\n"]);
    ch.log(|| format!("{} {:?}, text {:?}, target exists: {}", name, decoy, text, exists));
    world(|w| {
        let p = w.p(name);
        if decoy {
            for d in ["n.txt.swp", "n.swp", "n.tar.gz.swp", "ñ 1.txt.swp", ".n.swp", "n.swp.swp", "n.txt~", "n.txt.tmp"] {
                if d != name {
                    std::fs::write(w.p(d), format!("precious {}", d)).unwrap();
                }
            }
        }
        if exists && !named {
            w.ext_write(&p, b"old", false);
        }
        let i = w.open(if named { Some(&p) } else { None })?.unwrap();
        ch.step();
        if !text.is_empty() {
            w.edit(i, "insert", json!({ "chars": text }))?;
        }
        w.save(i, &p)?;
        w.check()?;
        // and once more, in place
        ch.step();
        w.edit(i, "insert", json!({"chars": "1"}))?;
        w.save(i, &p)?;
        w.check()?;
        // and to somewhere that does not exist
        let bad = format!("{}/none/n", w.dir);
        let before = io::snapshot(&w.dir);
        w.alerts.clear();
        let id = w.views[i].id.clone();
        w.edit(i, "insert", json!({"chars": "2"}))?;
        w.c.notify("save", json!({"view_id": id, "file_path": bad}));
        w.sync()?;
        ensure!(w.alerts.len() == 1, "saving into a directory that does not exist shows {} alerts", w.alerts.len());
        ensure!(io::snapshot(&w.dir) == before && !w.views[i].mirror.pristine, "after a failed save");
        w.save(i, &p)?;
        w.check()?;
        ch.state(&w.key());
        ch.nontrivial();
        Ok(())
    })
}

/// The last line ending of texts around the sizes where the rope begins a new leaf.
fn last_line(ch: &mut Ch) -> Res {
    let crlf = ch.flip();
    let len = ch.of(&[0usize, 1, 2, 500, 508, 509, 510, 511, 512, 513, 1018, 1019, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 1530, 1531, 1532, 1533, 1534, 1535, 1536, 2046, 2047]).clone();
    let tail = *ch.of(&["", "\r\n", "\n", "\r", "\r|\n", "y|\r\n", "y|\r|\n", "\r\n\r", "é"]);
    let with = ch.flip();
    ch.log(|| format!("{} characters, then {:?}, line ending {}, save_with_newline {}", len, tail, if crlf { "CRLF" } else { "LF" }, with));
    world(|w| {
        let p = w.p("p.txt");
        let mut parts = tail.split('|');
        let mut t = "x".repeat(len);
        t.push_str(parts.next().unwrap());
        w.ext_write(&p, t.as_bytes(), false);
        w.touched.clear();
        w.queue.clear();
        let i = w.open(Some(&p))?.unwrap();
        let id = w.views[i].id.clone();
        w.c.notify("modify_user_config", json!({"domain": {"user_override": id}, "changes": {"line_ending": if crlf {"\r\n"} else {"\n"}, "save_with_newline": with}}));
        w.sync()?;
        w.edit(i, "move_to_end_of_document", Value::Null)?;
        for x in parts {
            ch.step();
            w.edit(i, "insert", json!({ "chars": x }))?;
        }
        w.save(i, &p)?;
        ch.state(&hash_of(&std::fs::read(&p).unwrap()));
        ch.nontrivial();
        Ok(())
    })
}

/// A symbolic link stays one.
fn links(ch: &mut Ch) -> Res {
    let abs = ch.flip();
    let dirlink = ch.flip();
    world(|w| {
        std::fs::create_dir(w.p("d")).unwrap();
        let real = w.p("d/real.txt");
        std::fs::write(&real, "a\n").unwrap();
        let link = if dirlink {
            std::os::unix::fs::symlink("d", w.p("l")).unwrap();
            w.p("l/real.txt")
        } else {
            let l = w.p("l.txt");
            std::os::unix::fs::symlink(if abs { real.as_str() } else { "d/real.txt" }, &l).unwrap();
            l
        };
        ch.log(|| format!("{} leads to d/real.txt", link));
        let i = w.open(Some(&link))?.unwrap();
        let id = w.views[i].id.clone();
        for n in 0..2 {
            ch.step();
            w.edit(i, "insert", json!({"chars": "x"}))?;
            w.alerts.clear();
            w.c.notify("save", json!({"view_id": id, "file_path": link}));
            w.sync()?;
            ensure!(w.alerts.is_empty(), "saving through a link: {:?}", w.alerts);
            let l = if dirlink { w.p("l") } else { link.clone() };
            ensure!(std::fs::symlink_metadata(&l).unwrap().file_type().is_symlink(), "the link is no longer one");
            ensure_eq!(std::fs::read_to_string(&real).unwrap(), format!("{}a\n", "x".repeat(n + 1)), "what the link leads to");
        }
        ch.state(&(abs, dirlink));
        ch.nontrivial();
        Ok(())
    })
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Act {
    Open,
    Save,
    Reload,
}

/// Another program acts in the middle of what the core does with the file. (What it does between the core's last
/// look at the file and the replacement is lost; that cannot be avoided, and does not count.)
fn interference(ch: &mut Ch) -> Res {
    let act = *ch.of(&[Act::Open, Act::Save, Act::Reload]);
    let what = ch.pick(3);
    let big = ch.flip();
    let start: Vec<u8> = if big { b"line\n".repeat(500) } else { b"a\n".to_vec() };
    let theirs: Vec<u8> = if big { b"THEIR\n".repeat(500) } else { b"theirs\n".to_vec() };
    // how many points there are is found out first
    let n = {
        let mut n = 0;
        world(|w| {
            n = meddle(w, act, &start, &theirs, what, None)?.len();
            Ok(())
        })?;
        n
    };
    let at = ch.pick(n + 1);
    ch.step();
    world(|w| {
        let ops = meddle(w, act, &start, &theirs, what, Some(at))?;
        ch.log(|| format!("{:?} of a file of {} bytes; another program {} it before operation {} of {:?}", act, start.len(), ["rewrites", "replaces", "removes"][what], at, ops.iter().map(|o| o.kind()).collect::<Vec<_>>()));
        ch.state(&hash_of(&(ops, at)));
        ch.nontrivial();
        let p = w.p("p.txt");
        let i = w.views.len() - 1;
        w.touched.push(p.clone());
        w.poll();
        while !w.queue.is_empty() {
            let e = w.queue.remove(0);
            w.notify.emit(e);
            w.sync()?;
        }
        let id = w.views[i].id.clone();
        let t = w.c.text(&id);
        let disk = std::fs::read(&p).ok();
        let shown = disk.as_ref().and_then(|b| decode(b)).map(|x| x.0);
        // the view shows what is on disk, or the next save notices that it does not
        if shown.as_deref() != Some(t.as_str()) && disk.is_some() {
            w.alerts.clear();
            w.edit(i, "insert", json!({"chars": "x"}))?;
            w.c.notify("save", json!({"view_id": id, "file_path": p}));
            w.sync()?;
            ensure!(std::fs::read(&p).ok() == disk && w.alerts.len() == 1, "the other program's file was overwritten without notice (view {:?}..)", &t[..t.len().min(20)]);
        }
        Ok(())
    })
}
fn meddle(w: &mut W, act: Act, start: &[u8], theirs: &[u8], what: usize, at: Option<usize>) -> Result<Vec<Op>, String> {
    let p = w.p("p.txt");
    w.ext_write(&p, start, false);
    w.touched.clear();
    w.queue.clear();
    let t = SystemTime::UNIX_EPOCH + Duration::from_secs(2_100_000_000);
    let (p2, theirs) = (p.clone(), theirs.to_vec());
    let mut io = Io { dir: w.dir.clone(), ..Io::default() };
    if let Some(k) = at {
        io.act = Some((
            k,
            Box::new(move || match what {
                0 => ext(&p2, &theirs, false, t),
                1 => ext(&p2, &theirs, true, t),
                _ => {
                    let _ = std::fs::remove_file(&p2);
                }
            }),
        ));
    }
    if act != Act::Open {
        w.open(Some(&p))?;
    }
    match act {
        Act::Open => {
            let r = io::with_io(&mut io, || w.c.new_view(Some(&p)));
            match r {
                Ok(id) => w.views.push(Fv { id, mirror: Mirror::default(), path: None, synced: String::new(), stamp: None, mode: 0, bom: false, before_reload: None, follow: false, dead: false }),
                Err(_) => {
                    w.open(None)?;
                }
            }
            w.sync()?;
        }
        Act::Save => {
            let id = w.views[0].id.clone();
            w.edit(0, "insert", json!({"chars": "x"}))?;
            io::with_io(&mut io, || w.c.notify("save", json!({"view_id": id, "file_path": p})));
            w.sync()?;
        }
        Act::Reload => {
            w.ext_write(&p, b"first\n", false);
            let e: Vec<_> = w.queue.drain(..).collect();
            for e in e {
                w.notify.emit(e);
            }
            io::with_io(&mut io, || w.c.settle());
            w.sync()?;
        }
    }
    io.run_act();
    Ok(io.ops)
}

// ---------------------------------------------------------------------------------------------------------- C27

#[derive(Clone, Copy, PartialEq, Debug)]
enum Case {
    InPlace,
    BomPrivate,
    SaveAs,
    SaveAsOver,
    First,
    FirstOver,
    Big,
    Empty,
}
const CASES: [Case; 8] = [Case::InPlace, Case::BomPrivate, Case::SaveAs, Case::SaveAsOver, Case::First, Case::FirstOver, Case::Big, Case::Empty];

/// Brings a view and a directory into the state before the save; returns the target's name.
fn prepare(w: &mut W, case: Case, litter: bool) -> Result<(usize, String), String> {
    let (p, q) = (w.p("p.txt"), w.p("q.txt"));
    if litter {
        std::fs::write(w.p("p.txt.swp"), "precious").unwrap();
        std::fs::write(w.p("q.txt.swp"), "precious too").unwrap();
    }
    let old: Vec<u8> = match case {
        Case::BomPrivate => b"\xef\xbb\xbfold\n".to_vec(),
        Case::Big => b"old line\n".repeat(400),
        _ => b"old\n".to_vec(),
    };
    let own = !matches!(case, Case::First | Case::FirstOver);
    if own {
        w.ext_write(&p, &old, false);
        let m = if case == Case::BomPrivate { 0o600 } else { 0o644 };
        std::fs::set_permissions(&p, std::fs::Permissions::from_mode(m)).unwrap();
    }
    if matches!(case, Case::SaveAsOver | Case::FirstOver) {
        w.ext_write(&q, b"what was there\n", false);
    }
    w.touched.clear();
    w.queue.clear();
    let i = w.open(if own { Some(&p) } else { None })?.unwrap();
    match case {
        Case::Empty => {
            w.edit(i, "select_all", Value::Null)?;
            w.edit(i, "delete_backward", Value::Null)?;
        }
        _ => w.edit(i, "insert", json!({"chars": "new"}))?,
    }
    Ok((i, if matches!(case, Case::InPlace | Case::BomPrivate | Case::Big | Case::Empty) { p } else { q }))
}

fn base(p: &str) -> String {
    p.rsplit('/').next().unwrap().to_string()
}

/// How many operations the save of `case` performs.
fn dry(case: Case, litter: bool) -> Result<Vec<Op>, String> {
    let mut ops = vec![];
    world(|w| {
        let (i, target) = prepare(w, case, litter)?;
        let id = w.views[i].id.clone();
        let mut io = Io { dir: w.dir.clone(), ..Io::default() };
        io::with_io(&mut io, || w.c.notify("save", json!({"view_id": id, "file_path": target})));
        w.sync()?;
        ops = io.ops;
        Ok(())
    })?;
    Ok(ops)
}

fn faults(ch: &mut Ch) -> Res {
    let case = *ch.of(&CASES);
    let litter = ch.flip();
    let ops = dry(case, litter)?;
    let k = ch.pick(ops.len());
    let f = *ch.of(&[Fault::Errno(libc::EIO), Fault::Errno(libc::ENOSPC), Fault::Errno(libc::EINTR), Fault::Errno(libc::EACCES), Fault::Short]);
    if f == Fault::Short && ops[k].kind() != "write" {
        return Ok(());
    }
    let again = ch.flip();
    ch.log(|| format!("{:?}: operation {} ({}) of {} fails: {:?}", case, k, ops[k].kind(), ops.len(), f));
    ch.step();
    world(|w| {
        let (i, target) = prepare(w, case, litter)?;
        let want = w.encoded(i);
        let id = w.views[i].id.clone();
        let text = w.c.text(&id);
        let before = io::snapshot(&w.dir);
        let mut io = Io { dir: w.dir.clone(), fault: Some((k, f)), ..Io::default() };
        w.alerts.clear();
        io::with_io(&mut io, || w.c.notify("save", json!({"view_id": id, "file_path": target})));
        w.sync()?;
        ch.state(&hash_of(&io.ops));
        let mut after = io::snapshot(&w.dir);
        let name = base(&target);
        let got = after.remove(&name);
        let mut others = before.clone();
        let old = others.remove(&name);
        ensure_eq!(w.c.text(&id), text, "the text");
        ensure!(others == after, "after a failed operation: {:?} are there besides {}, instead of {:?}", after, name, others);
        if w.alerts.is_empty() {
            ensure!(got.as_ref().map(|g| &g.0) == Some(&want), "no error was shown, but {} holds {:?}", name, got.as_ref().map(|g| String::from_utf8_lossy(&g.0).into_owned()));
            ensure!(w.views[i].mirror.pristine, "no error was shown, but the view counts as modified");
        } else {
            ensure!(w.alerts.len() == 1, "{} alerts", w.alerts.len());
            ensure!(got == old, "an error was shown, and {} holds {:?} instead of {:?}", name, got, old);
            ensure!(!w.views[i].mirror.pristine, "an error was shown, but the view counts as saved");
            // a second attempt goes through
            if again {
                w.edit(i, "insert", json!({"chars": "2"}))?;
            }
            let want = w.encoded(i);
            w.alerts.clear();
            w.c.notify("save", json!({"view_id": id, "file_path": target}));
            w.sync()?;
            let got = std::fs::read(&target).ok();
            ensure!(w.alerts.is_empty() && got == Some(want), "the save after a failed one: alerts {:?}, contents {:?}", w.alerts, got);
            ensure!(w.views[i].mirror.pristine, "modified after the save that followed a failed one");
        }
        ch.nontrivial();
        Ok(())
    })
}

/// The process is killed, or the machine loses power, at every point of a save.
fn crashes(ch: &mut Ch) -> Res {
    let case = *ch.of(&CASES);
    let litter = ch.flip();
    let ops = dry(case, litter)?;
    let k = ch.pick(ops.len() + 1);
    ch.log(|| format!("{:?}: killed before operation {} of {:?}", case, k, ops.iter().map(|o| o.kind()).collect::<Vec<_>>()));
    ch.step();
    // what a write that was cut short leaves
    let mut before = Snap::new();
    let mut want = vec![];
    let mut target = String::new();
    world(|w| {
        let (i, t) = prepare(w, case, litter)?;
        want = w.encoded(i);
        target = t;
        let id = w.views[i].id.clone();
        before = io::snapshot(&w.dir);
        let name = base(&target);
        let old = before.get(&name).cloned();
        let cut = k < ops.len() && ops[k].kind() == "write" && ch.flip();
        let mut io = Io { dir: w.dir.clone(), dead: Some(if cut { k + 1 } else { k }), ..Io::default() };
        if cut {
            io.fault = Some((k, Fault::Short));
        }
        io::with_io(&mut io, || w.c.notify("save", json!({"view_id": id, "file_path": target})));
        w.c.settle();
        w.c.take_log();
        let left = io::snapshot(&w.dir);
        ch.state(&hash_of(&left));
        let is = left.get(&name);
        let ok = is.map(|x| &x.0) == old.as_ref().map(|x| &x.0) || is.map(|x| &x.0) == Some(&want);
        ensure!(ok, "killed before operation {}: {} holds {:?}", k, name, is.map(|x| String::from_utf8_lossy(&x.0).into_owned()));
        for (n, c) in &before {
            ensure!(*n == name || left.get(n) == Some(c), "killed before operation {}: {} was {:?} and is {:?}", k, n, c, left.get(n));
        }
        if matches!(case, Case::InPlace | Case::BomPrivate | Case::Big | Case::Empty) {
            let m = old.as_ref().unwrap().1;
            for (n, c) in &left {
                if !before.contains_key(n) || *n == name {
                    ensure!(c.1 & !m == 0, "killed before operation {}: {} has permissions {:o}, the file had {:o}", k, n, c.1, m);
                }
            }
            ensure!(is.unwrap().1 == m, "killed before operation {}: permissions {:o}, the file had {:o}", k, is.unwrap().1, m);
        }
        // the machine stops: anything of what was not forced to disk may be missing
        let model = io::after_power_loss(&before, &w.dir, &io.ops[..k.min(io.ops.len())], &target);
        for m in &model {
            ensure!(
                m.as_ref() == old.as_ref().map(|x| &x.0) || m.as_ref() == Some(&want),
                "power lost before operation {}: {} may hold {:?}",
                k,
                name,
                m.as_ref().map(|x| String::from_utf8_lossy(x).into_owned())
            );
        }
        if !cut {
            ensure!(model.contains(&is.map(|x| x.0.clone())), "ENGINE: the model of the disk does not know the actual contents");
        }
        // afterwards the file is opened again, changed and saved
        let n = w.views.len();
        let _ = n;
        w.views[i].dead = true;
        w.c.close(&id);
        w.sync()?;
        let j = w.open(Some(&target))?.unwrap();
        w.edit(j, "insert", json!({"chars": "again"}))?;
        let want = w.encoded(j);
        let id = w.views[j].id.clone();
        w.alerts.clear();
        w.c.notify("save", json!({"view_id": id, "file_path": target}));
        w.sync()?;
        ensure!(w.alerts.is_empty() && std::fs::read(&target).ok() == Some(want), "the save after a crash: {:?}", w.alerts);
        ch.nontrivial();
        Ok(())
    })
}

/// Reading fails, when a file is opened and when it is reloaded.
fn read_faults(ch: &mut Ch) -> Res {
    let reload = ch.flip();
    let big = ch.flip();
    let e = *ch.of(&[libc::EIO, libc::EACCES, libc::EMFILE, libc::EINTR]);
    let k = ch.pick(8);
    ch.step();
    world(|w| {
        let p = w.p("p.txt");
        let content = if big { b"line\n".repeat(4000) } else { b"a\n".to_vec() };
        w.ext_write(&p, &content, false);
        w.touched.clear();
        w.queue.clear();
        let mut io = Io { dir: w.dir.clone(), fault: Some((k, Fault::Errno(e))), ..Io::default() };
        ch.log(|| format!("operation {} of {} fails with {}", k, if reload { "a reload" } else { "opening" }, e));
        if !reload {
            let r = io::with_io(&mut io, || w.c.new_view(Some(&p)));
            match r {
                Ok(id) => {
                    w.c.settle();
                    w.c.take_log();
                    let t = w.c.text(&id);
                    ensure!(t.as_bytes() == &content[..], "opened, but with {} bytes of {}", t.len(), content.len());
                    w.c.close(&id);
                }
                Err(v) => ensure!(v.to_string().contains("p.txt"), "the error does not name the file: {}", v),
            }
            w.sync()?;
            let i = w.open(Some(&p))?.unwrap();
            w.edit(i, "insert", json!({"chars": "x"}))?;
            w.save(i, &p)?;
        } else {
            let i = w.open(Some(&p))?.unwrap();
            let old = w.views[i].synced.clone();
            w.ext_write(&p, b"theirs\n", false);
            let ev: Vec<_> = w.queue.drain(..).collect();
            for x in ev {
                w.notify.emit(x);
            }
            io::with_io(&mut io, || w.c.settle());
            w.sync()?;
            let id = w.views[i].id.clone();
            let t = w.c.text(&id);
            ensure!(t == old || t == "theirs\n", "after a reload that failed the text is {:?}", &t[..t.len().min(40)]);
            if t == old {
                // not lost: the next save notices
                w.edit(i, "insert", json!({"chars": "x"}))?;
                w.save(i, &p)?;
            } else {
                w.views[i].synced = t;
            }
        }
        ch.state(&hash_of(&io.ops));
        ch.nontrivial();
        Ok(())
    })
}

pub fn run(id: &str) -> ! {
    let th = is_thorough();
    let d = if th { 7 } else { 6 };
    let e = if th { 5 } else { 4 };
    let sections = if id == "C26" {
        vec![
            section("one file", "every sequence of 6 (thorough: 7) of typing, saving, changes by another program and event delivery", one_view(d, &[0, 1, 2, 3, 4, 5])),
            section("more kinds", "every sequence of 4 (thorough: 5) of 12 kinds of operations", one_view(e, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11])),
            section("undo", "every sequence of 6 (thorough: 7) of typing, saving, rewriting, event delivery, undo", one_view(d, &[0, 1, 2, 4, 7])),
            section("two views", "every sequence of 5 (thorough: 6) of operations on two views", two_views(if th { 6 } else { 5 })),
            section("new files", "first saves under several names, with and without files named alike", new_file),
            section("last line", "texts of 28 lengths around the limits of rope leaves", last_line),
            section("links", "symbolic links", links),
            section("interference", "another program acts before each operation of opening, saving and reloading", interference),
        ]
    } else {
        vec![
            section("faults", "each operation of each kind of save fails in five ways", faults),
            section("crashes", "each kind of save stops before each operation and within each write", crashes),
            section("read faults", "each operation of opening and reloading fails", read_faults),
        ]
    };
    mccommon::run(Opts { property: id.into(), level: "model_checking".into(), assumptions: vec![], single_thread: false }, sections)
}
