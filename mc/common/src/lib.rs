//! A small stateless model checker: every check is a closure over a `Ch` (chooser); the engine enumerates
//! *every* sequence of choices depth first (in parallel over disjoint prefixes), so that one run covers the
//! whole bounded space. A violation is the list of choices that leads to it, which `--replay` re-executes.
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{HashSet, VecDeque};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        match (&$a, &$b) { (a, b) => {
            if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($t)*), a, b)); }
        } }
    }};
}

/// A fixed, seedless hasher so that counts are identical from run to run.
#[derive(Clone)]
pub struct Fx(u64);
impl Default for Fx {
    fn default() -> Self {
        Fx(0xcbf29ce484222325)
    }
}
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        let mut h = self.0;
        h ^= h >> 33;
        h = h.wrapping_mul(0xff51afd7ed558ccd);
        h ^= h >> 33;
        h
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 = (self.0.rotate_left(5) ^ (*b as u64)).wrapping_mul(0x517cc1b727220a95);
        }
    }
}
pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fx::default();
    t.hash(&mut h);
    h.finish()
}

/// The chooser handed to a scenario.
pub struct Ch {
    choices: Vec<u32>,
    arity: Vec<u32>,
    pos: usize,
    pub verbose: bool,
    pub trace: Vec<String>,
    pub tier_thorough: bool,
    seen: HashSet<u64>,
    transitions: u64,
    nontrivial: bool,
    slot: Option<Arc<Mutex<Running>>>,
}

impl Ch {
    fn new(choices: Vec<u32>, verbose: bool, thorough: bool) -> Ch {
        Ch {
            choices,
            arity: Vec::new(),
            pos: 0,
            verbose,
            trace: Vec::new(),
            tier_thorough: thorough,
            seen: HashSet::new(),
            transitions: 0,
            nontrivial: false,
            slot: None,
        }
    }
    /// Chooses one of `n` alternatives; every one of them is explored.
    pub fn pick(&mut self, n: usize) -> usize {
        assert!(n > 0, "engine: empty choice");
        if n == 1 {
            return 0;
        }
        let c = if self.pos < self.choices.len() {
            self.choices[self.pos]
        } else {
            self.choices.push(0);
            0
        };
        if c as usize >= n {
            panic!("ENGINE: diverged while replaying a prefix (choice {} of {})", c, n);
        }
        self.arity.push(n as u32);
        self.pos += 1;
        if let Some(s) = &self.slot {
            s.lock().unwrap().picks.push(c);
        }
        c as usize
    }
    pub fn of<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.pick(xs.len());
        &xs[i]
    }
    pub fn flip(&mut self) -> bool {
        self.pick(2) == 1
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.pick(hi - lo + 1)
    }
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let s = f();
            if let Some(sl) = &self.slot {
                sl.lock().unwrap().log.push(s.clone());
            }
            self.trace.push(s);
        }
    }
    /// Records one executed operation (transition).
    pub fn step(&mut self) {
        self.transitions += 1;
    }
    /// Records a visited state (counted once per distinct value).
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) {
        let h = hash_of(t);
        self.seen.insert(h);
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
}

pub struct Section {
    pub name: String,
    f: Box<dyn Fn(&mut Ch) -> Res + Send + Sync>,
    pub bound: String,
}

pub fn section(
    name: &str,
    bound: &str,
    f: impl Fn(&mut Ch) -> Res + Send + Sync + 'static,
) -> Section {
    Section { name: name.to_string(), bound: bound.to_string(), f: Box::new(f) }
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static PANIC_AT: RefCell<String> = const { RefCell::new(String::new()) };
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var("MC_PANIC").is_ok() {
            eprintln!("panic: {} at {}\n{}", msg, loc, std::backtrace::Backtrace::force_capture());
        }
        // the place is left out of the text: it identifies a finding, and must not move with unrelated edits
        PANIC_AT.with(|p| *p.borrow_mut() = loc);
        PANIC.with(|p| *p.borrow_mut() = Some(format!("panicked: {}", msg)));
    }));
}

/// Runs `f`, turning a panic into an `Err` with its message.
pub fn guarded<R>(f: impl FnOnce() -> Result<R, String>) -> Result<R, String> {
    PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Err(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panicked".into())),
    }
}

fn run_one(sec: &Section, ch: &mut Ch) -> Res {
    SLOT.with(|s| {
        let mut r = s.0.lock().unwrap();
        r.picks.clear();
        r.log.clear();
        r.section = sec.name.clone();
        r.since = Some(Instant::now());
        ch.slot = Some(s.0.clone());
    });
    let r = guarded(|| (sec.f)(ch));
    ch.slot = None;
    SLOT.with(|s| s.0.lock().unwrap().since = None);
    r
}

/// What a thread is executing, for the watchdog that finds executions which do not end.
#[derive(Default)]
pub struct Running {
    section: String,
    picks: Vec<u32>,
    log: Vec<String>,
    since: Option<Instant>,
}
struct Slot(Arc<Mutex<Running>>);
static SLOTS: Mutex<Vec<Arc<Mutex<Running>>>> = Mutex::new(Vec::new());
thread_local! {
    static SLOT: Slot = {
        let a: Arc<Mutex<Running>> = Default::default();
        SLOTS.lock().unwrap().push(a.clone());
        Slot(a)
    };
}

/// An execution takes milliseconds; one that is still running after a minute, and again on its own when
/// repeated, does not end.
fn watchdog(property: String, level: String, sections: &'static [Section], thorough: bool, start: Instant) {
    let limit = Duration::from_secs(std::env::var("MC_HANG").ok().and_then(|s| s.parse().ok()).unwrap_or(60));
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_secs(1));
        let slots = SLOTS.lock().unwrap().clone();
        for slot in slots {
            let (name, picks, since) = {
                let r = slot.lock().unwrap();
                match r.since {
                    Some(t) if t.elapsed() > limit => (r.section.clone(), r.picks.clone(), t),
                    _ => continue,
                }
            };
            let sec = match sections.iter().find(|s| s.name == name) {
                Some(s) => s,
                None => continue,
            };
            // on its own
            let (tx, rx) = std::sync::mpsc::channel();
            let p2 = picks.clone();
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    SLOT.with(|s| tx.send(s.0.clone()).unwrap());
                    let mut ch = Ch::new(p2, true, thorough);
                    let _ = run_one(sec, &mut ch);
                })
                .unwrap();
            let other = rx.recv().unwrap();
            std::thread::sleep(limit / 3);
            let (still, tr) = {
                let o = other.lock().unwrap();
                (o.since.is_some(), o.log.clone())
            };
            if !still || slot.lock().unwrap().since != Some(since) {
                continue;
            }
            let dir = format!("{}/build/replay", verif_dir());
            let _ = std::fs::create_dir_all(&dir);
            let path = format!("{}/{}.json", dir, property);
            let msg = "does not terminate";
            let v = json!({"property": property, "section": name, "choices": picks, "message": msg,
                "trace": tr, "thorough": thorough, "case": format!("{} => {}", tr.join("; "), msg)});
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
            let coverage = json!({"states": 1, "transitions": picks.len(), "traces_validated_against_impl": 1,
                "evaluations": 1, "distinct_nontrivial": 1, "rule": "stopped at an execution that does not terminate",
                "samples": [{"section": name, "trace": tr}], "exhaustive": false});
            let ev = json!({"property": property, "tier": if thorough { "thorough" } else { "quick" }, "seed": 1,
                "level": level, "coverage": coverage, "assumptions": [], "wall_s": start.elapsed().as_secs_f64(), "violations": 1});
            let _ = std::fs::create_dir_all(format!("{}/evidence", verif_dir()));
            let _ = std::fs::write(format!("{}/evidence/{}.json", verif_dir(), property), serde_json::to_string_pretty(&ev).unwrap());
            println!("counterexample in section {}:", name);
            for t in &tr {
                println!("    {}", t);
            }
            println!("    => {}", msg);
            println!("VIOLATION property={} replay={}", property, path);
            leave(1);
        }
    });
}

pub struct Opts {
    pub property: String,
    pub level: String,
    pub assumptions: Vec<String>,
    pub single_thread: bool,
}

struct Found {
    section: String,
    choices: Vec<u32>,
    msg: String,
}

fn env_tier() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}

pub fn is_thorough() -> bool {
    env_tier()
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".to_string())
}

/// Lists known findings for `prop`: (section, match substring of the trace).
fn known_findings(prop: &str) -> Vec<(String, String, String)> {
    let path = format!("{}/known-findings.jsonl", verif_dir());
    let mut out = Vec::new();
    if let Ok(s) = std::fs::read_to_string(path) {
        for l in s.lines() {
            if let Ok(v) = serde_json::from_str::<Value>(l) {
                if v["property"] == prop && v["status"] == "open" {
                    out.push((
                        v["section"].as_str().unwrap_or("").to_string(),
                        v["case"].as_str().unwrap_or("\u{0}").to_string(),
                        v["what"].as_str().unwrap_or("").to_string(),
                    ));
                }
            }
        }
    }
    out
}

fn trace_of(sec: &Section, choices: &[u32], thorough: bool) -> (Vec<String>, Res) {
    let mut ch = Ch::new(choices.to_vec(), true, thorough);
    let r = run_one(sec, &mut ch);
    (ch.trace, r)
}

/// Runs all sections, writes evidence, prints the verdict and exits.
pub fn run(opts: Opts, sections: Vec<Section>) -> ! {
    install_hook();
    let thorough = env_tier();
    let args: Vec<String> = std::env::args().collect();
    if let Some(i) = args.iter().position(|a| a == "--replay") {
        replay(&args[i + 1], &sections, thorough);
    }
    let only: Option<String> =
        args.iter().position(|a| a == "--section").map(|i| args[i + 1].clone());
    let start = Instant::now();
    let sections: &'static [Section] = Box::leak(sections.into_boxed_slice());
    watchdog(opts.property.clone(), opts.level.clone(), sections, thorough, start);
    let budget = Duration::from_secs(
        std::env::var("MC_BUDGET")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(if thorough { 6 * 3600 } else { 600 }),
    );
    let known = known_findings(&opts.property);
    let nthreads = if opts.single_thread {
        1
    } else {
        std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
            std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)
        })
    };
    let mut total_states: u64 = 0;
    let mut total_trans: u64 = 0;
    let mut total_traces: u64 = 0;
    let mut total_nontrivial: u64 = 0;
    let mut samples: Vec<Value> = Vec::new();
    let mut secs_json: Vec<Value> = Vec::new();
    let mut exhaustive = true;
    let mut violation: Option<Found> = None;
    let mut known_hits: Vec<(String, u64)> = Vec::new();
    for sec in sections {
        if let Some(o) = &only {
            if &sec.name != o {
                continue;
            }
        }
        let t0 = Instant::now();
        let queue: Mutex<VecDeque<Vec<u32>>> = Mutex::new(VecDeque::new());
        // Split into prefixes.
        let mut found: Option<Found> = None;
        let mut level: Vec<Vec<u32>> = vec![vec![]];
        let mut leaves: Vec<Vec<u32>> = Vec::new();
        let mut extra_runs = 0;
        while !level.is_empty() && level.len() + leaves.len() < nthreads * 16 && extra_runs < 4000 && nthreads > 1 {
            let mut next = Vec::new();
            for p in &level {
                let mut ch = Ch::new(p.clone(), false, thorough);
                extra_runs += 1;
                let _ = run_one(sec, &mut ch);
                if ch.arity.len() <= p.len() {
                    leaves.push(p.clone());
                } else {
                    for c in 0..ch.arity[p.len()] {
                        let mut q = p.clone();
                        q.push(c);
                        next.push(q);
                    }
                }
            }
            level = next;
        }
        {
            let mut q = queue.lock().unwrap();
            q.extend(leaves);
            q.extend(level);
        }
        let seen: Vec<Mutex<HashSet<u64>>> = (0..64).map(|_| Mutex::new(HashSet::new())).collect();
        let trans = AtomicU64::new(0);
        let traces = AtomicU64::new(0);
        let nontriv = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let capped = AtomicBool::new(false);
        let founds: Mutex<Vec<Found>> = Mutex::new(Vec::new());
        let hits: Mutex<Vec<(String, u64)>> = Mutex::new(Vec::new());
        let maxdepth = AtomicUsize::new(0);
        let survey = std::env::var("MC_SURVEY").is_ok();
        let surveyed: Mutex<std::collections::BTreeMap<String, (u64, Vec<u32>, String)>> = Default::default();
        let mid: Mutex<Option<Vec<u32>>> = Mutex::new(None);
        std::thread::scope(|s| {
            for _ in 0..nthreads {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, || {
                        let mut local: HashSet<u64> = HashSet::new();
                        loop {
                            let prefix = match queue.lock().unwrap().pop_front() {
                                Some(p) => p,
                                None => break,
                            };
                            let plen = prefix.len();
                            let mut choices = prefix;
                            loop {
                                if stop.load(Ordering::Relaxed) {
                                    break;
                                }
                                if start.elapsed() > budget {
                                    capped.store(true, Ordering::Relaxed);
                                    stop.store(true, Ordering::Relaxed);
                                    break;
                                }
                                let mut ch = Ch::new(std::mem::take(&mut choices), false, thorough);
                                let r = run_one(sec, &mut ch);
                                let n = traces.fetch_add(1, Ordering::Relaxed);
                                trans.fetch_add(ch.transitions, Ordering::Relaxed);
                                if ch.nontrivial {
                                    nontriv.fetch_add(1, Ordering::Relaxed);
                                }
                                maxdepth.fetch_max(ch.arity.len(), Ordering::Relaxed);
                                local.extend(ch.seen.drain());
                                if local.len() > 4096 {
                                    flush(&mut local, &seen);
                                }
                                if n == 777 || n == 0 {
                                    *mid.lock().unwrap() = Some(ch.choices[..ch.pos].to_vec());
                                }
                                if let Err(msg) = r {
                                    let cs = ch.choices[..ch.pos.min(ch.choices.len())].to_vec();
                                    let mut is_known = false;
                                    if !known.is_empty() {
                                        let (tr, _) = trace_of(sec, &cs, thorough);
                                        let text = format!("{} => {}", tr.join("; "), msg);
                                        for (ks, kc, what) in &known {
                                            if ks == &sec.name && &text == kc {
                                                is_known = true;
                                                let mut h = hits.lock().unwrap();
                                                match h.iter_mut().find(|x| &x.0 == what) {
                                                    Some(x) => x.1 += 1,
                                                    None => h.push((what.clone(), 1)),
                                                }
                                            }
                                        }
                                    }
                                    if !is_known && survey {
                                        let at = PANIC_AT.with(|p| p.borrow().clone());
                                        let class = if msg.starts_with('{') { msg.split('}').next().unwrap().to_string() } else { format!("{} [{}]", msg.split(|c: char| c.is_ascii_digit() || c == '"').next().unwrap_or(""), if msg.starts_with("panicked") { at } else { String::new() }) };
                                        let mut m = surveyed.lock().unwrap();
                                        let e = m.entry(class).or_insert((0, cs.clone(), msg.clone()));
                                        e.0 += 1;
                                        if cs.len() < e.1.len() {
                                            e.1 = cs.clone();
                                            e.2 = msg.clone();
                                        }
                                    } else if !is_known {
                                        founds.lock().unwrap().push(Found {
                                            section: sec.name.clone(),
                                            choices: cs,
                                            msg,
                                        });
                                        stop.store(true, Ordering::Relaxed);
                                        break;
                                    }
                                }
                                // odometer
                                let mut c = ch.choices;
                                c.truncate(ch.pos);
                                let mut i = c.len();
                                let mut advanced = false;
                                while i > plen {
                                    i -= 1;
                                    if c[i] + 1 < ch.arity[i] {
                                        c[i] += 1;
                                        c.truncate(i + 1);
                                        advanced = true;
                                        break;
                                    }
                                }
                                if !advanced {
                                    break;
                                }
                                choices = c;
                            }
                        }
                        flush(&mut local, &seen);
                    })
                    .unwrap();
            }
        });
        for (class, (n, cs, msg)) in surveyed.into_inner().unwrap() {
            let (t, _) = trace_of(sec, &cs, thorough);
            println!("SURVEY {} x{}\n    {}\n    => {}", class, n, t.join("; "), msg);
        }
        let mut fs = founds.into_inner().unwrap();
        fs.sort_by(|a, b| (a.choices.len(), &a.choices).cmp(&(b.choices.len(), &b.choices)));
        if let Some(f) = fs.into_iter().next() {
            found = Some(f);
        }
        for (w, n) in hits.into_inner().unwrap() {
            match known_hits.iter_mut().find(|x| x.0 == w) {
                Some(x) => x.1 += n,
                None => known_hits.push((w, n)),
            }
        }
        let st: usize = seen.iter().map(|s| s.lock().unwrap().len()).sum();
        let cap = capped.load(Ordering::Relaxed);
        exhaustive &= !cap && found.is_none();
        total_states += st as u64;
        total_trans += trans.load(Ordering::Relaxed);
        let tr = traces.load(Ordering::Relaxed);
        total_traces += tr;
        total_nontrivial += nontriv.load(Ordering::Relaxed);
        let mid_choices = mid.lock().unwrap().clone();
        if let Some(m) = mid_choices {
            if found.is_none() {
                let (t, r) = trace_of(sec, &m, thorough);
                samples.push(json!({"section": sec.name, "trace": t, "choices": m, "ok": r.is_ok()}));
            }
        }
        let line = json!({
            "section": sec.name, "bound": sec.bound, "traces": tr,
            "transitions": trans.load(Ordering::Relaxed), "distinct_states": st,
            "max_choices": maxdepth.load(Ordering::Relaxed), "capped": cap,
            "wall_s": t0.elapsed().as_secs_f64(),
        });
        println!(
            "  {:<28} traces={:<9} transitions={:<10} states={:<8} depth={:<3} {:.1}s{}",
            sec.name,
            tr,
            trans.load(Ordering::Relaxed),
            st,
            maxdepth.load(Ordering::Relaxed),
            t0.elapsed().as_secs_f64(),
            if cap { " CAPPED" } else { "" }
        );
        secs_json.push(line);
        if found.is_some() {
            violation = found;
            break;
        }
    }
    let mut code = 0;
    let mut nviol = 0;
    let mut vline = None;
    if let Some(f) = violation {
        let sec = sections.iter().find(|s| s.name == f.section).unwrap();
        // Replay before believing it.
        let mut reproduced = false;
        let mut tr = Vec::new();
        for _ in 0..3 {
            let (t, r) = trace_of(sec, &f.choices, thorough);
            if r.is_err() {
                reproduced = true;
                tr = t;
                break;
            }
        }
        if f.msg.contains("ENGINE:") || !reproduced {
            println!(
                "ENGINE-ERROR property={} section={} {} (reproduced={})",
                opts.property, f.section, f.msg, reproduced
            );
            leave(2);
        }
        let dir = format!("{}/build/replay", verif_dir());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}.json", dir, opts.property);
        let v = json!({"property": opts.property, "section": f.section, "choices": f.choices,
            "message": f.msg, "trace": tr, "thorough": thorough,
            "case": format!("{} => {}", tr.join("; "), f.msg)});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
        println!("counterexample in section {}:", f.section);
        for t in &tr {
            println!("    {}", t);
        }
        println!("    => {}", f.msg);
        vline = Some(format!("VIOLATION property={} replay={}", opts.property, path));
        code = 1;
        nviol = 1;
    }
    for (w, n) in &known_hits {
        println!("KNOWN-FINDING: property={} {} ({} executions)", opts.property, w, n);
    }
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let rule = "every choice sequence within the stated bounds is executed on the real code; a case counts as distinct by the hash of the observable outcome it reaches";
    let coverage = if opts.level == "model_checking" {
        json!({
            "states": total_states,
            "transitions": total_trans,
            "traces_validated_against_impl": total_traces,
            "samples": samples, "sections": secs_json, "exhaustive": exhaustive,
        })
    } else {
        json!({
            "evaluations": total_traces,
            "distinct_nontrivial": total_states.max(total_nontrivial),
            "rule": rule,
            "operations_executed": total_trans,
            "samples": samples, "sections": secs_json, "exhaustive": exhaustive,
        })
    };
    let ev = json!({
        "property": opts.property,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": opts.level,
        "coverage": coverage,
        "assumptions": opts.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": nviol,
    });
    if only.is_none() {
        let dir = format!("{}/evidence", verif_dir());
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(
            format!("{}/{}.json", dir, opts.property),
            serde_json::to_string_pretty(&ev).unwrap(),
        )
        .expect("write evidence");
    }
    println!(
        "{} {}: states={} transitions={} traces={} exhaustive={} {:.1}s",
        opts.property,
        if code == 0 { "held" } else { "VIOLATED" },
        total_states,
        total_trans,
        total_traces,
        exhaustive,
        start.elapsed().as_secs_f64()
    );
    if let Some(l) = vline {
        println!("{}", l);
    }
    leave(code);
}

fn flush(local: &mut HashSet<u64>, seen: &[Mutex<HashSet<u64>>]) {
    let mut parts: Vec<Vec<u64>> = vec![Vec::new(); 64];
    for h in local.drain() {
        parts[(h & 63) as usize].push(h);
    }
    for (i, p) in parts.into_iter().enumerate() {
        if !p.is_empty() {
            seen[i].lock().unwrap().extend(p);
        }
    }
}

fn replay(path: &str, sections: &[Section], thorough: bool) -> ! {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).unwrap();
    let sec = sections.iter().find(|s| s.name == v["section"].as_str().unwrap()).expect("section");
    let choices: Vec<u32> =
        v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
    let th = v["thorough"].as_bool().unwrap_or(thorough);
    let (t, r) = trace_of(sec, &choices, th);
    for l in &t {
        println!("    {}", l);
    }
    match r {
        Ok(()) => {
            println!("replay: no violation");
            leave(0)
        }
        Err(e) => {
            println!("    => {}", e);
            println!("VIOLATION property={} replay={}", v["property"].as_str().unwrap_or("?"), path);
            leave(1)
        }
    }
}

/// A directory for this run's files, removed when the run ends.
pub fn scratch() -> String {
    SCRATCH
        .get_or_init(|| {
            let base = if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
            let d = format!("{}/xi-verif-{}", base, std::process::id());
            std::fs::create_dir_all(&d).expect("ENGINE: scratch directory");
            d
        })
        .clone()
}
static SCRATCH: std::sync::OnceLock<String> = std::sync::OnceLock::new();
fn leave(code: i32) -> ! {
    if let Some(d) = SCRATCH.get() {
        let _ = std::fs::remove_dir_all(d);
    }
    use std::io::Write;
    let _ = std::io::stdout().flush();
    // not exit(): it takes the unwinder away from threads that are still exploring
    extern "C" {
        fn _exit(code: i32) -> !;
    }
    unsafe { _exit(code) }
}
