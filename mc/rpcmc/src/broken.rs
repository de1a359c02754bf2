//! C24: connections that end or break.
use crate::world::*;
use mccommon::*;
use serde_json::{json, Value};
use xi_shim::sched;

#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
    Eof,
    Broken,
    NotJson,
    NotObject,
    Unknown,
    Panic,
    IdlePanic,
}

impl End {
    fn give(self, w: &W) {
        match self {
            End::Eof => {}
            End::Broken => w.push(Item::Broken),
            End::NotJson => w.push(Item::Bytes(b"{\"method\": \n".to_vec())),
            End::NotObject => w.push(Item::Bytes(b"[1]\n".to_vec())),
            End::Unknown => w.line(&json!({"method": "what"})),
            End::Panic => w.line(&json!({"method": "act", "params": [["panic"]]})),
            End::IdlePanic => w.line(&json!({"method": "act", "params": [["idle", 66]]})),
        }
        w.eof();
    }
    fn want(self) -> &'static str {
        match self {
            End::Eof => "ok",
            End::Broken => "io",
            End::NotJson => "json",
            End::NotObject => "not an object",
            End::Unknown => "unknown",
            End::Panic => "panicked: handler panic",
            End::IdlePanic => "panicked: idle panic",
        }
    }
}
const ENDS: [End; 7] = [End::Eof, End::Broken, End::NotJson, End::NotObject, End::Unknown, End::Panic, End::IdlePanic];

/// Every request that was made got exactly one answer.
fn all_answered(w: &W, lost: &dyn Fn(&str) -> bool) -> Res {
    sched::quiesce();
    let ev = w.events();
    sched::state(hash_of(&format!("{:?}", ev)));
    for e in &ev {
        if let Ev::Asked(m) = e {
            let got: Vec<String> = ev
                .iter()
                .filter_map(|e| match e {
                    Ev::Callback(a, b) | Ev::Sync(a, b) if a == m => Some(b.clone()),
                    _ => None,
                })
                .collect();
            ensure!(got.len() == 1, "request {} was made once and got the answers {:?}", m, got);
            ensure!(
                got[0] == want_answer(m) && !m.starts_with('x') || got[0] == "disconnected" || lost(&got[0]),
                "request {} got the answer {:?}", m, got[0]
            );
        }
    }
    Ok(())
}

fn some() -> Responder {
    // what starts with x is never answered
    Box::new(|v, out| {
        if let (Some(id), Some(m)) = (v.get("id"), v["method"].as_str()) {
            if m.starts_with('z') {
                out.push(json!({"id": id, "result": 1, "error": 2}));
            } else if m.starts_with('y') {
                out.push(json!({"id": id, "error": [1]}));
            } else if !m.starts_with('x') {
                out.push(answer(id, m));
            }
        }
    })
}

/// The connection ends while requests are under way.
fn ends(ch: &mut Ch, ends: &[End], delays: usize, workers: usize) -> Res {
    let end = *ch.of(ends);
    let inner = match ch.pick(4) {
        0 => vec![],
        1 => vec![json!({"method": "act", "params": [["sync", "xm"]]})],
        2 => vec![json!({"id": 4, "method": "do", "params": [["async", "xn"], ["sync", "m"]]})],
        _ => vec![json!({"method": "act", "params": [["async", "am", [["async", "x2"]]]]})],
    };
    let mut plans = vec![];
    let mut least = 0;
    for k in 0..workers {
        least = ch.range(least, 3);
        plans.push(match least {
            0 => vec![json!(["sync", format!("xw{}", k)])],
            1 => vec![json!(["sync", format!("w{}", k)]), json!(["async", format!("xv{}", k)])],
            2 => vec![json!(["async", format!("xa{}", k), [["async", format!("xb{}", k)], ["say", "bye"]]])],
            _ => vec![json!(["sync", format!("xs{}", k)]), json!(["sync", format!("t{}", k)])],
        });
    }
    let late = ch.flip();
    ch.log(|| format!("ends by {:?}; messages {:?}; threads {:?}; the threads start {}", end, inner, plans, if late { "after the loop is over" } else { "with it" }));
    sched::execute_delays(ch, delays, move || {
        let w = World::new(1000);
        *w.respond.lock().unwrap() = Some(some());
        for m in &inner {
            w.line(m);
        }
        // the answers come before the end or not, as the other side likes
        let (p, h) = mainloop(&w, false);
        let go = |w: &W| plans.iter().enumerate().map(|(k, a)| worker(w, &p, &format!("w{}", k), a.clone())).collect::<Vec<_>>();
        let mut hs = vec![];
        if !late {
            hs = go(&w);
        }
        end.give(&w);
        let r = join(h).unwrap_or_else(|e| e);
        if late {
            hs = go(&w);
        }
        for h in hs {
            join(h)?;
        }
        ensure_eq!(r, end.want(), "result of the loop");
        all_answered(&w, &|_| false)?;
        whole_lines(&w)
    })
}

/// The application's state is behind one lock, which is held while messages are handled and while requests are
/// sent, and which callbacks take.
fn locks(ch: &mut Ch, delays: usize) -> Res {
    let end = *ch.of(&[End::Eof, End::Broken, End::Unknown, End::Panic]);
    let m = match ch.pick(3) {
        0 => vec![],
        1 => vec![json!({"method": "act", "params": [["async", "xm", [["touch"]]]]})],
        _ => vec![json!({"method": "act", "params": [["async", "m", [["touch"], ["async", "xk", [["touch"]]]]]]})],
    };
    let wa = match ch.pick(4) {
        0 => json!([["locked", [["async", "xw", [["touch"]]]]]]),
        1 => json!([["locked", [["async", "w", [["touch"]]]]]]),
        2 => json!([["locked", [["async", "xw", [["touch"]]], ["async", "xv", [["touch"]]], ["say", "n"]]]]),
        _ => json!([["locked", [["async", "xw", [["locked", [["async", "xz", [["touch"]]]]]]]]]]),
    };
    let fail = *ch.of(&[None, Some(0), Some(1)]);
    ch.log(|| format!("ends by {:?}; messages {:?}; thread {}; writing fails from {:?}", end, m, wa, fail));
    sched::execute_delays(ch, delays, move || {
        let w = World::new(1000);
        *w.fail_from.lock().unwrap() = fail;
        *w.respond.lock().unwrap() = Some(some());
        for x in &m {
            w.line(x);
        }
        let (p, h) = mainloop(&w, true);
        let a = worker(&w, &p, "worker", wa.as_array().unwrap().clone());
        end.give(&w);
        let r = join(h).unwrap_or_else(|e| e);
        join(a)?;
        ensure_eq!(r, end.want(), "result of the loop");
        all_answered(&w, &|s| fail.is_some() && s == "io")
    })
}

/// Writing fails from some point on.
fn writing(ch: &mut Ch, delays: usize) -> Res {
    let fail = ch.range(0, 4);
    let chunk = *ch.of(&[1000, 20]);
    let plan = match ch.pick(3) {
        0 => json!([["sync", "a"], ["sync", "b"]]),
        1 => json!([["async", "a", [["async", "c"], ["say", "d"]]], ["sync", "b"]]),
        _ => json!([["say", "n"], ["async", "xa", [["sync", "c"]]]]),
    };
    let msg = match ch.pick(2) {
        0 => json!({"id": 1, "method": "do", "params": [["sync", "m"]]}),
        _ => json!({"id": 1, "method": "do", "params": [["async", "m", [["say", "k"]]]]}),
    };
    // a callback on the read loop must not wait for an answer
    if plan[1][2].is_array() && fail > 1 {
        return Ok(());
    }
    ch.log(|| format!("writing fails from call {} on (pieces of {}); thread {}; message {}", fail, chunk, plan, msg));
    sched::execute_delays(ch, delays, move || {
        let w = World::new(chunk);
        *w.fail_from.lock().unwrap() = Some(fail);
        *w.respond.lock().unwrap() = Some(some());
        w.line(&msg);
        let (p, h) = mainloop(&w, false);
        let a = worker(&w, &p, "worker", plan.as_array().unwrap().clone());
        w.eof();
        let r = join(h).unwrap_or_else(|e| e);
        join(a)?;
        ensure_eq!(r, "ok", "result of the loop");
        all_answered(&w, &|s| s == "io")
    })
}

/// Answers that make no sense.
fn nonsense(ch: &mut Ch, delays: usize) -> Res {
    let junk = [
        json!({"id": -1, "result": 1}),
        json!({"id": "0", "result": 1}),
        json!({"id": 0.5, "error": 1}),
        json!({"id": null, "result": 1}),
        json!({"id": 77, "result": 1}),
        json!({"id": 0}),
        json!({"id": {}, "error": {}}),
        json!({"id": 1, "result": 5, "method": null}),
    ];
    let j: Vec<Value> = (0..2).map(|_| ch.of(&junk).clone()).collect();
    let m = *ch.of(&["a", "ea", "za", "ya"]);
    ch.log(|| format!("{:?}, then a request {}", j, m));
    sched::execute_delays(ch, delays, move || {
        let w = World::new(1000);
        *w.respond.lock().unwrap() = Some(some());
        for x in &j {
            w.line(x);
        }
        w.line(&json!({"method": "note", "params": "n"}));
        let (p, h) = mainloop(&w, false);
        let a = worker(&w, &p, "worker", vec![json!(["sync", m])]);
        join(a)?;
        w.line(&json!({"method": "bye", "params": 0}));
        ensure_eq!(join(h)?, "ok", "result of the loop");
        // an answer without result or error, or with both, fails the request with the id it names
        let stray = j.iter().any(|v| v["id"] == 0);
        let ev = w.events();
        ensure!(ev.contains(&Ev::Start("n".into())), "a message after the junk was not handled");
        let got: Vec<String> = ev.iter().filter_map(|e| if let Ev::Sync(_, r) = e { Some(r.clone()) } else { None }).collect();
        ensure!(got.len() == 1, "answers to the request: {:?}", got);
        let want = match &m[..1] {
            "z" => "invalid".to_string(),
            "y" => "error".into(),
            _ => want_answer(m),
        };
        ensure!(got[0] == want || stray && got[0] == "invalid", "the request {} got {:?}", m, got[0]);
        sched::state(hash_of(&format!("{:?}", ev)));
        Ok(())
    })
}

/// The same loop is used for one connection after another.
fn again(ch: &mut Ch, delays: usize) -> Res {
    let end = *ch.of(&[End::Eof, End::NotJson, End::Unknown]);
    let pre = ch.flip();
    sched::execute_delays(ch, delays, move || {
        use xi_rpc::RpcLoop;
        let w = World::new(1000);
        *w.respond.lock().unwrap() = Some(some());
        let mut l = RpcLoop::new(Out(w.clone()));
        let p = l.get_raw_peer();
        if pre {
            // before the loop runs
            act(&w, &(Box::new(p.clone()) as xi_rpc::RpcPeer), "main", &[json!(["async", "before"])]);
        }
        for round in 0..2 {
            w.input.lock().unwrap().eof = false;
            let mut h = H(w.clone(), false);
            w.line(&json!({"id": round, "method": "do", "params": [["async", format!("r{}", round)]]}));
            end.give(&w);
            let _ = l.mainloop(|| In::new(&w), &mut h);
            w.input.lock().unwrap().q.clear();
        }
        all_answered(&w, &|_| false)?;
        let done = w.out.lock().unwrap().iter().filter(|l| l.contains("done do")).count();
        ensure_eq!(done, 2, "answered requests");
        Ok(())
    })
}

pub fn run() -> ! {
    let k = if is_thorough() { 1 } else { 0 };
    let secs = vec![
        section("ends", "7 ways to end with a message and a thread that have requests outstanding; up to 2 (thorough: 3) delays", move |ch| ends(ch, &ENDS, 2 + k, 1)),
        section("two threads", "the same with two threads; up to 1 (thorough: 2) delays", move |ch| ends(ch, &ENDS[..6], 1 + k, 2)),
        section("locks", "callbacks take the lock under which requests are sent; up to 2 (thorough: 3) delays", move |ch| locks(ch, 2 + k)),
        section("writing", "writing fails from every point on; up to 2 (thorough: 3) delays", move |ch| writing(ch, 2 + k)),
        section("nonsense", "every two malformed or unexpected answers; up to 1 (thorough: 2) delays", move |ch| nonsense(ch, 1 + k)),
        section("again", "two connections one after the other; up to 2 (thorough: 3) delays", move |ch| again(ch, 2 + k)),
    ];
    mccommon::run(Opts { property: "C24".into(), level: "model_checking".into(), assumptions: vec!["sequential consistency".into()], single_thread: false }, secs)
}
