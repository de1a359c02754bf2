//! C23: order, answers, routing, idle work and timers.
use crate::world::*;
use mccommon::*;
use serde_json::{json, Value};
use xi_shim::sched;

fn main_events(w: &W) -> Vec<Ev> {
    w.events().into_iter().filter(|e| matches!(e, Ev::Start(_) | Ev::End(_) | Ev::Idle(_) | Ev::Sync(..))).collect()
}

/// Messages are handled in order, and each request is answered once.
fn order(ch: &mut Ch, n: usize, preempt: usize) -> Res {
    let chunk = *ch.of(&[1000, 9]);
    let joined = ch.flip();
    let mut script: Vec<Value> = vec![];
    let mut want_ev = vec![];
    let mut want_out: Vec<Value> = vec![];
    let mut asked = vec![];
    for i in 0..n {
        let s = format!("m{} é", i);
        let id = 100 + i;
        let handled = |want: &mut Vec<Ev>, s: &str, inner: Vec<Ev>| {
            want.push(Ev::Start(s.into()));
            want.extend(inner);
            want.push(Ev::End(s.into()));
        };
        match ch.pick(10) {
            0 => {
                script.push(json!({"method": "note", "params": s}));
                handled(&mut want_ev, &s, vec![]);
            }
            1 => {
                script.push(json!({"id": id, "method": "req", "params": s}));
                handled(&mut want_ev, &s, vec![]);
                want_out.push(json!({"id": id, "result": format!("done {}", s)}));
            }
            2 => {
                script.push(json!({"id": id, "method": "fail", "params": s}));
                handled(&mut want_ev, &s, vec![]);
                want_out.push(json!({"id": id, "error": {"code": 5, "message": format!("failed {}", s)}}));
            }
            3 => {
                script.push(json!({"id": id, "method": "nope", "params": s}));
                want_out.push(json!({"id": id, "error": -32600}));
            }
            4 => {
                // a notification may not carry an id
                script.push(json!({"id": id, "method": "note", "params": s}));
                want_out.push(json!({"id": id, "error": -32600}));
            }
            5 => script.push(json!({"id": 9999, "result": s})),
            6 => script.push(json!({"id": 9998, "result": s, "error": 1})),
            7 => script.push(json!({"id": "x", "result": s})),
            8 => {
                let a = json!([["sync", s.clone()], ["say", s.clone()]]);
                script.push(json!({"id": id, "method": "do", "params": a}));
                handled(&mut want_ev, &format!("do {}", a), vec![Ev::Sync(s.clone(), want_answer(&s))]);
                want_out.push(json!({"method": s, "params": "main"}));
                want_out.push(json!({"id": id, "result": "done do"}));
                asked.push(s);
            }
            _ => {
                let s = format!("e{}", i);
                let a = json!([["async", s.clone()], ["sync", "q"]]);
                script.push(json!({"method": "act", "params": a}));
                handled(&mut want_ev, &format!("act {}", a), vec![Ev::Sync("q".into(), want_answer("q"))]);
                asked.push(s);
                asked.push("q".into());
            }
        }
    }
    let a = ["bye".to_string()];
    want_ev.push(Ev::Start(a[0].clone()));
    want_ev.push(Ev::End(a[0].clone()));
    for m in &script {
        ch.log(|| m.to_string());
    }
    sched::execute(ch, preempt, move || {
        let w = World::new(chunk);
        *w.respond.lock().unwrap() = Some(prompt());
        script.push(json!({"method": "bye", "params": 0}));
        if joined {
            let all: String = script.iter().map(|v| format!("{}\n", v)).collect();
            w.push(Item::Bytes(all.into_bytes()));
        } else {
            for m in &script {
                w.line(m);
            }
        }
        let (_p, h) = mainloop(&w, false);
        let end = join(h)?;
        ensure_eq!(end, "ok", "result of the loop");
        ensure_eq!(main_events(&w), want_ev, "what the handler saw");
        whole_lines(&w)?;
        sched::state(hash_of(&format!("{:?} {:?}", w.events(), w.out.lock().unwrap())));
        let mut out: Vec<Value> = w.out.lock().unwrap().iter().map(|l| serde_json::from_str(l).unwrap()).collect();
        // requests of our own
        let mut ids: Vec<u64> = vec![];
        let mut got = vec![];
        out.retain(|v| {
            let own = v.get("id").is_some() && v.get("method").is_some();
            if own {
                ids.push(v["id"].as_u64().unwrap());
                got.push(v["method"].as_str().unwrap().to_string());
            }
            !own
        });
        ensure_eq!(got, asked, "requests on the wire");
        let k = ids.len();
        ids.sort();
        ids.dedup();
        ensure!(ids.len() == k, "two requests share an id");
        ensure_eq!(out.len(), want_out.len(), "answers and notifications on the wire ({:?})", out);
        for (o, m) in out.iter().zip(&want_out) {
            if m["error"] == -32600 {
                ensure!(o["id"] == m["id"] && o["error"]["code"] == -32600 && o.get("result").is_none(), "answer {} to a request that cannot be understood", o);
            } else {
                ensure_eq!(o, m, "a message on the wire");
            }
        }
        let cb: Vec<Ev> = w.events().into_iter().filter(|e| matches!(e, Ev::Callback(..))).collect();
        let want_cb: Vec<Ev> = asked.iter().filter(|s| s.starts_with('e')).map(|s| Ev::Callback(s.clone(), want_answer(s))).collect();
        ensure_eq!(cb, want_cb, "callbacks");
        Ok(())
    })?;
    Ok(())
}

/// Several threads have requests outstanding; the answers come in any order.
fn requests(ch: &mut Ch, workers: usize, preempt: usize) -> Res {
    let mut plans = vec![];
    let mut least = 0;
    for k in 0..workers {
        // the threads are interchangeable
        least = ch.range(least, 3);
        let a = match least {
            0 => json!([["sync", format!("a{}", k)]]),
            1 => json!([["async", format!("b{}", k)], ["sync", format!("e{}", k)]]),
            2 => json!([["sync", format!("e{}", k)], ["say", "n"]]),
            _ => json!([["async", format!("e{}", k), [["say", "c"]]]]),
        };
        ch.log(|| format!("w{}: {}", k, a));
        plans.push(a.as_array().unwrap().clone());
    }
    let chunk = 1000;
    let hold = ch.range(1, 2);
    let mut want: Vec<(String, String)> = plans.iter().flatten().filter(|a| a[0] != "say").map(|a| a[1].as_str().unwrap()).map(|m| (m.to_string(), want_answer(m))).collect();
    want.sort();
    sched::execute_delays(ch, preempt, move || {
        let w = World::new(chunk);
        // answers are held back until several requests wait, or nobody else can ask
        let total = want.len();
        let mut seen = 0;
        let mut held: Vec<Value> = vec![];
        let firsts = plans.len();
        *w.respond.lock().unwrap() = Some(Box::new(move |v, out| {
            if let (Some(id), Some(m)) = (v.get("id"), v["method"].as_str()) {
                held.push(answer(id, m));
                seen += 1;
                if held.len() >= hold.min(firsts) || seen == total {
                    while !held.is_empty() {
                        let k = sched::pick(held.len());
                        out.push(held.remove(k));
                        if held.len() == 1 && seen < total {
                            // one may stay unanswered while another thread goes on
                            if sched::pick(2) == 0 {
                                break;
                            }
                        }
                    }
                }
            }
        }));
        let (p, h) = mainloop(&w, false);
        let hs: Vec<_> = plans.iter().enumerate().map(|(k, a)| worker(&w, &p, &format!("w{}", k), a.clone())).collect();
        let mut stuck = false;
        for h in hs {
            // a thread may wait for an answer that is only given on another request: then all answers are in
            let _ = &mut stuck;
            join(h)?;
        }
        while w.events().iter().filter(|e| matches!(e, Ev::Callback(..) | Ev::Sync(..))).count() < total {
            xi_shim::thread::sleep(std::time::Duration::from_millis(1));
        }
        w.eof();
        let end = join(h)?;
        ensure_eq!(end, "ok", "result of the loop");
        whole_lines(&w)?;
        sched::state(hash_of(&format!("{:?} {:?}", w.events(), w.out.lock().unwrap())));
        let mut got: Vec<(String, String)> = w
            .events()
            .into_iter()
            .filter_map(|e| match e {
                Ev::Callback(a, b) | Ev::Sync(a, b) => Some((a, b)),
                _ => None,
            })
            .collect();
        got.sort();
        ensure_eq!(got, want, "answers that reached the threads");
        Ok(())
    })?;
    Ok(())
}

/// Threads write at the same time.
fn writers(ch: &mut Ch, preempt: usize) -> Res {
    let chunk = *ch.of(&[10, 25]);
    let say = |t: &str, n: usize| (0..n).map(|i| json!(["say", format!("{}{}", t, i)])).collect::<Vec<_>>();
    let n = ch.range(1, 2);
    sched::execute_delays(ch, preempt, move || {
        let w = World::new(chunk);
        let (p, h) = mainloop(&w, false);
        w.line(&json!({"id": 1, "method": "do", "params": say("m", 1)}));
        let a = worker(&w, &p, "a", say("a", n));
        let b = worker(&w, &p, "b", say("b", 2));
        join(a)?;
        join(b)?;
        w.line(&json!({"method": "bye", "params": 0}));
        ensure_eq!(join(h)?, "ok", "result of the loop");
        whole_lines(&w)?;
        sched::state(hash_of(&format!("{:?} {:?}", w.events(), w.out.lock().unwrap())));
        let out: Vec<Value> = w.out.lock().unwrap().iter().map(|l| serde_json::from_str(l).unwrap()).collect();
        ensure_eq!(out.len(), n + 4, "messages on the wire");
        for (t, k) in [("a", n), ("b", 2), ("m", 1)] {
            let ms: Vec<String> = out.iter().filter_map(|v| v["method"].as_str()).filter(|m| m.starts_with(t)).map(|m| m.to_string()).collect();
            ensure_eq!(ms, (0..k).map(|i| format!("{}{}", t, i)).collect::<Vec<_>>(), "order of one thread's messages");
        }
        Ok(())
    })?;
    Ok(())
}

/// Idle work and timers.
fn idle(ch: &mut Ch, msgs: usize, preempt: usize) -> Res {
    let mut script = vec![];
    let mut tokens = 0;
    let kinds = |k: usize, base: usize| -> (Vec<Value>, usize) {
        match k {
            0 => (vec![json!(["idle", base])], 1),
            1 => (vec![json!(["idle", base]), json!(["idle", base + 1])], 2),
            2 => (vec![json!(["timer", base, 3000])], 1),
            3 => (vec![json!(["timer", base, 9000]), json!(["timer", base + 1, 4000])], 2),
            4 => (vec![json!(["idle", base + 100])], 2),
            5 => (vec![json!(["timer", base, 0]), json!(["idle", base + 1])], 2),
            _ => (vec![], 0),
        }
    };
    for i in 0..msgs {
        let (a, t) = kinds(ch.pick(7), 10 * (i + 1));
        tokens += t;
        script.push(if a.is_empty() { json!({"method": "note", "params": format!("n{}", i)}) } else { json!({"method": "act", "params": a}) });
    }
    let (wa, t) = kinds(ch.pick(7), 50);
    tokens += t;
    for m in &script {
        ch.log(|| m.to_string());
    }
    ch.log(|| format!("worker {:?}", wa));
    if tokens == 0 {
        return Ok(());
    }
    let nm = script.len();
    sched::execute(ch, preempt, move || {
        let w = World::new(1000);
        *w.expect_tokens.lock().unwrap() = tokens;
        for m in &script {
            w.line(m);
        }
        let (p, h) = mainloop(&w, false);
        let a = worker(&w, &p, "worker", wa);
        join(a)?;
        ensure_eq!(join(h)?, "ok", "result of the loop");
        let ev = w.events();
        sched::state(hash_of(&format!("{:?}", ev)));
        let mut fired = vec![];
        let mut handled = 0;
        // messages that were handed over when the handler returned last
        let mut due = 0;
        let mut given = 0;
        // (tag, token, time) handed over when the handler returned last
        let mut sched_: Vec<(String, usize, Option<xi_shim::time::Instant>)> = vec![];
        let mut known = 0;
        for e in &ev {
            match e {
                Ev::Reading(k) => given = *k,
                Ev::Start(_) => handled += 1,
                Ev::End(_) | Ev::IdleEnd(_) => {
                    due = given;
                    known = sched_.len();
                }
                Ev::Sched(t, k, at) => sched_.push((t.clone(), *k, *at)),
                Ev::Idle(k) => {
                    ensure!(handled >= due, "idle work (token {}) goes before message {} which was read already", k, handled);
                    let (tag, _, at) = sched_.iter().find(|s| s.1 == *k).ok_or(format!("token {} was never scheduled", k))?.clone();
                    ensure!(!fired.contains(k), "token {} fires twice", k);
                    match at {
                        None => {
                            for (t, o, a) in &sched_ {
                                if t == &tag && a.is_none() && !fired.contains(o) && o != k {
                                    let (io, ik) = (sched_.iter().position(|s| s.1 == *o), sched_.iter().position(|s| s.1 == *k));
                                    ensure!(io > ik, "idle token {} goes before {}, which was scheduled earlier", k, o);
                                }
                            }
                        }
                        Some(at) => {
                            for (_, o, a) in sched_.iter().take(known) {
                                if let Some(a) = a {
                                    // handed over for certain, and due earlier
                                    ensure!(fired.contains(o) || *a >= at || o == k || *o >= 50, "the timer {} fires before {}, which is due earlier", k, o);
                                }
                            }
                        }
                    }
                    fired.push(*k);
                }
                Ev::At(k, now) => {
                    if let Some((_, _, Some(at))) = sched_.iter().find(|s| s.1 == *k) {
                        ensure!(now >= at, "timer {} fires too early", k);
                    }
                }
                _ => {}
            }
        }
        ensure_eq!(fired.len(), tokens, "tokens that fired");
        ensure_eq!(handled, nm, "messages that were handled");
        Ok(())
    })?;
    Ok(())
}

/// Input arrives in pieces.
fn pieces(ch: &mut Ch) -> Res {
    let text = "{\"method\":\"note\",\"params\":\"é🌍\"}\n{\"id\": 3,\r\t\"method\":\"req\",\"params\":\"\\n\"}\r\n{\"method\":\"bye\",\"params\":0}\n";
    let a = ch.range(1, text.len() - 1);
    let b = ch.range(a, text.len() - 1);
    let last = ch.flip();
    ch.log(|| format!("cut at {} and {}", a, b));
    sched::execute(ch, 0, move || {
        let w = World::new(1000);
        // the end of the input may come without a line break
        let t = if last { text } else { &text[..text.len() - 1] };
        for p in [&t.as_bytes()[..a], &t.as_bytes()[a..b], &t.as_bytes()[b..]] {
            if !p.is_empty() {
                w.push(Item::Bytes(p.to_vec()));
            }
        }
        if !last {
            w.eof();
        }
        let (_, h) = mainloop(&w, false);
        ensure_eq!(join(h)?, "ok", "result of the loop");
        let s: Vec<String> = w.events().into_iter().filter_map(|e| if let Ev::Start(s) = e { Some(s) } else { None }).collect();
        ensure_eq!(s, vec!["é🌍".to_string(), "\n".into(), "bye".into()], "messages");
        ensure_eq!(*w.out.lock().unwrap(), vec!["{\"id\":3,\"result\":\"done \\n\"}".to_string()], "answers");
        Ok(())
    })?;
    ch.state(&(a, b));
    Ok(())
}

pub fn run() -> ! {
    let t = is_thorough();
    let k = if t { 1 } else { 0 };
    let secs = vec![
        section("one message", "10 kinds of messages, written whole or in pieces; all schedules with up to 2 (thorough: 3) preemptions", move |ch| order(ch, 1, 2 + k)),
        section("two messages", "every two of 10 kinds; up to 1 (thorough: 2) preemptions", move |ch| order(ch, 2, 1 + k)),
        section("three messages", "every three of 10 kinds; up to 0 (thorough: 1) preemptions", move |ch| order(ch, 3, k)),
        section("requests", "two threads with requests outstanding, answers in every order; up to 2 (thorough: 3) delays", move |ch| requests(ch, 2, 2 + k)),
        section("three threads", "three threads with requests outstanding; up to 1 (thorough: 2) delays", move |ch| requests(ch, 3, 1 + k)),
        section("writers", "three threads writing in pieces; up to 2 (thorough: 3) delays", move |ch| writers(ch, 2 + k)),
        section("idle", "every two messages and another thread that schedule idle work or timers; up to 1 (thorough: 2) preemptions", move |ch| idle(ch, 2, 1 + k)),
        section("pieces", "three messages whose bytes arrive in three pieces, every two cuts", pieces),
    ];
    mccommon::run(Opts { property: "C23".into(), level: "model_checking".into(), assumptions: vec!["sequential consistency".into()], single_thread: false }, secs)
}
