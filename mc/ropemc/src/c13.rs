//! C13: peers that exchange their edits end with the same text, containing exactly what was inserted and not deleted.
use crate::util::*;
use mccommon::*;
use std::collections::BTreeSet;
use xi_rope::engine::Engine;
use xi_rope::{Delta, Rope};

struct Peer {
    e: Engine,
    /// characters this peer knows to be deleted / inserted
    known: BTreeSet<char>,
    gone: BTreeSet<char>,
}

/// Every order of session numbers among three peers.
const SESS: [[u64; 3]; 6] = [[7, 10, 8], [7, 8, 10], [10, 7, 8], [8, 10, 7], [8, 7, 10], [10, 8, 7]];

fn peers(n: usize, init: &str, sess: usize) -> Vec<Peer> {
    let mut v: Vec<Peer> = Vec::new();
    for i in 0..n {
        let mut e = Engine::empty();
        e.set_session_id((SESS[sess][i], i as u32));
        if i == 0 {
            let t = e.get_head_rev_id().token();
            e.edit_rev(1, 1, t, Delta::simple_edit(0..0, Rope::from(init), 0));
        } else {
            e.merge(&v[0].e);
        }
        v.push(Peer { e, known: init.chars().collect(), gone: BTreeSet::new() });
    }
    v
}

fn check(p: &Peer, orders: &[String]) -> Res {
    let t = text(p.e.get_head());
    let got: BTreeSet<char> = t.chars().collect();
    let exp: BTreeSet<char> = p.known.difference(&p.gone).copied().collect();
    ensure!(t.chars().count() == got.len(), "a character appears twice in {:?}", t);
    ensure!(got == exp, "text {:?} should hold exactly {:?}", t, exp);
    for o in orders {
        // characters that some peer has seen side by side keep their order
        let common: Vec<char> = o.chars().filter(|c| got.contains(c)).collect();
        let here: Vec<char> = t.chars().filter(|c| o.contains(*c)).collect();
        ensure!(common == here, "{:?} reorders what a peer has seen as {:?}", t, o);
    }
    Ok(())
}

fn sync(n: usize, init: &'static str, steps: usize, prios: &'static [usize], rich: bool) -> impl Fn(&mut Ch) -> Res {
    move |ch| {
        let mut ps = peers(n, init, 0);
        let mut orders: Vec<String> = vec![init.to_string()];
        let mut next = 'A' as u8;
        ch.log(|| format!("{} peers share {:?}", n, init));
        for k in 0..steps {
            // edits first in the choice order; merges between different peers
            let c = ch.pick(n + n * (n - 1));
            ch.step();
            if c < n {
                let p = &mut ps[c];
                let t = text(p.e.get_head());
                let l = t.len();
                let mut opts: Vec<(usize, usize, bool)> = Vec::new();
                if rich {
                    for a in 0..=l {
                        opts.push((a, a, true));
                        if a < l {
                            opts.push((a, a + 1, false));
                            opts.push((a, a + 1, true));
                        }
                    }
                    if l > 1 {
                        opts.push((0, l, true));
                    }
                } else {
                    opts.push((l / 2, l / 2, true));
                    opts.push((l, l, true));
                    if l > 0 {
                        opts.push((0, 1, false));
                        opts.push((0, l, true));
                    }
                }
                let (a, b, ins) = *ch.of(&opts);
                let prio = *ch.of(prios);
                let s = if ins {
                    next += 1;
                    ((next - 1) as char).to_string()
                } else {
                    String::new()
                };
                ch.log(|| format!("peer {} ({:?}) replaces {}..{} by {:?} with priority {}", c, t, a, b, s, prio));
                for x in t[a..b].chars() {
                    p.gone.insert(x);
                }
                p.known.extend(s.chars());
                let tok = p.e.get_head_rev_id().token();
                p.e.try_edit_rev(prio, k + 2, tok, Delta::simple_edit(a..b, Rope::from(s.as_str()), l)).map_err(|e| format!("{}", e))?;
                let o = text(p.e.get_head());
                ensure_eq!(o, format!("{}{}{}", &t[..a], s, &t[b..]), "local edit");
                orders.push(o);
                check(&ps[c], &orders)?;
            } else {
                let (i, mut j) = ((c - n) / (n - 1), (c - n) % (n - 1));
                if j >= i {
                    j += 1;
                }
                ch.log(|| format!("peer {} ({:?}) takes the edits of peer {} ({:?})", i, text(ps[i].e.get_head()), j, text(ps[j].e.get_head())));
                merge(&mut ps, i, j);
                check(&ps[i], &orders)?;
                orders.push(text(ps[i].e.get_head()));
            }
            ch.state(&ps.iter().map(|p| text(p.e.get_head())).collect::<Vec<_>>());
        }
        // everyone takes everything, in one of the possible orders
        let order: Vec<usize> = if n == 2 { vec![0, 1] } else { ch.of(&[vec![0, 1, 2], vec![2, 0, 1], vec![1, 2, 0]]).clone() };
        ch.log(|| format!("everyone takes everything, starting with {:?}: {:?}", order, ps.iter().map(|p| text(p.e.get_head())).collect::<Vec<_>>()));
        for _ in 0..2 {
            for &i in &order {
                for &j in &order {
                    if i != j {
                        merge(&mut ps, i, j);
                        check(&ps[i], &orders)?;
                    }
                }
            }
        }
        let t0 = text(ps[0].e.get_head());
        for (i, p) in ps.iter().enumerate() {
            ensure_eq!(text(p.e.get_head()), t0, "text of peer {} after everyone has everything", i);
        }
        Ok(())
    }
}

/// Like `sync`, with edits made against any text a peer has had (as plugins do).
fn late(n: usize, init: &'static str, steps: usize, perms: usize, prios: &'static [usize]) -> impl Fn(&mut Ch) -> Res {
    move |ch| {
        let sess = ch.pick(perms);
        let mut ps = peers(n, init, sess);
        let mut orders: Vec<String> = vec![init.to_string()];
        let mut next = b'A';
        let mut revs: Vec<Vec<(u64, String)>> = ps.iter().map(|p| vec![(p.e.get_head_rev_id().token(), text(p.e.get_head()))]).collect();
        ch.log(|| format!("{} peers with sessions {:?} share {:?}", n, SESS[sess], init));
        for k in 0..steps {
            let c = ch.pick(n + n * (n - 1));
            ch.step();
            if c < n {
                let (tok, t) = revs[c][revs[c].len() - 1 - ch.pick(revs[c].len())].clone();
                let l = t.len();
                let mut opts = vec![(l / 2, l / 2, true), (l, l, true)];
                if l > 0 {
                    opts.push((0, 1, false));
                }
                let (a, b, ins) = *ch.of(&opts);
                let prio = *ch.of(prios);
                let s = if ins {
                    next += 1;
                    ((next - 1) as char).to_string()
                } else {
                    String::new()
                };
                ch.log(|| format!("peer {} replaces {}..{} of {:?} by {:?} with priority {}", c, a, b, t, s, prio));
                let p = &mut ps[c];
                p.gone.extend(t[a..b].chars());
                p.known.extend(s.chars());
                p.e.try_edit_rev(prio, k + 2, tok, Delta::simple_edit(a..b, Rope::from(s.as_str()), l)).map_err(|e| format!("{}", e))?;
                orders.push(format!("{}{}{}", &t[..a], s, &t[b..]));
                check(&ps[c], &orders)?;
                let p = &ps[c];
                orders.push(text(p.e.get_head()));
                revs[c].push((p.e.get_head_rev_id().token(), text(p.e.get_head())));
            } else {
                let (i, mut j) = ((c - n) / (n - 1), (c - n) % (n - 1));
                if j >= i {
                    j += 1;
                }
                ch.log(|| format!("peer {} ({:?}) takes the edits of peer {} ({:?})", i, text(ps[i].e.get_head()), j, text(ps[j].e.get_head())));
                merge(&mut ps, i, j);
                check(&ps[i], &orders)?;
                let t = text(ps[i].e.get_head());
                orders.push(t.clone());
                let tok = ps[i].e.get_head_rev_id().token();
                if revs[i].iter().all(|r| r.0 != tok) {
                    revs[i].push((tok, t));
                }
            }
            for i in 0..n {
                for (tok, t) in &revs[i] {
                    let r = ps[i].e.get_rev(*tok).ok_or("a revision is gone")?;
                    ensure_eq!(text(&r), *t, "an earlier text of peer {}", i);
                }
            }
            ch.state(&ps.iter().map(|p| text(p.e.get_head())).collect::<Vec<_>>());
        }
        for _ in 0..2 {
            for i in 0..n {
                for j in 0..n {
                    if i != j {
                        merge(&mut ps, i, j);
                        check(&ps[i], &orders)?;
                    }
                }
            }
        }
        let t0 = text(ps[0].e.get_head());
        for (i, p) in ps.iter().enumerate() {
            ensure_eq!(text(p.e.get_head()), t0, "text of peer {} after everyone has everything", i);
        }
        Ok(())
    }
}

/// Every peer makes up to `each` insertions from one common text, then any sequence of exchanges.
fn exchange(n: usize, each: usize, merges: usize, perms: usize, prios: &'static [usize]) -> impl Fn(&mut Ch) -> Res {
    move |ch| {
        let sess = ch.pick(perms);
        let mut ps = peers(n, "xy", sess);
        let mut orders: Vec<String> = vec!["xy".to_string()];
        let mut next = b'A';
        ch.log(|| format!("{} peers with sessions {:?} share \"xy\"", n, SESS[sess]));
        for i in 0..n {
            for k in 0..each {
                let t = text(ps[i].e.get_head());
                let l = t.len();
                let (a, b) = *ch.of(&[(1usize, 1usize), (1, 2), (0, 1)]);
                let prio = *ch.of(prios);
                let s = (next as char).to_string();
                next += 1;
                ch.step();
                ch.log(|| format!("peer {} ({:?}) replaces {}..{} by {:?} with priority {}", i, t, a, b, s, prio));
                for x in t[a..b].chars() {
                    ps[i].gone.insert(x);
                }
                ps[i].known.extend(s.chars());
                let tok = ps[i].e.get_head_rev_id().token();
                ps[i].e.try_edit_rev(prio, k + 2, tok, Delta::simple_edit(a..b, Rope::from(s.as_str()), l)).map_err(|e| format!("{}", e))?;
                orders.push(text(ps[i].e.get_head()));
            }
        }
        for _ in 0..merges {
            let i = ch.pick(n);
            let mut j = ch.pick(n - 1);
            if j >= i {
                j += 1;
            }
            ch.step();
            ch.log(|| format!("peer {} ({:?}) takes the edits of peer {} ({:?})", i, text(ps[i].e.get_head()), j, text(ps[j].e.get_head())));
            merge(&mut ps, i, j);
            check(&ps[i], &orders)?;
            orders.push(text(ps[i].e.get_head()));
            ch.state(&ps.iter().map(|p| text(p.e.get_head())).collect::<Vec<_>>());
        }
        // peers that hold the same edits hold the same text
        for i in 0..n {
            for j in 0..i {
                if ps[i].known == ps[j].known && ps[i].gone == ps[j].gone {
                    ensure_eq!(text(ps[i].e.get_head()), text(ps[j].e.get_head()), "texts of peers {} and {}, which hold the same edits", i, j);
                }
            }
        }
        Ok(())
    }
}

fn merge(ps: &mut Vec<Peer>, i: usize, j: usize) {
    let (known, gone) = (ps[j].known.clone(), ps[j].gone.clone());
    if i < j {
        let (a, b) = ps.split_at_mut(j);
        a[i].e.merge(&b[0].e);
    } else {
        let (a, b) = ps.split_at_mut(i);
        b[0].e.merge(&a[j].e);
    }
    ps[i].known.extend(known);
    ps[i].gone.extend(gone);
}

pub fn run() -> ! {
    let th = is_thorough();
    mccommon::run(
        opts("C13"),
        vec![
            section("two_rich", "2 peers, text of 2; 3 steps (4 thorough): any edit of one character or any merge; 2 priorities", sync(2, "ab", if th { 4 } else { 3 }, &[1, 2], true)),
            section("two_long", "2 peers, text of 1; 6 steps (7 thorough): 4 edits or any merge", sync(2, "a", if th { 7 } else { 6 }, &[1], false)),
            section("three", "3 peers, empty text; 4 steps (5 thorough): 4 edits or any merge", sync(3, "", if th { 5 } else { 4 }, &[1], false)),
            section("exchange", "3 peers in every session order, one edit each, every sequence of 5 exchanges (6 thorough)", exchange(3, 1, if th { 6 } else { 5 }, 6, &[1])),
            section("exchange_prio", "3 peers, one edit each with 2 priorities, every sequence of 4 exchanges (5 thorough)", exchange(3, 1, if th { 5 } else { 4 }, 6, &[1, 2])),
            section("exchange_two_edits", "2 peers, two edits each with 2 priorities, every sequence of 4 exchanges", exchange(2, 2, 4, 1, &[1, 2])),
            section("late_edits", "2 peers in either session order, text of 1; 5 steps: 3 edits of any text the peer has had, or any merge", late(2, "a", 5, 3, &[1])),
            section("late_edits_prio", "the same with 2 priorities, 4 steps (5 thorough)", late(2, "a", if th { 5 } else { 4 }, 3, &[1, 2])),
            section("three_prio", "3 peers, text of 1; 4 steps, 2 priorities", sync(3, "a", if th { 4 } else { 3 }, &[1, 2], false)),
        ],
    )
}
