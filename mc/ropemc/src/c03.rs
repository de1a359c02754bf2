//! C03: searching a buffer finds exactly what scanning the plain text finds, wherever the storage is split.
use crate::util::*;
use mccommon::*;
use regex::{Regex, RegexBuilder};
use xi_rope::find::{find, find_progress, is_multiline_regex, CaseMatching, FindResult};
use xi_rope::{Cursor, Rope};

fn lower(s: &str) -> Vec<char> {
    s.chars().flat_map(|c| c.to_lowercase()).collect()
}

/// Does `pat` match at `p`? Returns the end of the match.
fn match_at(t: &str, p: usize, pat: &str, cm: CaseMatching) -> Option<usize> {
    match cm {
        CaseMatching::Exact => {
            if t[p..].starts_with(pat) {
                Some(p + pat.len())
            } else {
                None
            }
        }
        CaseMatching::CaseInsensitive => {
            let pl = lower(pat);
            let mut i = 0;
            for (o, c) in t[p..].char_indices() {
                for l in c.to_lowercase() {
                    if i == pl.len() {
                        break; // the rest of an expansion may be left over
                    }
                    if l != pl[i] {
                        return None;
                    }
                    i += 1;
                }
                if i == pl.len() {
                    return Some(p + o + c.len_utf8());
                }
            }
            None
        }
    }
}

fn first_match(t: &str, from: usize, pat: &str, cm: CaseMatching) -> Option<(usize, usize)> {
    t[from..].char_indices().find_map(|(o, _)| match_at(t, from + o, pat, cm).map(|e| (from + o, e)))
}

fn check_all(r: &Rope, t: &str, pat: &str, cm: CaseMatching, starts: &[usize], steps: usize) -> Res {
    for s in starts {
        // iterate matches from s, non-overlapping, as a user of the search would
        let mut c = Cursor::new(r, *s);
        let mut from = *s;
        for _ in 0..6 {
            let mut lines = r.lines_raw(from..);
            let got = if steps == 0 {
                find(&mut c, &mut lines, cm, pat, None)
            } else {
                let mut n = 0;
                loop {
                    n += 1;
                    ensure!(n < 20000, "search for {:?} makes no progress", pat);
                    match find_progress(&mut c, &mut lines, cm, pat, steps, None) {
                        FindResult::Found(x) => break Some(x),
                        FindResult::NotFound => break None,
                        FindResult::TryAgain => (),
                    }
                }
            };
            let exp = first_match(t, from, pat, cm);
            ensure_eq!(got, exp.map(|x| x.0), "first match of {:?} from {}", pat, from);
            match exp {
                Some((_, e)) => {
                    ensure_eq!(c.pos(), e, "cursor after the match of {:?} from {}", pat, from);
                    from = e;
                }
                None => break,
            }
        }
    }
    Ok(())
}

fn literal(ch: &mut Ch) -> Res {
    const TA: [&str; 6] = ["a", "b", "A", "\n", "é", "B"];
    let np = ch.range(1, 3);
    let pat: String = (0..np).map(|_| *ch.of(&TA[..5])).collect();
    let nt = ch.range(0, if ch.tier_thorough { 4 } else { 3 });
    let w: String = (0..nt).map(|_| *ch.of(&TA)).collect();
    run_case(ch, pat, w)
}

fn special(max: usize) -> impl Fn(&mut Ch) -> Res {
    move |ch| {
        const SA: [&str; 14] = [
            "i", "I", "İ", "k", "\u{212A}", "É", "é", "Σ", "σ", "ς", "ā", "\u{20A0}", "ẞ", "ß",
        ];
        let np = ch.range(1, 2);
        let pat: String = (0..np).map(|_| *ch.of(&SA)).collect();
        let nt = ch.range(0, max);
        let w: String = (0..nt).map(|_| *ch.of(&SA)).collect();
        run_case(ch, pat, w)
    }
}

fn run_case(ch: &mut Ch, pat: String, w: String) -> Res {
    let cuts: Vec<usize> = w.char_indices().map(|x| x.0).chain([w.len()]).collect();
    ch.log(|| format!("pattern {:?}, text {:?} (alone, and across a leaf boundary at every character)", pat, w));
    ch.state(&(&pat, &w));
    for cm in [CaseMatching::Exact, CaseMatching::CaseInsensitive] {
        for steps in [0usize, 1] {
            ch.step();
            let r = Rope::from(w.as_str());
            check_all(&r, &w, &pat, cm, &cuts, steps)?;
            for cut in &cuts {
                let left = "x".repeat(511) + &w[..*cut];
                let right = w[*cut..].to_string() + &"x".repeat(511);
                let r = rope_of(&[&left, &right]);
                let t = left.clone() + &right;
                let starts: Vec<usize> = cuts.iter().map(|c| c + 511).chain([0]).collect();
                ch.step();
                check_all(&r, &t, &pat, cm, &starts, steps).map_err(|e| format!("{} (leaf boundary at {})", e, left.len()))?;
            }
        }
    }
    Ok(())
}

/// The pattern itself spans several leaves.
fn long_pattern(ch: &mut Ch) -> Res {
    let plen = *ch.of(&[510usize, 600, 1023, 1100, 1700]);
    let pre = *ch.of(&[0usize, 1, 400, 511, 1000]);
    let decoy = ch.pick(3); // how much of the pattern appears just before the real one
    let pat: String = filler(plen, 4).replace('\n', "é");
    let n = pat.len();
    let decoys = match decoy {
        0 => String::new(),
        1 => pat[..snap(&pat, n - 1)].to_string() + "#",
        _ => pat[..snap(&pat, n / 2)].to_string(),
    };
    let t = filler(pre, 9).to_uppercase() + &decoys + &pat + "tail" + &pat;
    let r = Rope::from(t.as_str());
    ch.log(|| format!("pattern of {} bytes at {} after decoy {}", n, pre + decoys.len(), decoy));
    ch.state(&(plen, pre, decoy));
    for cm in [CaseMatching::Exact, CaseMatching::CaseInsensitive] {
        for steps in [0, 1] {
            ch.step();
            check_all(&r, &t, &pat, cm, &[0, snap(&t, pre)], steps)?;
        }
    }
    Ok(())
}

fn regexes(ch: &mut Ch) -> Res {
    const PATS: [&str; 9] = ["a", "a+", "ab|b", "é.", "[ab]b", "b$", r"a\nb", r"a\s*b\n", r"(?:\n)+a"];
    const TA: [&str; 4] = ["a", "b", "\n", "é"];
    let pat = *ch.of(&PATS);
    let ci = ch.flip();
    let nt = ch.range(0, 5);
    let w: String = (0..nt).map(|_| *ch.of(&TA)).collect();
    let w = if ci { w.to_uppercase() } else { w };
    let re = RegexBuilder::new(pat).case_insensitive(ci).build().unwrap();
    ch.log(|| format!("regex {:?} (case insensitive {}), text {:?}", pat, ci, w));
    ch.state(&(pat, ci, &w));
    let cuts: Vec<usize> = w.char_indices().map(|x| x.0).chain([w.len()]).collect();
    for cut in std::iter::once(usize::MAX).chain(cuts.iter().copied()) {
        let (r, t, base) = if cut == usize::MAX {
            (Rope::from(w.as_str()), w.clone(), 0)
        } else {
            let left = "x".repeat(511) + &w[..cut];
            let right = w[cut..].to_string() + &"x".repeat(511);
            (rope_of(&[&left, &right]), left + &right, 511)
        };
        for s in &cuts {
            let from = s + base;
            for steps in [usize::MAX, 1] {
                ch.step();
                let mut c = Cursor::new(&r, from);
                let mut lines = r.lines_raw(from..);
                let mut n = 0;
                let got = loop {
                    n += 1;
                    ensure!(n < 10000, "regex search makes no progress");
                    match find_progress(&mut c, &mut lines, CaseMatching::Exact, pat, steps, Some(&re)) {
                        FindResult::Found(x) => break Some((x, c.pos())),
                        FindResult::NotFound => break None,
                        FindResult::TryAgain => (),
                    }
                };
                let exp = regex_first(&t, from, pat, &re);
                ensure_eq!(got, exp, "regex match from {} (leaf boundary {:?})", from, cut);
            }
        }
    }
    Ok(())
}

/// Line-local expressions are matched line by line, others against the rest of the text.
fn regex_first(t: &str, from: usize, pat: &str, re: &Regex) -> Option<(usize, usize)> {
    let multi = pat.contains(r"\n") || pat.contains(r"\r") || pat.contains("[[:space:]]");
    assert_eq!(multi, is_multiline_regex(pat), "ENGINE: multi-line classification");
    if multi {
        return re.find(&t[from..]).map(|m| (from + m.start(), from + m.end()));
    }
    let mut o = from;
    for l in t[from..].split_inclusive('\n') {
        if let Some(m) = re.find(l) {
            return Some((o + m.start(), o + m.end()));
        }
        o += l.len();
    }
    None
}

pub fn run() -> ! {
    let th = is_thorough();
    mccommon::run(
        opts("C03"),
        vec![
            section("literal", "patterns of 1..3 and texts of 0..3 (4 thorough) symbols, both case modes, all leaf boundaries, all starting points", literal),
            section("special_case", "case folding specials (14 symbols): patterns of 1..2, texts of up to 2 (3 thorough)", special(if th { 3 } else { 2 })),
            section("long_pattern", "patterns spanning several leaves, with decoys", long_pattern),
            section("regex", "9 expressions x texts of up to 5 symbols, all leaf boundaries and starting points", regexes),
        ],
    )
}
