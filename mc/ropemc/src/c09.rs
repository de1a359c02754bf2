//! C09: texts, changes and whole histories survive serialisation.
use crate::util::*;
use mccommon::*;
use xi_rope::{Delta, DeltaElement, Rope, RopeDelta};

const SYM: [&str; 13] = ["a", "\"", "\\", "\n", "\r\n", "\u{0}", "\u{1f}", "\u{7f}", "é", "\u{2028}", "\u{FEFF}", "😀", "/"];

fn round(r: &Rope, m: &str) -> Res {
    let j = serde_json::to_string(r).map_err(|e| e.to_string())?;
    ensure_eq!(j, serde_json::to_string(m).unwrap(), "serialised text");
    let a: Rope = serde_json::from_str(&j).map_err(|e| e.to_string())?;
    check_rope(&a, m, "read back from a string")?;
    let v = serde_json::to_value(r).map_err(|e| e.to_string())?;
    let b: Rope = serde_json::from_value(v).map_err(|e| format!("from a value: {}", e))?;
    check_rope(&b, m, "read back from a value")?;
    let c: Rope = serde_json::from_slice(j.as_bytes()).map_err(|e| e.to_string())?;
    check_rope(&c, m, "read back from bytes")?;
    let d: Rope = serde_json::from_reader(j.as_bytes()).map_err(|e| e.to_string())?;
    check_rope(&d, m, "read back from a stream")
}

fn texts(ch: &mut Ch) -> Res {
    let n = ch.pick(4);
    let w: String = (0..n).map(|_| *ch.of(&SYM)).collect();
    let (l, r) = *ch.of(&[(0usize, 0usize), (511, 511), (600, 520)]);
    let pieces: Vec<usize> = w.char_indices().map(|x| x.0).chain(std::iter::once(w.len())).collect();
    let cut = if l > 0 { *ch.of(&pieces) } else { 0 };
    let left = filler(l, 1) + &w[..cut];
    let right = w[cut..].to_string() + &filler(r, 5);
    let rope = if l == 0 { Rope::from(w.as_str()) } else { rope_of(&[&left, &right]) };
    ch.log(|| format!("text {:?} with leaf boundary at {} and padding {}/{}", w, cut, l, r));
    ch.state(&(w.clone(), cut, l));
    ch.step();
    round(&rope, &format!("{}{}", left, right))
}

fn changes(ch: &mut Ch) -> Res {
    let n = ch.pick(4);
    let base: String = (0..n).map(|i| ["a", "é", "\n", "😀"][i]).collect();
    let marks: Vec<usize> = base.char_indices().map(|x| x.0).chain(std::iter::once(base.len())).collect();
    let mut els = Vec::new();
    for i in 0..=n {
        let s = *ch.of(&["", "X", "\"\\\u{1}é"]);
        if !s.is_empty() {
            els.push(DeltaElement::Insert(Rope::from(s)));
        }
        if i < n && ch.flip() {
            match els.last_mut() {
                Some(DeltaElement::Copy(_, e)) if *e == marks[i] => *e = marks[i + 1],
                _ => els.push(DeltaElement::Copy(marks[i], marks[i + 1])),
            }
        }
    }
    let d: RopeDelta = Delta { els, base_len: base.len() };
    ch.log(|| format!("change {:?} of {:?}", d, base));
    let j = serde_json::to_string(&d).map_err(|e| e.to_string())?;
    ch.state(&j);
    ch.step();
    for k in 0..3 {
        let e: RopeDelta = match k {
            0 => serde_json::from_str(&j).map_err(|e| e.to_string())?,
            1 => serde_json::from_value(serde_json::to_value(&d).map_err(|e| e.to_string())?).map_err(|e| format!("from a value: {}", e))?,
            _ => serde_json::from_slice(j.as_bytes()).map_err(|e| e.to_string())?,
        };
        ensure_eq!(e.base_len, d.base_len, "base length");
        ensure_eq!(e.els.len(), d.els.len(), "number of elements");
        ensure_eq!(serde_json::to_string(&e).unwrap(), j, "serialised again");
        let b = Rope::from(base.as_str());
        ensure_eq!(text(&e.apply(&b)), text(&d.apply(&b)), "effect of the change read back");
    }
    Ok(())
}

pub fn run() -> ! {
    mccommon::run(
        opts("C09"),
        vec![
            section("texts", "all texts of up to 3 of 13 symbols, in one leaf or around every leaf boundary", texts),
            section("changes", "all changes of texts of up to 3 characters, 3 insertions per gap", changes),
            section("persisted", "histories of 3 operations (4 thorough), serialised at any point", crate::c10::persisted),
        ],
    )
}
