//! Reference model of a document with history: characters with identities in a plain list.
use std::collections::BTreeSet;

pub type Id = u32;
/// An edit against a text of `len` characters: insertions before given positions and deleted positions.
#[derive(Clone, Debug, Hash, PartialEq)]
pub struct Ed {
    pub len: usize,
    pub ins: Vec<(usize, String)>,
    pub del: Vec<usize>,
}

#[derive(Clone, Debug)]
struct Op {
    group: usize,
    prio: usize,
    ins: Vec<Id>,
    del: Vec<Id>,
    /// the union list just after this operation
    union: Vec<Id>,
    /// visible characters just after this operation
    vis: Vec<Id>,
    edit: bool,
}

#[derive(Clone, Debug)]
pub struct Model {
    chars: Vec<char>,
    ops: Vec<Op>,
    pub undone: BTreeSet<usize>,
}

impl Model {
    pub fn new() -> Model {
        Model {
            chars: vec![],
            ops: vec![Op { group: 0, prio: 0, ins: vec![], del: vec![], union: vec![], vis: vec![], edit: false }],
            undone: BTreeSet::new(),
        }
    }
    pub fn revs(&self) -> usize {
        self.ops.len()
    }
    pub fn text(&self, rev: usize) -> String {
        self.ops[rev].vis.iter().map(|i| self.chars[*i as usize]).collect()
    }
    pub fn len(&self, rev: usize) -> usize {
        self.ops[rev].vis.len()
    }
    pub fn head(&self) -> String {
        self.text(self.ops.len() - 1)
    }
    fn visible(&self, union: &[Id]) -> Vec<Id> {
        let mut gone: BTreeSet<Id> = BTreeSet::new();
        for o in &self.ops {
            if o.edit {
                gone.extend(if self.undone.contains(&o.group) { &o.ins } else { &o.del });
            }
        }
        union.iter().copied().filter(|i| !gone.contains(i)).collect()
    }
    pub fn edit(&mut self, base: usize, prio: usize, group: usize, e: &Ed) {
        let b = &self.ops[base];
        assert_eq!(b.vis.len(), e.len, "ENGINE: bad model edit");
        let del: Vec<Id> = e.del.iter().map(|p| b.vis[*p]).collect();
        // gaps in the union of the base revision: just before the visible character that follows
        let mut gaps: Vec<(usize, Vec<Id>)> = Vec::new();
        let mut all = Vec::new();
        for (p, s) in &e.ins {
            let g = match b.vis.get(*p) {
                Some(id) => b.union.iter().position(|x| x == id).unwrap(),
                None => b.union.len(),
            };
            let mut ids = Vec::new();
            for c in s.chars() {
                ids.push(self.chars.len() as Id);
                self.chars.push(c);
            }
            all.extend(ids.iter().copied());
            gaps.push((g, ids));
        }
        // carry the gaps over the later revisions
        for r in base + 1..self.ops.len() {
            let o = &self.ops[r];
            if o.ins.is_empty() {
                continue;
            }
            let old: Vec<Id> = o.union.iter().copied().filter(|x| !o.ins.contains(x)).collect();
            for (g, _) in &mut gaps {
                // old[g] is the character after the gap, old[g-1] the one before
                let after = prio >= o.prio;
                *g = if after {
                    match old.get(*g) {
                        Some(id) => o.union.iter().position(|x| x == id).unwrap(),
                        None => o.union.len(),
                    }
                } else if *g == 0 {
                    0
                } else {
                    let id = old[*g - 1];
                    o.union.iter().position(|x| *x == id).unwrap() + 1
                };
            }
        }
        let mut union = self.ops.last().unwrap().union.clone();
        for (g, ids) in gaps.iter().rev() {
            for (k, id) in ids.iter().enumerate() {
                union.insert(g + k, *id);
            }
        }
        self.ops.push(Op { group, prio, ins: all, del, union: union.clone(), vis: vec![], edit: true });
        let v = self.visible(&union);
        self.ops.last_mut().unwrap().vis = v;
    }
    pub fn undo(&mut self, groups: BTreeSet<usize>) {
        self.undone = groups;
        let union = self.ops.last().unwrap().union.clone();
        let vis = self.visible(&union);
        self.ops.push(Op { group: 0, prio: 0, ins: vec![], del: vec![], union, vis, edit: false });
    }
    /// The visible characters (with identities) after a revision.
    pub fn ids(&self, rev: usize) -> &[Id] {
        &self.ops[rev].vis
    }
}
