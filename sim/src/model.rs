//! The reference model: what a file holds after a sequence of accepted calls.

use crate::trace::{Op, Trace};
use crate::ty::{Pv, Ty};
use std::collections::BTreeMap;
use std::rc::Rc;
use tedium::{ChannelPath, PropertyPath};

pub fn esc(s: &str) -> String {
    s.chars().map(|c| if c == '\'' { '"' } else { c }).collect()
}

/// Stands for a quote in a group or channel name that is doubled in the stored path, as other applications do it.
pub const QQ: char = '\u{F8FF}';

/// The name as it is in the stored path.
pub fn raw(s: &str) -> String {
    esc(s).replace(QQ, "''")
}

pub fn pstr(g: &Option<String>, c: &Option<String>) -> String {
    match (g, c) {
        (None, _) => "/".into(),
        (Some(g), None) => format!("/'{}'", raw(g)),
        (Some(g), Some(c)) => format!("/'{}'/'{}'", raw(g), raw(c)),
    }
}

/// The library's path of a channel. Names with doubled quotes can only be had by parsing, or from a listing.
pub fn cpath(g: &str, c: &str) -> ChannelPath {
    if g.contains(QQ) || c.contains(QQ) {
        return ChannelPath::try_from(pstr(&Some(g.into()), &Some(c.into())).as_str()).expect("path with doubled quotes");
    }
    ChannelPath::new(g, c)
}
pub fn ppath(g: &Option<String>, c: &Option<String>) -> PropertyPath {
    match (g, c) {
        (None, _) => PropertyPath::file(),
        (Some(g), None) if g.contains(QQ) => PropertyPath::try_from(format!("/'{}'", raw(g)).as_str()).expect("path with doubled quotes"),
        (Some(g), None) => PropertyPath::group(g),
        (Some(g), Some(c)) if g.contains(QQ) || c.contains(QQ) => AsRef::<PropertyPath>::as_ref(&cpath(g, c)).clone(),
        (Some(g), Some(c)) => PropertyPath::channel(g, c),
    }
}

#[derive(Clone, PartialEq, Debug, Default)]
pub struct Obj {
    pub group: Option<String>,
    pub chan: Option<String>,
    pub props: BTreeMap<String, Pv>,
    /// Samples in order, in runs of one type.
    pub runs: Vec<(Ty, Vec<u128>)>,
}
impl Obj {
    pub fn len(&self) -> u64 {
        self.runs.iter().map(|r| r.1.len() as u64).sum()
    }
    pub fn push(&mut self, ty: Ty, vals: impl Iterator<Item = u128>) {
        if self.runs.last().map(|r| r.0) != Some(ty) {
            self.runs.push((ty, vec![]));
        }
        self.runs.last_mut().unwrap().1.extend(vals);
        if self.runs.last().unwrap().1.is_empty() {
            self.runs.pop();
        }
    }
    /// Sample i: type and bits.
    pub fn at(&self, i: u64) -> Option<(Ty, u128)> {
        let mut i = i;
        for (t, v) in &self.runs {
            if i < v.len() as u64 {
                return Some((*t, v[i as usize]));
            }
            i -= v.len() as u64;
        }
        None
    }
}

#[derive(Clone, PartialEq, Debug, Default)]
pub struct State {
    /// By path string as stored.
    pub objs: BTreeMap<String, Rc<Obj>>,
}

impl State {
    pub fn obj(&mut self, g: &Option<String>, c: &Option<String>) -> &mut Obj {
        let p = pstr(g, c);
        let (g, c) = (g.as_deref().map(esc), c.as_deref().map(esc));
        Rc::make_mut(self.objs.entry(p).or_insert_with(|| {
            Rc::new(Obj { group: g, chan: c, ..Default::default() })
        }))
    }
    /// Names of the groups as they are in the stored paths.
    pub fn groups(&self) -> Vec<String> {
        let mut v: Vec<String> = self.objs.values().filter_map(|o| o.group.as_deref().map(raw)).collect();
        v.sort();
        v.dedup();
        v
    }
    pub fn apply(&mut self, t: &Trace, op: &Op) {
        match op {
            Op::W { ty, n, il, s, .. } => {
                let ch = t.chans(op);
                let k = ch.len() as u64;
                let n = *n as u64;
                for (c, i) in ch.iter().enumerate() {
                    let (g, cn) = &t.names[*i];
                    let c = c as u64;
                    let o = self.obj(g, cn);
                    o.push(*ty, (0..n).map(|j| ty.sample(*s as u64, if *il { j * k + c } else { c * n + j })));
                }
            }
            Op::P { o, p } => {
                let (g, c) = t.name(*o);
                let o = self.obj(&g, &c);
                for (k, v) in p {
                    o.props.insert(k.clone(), v.norm());
                }
            }
            _ => {}
        }
    }
}

impl Trace {
    pub fn name(&self, i: u16) -> (Option<String>, Option<String>) {
        if self.names.is_empty() {
            return (None, None);
        }
        let (g, c) = &self.names[i as usize % self.names.len()];
        if g.is_none() {
            (None, None)
        } else {
            (g.clone(), c.clone())
        }
    }
    /// Indexes of the names that are channels.
    pub fn channel_ids(&self) -> Vec<usize> {
        (0..self.names.len()).filter(|i| self.names[*i].0.is_some() && self.names[*i].1.is_some()).collect()
    }
    /// The distinct channels meant by a list of references.
    /// As asked for in a read: a channel can be in it more than once.
    pub fn read_list(&self, ch: &[u16]) -> Vec<usize> {
        let ids = self.channel_ids();
        ch.iter().filter(|_| !ids.is_empty()).map(|c| ids[*c as usize % ids.len()]).collect()
    }
    pub fn chan_list(&self, ch: &[u16]) -> Vec<usize> {
        let ids = self.channel_ids();
        let mut out: Vec<usize> = vec![];
        let mut have = std::collections::HashSet::new();
        if ids.is_empty() {
            return out;
        }
        for c in ch {
            let i = ids[*c as usize % ids.len()];
            let p = pstr(&self.names[i].0, &self.names[i].1);
            if have.insert(p) {
                out.push(i);
            }
        }
        out
    }
    pub fn chans(&self, op: &Op) -> Vec<usize> {
        match op {
            Op::W { ch, .. } | Op::BadLen { ch, .. } | Op::NoValues { ch, .. } | Op::Strings { ch, .. } | Op::Twice { ch, .. } => self.chan_list(ch),
            _ => vec![],
        }
    }
    /// Is this an accepted call (one that must be taken)?
    pub fn accepted(&self, op: &Op) -> bool {
        match op {
            Op::W { n, .. } => *n > 0 && !self.chans(op).is_empty(),
            Op::P { .. } => true,
            _ => false,
        }
    }
}

/// What may be stored: a list of attempted calls and, for every length of prefix, the states it may have led to.
pub struct Hist {
    /// lives[i]: possible states after the first i attempts.
    pub lives: Vec<Vec<Rc<State>>>,
    /// The shortest acceptable prefix.
    pub min: usize,
    /// For each attempt the call (to know which channels a cut-short call may have left behind).
    pub ops: Vec<Op>,
    /// The attempts that were reported as failed.
    pub failed: Vec<usize>,
}

impl Hist {
    pub fn exact(s: State) -> Hist {
        Hist { lives: vec![vec![Rc::new(s)]], min: 0, ops: vec![], failed: vec![] }
    }
    pub fn n(&self) -> usize {
        self.ops.len()
    }
    /// The state if there is only one acceptable one.
    pub fn only(&self) -> Option<&Rc<State>> {
        if self.min == self.ops.len() && self.lives.last().unwrap().len() == 1 {
            self.lives.last().unwrap().first()
        } else {
            None
        }
    }
    /// The state in which every accepted call took effect.
    pub fn full(&self) -> &Rc<State> {
        self.lives.last().unwrap().last().unwrap()
    }
    pub fn attempt(&mut self, t: &Trace, op: &Op, ok: bool) {
        let mut next: Vec<Rc<State>> = vec![];
        for s in self.lives.last().unwrap() {
            if !ok && !next.contains(s) {
                next.push(s.clone());
            }
            let mut n = (**s).clone();
            n.apply(t, op);
            if !next.iter().any(|x| **x == n) {
                next.push(Rc::new(n));
            }
        }
        if next.len() > 64 {
            // Keep the states in which the latest failed calls all had an effect or all had none.
            let end = next.len() - 32;
            next.drain(32..end);
        }
        if !ok {
            self.failed.push(self.ops.len());
        }
        self.lives.push(next);
        self.ops.push(op.clone());
    }
    pub fn secure(&mut self) {
        self.min = self.ops.len();
    }
    /// Drop what can no longer be: only the given prefix range.
    pub fn settle(&mut self, s: Rc<State>) {
        *self = Hist { lives: vec![vec![s]], min: 0, ops: vec![], failed: vec![] };
    }
}
