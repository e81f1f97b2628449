//! Executes traces against the real library and checks it against the model.

use crate::alloc;
use crate::disk::*;
use crate::model::*;
use crate::rng::mix2;
use crate::tdms;
use crate::trace::*;
use crate::ty::*;
use crate::with_ty;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Seek, Write};
use std::rc::Rc;
use tedium::{ChannelPath, DataLayout, PropertyPath, TdmsError, TdmsFile};

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub msg: String,
}
pub fn viol<T>(class: &str, msg: impl Into<String>) -> Result<T, Violation> {
    Err(Violation { class: class.into(), msg: short(msg.into()) })
}
/// Names and values of megabytes do not help in a message.
pub fn short(mut m: String) -> String {
    if m.len() > 3000 {
        let (mut a, mut z) = (1800, m.len() - 900);
        while !m.is_char_boundary(a) {
            a -= 1;
        }
        while !m.is_char_boundary(z) {
            z += 1;
        }
        m.replace_range(a..z, " [...] ");
    }
    m
}
type R<T> = Result<T, Violation>;

/// What a check looks at.
#[derive(Clone, Copy, Debug)]
pub struct Flags {
    pub samples: bool,
    pub props: bool,
    pub catalog: bool,
    pub decode: bool,
    pub append_only: bool,
    /// Reading operations must not write.
    pub ro: bool,
    pub sync_flush: bool,
    /// Properties are also taken out by the typed conversions.
    pub convert: bool,
}

pub fn flags(prop: &str) -> Flags {
    let mut f = Flags { samples: true, props: true, catalog: true, decode: false, append_only: false, ro: false, sync_flush: false, convert: false };
    match prop {
        "C01" | "C02" => {
            f.props = false;
            f.catalog = false;
        }
        "C03" => {
            f.catalog = false;
            f.convert = true;
        }
        "C05" => {
            f.samples = false;
            f.props = false;
            f.catalog = false;
            f.decode = true;
        }
        "C07" => {
            f.append_only = true;
            f.ro = true;
            f.samples = false;
            f.props = false;
            f.catalog = false;
        }
        "C08" | "C12" => f.sync_flush = true,
        "C16" => f.ro = true,
        _ => {}
    }
    f
}

pub trait Backend {
    type F: Read + Write + Seek;
    fn load(&self) -> Result<TdmsFile<Self::F>, TdmsError>;
    fn create(&self) -> Result<TdmsFile<Self::F>, TdmsError>;
    /// Open a path that does not exist; true if something exists there afterwards.
    fn load_missing(&self) -> (bool, bool);
    fn fork(&self, disk: &DiskRef) -> Self;
}

pub struct Sim(pub DiskRef);
impl Backend for Sim {
    type F = SimFile;
    fn load(&self) -> Result<TdmsFile<SimFile>, TdmsError> {
        TdmsFile::new(SimFile::new(&self.0))
    }
    fn create(&self) -> Result<TdmsFile<SimFile>, TdmsError> {
        self.load()
    }
    fn load_missing(&self) -> (bool, bool) {
        (false, false)
    }
    fn fork(&self, disk: &DiskRef) -> Self {
        Sim(disk.clone())
    }
}

#[derive(Clone, Copy, Debug)]
enum Ev {
    /// Attempt number i begins.
    Start,
    /// The first i attempts are secured.
    Secured(usize),
}

pub struct Stats {
    pub probes: BTreeMap<&'static str, u64>,
    pub checks: u64,
    pub accepted: u64,
    pub shape: u64,
}

pub struct Ctx<'t> {
    t: &'t Trace,
    fl: Flags,
    disk: DiskRef,
    hist: Hist,
    ev: Vec<(u64, Ev)>,
    keep: bool,
    pub st: Stats,
    /// Content replaced by something the model does not describe.
    unknown: bool,
    /// The current handle's last session failed: its index may be ahead of what is stored.
    stale: bool,
    /// Samples are of a type the caller defines.
    mine: bool,
    alloc_limit: usize,
    late: Option<(u8, Vec<crate::trace::Corrupt>)>,
    /// What the current handle shows, when another handle has written since.
    behind: Option<Rc<State>>,
    /// Reported when the run finds nothing else.
    pub soft: Option<Violation>,
    /// Where the samples lie while some of them cannot be read.
    bad: Option<Vec<tdms::Block>>,
}

fn path_of(t: &Trace, i: usize) -> ChannelPath {
    let (g, c) = &t.names[i];
    cpath(g.as_deref().unwrap_or(""), c.as_deref().unwrap_or(""))
}

fn multiset_diff(have: &[String], want: &[String], extra_ok: &BTreeSet<String>) -> Option<String> {
    let mut m: BTreeMap<&String, i64> = BTreeMap::new();
    for h in have {
        *m.entry(h).or_insert(0) += 1;
    }
    for w in want {
        *m.entry(w).or_insert(0) -= 1;
    }
    for (k, v) in m {
        if v == 1 && extra_ok.contains(k) && !want.contains(k) {
            continue;
        }
        if v > 0 {
            return Some(format!("{k:?} listed {v} time(s) too often"));
        }
        if v < 0 {
            return Some(format!("{k:?} missing"));
        }
    }
    None
}

fn read_run<T: Samp, F: Read + Seek>(
    f: &mut TdmsFile<F>,
    p: &ChannelPath,
    start: u64,
    ty: Ty,
    vals: &[u128],
    last: bool,
) -> Result<(), String> {
    if ty == Ty::Str {
        // Not readable, neither as numbers nor as strings.
        let mut b = vec![T::from_bits(0)];
        let mut s = vec!["x".to_string()];
        let (r1, r2) = (f.read_channel_from(p, start, &mut b), f.read_channel_from(p, start, &mut s));
        if r1.is_ok() || r2.is_ok() {
            return Err(format!("reading string samples of {p} from {start} gives {r1:?} and {r2:?}: {s:?}"));
        }
        return Ok(());
    }
    let extra = if last { 3 } else { 0 };
    let mut buf: Vec<T> = (0..vals.len() + extra).map(|i| T::from_bits(ty.sample(0xABCDEF, i as u64) ^ (ty.mask() & 0x5a))).collect();
    let orig = buf.clone();
    let r = if start == 0 { f.read_channel(p, &mut buf) } else { f.read_channel_from(p, start, &mut buf) };
    if let Err(e) = r {
        return Err(format!("reading {} samples of {} from {}: error {:?}", buf.len(), p, start, e));
    }
    for (i, (b, v)) in buf.iter().zip(vals).enumerate() {
        if !b.same(*v) {
            return Err(format!("{} sample {} is {} instead of {} ({:?})", p, start + i as u64, b.show(), T::from_bits(*v).show(), ty));
        }
    }
    for i in vals.len()..buf.len() {
        if buf[i].show() != orig[i].show() {
            return Err(format!("{}: buffer position {} past the end of the channel was changed", p, i));
        }
    }
    Ok(())
}

/// The path of a listed group. A name with doubled quotes is there only as other applications store it.
pub fn group_path(g: &str) -> PropertyPath {
    if g.contains('\'') {
        return PropertyPath::try_from(format!("/'{g}'").as_str()).expect("path of a listed group");
    }
    PropertyPath::group(g)
}

/// Compare a handle with one state. Objects in `torn` may be there without samples.
pub fn check_state<F: Read + Seek>(
    f: &mut TdmsFile<F>,
    s: &State,
    t: &Trace,
    torn: &[usize],
    fl: Flags,
) -> Result<(), (&'static str, String)> {
    let torn_paths: BTreeSet<String> = torn.iter().map(|i| pstr(&t.names[*i].0, &t.names[*i].1)).collect();
    let torn_groups: BTreeSet<String> = torn.iter().map(|i| raw(t.names[*i].0.as_deref().unwrap_or(""))).collect();
    // Lengths and names first: they need no storage access.
    for o in s.objs.values() {
        if let (Some(g), Some(c)) = (&o.group, &o.chan) {
            let p = cpath(g, c);
            let l = f.channel_length(&p);
            if l != Some(o.len()) {
                return Err(("length", format!("length of {} is {:?} instead of {}", p, l, o.len())));
            }
        }
    }
    if fl.catalog {
        let groups: Vec<String> = f.list_groups().map(|g| g.to_string()).collect();
        if let Some(d) = multiset_diff(&groups, &s.groups(), &torn_groups) {
            return Err(("catalogue", format!("groups: {d}")));
        }
        for g in &groups {
            let gp = group_path(g);
            if gp.group_name() != Some(g.as_str()) || gp.channel_name().is_some() {
                return Err(("catalogue", format!("group path {gp:?} gives the names {:?} {:?}", gp.group_name(), gp.channel_name())));
            }
            let chans: Vec<ChannelPath> = f.list_channels_in_group(&gp).collect();
            let have: Vec<String> = chans.iter().map(|c| c.path().to_string()).collect();
            let want: Vec<String> = s
                .objs
                .iter()
                .filter(|(_, o)| o.group.as_deref().map(raw).as_ref() == Some(g) && o.chan.is_some())
                .map(|(p, _)| p.clone())
                .collect();
            if let Some(d) = multiset_diff(&have, &want, &torn_paths) {
                return Err(("catalogue", format!("channels of {g:?}: {d}")));
            }
            for c in &chans {
                if f.channel_length(c).is_none() {
                    return Err(("catalogue", format!("listed channel {c} cannot be looked up")));
                }
                if c.group_name() != g {
                    return Err(("catalogue", format!("channel {c} gives the group name {:?} instead of {g:?}", c.group_name())));
                }
                let name = c.channel_name();
                if !name.contains('\'') && !g.contains('\'') && ChannelPath::new(g, name).path() != c.path() {
                    return Err(("catalogue", format!("channel {c} gives the channel name {name:?}")));
                }
                if c.to_string() != c.path() || AsRef::<PropertyPath>::as_ref(c).path() != c.path() {
                    return Err(("catalogue", format!("channel {:?} is shown as {c}", c.path())));
                }
                match ChannelPath::try_from(c.path()) {
                    Ok(x) if x.path() == c.path() => {}
                    x => return Err(("catalogue", format!("path string of {c} parses as {x:?}"))),
                }
                if let Some(o) = s.objs.get(c.path()) {
                    if o.chan.as_deref().map(raw).as_deref() != Some(name) {
                        return Err(("catalogue", format!("channel {c} gives the channel name {name:?}")));
                    }
                }
            }
        }
        for (p, o) in &s.objs {
            match PropertyPath::try_from(p.as_str()) {
                Ok(x) if x.path() == p && x.to_string() == *p && x.group_name() == o.group.as_deref().map(raw).as_deref() && x.channel_name() == o.chan.as_deref().map(raw).as_deref() => {}
                x => return Err(("catalogue", format!("path string {p} parses as {x:?}"))),
            }
            if o.chan.is_none() && ChannelPath::try_from(p.as_str()).is_ok() {
                return Err(("catalogue", format!("path string {p} is taken as a channel")));
            }
        }
        // Nothing else is found.
        for (g, c) in &t.names {
            let p = pstr(g, c);
            if let (Some(g), Some(c)) = (g, c) {
                let known = s.objs.contains_key(&p) || torn_paths.contains(&p);
                if !known && f.channel_length(&cpath(g, c)).is_some() {
                    return Err(("catalogue", format!("channel {p} was never written but has a length")));
                }
            }
        }
    }
    if fl.props {
        for (p, o) in &s.objs {
            let pp = ppath(&o.group, &o.chan);
            let mut have: BTreeMap<String, String> = BTreeMap::new();
            match f.read_all_properties(&pp) {
                None => return Err(("properties", format!("object {p} not found"))),
                Some(it) => {
                    for (k, v) in it {
                        match o.props.get(k) {
                            Some(w) if w.same(v) => {}
                            w => return Err(("properties", format!("property {k:?} of {p} is {v:?} instead of {w:?}"))),
                        }
                        if have.insert(k.clone(), String::new()).is_some() {
                            return Err(("properties", format!("property {k:?} of {p} listed twice")));
                        }
                    }
                }
            }
            for (k, w) in &o.props {
                match f.read_property(&pp, k) {
                    Ok(Some(v)) if w.same(v) => {
                        if fl.convert {
                            w.converts(v).map_err(|e| ("properties", format!("property {k:?} of {p}: {e}")))?;
                        }
                    }
                    x => return Err(("properties", format!("property {k:?} of {p} is {x:?} instead of {w:?}"))),
                }
                if !have.contains_key(k) {
                    return Err(("properties", format!("property {k:?} of {p} missing in the list")));
                }
            }
            match f.read_property(&pp, "no such property \u{1}") {
                Ok(None) => {}
                x => return Err(("properties", format!("unknown property of {p} gives {x:?}"))),
            }
        }
        for i in torn {
            let (g, c) = &t.names[*i];
            if !s.objs.contains_key(&pstr(g, c)) {
                if let Some(mut it) = f.read_all_properties(&ppath(g, c)) {
                    if let Some(x) = it.next() {
                        return Err(("properties", format!("property {x:?} of {} was never written", pstr(g, c))));
                    }
                }
            }
        }
        // Objects that were never written hold nothing.
        for (g, c) in t.names.iter().map(|(g, c)| (g.clone(), if g.is_none() { None } else { c.clone() })) {
            if s.objs.contains_key(&pstr(&g, &c)) {
                continue;
            }
            if let Some(mut it) = f.read_all_properties(&ppath(&g, &c)) {
                if let Some(x) = it.next() {
                    return Err(("properties", format!("property {x:?} of {} was never written", pstr(&g, &c))));
                }
            }
        }
    }
    for i in torn {
        let (g, c) = &t.names[*i];
        if !s.objs.contains_key(&pstr(g, c)) {
            let l = f.channel_length(&path_of(t, *i));
            if !matches!(l, None | Some(0)) {
                return Err(("length", format!("channel {} of a call cut short has length {l:?}", pstr(g, c))));
            }
        }
    }
    if fl.samples {
        for o in s.objs.values() {
            if let (Some(g), Some(c)) = (&o.group, &o.chan) {
                let p = cpath(g, c);
                let mut start = 0;
                for (i, (ty, v)) in o.runs.iter().enumerate() {
                    let last = i + 1 == o.runs.len();
                    with_ty!(ty, T, read_run::<T, F>(f, &p, start, *ty, v, last)).map_err(|e| ("samples", e))?;
                    start += v.len() as u64;
                }
            }
        }
    }
    Ok(())
}

enum ReadOutcome {
    Done,
    Failed,
}

impl<'t> Ctx<'t> {
    pub fn new(t: &'t Trace, disk: &DiskRef) -> Self {
        let fl = flags(&t.prop);
        let keep = t.steps.iter().any(|s| matches!(s, Step::Crash { .. } | Step::Probe { .. } | Step::Live { .. }));
        {
            let mut d = disk.borrow_mut();
            d.track_sealed = fl.append_only;
            d.budget = 200_000_000;
            if keep {
                d.new_round();
            }
        }
        Ctx {
            t,
            fl,
            disk: disk.clone(),
            hist: Hist::exact(State::default()),
            ev: vec![],
            keep,
            st: Stats { probes: BTreeMap::new(), checks: 0, accepted: 0, shape: 0 },
            unknown: false,
            stale: false,
            mine: false,
            alloc_limit: usize::MAX,
            late: None,
            behind: None,
            soft: None,
            bad: None,
        }
    }

    pub fn probe(&mut self, k: &'static str) {
        *self.st.probes.entry(k).or_insert(0) += 1;
    }
    fn arm_value(&mut self, nth: u32, kind: u8) {
        self.mine = true;
        arm_value(if nth == u32::MAX { u64::MAX } else { nth as u64 }, kind);
        self.probe("samples_of_a_type_of_the_caller");
    }
    fn fired(&self) -> u64 {
        self.disk.borrow().faults_fired + crate::ty::value_faults()
    }
    fn jb(&self) -> u64 {
        self.disk.borrow().jbytes
    }
    fn readonly(&self, on: bool) {
        self.disk.borrow_mut().readonly = on && self.fl.ro;
    }
    fn write_violation(&self) -> R<()> {
        if self.fl.ro {
            if let Some(m) = &self.disk.borrow().write_violation {
                return viol("append-only", m.clone());
            }
        }
        Ok(())
    }
    fn settle(&mut self, s: Rc<State>) {
        self.hist.settle(s);
        self.ev.clear();
        if self.keep {
            self.disk.borrow_mut().new_round();
        }
    }

    /// Open the stored bytes. With an armed fault an error is allowed, once.
    fn open<B: Backend>(&mut self, b: &B) -> R<TdmsFile<B::F>> {
        let f0 = self.fired();
        self.readonly(true);
        let r = b.load();
        let r = match r {
            Ok(f) => {
                if self.fired() > f0 {
                    self.probe("open_ok_despite_fault");
                }
                Ok(f)
            }
            Err(e) if self.fired() > f0 => {
                self.probe("open_failed_by_fault");
                let _ = format!("{e} {e:?}");
                self.disk.borrow_mut().disarm();
                match b.load() {
                    Ok(f) => Ok(f),
                    Err(e) => viol("open", format!("opening still fails after the storage works again: {e:?}")),
                }
            }
            Err(e) => viol("open", format!("opening the stored file fails: {e:?}")),
        };
        self.readonly(false);
        r
    }

    /// Which of the acceptable states does this handle show? Settles the model on it.
    fn resolve<F: Read + Seek>(&mut self, f: &mut TdmsFile<F>, lo: usize, hi: usize, class: &str) -> R<()> {
        let (s, _) = self.pick(f, lo, hi, class)?;
        self.settle(s);
        Ok(())
    }

    fn pick<F: Read + Seek>(&mut self, f: &mut TdmsFile<F>, lo: usize, hi: usize, class: &str) -> R<(Rc<State>, usize)> {
        let mut why = vec![];
        let fl = self.fl;
        let all = Flags { samples: true, props: true, catalog: true, ..fl };
        for k in lo..=hi {
            let mut torn = match self.hist.ops.get(k) {
                Some(op) if k < hi => self.t.chans(op),
                _ => vec![],
            };
            for j in &self.hist.failed {
                torn.extend(self.t.chans(&self.hist.ops[*j]));
            }
            let lives = self.hist.lives[k].clone();
            for s in lives {
                match check_state(f, &s, self.t, &torn, all) {
                    Ok(()) => {
                        let mut s2 = (*s).clone();
                        for i in &torn {
                            let (g, c) = &self.t.names[*i];
                            if !s2.objs.contains_key(&pstr(g, c)) && f.channel_length(&path_of(self.t, *i)).is_some() {
                                s2.obj(g, c);
                                self.st.probes.entry("cut_call_left_empty_channel").and_modify(|x| *x += 1).or_insert(1);
                            }
                        }
                        // The group of such a channel may be there because of an earlier call on it that sets nothing.
                        let listed: Vec<String> = f.list_groups().map(|g| g.to_string()).collect();
                        for i in &torn {
                            let (g, _) = &self.t.names[*i];
                            if g.as_deref().map(|g| listed.contains(&raw(g))) == Some(true) && !s2.groups().contains(&raw(g.as_deref().unwrap())) {
                                s2.obj(g, &None);
                            }
                        }
                        self.st.checks += 1;
                        if k > lo {
                            *self.st.probes.entry("unsecured_call_survived").or_insert(0) += 1;
                        }
                        if k < hi {
                            *self.st.probes.entry("unsecured_call_lost").or_insert(0) += 1;
                        }
                        return Ok((Rc::new(s2), k));
                    }
                    Err((_, m)) => {
                        if why.len() < 12 {
                            why.push(format!("after {k} calls: {m}"));
                        }
                    }
                }
            }
        }
        viol(class, format!("what is read is none of the acceptable states ({lo}..={hi} of {} calls): {}", self.hist.n(), why.join("; ")))
    }

    fn full_check<F: Read + Seek>(&mut self, f: &mut TdmsFile<F>, whose: &str) -> R<()> {
        self.readonly(true);
        let s = self.behind.clone().unwrap_or_else(|| self.hist.only().expect("model is exact").clone());
        let r = check_state(f, &s, self.t, &[], self.fl);
        self.readonly(false);
        self.st.checks += 1;
        match r {
            Ok(()) => Ok(()),
            Err((c, m)) => viol(c, format!("{whose}: {m}")),
        }
    }

    /// On the handle a failing session ran on: everything secured is still read exactly, and no property value that
    /// was never accepted shows up.
    fn secured_check<F: Read + Seek>(&mut self, f: &mut TdmsFile<F>) -> R<()> {
        let lo = self.hist.lives[self.hist.min].clone();
        let mut why = String::new();
        'cand: for s in &lo {
            for o in s.objs.values() {
                if let (Some(g), Some(c)) = (&o.group, &o.chan) {
                    let p = cpath(g, c);
                    let l = f.channel_length(&p);
                    if l.unwrap_or(0) < o.len() || l.is_none() {
                        why = format!("length of {p} is {l:?}, {} samples are secured", o.len());
                        continue 'cand;
                    }
                    let mut start = 0;
                    for (ty, v) in &o.runs {
                        if let Err(e) = with_ty!(ty, T, read_run::<T, F>(f, &p, start, *ty, v, false)) {
                            why = e;
                            continue 'cand;
                        }
                        start += v.len() as u64;
                    }
                }
            }
            why.clear();
            break;
        }
        if !why.is_empty() {
            return viol("secured", format!("on the handle whose session failed: {why}"));
        }
        // Every value readable is the accepted one: samples beyond the secured ones are an error or right.
        let cands: Vec<Rc<State>> = self.hist.lives[self.hist.min..].iter().flatten().cloned().collect();
        let full = self.hist.full().clone();
        for (p, o) in &full.objs {
            if let Some(it) = f.read_all_properties(&ppath(&o.group, &o.chan)) {
                for (k, v) in it {
                    if !cands.iter().any(|s| s.objs.get(p).and_then(|o| o.props.get(k)).map(|w| w.same(v)).unwrap_or(false)) {
                        return viol("unaccepted-property", format!("on the handle whose session failed: property {k:?} of {p} is {v:?}"));
                    }
                }
            }
            if let (Some(g), Some(c)) = (&o.group, &o.chan) {
                let cp = cpath(g, c);
                if let Some(l) = f.channel_length(&cp) {
                    self.tail_read(f, &cp, p, l, &cands)?;
                }
            }
        }
        self.st.checks += 1;
        Ok(())
    }

    /// Read a channel one sample at a time near the uncertain end: an error, or a value some acceptable state has there.
    fn tail_read<F: Read + Seek>(&self, f: &mut TdmsFile<F>, cp: &ChannelPath, p: &str, len: u64, cands: &[Rc<State>]) -> R<()> {
        for pos in [len.saturating_sub(1), len / 2, len.saturating_sub(7)] {
            if pos >= len {
                continue;
            }
            let mut tys: Vec<Ty> = cands.iter().filter_map(|s| s.objs.get(p)?.at(pos).map(|x| x.0)).collect();
            tys.sort();
            tys.dedup();
            tys.retain(|t| *t != Ty::Str);
            for ty in tys {
                let ok: Vec<u128> = cands.iter().filter_map(|s| s.objs.get(p)?.at(pos)).filter(|x| x.0 == ty).map(|x| x.1).collect();
                let got = with_ty!(ty, T, {
                    let mut b = vec![<T as Samp>::from_bits(0)];
                    match f.read_channel_from(cp, pos, &mut b) {
                        Ok(()) => Some((ok.iter().any(|v| b[0].same(*v)), b[0].show())),
                        Err(_) => None,
                    }
                });
                if let Some((false, v)) = got {
                    return viol("unaccepted-sample", format!("on the handle whose session failed: {cp} sample {pos} reads {v}, which was not written"));
                }
            }
        }
        Ok(())
    }

    fn session<B: Backend>(&mut self, f: &mut TdmsFile<B::F>, ops: &[Op]) -> R<()> {
        let t = self.t;
        let f0 = self.fired();
        let mut failed = false;
        if let Some(Op::ArmWriter(ft)) = ops.first() {
            self.disk.borrow_mut().arm(*ft);
        }
        for attempt in 0..3 {
            if attempt == 1 && self.hist.only().is_some() && !self.stale && matches!(ops.first(), Some(Op::ArmWriter(_))) {
                self.full_check(f, "on a handle whose writer() failed")?;
            }
            match f.writer() {
                Err(e) => {
                    let _ = format!("{e} {e:?}");
                    if self.fired() > f0 && attempt == 0 {
                        self.probe("writer_failed_by_fault");
                        self.disk.borrow_mut().disarm();
                        continue;
                    }
                    return viol("writer", format!("writer() fails: {e:?}"));
                }
                Ok(mut w) => {
                    if self.fired() > f0 && attempt == 0 {
                        self.probe("writer_ok_despite_fault");
                    }
                    let f1 = self.fired();
                    for op in ops {
                        let fb = self.fired();
                        let jb = self.jb();
                        let res: Result<(), TdmsError> = match op {
                            Op::W { ty, n, il, s, .. } => {
                                let ch = t.chans(op);
                                if !t.accepted(op) {
                                    continue;
                                }
                                let paths: Vec<ChannelPath> = ch.iter().map(|i| path_of(t, *i)).collect();
                                let lay = if *il { DataLayout::Interleaved } else { DataLayout::Contigious };
                                let total = ch.len() as u64 * *n as u64;
                                self.ev.push((jb, Ev::Start));
                                with_ty!(ty, T, {
                                    if self.mine {
                                        let v: Vec<Mine<T>> = (0..total).map(|i| <Mine<T> as Samp>::from_bits(ty.sample(*s as u64, i))).collect();
                                        w.write_channels(&paths, &v, lay)
                                    } else {
                                        let v: Vec<T> = (0..total).map(|i| <T as Samp>::from_bits(ty.sample(*s as u64, i))).collect();
                                        w.write_channels(&paths, &v, lay)
                                    }
                                })
                            }
                            Op::P { o, p } => {
                                let (g, c) = t.name(*o);
                                let vals: Vec<(&str, tedium::PropertyValue)> = p.iter().map(|(k, v)| (k.as_str(), v.converted())).collect();
                                self.ev.push((jb, Ev::Start));
                                w.write_properties(&ppath(&g, &c), &vals)
                            }
                            Op::Sync => w.sync(),
                            Op::NoChannels { ty, n } => with_ty!(ty, T, {
                                let v: Vec<T> = (0..*n as u64).map(|i| <T as Samp>::from_bits(ty.sample(1, i))).collect();
                                let none: [ChannelPath; 0] = [];
                                w.write_channels(&none, &v, DataLayout::Interleaved)
                            }),
                            Op::BadLen { ty, n, extra, il, .. } => {
                                let ch = t.chans(op);
                                if ch.len() < 2 {
                                    continue;
                                }
                                let paths: Vec<ChannelPath> = ch.iter().map(|i| path_of(t, *i)).collect();
                                let k = ch.len() as u64;
                                let total = k * *n as u64 + 1 + *extra as u64 % (k - 1);
                                let lay = if *il { DataLayout::Interleaved } else { DataLayout::Contigious };
                                with_ty!(ty, T, {
                                    let v: Vec<T> = (0..total).map(|i| <T as Samp>::from_bits(ty.sample(2, i))).collect();
                                    w.write_channels(&paths, &v, lay)
                                })
                            }
                            Op::NoValues { ty, il, .. } => {
                                let ch = t.chans(op);
                                if ch.is_empty() {
                                    continue;
                                }
                                let paths: Vec<ChannelPath> = ch.iter().map(|i| path_of(t, *i)).collect();
                                let lay = if *il { DataLayout::Interleaved } else { DataLayout::Contigious };
                                with_ty!(ty, T, {
                                    let v: Vec<T> = vec![];
                                    w.write_channels(&paths, &v, lay)
                                })
                            }
                            Op::Strings { n, il, .. } => {
                                let ch = t.chans(op);
                                if ch.is_empty() {
                                    continue;
                                }
                                let paths: Vec<ChannelPath> = ch.iter().map(|i| path_of(t, *i)).collect();
                                let lay = if *il { DataLayout::Interleaved } else { DataLayout::Contigious };
                                let v: Vec<String> = (0..ch.len() as u64 * (*n as u64).max(1)).map(|i| format!("s{i}")).collect();
                                w.write_channels(&paths, &v, lay)
                            }
                            Op::Twice { ty, n, il, at, .. } => {
                                let ch = t.chans(op);
                                if ch.is_empty() {
                                    continue;
                                }
                                let mut paths: Vec<ChannelPath> = ch.iter().map(|i| path_of(t, *i)).collect();
                                let (from, to) = (*at as usize % ch.len(), (*at as usize / 7) % (ch.len() + 1));
                                paths.insert(to, path_of(t, ch[from]));
                                let lay = if *il { DataLayout::Interleaved } else { DataLayout::Contigious };
                                with_ty!(ty, T, {
                                    let v: Vec<T> = (0..paths.len() as u64 * (*n).max(1) as u64).map(|i| <T as Samp>::from_bits(ty.sample(3, i))).collect();
                                    w.write_channels(&paths, &v, lay)
                                })
                            }
                            Op::TooLong { o, name, first } => {
                                let (g, c) = t.name(*o);
                                // The zeros are never touched, so they take no memory unless they are copied.
                                let long = unsafe { String::from_utf8_unchecked(vec![0u8; (1 << 32) + 5]) };
                                let short = tedium::PropertyValue::I32(7);
                                let mut vals: Vec<(&str, tedium::PropertyValue)> = vec![("fits", short.clone())];
                                if *name {
                                    vals.push((&long, short));
                                } else {
                                    vals.push(("too long", tedium::PropertyValue::String(long)));
                                }
                                if *first {
                                    vals.reverse();
                                }
                                crate::alloc::arm(6 << 30);
                                let r = w.write_properties(&ppath(&g, &c), &vals);
                                crate::alloc::disarm();
                                r
                            }
                            Op::Arm(ft) => {
                                self.disk.borrow_mut().arm(*ft);
                                continue;
                            }
                            Op::Full(n) => {
                                let mut d = self.disk.borrow_mut();
                                let cap = d.data.len() as u64 + *n as u64;
                                d.capacity = Some(cap);
                                continue;
                            }
                            Op::ArmValue { nth, kind } => {
                                self.arm_value(*nth, *kind);
                                continue;
                            }
                            Op::Disarm | Op::ArmWriter(_) => {
                                self.mine = false;
                                arm_value(u64::MAX, 0);
                                self.disk.borrow_mut().disarm();
                                continue;
                            }
                        };
                        if let Err(e) = &res {
                            let _ = format!("{e} {e:?}");
                        }
                        match op {
                            Op::W { .. } | Op::P { .. } => match res {
                                Ok(()) => {
                                    self.hist.attempt(t, op, true);
                                    self.st.accepted += 1;
                                    if failed {
                                        *self.st.probes.entry("accepted_after_failed_call").or_insert(0) += 1;
                                    }
                                    if self.fired() > fb {
                                        *self.st.probes.entry("call_ok_despite_fault").or_insert(0) += 1;
                                    }
                                }
                                Err(e) => {
                                    if self.fired() == f1 {
                                        return viol("refused", format!("an acceptable call is refused: {op:?}: {e:?}"));
                                    }
                                    self.hist.attempt(t, op, false);
                                    failed = true;
                                    *self.st.probes.entry("call_failed_by_fault").or_insert(0) += 1;
                                }
                            },
                            Op::Sync => match res {
                                Ok(()) => {
                                    self.hist.secure();
                                    let n = self.hist.n();
                                    self.ev.push((self.jb(), Ev::Secured(n)));
                                    let open_bytes = self.jb() - self.disk.borrow().barrier;
                                    if self.t.path > 0 {
                                        // What reaches the operating system survives the death of the process.
                                        if open_bytes > 0 && self.t.prop == "C08" && self.soft.is_none() {
                                            self.soft = Some(Violation {
                                                class: "sync-without-fsync".into(),
                                                msg: format!("sync on a file opened by path returned success but asked the operating system for no fsync or fdatasync of the {open_bytes} bytes written since: a power failure can lose them"),
                                            });
                                        }
                                    } else if self.fl.sync_flush && open_bytes > 0 {
                                        return viol("sync-not-durable", "sync returned success but the storage was not flushed after the last write");
                                    }
                                    *self.st.probes.entry(if failed { "sync_ok_after_failure" } else { "sync_ok" }).or_insert(0) += 1;
                                }
                                Err(e) => {
                                    if self.fired() == f1 {
                                        return viol("refused", format!("sync fails without a fault: {e:?}"));
                                    }
                                    failed = true;
                                    *self.st.probes.entry("sync_failed_by_fault").or_insert(0) += 1;
                                }
                            },
                            _ => {
                                *self.st.probes.entry("refused_call").or_insert(0) += 1;
                                if res.is_ok() {
                                    return viol("not-refused", format!("a call that must be refused is accepted: {op:?}"));
                                }
                            }
                        }
                    }
                    drop(w);
                    self.mine = false;
                    arm_value(u64::MAX, 0);
                    if self.fired() == f1 && !failed {
                        self.hist.secure();
                        let n = self.hist.n();
                        self.ev.push((self.jb(), Ev::Secured(n)));
                        self.stale = false;
                    } else {
                        self.stale = true;
                        self.probe(if failed { "session_with_failed_call" } else { "session_failed_in_release" });
                    }
                    return Ok(());
                }
            }
        }
        viol("writer", "writer() fails twice")
    }

    fn window<F: Read + Seek>(&mut self, f: &mut TdmsFile<F>, r: &ReadStep, s: &State) -> R<ReadOutcome> {
        let t = self.t;
        let ch = t.read_list(&r.ch);
        if ch.is_empty() {
            return Ok(ReadOutcome::Done);
        }
        let objs: Vec<Option<Rc<Obj>>> = ch.iter().map(|i| s.objs.get(&pstr(&t.names[*i].0, &t.names[*i].1)).cloned()).collect();
        let ty = r.ty.unwrap_or_else(|| {
            objs.iter()
                .flatten()
                .find_map(|o| o.at(r.start).map(|x| x.0).or(o.runs.last().map(|x| x.0)))
                .unwrap_or(Ty::F64)
        });
        let ty = if ty == Ty::Str { Ty::F64 } else { ty };
        if self.mine {
            return with_ty!(ty, T, self.window_t::<Mine<T>, F>(f, r, ty.plain(), &ch, &objs));
        }
        with_ty!(ty, T, self.window_t::<T, F>(f, r, ty.plain(), &ch, &objs))
    }

    fn window_t<T: Samp, F: Read + Seek>(&mut self, f: &mut TdmsFile<F>, r: &ReadStep, ty: Ty, ch: &[usize], objs: &[Option<Rc<Obj>>]) -> R<ReadOutcome> {
        let t = self.t;
        let paths: Vec<ChannelPath> = ch.iter().map(|i| path_of(t, *i)).collect();
        let lens: Vec<usize> = (0..ch.len()).map(|i| if r.len.is_empty() { 4 } else { r.len[i % r.len.len()] as usize }).collect();
        let missing = objs.iter().any(|o| o.is_none());
        // Expected value of each position: None = untouched.
        let mut want: Vec<Vec<Option<u128>>> = vec![];
        let mut mismatch = false;
        for (o, n) in objs.iter().zip(&lens) {
            let mut v = vec![None; *n];
            if let Some(o) = o {
                for i in 0..*n {
                    let Some(pos) = r.start.checked_add(i as u64) else { break };
                    match o.at(pos) {
                        None => break,
                        Some((k, b)) if k.plain() == ty => v[i] = Some(b),
                        Some((Ty::U8, b)) if ty == Ty::Bool => v[i] = Some((b != 0) as u128),
                        _ => {
                            mismatch = true;
                            break;
                        }
                    }
                }
            }
            want.push(v);
        }
        let mut bufs: Vec<Vec<T>> = lens
            .iter()
            .enumerate()
            .map(|(c, n)| {
                (0..*n)
                    .map(|i| match (ty, want[c][i]) {
                        // A value that differs from the right one, so that a skipped position shows.
                        (Ty::Bool, Some(w)) => T::from_bits((w == 0) as u128),
                        (_, Some(w)) => T::from_bits(w ^ 1),
                        _ => T::from_bits(ty.sample(0x5E47 + c as u64, i as u64)),
                    })
                    .collect()
            })
            .collect();
        let orig = bufs.clone();
        let f0 = self.fired();
        self.readonly(true);
        let res = {
            let single = r.one && paths.len() == 1;
            if single {
                if r.plain && r.start == 0 {
                    f.read_channel(&paths[0], &mut bufs[0])
                } else {
                    f.read_channel_from(&paths[0], r.start, &mut bufs[0])
                }
            } else {
                let mut refs: Vec<&mut [T]> = bufs.iter_mut().map(|b| &mut b[..]).collect();
                if r.plain && r.start == 0 {
                    f.read_channels(&paths, &mut refs)
                } else {
                    f.read_channels_from(&paths, r.start, &mut refs)
                }
            }
        };
        self.readonly(false);
        let mut fault = self.fired() > f0;
        self.st.checks += 1;
        if let Some(blocks) = &self.bad {
            let windows: Vec<(&str, u64, u64)> = paths.iter().zip(&lens).map(|(p, n)| (p.path(), r.start, *n as u64)).collect();
            let bad = &self.disk.borrow().bad;
            let needs = blocks.iter().flat_map(|b| b.needed(&windows)).any(|(s, e)| bad.iter().any(|(x, y)| s < *y && *x < e));
            if !needs {
                fault = false;
                *self.st.probes.entry("read_beside_bad_spot").or_insert(0) += 1;
            }
        }
        let what = || format!("reading {:?} from {} (lengths {:?}) as {:?}", paths, r.start, lens, ty);
        match res {
            Ok(()) => {
                if missing {
                    return viol("not-refused", format!("{}: a channel does not exist but no error", what()));
                }
                if mismatch {
                    return viol("not-refused", format!("{}: stored samples have another type but no error", what()));
                }
                for c in 0..bufs.len() {
                    for i in 0..bufs[c].len() {
                        match want[c][i] {
                            Some(w) => {
                                if !bufs[c][i].same(w) {
                                    return viol(
                                        if fault { "wrong-result-after-fault" } else { "window" },
                                        format!("{}: position {} of {} is {} instead of {}", what(), i, paths[c], bufs[c][i].show(), T::from_bits(w).show()),
                                    );
                                }
                            }
                            None => {
                                if bufs[c][i].show() != orig[c][i].show() {
                                    return viol("window", format!("{}: position {} of {} lies past the end but was changed to {}", what(), i, paths[c], bufs[c][i].show()));
                                }
                            }
                        }
                    }
                }
                self.probe(if paths.len() > 1 { "window_multi" } else { "window_single" });
                Ok(ReadOutcome::Done)
            }
            Err(e) => {
                let _ = format!("{e} {e:?}");
                if !(missing || mismatch || fault) {
                    return viol("read-error", format!("{}: error {e:?}", what()));
                }
                for c in 0..bufs.len() {
                    for i in 0..bufs[c].len() {
                        let same = bufs[c][i].show() == orig[c][i].show();
                        if !same && !want[c][i].map(|w| bufs[c][i].same(w)).unwrap_or(false) {
                            return viol("buffer-garbage", format!("{} failed ({e:?}) and left {} at position {} of {}", what(), bufs[c][i].show(), i, paths[c]));
                        }
                    }
                }
                if missing {
                    self.probe("read_missing_refused");
                } else if mismatch {
                    self.probe("read_type_refused");
                }
                if fault && !(missing || mismatch) {
                    self.probe("read_failed_by_fault");
                    return Ok(ReadOutcome::Failed);
                }
                Ok(ReadOutcome::Done)
            }
        }
    }

    fn range_at(&self, c: u64) -> (usize, usize) {
        let mut lo = 0;
        let mut hi = 0;
        for (j, e) in &self.ev {
            if *j <= c {
                match e {
                    Ev::Start => hi += 1,
                    Ev::Secured(n) => lo = lo.max(*n),
                }
            }
        }
        (lo, hi.min(self.hist.n()).max(lo))
    }

    fn cut_probe(&mut self, cut: u64, img: &[u8]) {
        // Where in a segment does the cut fall?
        if let Ok(d) = tdms::decode(&self.disk.borrow().image(self.jb()), false) {
            let end = img.len();
            let k = d.segs.iter().find(|(s, _, e)| *s < end && end < *e).map(|(s, m, _)| {
                if end < s + 28 {
                    "cut_in_lead_in"
                } else if end < *m {
                    "cut_in_metadata"
                } else if end == *m {
                    "cut_before_raw_data"
                } else {
                    "cut_in_raw_data"
                }
            });
            *self.st.probes.entry(k.unwrap_or("cut_at_segment_boundary")).or_insert(0) += 1;
        }
        let _ = cut;
    }

    /// Run the steps. Returns at the first violation.
    pub fn run<B: Backend>(&mut self, b: &B, steps: &[Step]) -> R<()> {
        let first = if matches!(steps.first(), Some(Step::Create)) || (self.t.prop != "C16" && self.t.path != 2) {
            None
        } else {
            Some(())
        };
        let mut file: Option<TdmsFile<B::F>> = None;
        if first.is_some() {
            file = Some(self.create(b)?);
        }
        for step in steps {
            if file.is_none() && !self.unknown && !matches!(step, Step::Create | Step::LoadMissing | Step::Arm(_) | Step::Corrupt(_)) {
                file = Some(self.open(b)?);
                self.stale = false;
                self.behind = None;
            }
            self.step(b, &mut file, step)?;
            self.write_violation()?;
        }
        self.disk.borrow_mut().disarm();
        for _ in 0..crate::ty::value_faults() {
            self.disk.borrow_mut().note("caller_conversion_error");
        }
        if let Some(mut f) = file {
            if self.hist.only().is_some() && !self.unknown && !self.stale {
                self.full_check(&mut f, "at the end, on the last handle")?;
            }
        }
        self.write_violation()?;
        self.note_shape();
        if self.fl.decode {
            self.decode_check()?;
        }
        Ok(())
    }

    fn note_shape(&mut self) {
        if let Ok(d) = tdms::decode(&self.disk.borrow().data, false) {
            let mut h = 0;
            for s in &d.shape {
                h = mix2(h, *s);
            }
            self.st.shape = h;
            for w in d.segs.windows(1) {
                let (s, m, e) = w[0];
                if m == s + 28 && e > m {
                    *self.st.probes.entry("segments_without_metadata").or_insert(0) += 1;
                }
            }
        }
    }

    fn decode_check(&mut self) -> R<()> {
        let s = self.hist.only().expect("exact").clone();
        let d = match tdms::decode(&self.disk.borrow().data, true) {
            Ok(d) => d,
            Err(m) => return viol("malformed", format!("stored file is not well-formed TDMS: {m}")),
        };
        self.st.checks += 1;
        if d.state != *s {
            return viol("decoded-differently", state_diff(&d.state, &s));
        }
        Ok(())
    }

    fn create<B: Backend>(&mut self, b: &B) -> R<TdmsFile<B::F>> {
        let f0 = self.fired();
        match b.create() {
            Ok(f) => {
                if !self.disk.borrow().data.is_empty() {
                    return viol("create", "the file is not empty after creating it");
                }
                self.hist.settle(Rc::new(State::default()));
                Ok(f)
            }
            Err(_) if self.fired() > f0 => {
                self.probe("create_failed_by_fault");
                self.disk.borrow_mut().disarm();
                match b.create() {
                    Ok(f) => {
                        self.hist.settle(Rc::new(State::default()));
                        Ok(f)
                    }
                    Err(e) => viol("create", format!("creating still fails after the storage works again: {e:?}")),
                }
            }
            Err(e) => viol("create", format!("creating a file fails: {e:?}")),
        }
    }

    /// After a failed session: find out what is stored through a separate handle.
    fn settle_storage<B: Backend>(&mut self, b: &B) -> R<()> {
        if self.hist.only().is_some() {
            return Ok(());
        }
        self.disk.borrow_mut().disarm();
        let mut g = self.open(b)?;
        let (lo, hi) = (self.hist.min, self.hist.n());
        self.resolve(&mut g, lo, hi, "after-failure")
    }

    fn step<B: Backend>(&mut self, b: &B, file: &mut Option<TdmsFile<B::F>>, step: &Step) -> R<()> {
        match step {
            Step::Sess(ops) => {
                if self.unknown {
                    return Ok(());
                }
                self.settle_storage(b)?;
                let f = file.as_mut().unwrap();
                self.session::<B>(f, ops)?;
                if self.behind.take().is_some() {
                    self.probe("session_on_handle_left_behind");
                }
                self.disk.borrow_mut().disarm();
                if self.hist.only().is_none() {
                    let f = file.as_mut().unwrap();
                    self.readonly(true);
                    self.secured_check(f)?;
                    self.readonly(false);
                } else if !self.keep {
                    let s = self.hist.only().unwrap().clone();
                    self.hist.settle(s);
                    self.ev.clear();
                }
                if self.fl.decode {
                    self.decode_check()?;
                }
            }
            Step::Other(ops) => {
                if self.unknown || self.stale || self.hist.only().is_none() {
                    return Ok(());
                }
                self.disk.borrow_mut().disarm();
                let s = self.hist.only().unwrap().clone();
                let mut g = self.open(b)?;
                self.session::<B>(&mut g, ops)?;
                if let (Some(s), false) = (self.hist.only().cloned(), self.keep) {
                    self.hist.settle(s);
                    self.ev.clear();
                }
                let behind = self.behind.take().unwrap_or(s);
                self.full_check(&mut g, "on a second handle that wrote")?;
                self.behind = Some(behind);
                self.probe("second_handle_wrote");
            }
            Step::Reopen => {
                if self.unknown {
                    return Ok(());
                }
                *file = None;
                self.stale = false;
                self.behind = None;
                let f0 = self.fired();
                let mut f = self.open(b)?;
                let fired = self.fired() > f0;
                self.disk.borrow_mut().disarm();
                if self.hist.only().is_none() {
                    let (lo, hi) = (self.hist.min, self.hist.n());
                    self.resolve(&mut f, lo, hi, "after-failure")?;
                } else if fired {
                    self.full_check(&mut f, "on a handle opened around a failing read")?;
                }
                *file = Some(f);
            }
            Step::Check => {
                if self.unknown || self.stale || self.hist.only().is_none() {
                    return Ok(());
                }
                let mut f = file.take().unwrap();
                self.full_check(&mut f, "on the current handle")?;
                *file = Some(f);
            }
            Step::Fresh => {
                if self.unknown {
                    return Ok(());
                }
                self.settle_storage(b)?;
                let mut g = self.open(b)?;
                self.disk.borrow_mut().disarm();
                let behind = self.behind.take();
                self.full_check(&mut g, "on a newly opened handle")?;
                self.behind = behind;
            }
            Step::Read(r) => {
                if self.unknown {
                    return Ok(());
                }
                if self.stale || self.hist.only().is_none() {
                    return Ok(());
                }
                let s = self.behind.clone().unwrap_or_else(|| self.hist.only().unwrap().clone());
                let mut f = file.take().unwrap();
                if let ReadOutcome::Failed = self.window(&mut f, r, &s)? {
                    self.disk.borrow_mut().disarm();
                    match self.window(&mut f, r, &s) {
                        Ok(_) => {}
                        Err(v) => return viol("retry", format!("after a failed read, with the storage working again: {}", v.msg)),
                    }
                }
                self.mine = false;
                arm_value(u64::MAX, 0);
                self.disk.borrow_mut().disarm();
                *file = Some(f);
            }
            Step::Huge(h) => {
                let r = crate::huge::run(self.t, h, &mut self.st);
                alloc::disarm();
                let (calls, hash) = r?;
                let mut d = self.disk.borrow_mut();
                d.hash = mix2(d.hash, hash);
                d.calls += calls;
            }
            Step::Many(m) => {
                let (calls, hash) = crate::many::run(self.t, m, &mut self.st)?;
                let mut d = self.disk.borrow_mut();
                d.hash = mix2(d.hash, hash);
                d.calls += calls;
            }
            Step::Daqmx { be, line, o } => {
                let (g, c) = self.t.name(*o);
                if self.unknown || c.is_none() || self.hist.only().is_none() {
                    return Ok(());
                }
                let mut data = self.disk.borrow().data.clone();
                if !tdms::decode(&data, false).map(|d| d.end == data.len() && !d.tail).unwrap_or(false) {
                    return Ok(());
                }
                tdms::daqmx(&mut data, &pstr(&g, &c), *be, *line);
                let d2 = Disk::new(Delivery::default());
                d2.borrow_mut().set(data);
                if let Ok(f) = b.fork(&d2).load() {
                    // Opened all the same: then nothing may be given out as its samples.
                    let p = cpath(g.as_deref().unwrap(), c.as_deref().unwrap());
                    let l = f.channel_length(&p);
                    let had = self.hist.only().unwrap().objs.get(&pstr(&g, &c)).map(|o| o.len());
                    return viol("daqmx", format!("a file with a DAQmx channel is opened; length of {p} is {l:?}, without it {had:?}"));
                }
                self.probe("daqmx_refused");
                self.st.checks += 1;
            }
            Step::Foreign(fs) => {
                let t_prop = self.t.prop.as_str();
                if self.unknown {
                    return Ok(());
                }
                self.settle_storage(b)?;
                let mut s = (**self.hist.only().unwrap()).clone();
                let mut data = self.disk.borrow().data.clone();
                // What this library stored so far must mean the same to the other writer.
                let now = tdms::decode(&data, false);
                if now.as_ref().map(|d| d.state != s).unwrap_or(true) {
                    if self.fl.decode || t_prop == "C06" {
                        let m = match now {
                            Ok(d) => state_diff(&d.state, &s),
                            Err(m) => m,
                        };
                        return viol("stored-differently", format!("the stored file does not decode to what was accepted: {m}"));
                    }
                    return Ok(());
                }
                if tdms::foreign(self.t, fs, &mut data, &mut s).is_some() {
                    match tdms::decode(&data, false) {
                        Ok(d) if d.state == s => {}
                        Ok(d) => panic!("HARNESS: encoder and decoder disagree: {:?} / {:?}", d.state, s),
                        Err(m) => panic!("HARNESS: own foreign segment does not decode: {m}"),
                    }
                    self.probe("foreign_segment");
                    if fs.objs.iter().any(|o| o.idx == FIdx::New(Ty::Str)) {
                        self.probe("foreign_strings");
                    }
                    if fs.no_meta {
                        self.probe("foreign_no_meta");
                    }
                    if fs.be {
                        self.probe("foreign_big_endian");
                    }
                    if fs.tail > 0 {
                        self.probe("foreign_cut_tail");
                    }
                    self.disk.borrow_mut().set(data);
                    self.settle(Rc::new(s));
                    *file = None;
                self.stale = false;
                }
            }
            Step::LiveForeign { segs, how, at, adv, reads, again } => {
                if self.unknown {
                    return Ok(());
                }
                self.settle_storage(b)?;
                *file = None;
                self.stale = false;
                self.behind = None;
                self.live_foreign(b, segs, how, *at, adv, *reads, *again)?;
                *file = Some(self.open(b)?);
            }
            Step::Bad(bad) => {
                if self.unknown || self.stale || self.behind.is_some() || self.hist.only().is_none() {
                    return Ok(());
                }
                self.disk.borrow_mut().disarm();
                let mut f = file.take().unwrap();
                let r = self.bad_spot(b, &mut f, bad);
                self.bad = None;
                self.disk.borrow_mut().bad.clear();
                r?;
                if bad.fresh {
                    drop(f);
                    f = self.open(b)?;
                }
                self.full_check(&mut f, "with the whole storage readable again")?;
                *file = Some(f);
            }
            Step::Arm(ft) => self.disk.borrow_mut().arm(*ft),
            Step::Full(n) => {
                let mut d = self.disk.borrow_mut();
                let cap = d.data.len() as u64 + *n as u64;
                d.capacity = Some(cap);
            }
            Step::ArmValue { nth, kind } => self.arm_value(*nth, *kind),
            Step::Disarm => {
                self.mine = false;
                arm_value(u64::MAX, 0);
                self.disk.borrow_mut().disarm()
            }
            Step::Crash { cut } => {
                if self.unknown {
                    return Ok(());
                }
                *file = None;
                self.stale = false;
                self.behind = None;
                let total = self.jb();
                let c = cut % (total + 1);
                let (lo, hi) = self.range_at(c);
                let img = self.disk.borrow().image(c);
                self.cut_probe(c, &img);
                self.disk.borrow_mut().set(img);
                self.probe("crash");
                let mut f = self.open(b)?;
                self.readonly(true);
                self.resolve(&mut f, lo, hi, "after-crash")?;
                self.readonly(false);
                *file = Some(f);
            }
            Step::Probe { cut, append } => {
                if self.unknown {
                    return Ok(());
                }
                let total = self.jb();
                let c = cut % (total + 1);
                let (lo, hi) = self.range_at(c);
                let img = self.disk.borrow().image(c);
                self.cut_probe(c, &img);
                self.probe("crash");
                let copy = Disk::new(self.t.delivery);
                copy.borrow_mut().data = img;
                copy.borrow_mut().budget = 200_000_000;
                let b2 = b.fork(&copy);
                let mut f = match b2.load() {
                    Ok(f) => f,
                    Err(e) => return viol("open-after-crash", format!("opening after a crash (byte {c} of {total}) fails: {e:?}")),
                };
                let (s, _) = self.pick(&mut f, lo, hi, "after-crash")?;
                if let Some(ops) = append {
                    let mut sub = Ctx::new(self.t, &copy);
                    sub.keep = false;
                    sub.hist.settle(s);
                    sub.session::<B>(&mut f, ops)?;
                    sub.full_check(&mut f, "appending after a crash, on the same handle")?;
                    drop(f);
                    let mut g = sub.open(&b2)?;
                    sub.full_check(&mut g, "appending after a crash, reopened")?;
                    self.st.checks += sub.st.checks;
                    self.st.accepted += sub.st.accepted;
                    self.probe("append_after_crash");
                }
                let h = copy.borrow().hash;
                let mut d = self.disk.borrow_mut();
                d.hash = mix2(d.hash, h);
                let cc = copy.borrow().calls;
                d.calls += cc;
            }
            Step::Live { at, adv, reads, again } => {
                if self.unknown {
                    return Ok(());
                }
                self.live(b, *at, adv, *reads, *again)?;
            }
            Step::Corrupt(cs) => {
                *file = None;
                self.stale = false;
                self.unknown = true;
                let mut data = self.disk.borrow().data.clone();
                for c in cs {
                    crate::corrupt::apply_corruption(&mut data, c);
                }
                self.disk.borrow_mut().set(data);
            }
            Step::Explore { s, write } => {
                *file = None;
                self.stale = false;
                self.unknown = true;
                let limit = self.alloc_limit;
                let late = self.late.take();
                let r = crate::corrupt::explore(self.t, &self.disk, *s as u64, *write, limit, late, &mut self.st);
                alloc::disarm();
                r?;
            }
            Step::Late { after, cs } => self.late = Some((*after, cs.clone())),
            Step::AllocLimit(n) => self.alloc_limit = *n as usize,
            Step::Create => {
                *file = None;
                self.stale = false;
                self.behind = None;
                *file = Some(self.create(b)?);
                self.disk.borrow_mut().disarm();
            }
            Step::LoadMissing => {
                let (ok, exists) = b.load_missing();
                self.probe("load_missing");
                if ok {
                    return viol("load-missing", "opening a missing file succeeds");
                }
                if exists {
                    return viol("load-missing", "opening a missing file creates it");
                }
            }
        }
        Ok(())
    }

    /// Part of the samples cannot be read.
    fn bad_spot<B: Backend>(&mut self, b: &B, f: &mut TdmsFile<B::F>, bad: &Bad) -> R<()> {
        let s = self.hist.only().unwrap().clone();
        let d = match tdms::decode(&self.disk.borrow().data, false) {
            Ok(d) if d.state == *s && !d.blocks.is_empty() => d,
            _ => return Ok(()),
        };
        let n = d.blocks.len();
        let is_bad: Vec<bool> = (0..n).map(|i| bad.blocks.iter().any(|b| *b as usize % n == i) != bad.but).collect();
        {
            let mut disk = self.disk.borrow_mut();
            disk.bad = d
                .blocks
                .iter()
                .zip(&is_bad)
                .filter(|(_, bad)| **bad)
                .map(|(b, _)| match bad.part {
                    None => (b.start, b.end),
                    Some((at, n)) => {
                        let at = b.start + at as u64 % (b.end - b.start);
                        (at, (at + n as u64 + 1).min(b.end))
                    }
                })
                .collect();
            disk.bad_kind = bad.kind;
        }
        self.bad = Some(d.blocks);
        let mut g = None;
        if bad.fresh {
            match b.load() {
                Ok(x) => g = Some(x),
                Err(e) => return viol("bad-spot", format!("opening fails because some samples cannot be read: {e:?}")),
            }
        }
        let g = g.as_mut().unwrap_or(f);
        let fl = Flags { samples: false, ..self.fl };
        if let Err((k, m)) = check_state(g, &s, self.t, &[], fl) {
            return viol(k, format!("with samples that cannot be read: {m}"));
        }
        for r in &bad.reads {
            self.window(g, r, &s)?;
        }
        if !bad.append.is_empty() {
            self.session::<B>(g, &bad.append)?;
            self.probe("append_beside_bad_spot");
            let Some(s) = self.hist.only().cloned() else {
                return viol("bad-spot", "appending fails because some older samples cannot be read");
            };
            self.hist.settle(s.clone());
            self.ev.clear();
            if let Ok(d) = tdms::decode(&self.disk.borrow().data, false) {
                self.bad = Some(d.blocks);
            }
            for r in &bad.reads {
                self.window(g, r, &s)?;
            }
        }
        Ok(())
    }

    fn live<B: Backend>(&mut self, b: &B, at: u64, adv: &[u32], reads: u8, again: u8) -> R<()> {
        let (journal, total) = {
            let d = self.disk.borrow();
            (Rc::new(d.journal.clone()), d.jbytes)
        };
        let adv = Rc::new(adv.to_vec());
        let mut seen = at % (total + 1);
        let mut prev = 0usize;
        let mut step = 0usize;
        for round in 0..=(again as usize) {
            let mut delivery = self.t.delivery;
            delivery.seed = mix2(delivery.seed, mix2(at, round as u64));
            let copy = Disk::new(delivery);
            {
                let mut c = copy.borrow_mut();
                c.data = self.disk.borrow().image(seen);
                c.budget = 20_000_000;
                c.readonly = true;
                c.live = Some(Live { journal: journal.clone(), seen, total, adv: adv.clone(), step, moved: 0, whole: vec![], marks: vec![] });
            }
            let at = || {
                let c = copy.borrow();
                let l = c.live.as_ref().unwrap();
                (l.seen, l.step, l.moved)
            };
            let (lo, _) = self.range_at(seen);
            let mut f = match b.fork(&copy).load() {
                Ok(f) => f,
                Err(e) => {
                    return viol("live-open", format!("opening while {seen}..{} of {total} bytes become visible fails: {e:?}", at().0));
                }
            };
            let moved_in_open = at().2;
            if moved_in_open > 0 {
                self.probe("writes_landed_during_open");
            }
            let hi = self.range_at(at().0).1;
            let lo = lo.max(prev).min(hi);
            for _ in 0..reads.max(1) {
                let (_, k) = self.pick(&mut f, lo, hi, "live-read")?;
                prev = prev.max(k);
            }
            drop(f);
            let moved;
            (seen, step, moved) = at();
            if moved > moved_in_open {
                self.probe("writes_landed_during_reads");
            }
            let c = copy.borrow();
            if let Some(m) = &c.write_violation {
                return viol("reader-writes", format!("the reader changes the file being written: {m}"));
            }
            let mut d = self.disk.borrow_mut();
            d.hash = mix2(d.hash, c.hash);
            d.calls += c.calls;
            for (k, v) in &c.fired {
                *d.fired.entry(k).or_insert(0) += v;
            }
            drop(d);
            drop(c);
            *self.st.probes.entry("live_openings").or_insert(0) += 1;
            if round > 0 {
                *self.st.probes.entry("live_reopenings").or_insert(0) += 1;
            }
        }
        Ok(())
    }

    /// Another application writes; every view of the file must be what was stored at one moment of the opening.
    #[allow(clippy::too_many_arguments)]
    fn live_foreign<B: Backend>(&mut self, b: &B, segs: &[FSeg], how: &[u8], at: u64, adv: &[u32], reads: u8, again: u8) -> R<()> {
        let mut s = (**self.hist.only().unwrap()).clone();
        let base = self.disk.borrow().data.clone();
        let mut data = base.clone();
        match tdms::decode(&data, true) {
            Ok(d) if d.state == s => {}
            _ => return Ok(()),
        }
        let mut journal: Vec<(u64, Vec<u8>)> = vec![];
        for (i, f) in segs.iter().enumerate() {
            let p = data.len();
            let mut f = f.clone();
            f.tail = 0;
            if tdms::foreign(self.t, &f, &mut data, &mut s).is_none() {
                continue;
            }
            let mut seg = data[p..].to_vec();
            let p = p as u64;
            let len: [u8; 8] = seg[12..20].try_into().unwrap();
            let get = |x: [u8; 8]| if f.be { u64::from_be_bytes(x) } else { u64::from_le_bytes(x) };
            let put = |x: u64| if f.be { x.to_be_bytes() } else { x.to_le_bytes() };
            let raw = 28 + get(seg[20..28].try_into().unwrap());
            let chunks = f.chunks.max(1) as u64;
            let chunk = (seg.len() as u64 - raw) / chunks;
            let h = how.get(i).copied().unwrap_or(0) % 4;
            let first = if chunks > 1 && chunk > 0 && chunk * chunks + raw == seg.len() as u64 { 1 + f.s as u64 % (chunks - 1) } else { 0 };
            match h {
                1 => {
                    seg[12..20].copy_from_slice(&[0xFF; 8]);
                    journal.push((p, seg));
                    journal.push((p + 12, len.to_vec()));
                    self.probe("foreign_open_end_live");
                }
                2 | 3 if first > 0 => {
                    let cut = raw + first * chunk;
                    seg[12..20].copy_from_slice(&if h == 2 { put(cut - 28) } else { [0xFF; 8] });
                    let rest = seg.split_off(cut as usize);
                    journal.push((p, seg));
                    if h == 3 {
                        journal.push((p + 12, put(cut - 28).to_vec()));
                    }
                    journal.push((p + 12, len.to_vec()));
                    journal.push((p + cut, rest));
                    self.probe("foreign_extended_live");
                }
                _ => journal.push((p, seg)),
            }
        }
        let total: u64 = journal.iter().map(|x| x.1.len() as u64).sum();
        if total == 0 {
            return Ok(());
        }
        let (mut whole, mut off) = (vec![], 0);
        for (_, x) in &journal {
            if x.len() == 8 {
                whole.push((off, off + 8));
            }
            off += x.len() as u64;
        }
        let image = |cut: u64| {
            let d = Disk::new(Delivery { seed: 0, short: 0, eintr: 0 });
            let mut d = d.borrow_mut();
            d.base = base.clone();
            d.journal = journal.clone();
            d.image(cut)
        };
        let journal2 = Rc::new(journal.clone());
        let adv = Rc::new(adv.to_vec());
        let mut seen = at % (total + 1);
        if let Some((_, e)) = whole.iter().find(|(s, e)| *s < seen && seen < *e) {
            seen = *e;
        }
        let mut step = 0;
        for round in 0..=(again as usize) {
            let copy = Disk::new(Delivery { seed: mix2(at, round as u64), ..self.t.delivery });
            {
                let mut c = copy.borrow_mut();
                c.data = image(seen);
                c.budget = 20_000_000;
                c.readonly = true;
                c.live = Some(Live { journal: journal2.clone(), seen, total, adv: adv.clone(), step, moved: 0, whole: whole.clone(), marks: vec![seen] });
            }
            let now = || {
                let c = copy.borrow();
                let l = c.live.as_ref().unwrap();
                (l.seen, l.step, l.moved, l.marks.clone())
            };
            let mut f = match b.fork(&copy).load() {
                Ok(f) => f,
                Err(e) => {
                    return viol("live-open", format!("opening while {seen}..{} of {total} bytes of another application become visible fails: {e:?}", now().0));
                }
            };
            let (_, _, moved, marks) = now();
            if moved > 0 {
                self.probe("writes_landed_during_open");
            }
            let mut states: Vec<Rc<State>> = vec![];
            for m in &marks {
                match tdms::decode(&image(*m), false) {
                    Ok(d) => {
                        if !states.iter().any(|s| **s == d.state) {
                            states.push(Rc::new(d.state));
                        }
                    }
                    Err(e) => panic!("HARNESS: what another application has stored does not decode: {e}"),
                }
            }
            if states.len() > 1 {
                self.probe("several_states_during_open");
            }
            let all = Flags { samples: true, props: true, catalog: true, ..self.fl };
            for _ in 0..reads.max(1) {
                let mut why = vec![];
                let mut found = None;
                for s in &states {
                    match check_state(&mut f, s, self.t, &[], all) {
                        Ok(()) => {
                            found = Some(s.clone());
                            break;
                        }
                        Err((_, m)) => why.push(m),
                    }
                }
                match found {
                    // The same again next time.
                    Some(s) => states = vec![s],
                    None => {
                        why.truncate(8);
                        return viol("live-read", format!("opened while {seen}..{} of {total} bytes of another application became visible, it shows none of the {} states stored meanwhile: {}", marks.last().unwrap(), states.len(), why.join("; ")));
                    }
                }
            }
            self.st.checks += 1;
            drop(f);
            let moved2;
            (seen, step, moved2, _) = now();
            if moved2 > moved {
                self.probe("writes_landed_during_reads");
            }
            let c = copy.borrow();
            if let Some(m) = &c.write_violation {
                return viol("reader-writes", format!("the reader changes the file being written: {m}"));
            }
            let mut d = self.disk.borrow_mut();
            d.hash = mix2(d.hash, c.hash);
            d.calls += c.calls;
            drop(d);
            drop(c);
            *self.st.probes.entry("live_openings").or_insert(0) += 1;
        }
        self.disk.borrow_mut().set(data);
        self.settle(Rc::new(s));
        Ok(())
    }
}

fn state_diff(d: &State, s: &State) -> String {
    for (p, o) in &s.objs {
        match d.objs.get(p) {
            None => return format!("object {p} is not in the stored file"),
            Some(x) => {
                if x.props != o.props {
                    return format!("properties of {p} decode as {:?} instead of {:?}", x.props, o.props);
                }
                if x.runs != o.runs {
                    return format!("samples of {p} decode differently: {} instead of {}", brief(&x.runs), brief(&o.runs));
                }
            }
        }
    }
    match d.objs.keys().find(|p| !s.objs.contains_key(*p)) {
        Some(p) => format!("object {p} was never written"),
        None => "group or channel names differ".into(),
    }
}

fn brief(r: &[(Ty, Vec<u128>)]) -> String {
    r.iter().map(|(t, v)| format!("{t:?}x{}{:x?}", v.len(), &v[..v.len().min(3)])).collect::<Vec<_>>().join(" ")
}
