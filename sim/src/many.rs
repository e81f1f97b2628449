//! Files of more segments, channels or properties than 16 bits count, on a plain storage of their own.

use crate::exec::{check_state, flags, viol, Stats, Violation};
use crate::huge::{SFile, Sparse};
use crate::model::State;
use crate::rng::{mix2, Rng};
use crate::tdms;
use crate::trace::Trace;
use crate::ty::*;
use crate::with_ty;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::rc::Rc;
use tedium::{ChannelPath, DataLayout, PropertyPath, PropertyValue, TdmsFile};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Many {
    /// How many calls (or channels, or properties).
    pub n: u32,
    pub s: u32,
    pub style: Style,
    pub ty: Ty,
    /// New writer after so many calls.
    pub every: u32,
    /// At the end one more write, cut after so many bytes, then another one.
    pub crash: Option<u32>,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Style {
    /// Few channels, a few samples a call, some properties in between.
    Calls,
    /// Each call names a new channel.
    Channels,
    /// Each call sets a new property.
    Props,
    /// One call sets all of them.
    OneCall,
    /// One call writes to all channels.
    Wide,
}

type F = TdmsFile<SFile>;

struct M<'t> {
    t: &'t Trace,
    m: &'t Many,
    r: Rng,
    state: State,
    disk: Rc<RefCell<Sparse>>,
    done: u32,
}

enum Call {
    W(Vec<String>, Vec<u128>, bool),
    P(Option<String>, Vec<(String, u64)>),
}

impl M<'_> {
    fn call(&mut self) -> Call {
        let i = self.done;
        self.done += 1;
        if self.m.style == Style::Wide {
            // Names of different lengths are quicker to tell apart.
            let ch: Vec<String> = (0..self.m.n).map(|k| format!("{k}{}", "x".repeat(k as usize % 40))).collect();
            let n = ch.len() as u64 * 2;
            return Call::W(ch, (0..n).map(|j| self.m.ty.sample(mix2(self.m.s as u64, i as u64), j)).collect(), self.m.s & 1 << i == 0);
        }
        let p = match self.m.style {
            Style::Calls => self.r.pct(15),
            Style::Channels => self.r.pct(3),
            _ => true,
        };
        if p {
            let name = match self.m.style {
                Style::Props | Style::OneCall => format!("p{i}"),
                _ => format!("p{}", i % 7),
            };
            let o = if i % 3 == 0 { None } else { Some(format!("c{}", i % 3)) };
            let o = if self.m.style == Style::OneCall || self.m.style == Style::Props { None } else { o };
            let k = if self.m.style == Style::OneCall && i == 0 { self.m.n as u64 } else { 1 };
            return Call::P(o, (0..k).map(|j| (if k > 1 { format!("q{j}") } else { name.clone() }, mix2(self.m.s as u64, i as u64 ^ j << 32))).collect());
        }
        let ch = match self.m.style {
            Style::Channels => vec![format!("c{i}")],
            _ => match self.r.below(12) {
                0 => vec!["c0".to_string(), "c1".into()],
                1 => vec!["c1".to_string(), "c0".into()],
                2 => vec!["c2".to_string()],
                _ => vec!["c1".to_string()],
            },
        };
        let n = self.r.range(1, 2) * ch.len() as u64;
        Call::W(ch, (0..n).map(|j| self.m.ty.sample(mix2(self.m.s as u64, i as u64), j)).collect(), self.r.pct(50))
    }
    fn apply(&mut self, c: &Call) {
        match c {
            Call::W(ch, v, il) => {
                let k = ch.len();
                let n = v.len() / k;
                for (i, c) in ch.iter().enumerate() {
                    self.state.obj(&Some("g".into()), &Some(c.clone())).push(self.m.ty, (0..n).map(|j| if *il { v[j * k + i] } else { v[i * n + j] }));
                }
            }
            Call::P(o, kv) => {
                let g = o.as_ref().map(|_| "g".to_string());
                for (k, v) in kv {
                    self.state.obj(&g, o).props.insert(k.clone(), Pv::Num(Ty::U64, Hex(*v as u128)));
                }
            }
        }
    }
    /// Some calls in one session.
    fn session(&mut self, f: &mut F, calls: u32) -> Result<(), Violation> {
        let r = (|| {
            let mut w = f.writer()?;
            for _ in 0..calls {
                let c = self.call();
                match &c {
                    Call::W(ch, v, il) => {
                        let paths: Vec<ChannelPath> = ch.iter().map(|c| ChannelPath::new("g", c)).collect();
                        let lay = if *il { DataLayout::Interleaved } else { DataLayout::Contigious };
                        with_ty!(self.m.ty, T, {
                            let vals: Vec<T> = v.iter().map(|x| <T as Samp>::from_bits(*x)).collect();
                            w.write_channels(&paths, &vals, lay)
                        })?;
                    }
                    Call::P(o, kv) => {
                        let p = match o {
                            None => PropertyPath::file(),
                            Some(c) => PropertyPath::channel("g", c),
                        };
                        let vals: Vec<(&str, PropertyValue)> = kv.iter().map(|(k, v)| (k.as_str(), PropertyValue::U64(*v))).collect();
                        w.write_properties(&p, &vals)?;
                    }
                }
                self.apply(&c);
            }
            w.sync()
        })();
        if let Err(e) = r {
            return viol("refused", format!("call {} fails: {e:?}", self.done));
        }
        match &self.disk.borrow().bad {
            Some(m) => viol("append-only", m.clone()),
            None => Ok(()),
        }
    }
    fn open(&self) -> Result<F, Violation> {
        TdmsFile::new(SFile::new(&self.disk)).or_else(|e| viol("open", format!("opening a file of {} calls fails: {e:?}", self.done)))
    }
    fn check(&mut self, f: &mut F) -> Result<(), Violation> {
        if self.m.style == Style::Wide {
            return self.check_wide(f);
        }
        let fl = flags(&self.t.prop);
        check_state(f, &self.state, self.t, &[], fl).or_else(|(c, m)| viol(c, format!("after {} calls: {m}", self.done)))?;
        // Some windows.
        let objs: Vec<_> = self.state.objs.values().filter(|o| o.chan.is_some() && o.len() > 0).cloned().collect();
        if objs.is_empty() {
            return Ok(());
        }
        for _ in 0..6 {
            let o = self.r.pick(&objs).clone();
            let len = o.len();
            let start = match self.r.below(3) {
                0 => self.r.below(len),
                1 => (65_536 + self.r.below(9)).saturating_sub(6).min(len),
                _ => len.saturating_sub(self.r.below(30)),
            };
            let n = self.r.range(1, 50);
            let ty = self.m.ty;
            let p = ChannelPath::new("g", o.chan.as_deref().unwrap_or(""));
            with_ty!(ty, T, {
                let mut b: Vec<T> = (0..n).map(|i| <T as Samp>::from_bits(ty.sample(77, i))).collect();
                let orig = b.clone();
                if let Err(e) = f.read_channel_from(&p, start, &mut b) {
                    return viol("read-error", format!("reading {p} from {start}: {e:?}"));
                }
                for i in 0..n as usize {
                    let ok = match o.at(start + i as u64) {
                        Some((_, w)) => b[i].same(w),
                        None => b[i].show() == orig[i].show(),
                    };
                    if !ok {
                        return viol("window", format!("reading {p} from {start}: position {i} is {}", b[i].show()));
                    }
                }
            });
        }
        Ok(())
    }
}

impl M<'_> {
    /// All channels in one read, some of them one by one.
    fn check_wide(&mut self, f: &mut F) -> Result<(), Violation> {
        let want: Vec<String> = self.state.objs.values().filter_map(|o| o.chan.clone()).collect();
        let mut have: Vec<String> = f.list_channels_in_group(&PropertyPath::group("g")).map(|c| c.to_string()).collect();
        let mut expect: Vec<String> = want.iter().map(|c| ChannelPath::new("g", c).to_string()).collect();
        have.sort();
        expect.sort();
        if have != expect {
            return viol("catalogue", format!("{} channels are listed instead of {}", have.len(), expect.len()));
        }
        let ty = self.m.ty;
        let objs: Vec<_> = self.state.objs.values().filter(|o| o.chan.is_some()).collect();
        let paths: Vec<ChannelPath> = objs.iter().map(|o| ChannelPath::new("g", o.chan.as_deref().unwrap_or(""))).collect();
        for (p, o) in paths.iter().zip(&objs) {
            if f.channel_length(p) != Some(o.len()) {
                return viol("length", format!("length of {p} is {:?} instead of {}", f.channel_length(p), o.len()));
            }
        }
        let start = self.r.below(3);
        let n = self.r.range(1, 6) as usize;
        let some: Vec<usize> = [0, 2, 65_534, 65_535, 65_536, paths.len() - 1, self.r.usize(paths.len())].iter().map(|i| i % paths.len()).collect();
        with_ty!(ty, T, {
            let mut bufs: Vec<Vec<T>> = paths.iter().map(|_| (0..n as u64).map(|i| <T as Samp>::from_bits(ty.sample(77, i))).collect()).collect();
            let orig = bufs[0].clone();
            {
                let mut out: Vec<&mut [T]> = bufs.iter_mut().map(|b| &mut b[..]).collect();
                if let Err(e) = f.read_channels_from(&paths, start, &mut out) {
                    return viol("read-error", format!("reading {} channels from {start}: {e:?}", paths.len()));
                }
            }
            for (k, i) in some.iter().enumerate() {
                let mut b = orig.clone();
                if let Err(e) = f.read_channel_from(&paths[*i], start, &mut b) {
                    return viol("read-error", format!("reading {} from {start}: {e:?}", paths[*i]));
                }
                for j in 0..n {
                    if b[j].show() != bufs[*i][j].show() {
                        return viol("window", format!("reading {} from {start} alone ({k}): position {j} is {}", paths[*i], b[j].show()));
                    }
                }
            }
            for (i, o) in objs.iter().enumerate() {
                for j in 0..n {
                    let ok = match o.at(start + j as u64) {
                        Some((_, w)) => bufs[i][j].same(w),
                        None => bufs[i][j].show() == orig[j].show(),
                    };
                    if !ok {
                        return viol("window", format!("reading all channels from {start}: position {j} of {} is {}", paths[i], bufs[i][j].show()));
                    }
                }
            }
        });
        Ok(())
    }
}

/// (storage accesses, hash)
pub fn run(t: &Trace, m: &Many, st: &mut Stats) -> Result<(u64, u64), Violation> {
    let disk = Rc::new(RefCell::new(Sparse::new(m.s as u64)));
    let mut x = M { t, m: &Many { ty: if m.ty == Ty::Str { Ty::I16 } else { m.ty.plain() }, ..m.clone() }, r: Rng::new(m.s as u64), state: State::default(), disk: disk.clone(), done: 0 };
    let mut f = x.open()?;
    let total = match m.style {
        Style::OneCall => 3,
        Style::Wide => 2,
        _ => m.n.min(100_000),
    };
    let every = m.every.max(1);
    while x.done < total {
        let k = every.min(total - x.done);
        x.session(&mut f, k)?;
        if m.style != Style::Wide && x.r.pct(20) && total / every < 20 {
            f = x.open()?;
        }
    }
    x.check(&mut f)?;
    drop(f);
    if flags(&t.prop).decode {
        let b = disk.borrow().bytes();
        match tdms::decode(&b, true) {
            Ok(d) if d.state == x.state => {}
            Ok(_) => return viol("decoded-differently", "the stored file decodes to something else than what was written"),
            Err(e) => return viol("malformed", format!("stored file is not well-formed TDMS: {e}")),
        }
    }
    let mut f = x.open()?;
    x.check(&mut f)?;
    if let Some(cut) = m.crash.filter(|_| m.style != Style::Wide) {
        let before = disk.borrow().len();
        let saved = x.state.clone();
        x.session(&mut f, 1)?;
        drop(f);
        let cut = cut as u64 % (disk.borrow().len() - before);
        disk.borrow_mut().truncate(before + cut);
        x.state = saved;
        x.done -= 1;
        let mut f = x.open()?;
        // The channel of the call that was cut short may be there.
        x.session(&mut f, 3)?;
        drop(f);
        let mut f = x.open()?;
        let fl = crate::exec::Flags { catalog: false, ..flags(&t.prop) };
        check_state(&mut f, &x.state, t, &[], fl).or_else(|(c, m)| viol(c, format!("after {} calls and a crash: {m}", x.done)))?;
        *st.probes.entry("crash").or_insert(0) += 1;
    }
    st.checks += 3;
    st.accepted += x.done as u64;
    *st.probes.entry(if m.style == Style::Wide { if m.n > 65_536 { "more_than_65536_channels_in_one_call" } else { "more_than_1024_channels_in_one_call" } } else if m.style == Style::OneCall || m.style == Style::Props { "more_than_65536_properties" } else { "more_than_65536_segments" }).or_insert(0) += 1;
    let d = disk.borrow();
    Ok((d.calls, d.hash))
}
