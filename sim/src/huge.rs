//! Files of many gigabytes: most of the content is a hole whose bytes are computed, the rest is stored. What the
//! library reads around and behind the hole is compared with values worked out from the published layout alone.

use crate::disk::{seek_target, BUDGET_MSG};
use crate::exec::{viol, Stats, Violation};
use crate::model::pstr;
use crate::rng::{mix2, Rng};
use crate::tdms::{put32, put64, put_str};
use crate::trace::*;
use crate::ty::*;
use crate::with_ty;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{self, ErrorKind, Read, Seek, SeekFrom, Write};
use std::rc::Rc;
use tedium::{ChannelPath, DataLayout, PropertyPath, PropertyValue, TdmsFile};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Huge {
    pub parts: Vec<Part>,
    /// Type of each channel, by position.
    pub types: Vec<Ty>,
    pub s: u32,
    pub reads: u32,
    /// At the end one more write, cut after so many bytes, then another one.
    pub crash: Option<u32>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Part {
    /// Channels (all of the type of the first), samples each, interleaved.
    Own { ch: Vec<u16>, n: u32, il: bool },
    /// A segment by another writer: n samples a chunk.
    Seg { ch: Vec<u16>, n: u64, chunks: u64, il: bool, be: bool },
    Reopen,
}

enum Ext {
    Bytes(Vec<u8>),
    Hole(u64),
}
impl Ext {
    fn len(&self) -> u64 {
        match self {
            Ext::Bytes(b) => b.len() as u64,
            Ext::Hole(n) => *n,
        }
    }
}

pub struct Sparse {
    ext: Vec<(u64, Ext)>,
    seed: u64,
    pub calls: u64,
    pub hash: u64,
    pub bad: Option<String>,
    /// Bytes that may still be read, where that is limited.
    left: Option<u64>,
}

fn hole_byte(seed: u64, p: u64) -> u8 {
    (mix2(seed, p >> 3) >> (8 * (p & 7))) as u8
}

impl Sparse {
    pub fn new(seed: u64) -> Sparse {
        Sparse { ext: vec![], seed, calls: 0, hash: 0, bad: None, left: None }
    }
    /// What is stored, holes left out.
    pub fn bytes(&self) -> Vec<u8> {
        self.ext.iter().filter_map(|(_, e)| if let Ext::Bytes(b) = e { Some(&b[..]) } else { None }).collect::<Vec<_>>().concat()
    }
    pub fn len(&self) -> u64 {
        self.ext.last().map(|(s, e)| s + e.len()).unwrap_or(0)
    }
    fn push(&mut self, b: &[u8]) {
        let end = self.len();
        match self.ext.last_mut() {
            Some((_, Ext::Bytes(v))) => v.extend_from_slice(b),
            _ => self.ext.push((end, Ext::Bytes(b.to_vec()))),
        }
    }
    fn hole(&mut self, n: u64) {
        let end = self.len();
        self.ext.push((end, Ext::Hole(n)));
    }
    fn at(&self, p: u64) -> Option<u8> {
        let i = self.ext.partition_point(|(s, _)| *s <= p).checked_sub(1)?;
        match &self.ext[i] {
            (s, Ext::Bytes(b)) => b.get((p - s) as usize).copied(),
            (s, Ext::Hole(n)) => (p - s < *n).then(|| hole_byte(self.seed, p)),
        }
    }
    fn event(&mut self, a: u64, b: u64) {
        self.calls += 1;
        self.hash = mix2(self.hash, mix2(a, b));
        if self.calls > 30_000_000 && !std::thread::panicking() {
            panic!("{}", BUDGET_MSG);
        }
    }
    /// Reading some megabytes more than this is too much.
    fn allow(&mut self, bytes: u64) {
        if self.left.is_some() {
            self.left = Some(bytes + (4 << 20));
            // Nothing needs a buffer of anywhere near the size of such a file either.
            crate::alloc::arm((bytes as usize).saturating_add(64 << 20));
        }
    }
    fn take(&mut self, bytes: u64) {
        if let Some(l) = self.left.as_mut() {
            if *l < bytes && !std::thread::panicking() {
                panic!("{}", BUDGET_MSG);
            }
            *l = l.saturating_sub(bytes);
        }
    }
    pub fn truncate(&mut self, n: u64) {
        while let Some((s, e)) = self.ext.last_mut() {
            if *s >= n && n > 0 {
                self.ext.pop();
                continue;
            }
            if let Ext::Bytes(b) = e {
                b.truncate((n - *s) as usize);
            }
            break;
        }
    }
}

pub struct SFile(Rc<RefCell<Sparse>>, u64);
impl SFile {
    pub fn new(d: &Rc<RefCell<Sparse>>) -> SFile {
        SFile(d.clone(), 0)
    }
}
impl Read for SFile {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut d = self.0.borrow_mut();
        d.event(1, mix2(self.1, buf.len() as u64));
        let n = (buf.len() as u64).min(d.len().saturating_sub(self.1)) as usize;
        d.take(n as u64);
        let mut i = 0;
        while i < n {
            let p = self.1 + i as u64;
            let x = d.ext.partition_point(|(s, _)| *s <= p) - 1;
            let (s, e) = &d.ext[x];
            let k = (n - i).min((s + e.len() - p) as usize);
            match e {
                Ext::Bytes(b) => buf[i..i + k].copy_from_slice(&b[(p - s) as usize..][..k]),
                Ext::Hole(_) => buf[i..i + k].iter_mut().zip(p..).for_each(|(b, p)| *b = hole_byte(d.seed, p)),
            }
            i += k;
        }
        self.1 += n as u64;
        Ok(n)
    }
}
impl Write for SFile {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut d = self.0.borrow_mut();
        d.event(2, mix2(self.1, buf.len() as u64));
        let len = d.len();
        let pos = self.1;
        if pos == len {
            d.push(buf);
        } else {
            let last = d.ext.last().map(|(s, e)| (*s, matches!(e, Ext::Bytes(_)))).unwrap_or((0, false));
            if pos > len || pos < last.0 || !last.1 {
                d.bad.get_or_insert(format!("a write of {} bytes at {pos} in a file of {len} bytes", buf.len()));
                return Err(ErrorKind::InvalidInput.into());
            }
            if let Some((s, Ext::Bytes(v))) = d.ext.last_mut() {
                crate::disk::apply(v, pos - *s, buf);
            }
        }
        self.1 += buf.len() as u64;
        Ok(buf.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        self.0.borrow_mut().event(3, 0);
        Ok(())
    }
}
impl Seek for SFile {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        let mut d = self.0.borrow_mut();
        let t = seek_target(self.1, d.len(), to)?;
        d.event(4, t);
        self.1 = t;
        Ok(t)
    }
}

#[derive(Clone)]
enum Piece {
    Lit(Vec<u128>),
    /// First sample's position, samples a chunk, chunks, distance of chunks and of samples.
    Far { seg: u64, at: u64, n: u64, chunks: u64, chunk: u64, step: u64, be: bool },
}
impl Piece {
    fn len(&self) -> u64 {
        match self {
            Piece::Lit(v) => v.len() as u64,
            Piece::Far { n, chunks, .. } => n * chunks,
        }
    }
}

struct M<'t> {
    t: &'t Trace,
    h: &'t Huge,
    /// The channels, by position: index of the name and type.
    ch: Vec<(usize, Ty)>,
    has: BTreeMap<usize, Vec<Piece>>,
    /// Object list in force and its lengths, as the format defines it.
    disk: Rc<RefCell<Sparse>>,
    ops: u64,
}

impl M<'_> {
    fn set(&self, ch: &[u16], same: bool) -> Vec<usize> {
        let mut v: Vec<usize> = vec![];
        for c in ch {
            let c = *c as usize % self.ch.len();
            if !v.contains(&c) && (!same || v.is_empty() || self.ch[v[0]].1 == self.ch[c].1) {
                v.push(c);
            }
        }
        v
    }
    fn path(&self, c: usize) -> ChannelPath {
        let (g, n) = &self.t.names[self.ch[c].0];
        crate::model::cpath(g.as_deref().unwrap(), n.as_deref().unwrap())
    }
    fn len(&self, c: usize) -> u64 {
        self.has.get(&c).map(|v| v.iter().map(|p| p.len()).sum()).unwrap_or(0)
    }
    fn value(&self, c: usize, i: u64) -> Option<u128> {
        let ty = self.ch[c].1;
        let mut i = i;
        for p in self.has.get(&c)? {
            if i >= p.len() {
                i -= p.len();
                continue;
            }
            return Some(match p {
                Piece::Lit(v) => v[i as usize],
                Piece::Far { at, n, chunk, step, be, .. } => {
                    let pos = at + (i / n) * chunk + (i % n) * step;
                    let d = self.disk.borrow();
                    let b: Vec<u8> = (0..ty.size() as u64).map(|k| d.at(pos + k).unwrap()).collect();
                    ty.decode(&b, *be)
                }
            });
        }
        None
    }
    fn open(&self) -> Result<TdmsFile<SFile>, Violation> {
        self.disk.borrow_mut().allow((self.parts() + self.ops) << 20);
        TdmsFile::new(SFile::new(&self.disk)).or_else(|e| viol("open", format!("opening a file of {} bytes fails: {e:?}", self.disk.borrow().len())))
    }
    fn parts(&self) -> u64 {
        self.h.parts.len() as u64
    }
    fn own(&mut self, f: &mut TdmsFile<SFile>, ch: &[u16], n: u32, il: bool) -> Result<bool, Violation> {
        let v = self.set(ch, true);
        if v.is_empty() || n == 0 {
            return Ok(false);
        }
        self.ops += 1;
        let ty = self.ch[v[0]].1;
        let paths: Vec<ChannelPath> = v.iter().map(|c| self.path(*c)).collect();
        let (k, n) = (v.len() as u64, n as u64 % 40 + 1);
        let s = mix2(self.h.s as u64, self.ops);
        let lay = if il { DataLayout::Interleaved } else { DataLayout::Contigious };
        self.disk.borrow_mut().allow((self.parts() + self.ops) << 20);
        let r = with_ty!(ty, T, {
            let vals: Vec<T> = (0..k * n).map(|i| <T as Samp>::from_bits(ty.sample(s, i))).collect();
            f.writer().and_then(|mut w| {
                w.write_channels(&paths, &vals, lay)?;
                w.write_properties(&PropertyPath::file(), &[("count", PropertyValue::U64(self.ops))])?;
                w.sync()
            })
        });
        if let Err(e) = r {
            return viol("refused", format!("writing behind {} bytes fails: {e:?}", self.disk.borrow().len()));
        }
        for (i, c) in v.iter().enumerate() {
            let i = i as u64;
            let vals = (0..n).map(|j| ty.sample(s, if il { j * k + i } else { i * n + j })).collect();
            self.has.entry(*c).or_default().push(Piece::Lit(vals));
        }
        Ok(true)
    }
    fn seg(&mut self, ch: &[u16], n: u64, chunks: u64, il: bool, be: bool) {
        let v = self.set(ch, false);
        if v.is_empty() {
            return;
        }
        // Contiguous chunks are gone through one by one.
        let chunks = if il { chunks.clamp(1, 1 << 42) } else { chunks.clamp(1, 80_000) };
        let row: u64 = v.iter().map(|c| self.ch[*c].1.size() as u64).sum();
        let n = n.clamp(1, ((1u64 << 45) / row / chunks).max(1));
        let mut meta = vec![];
        put32(&mut meta, v.len() as u32, be);
        for c in &v {
            let (g, nm) = &self.t.names[self.ch[*c].0];
            put_str(&mut meta, &pstr(g, nm), be);
            put32(&mut meta, 20, be);
            put32(&mut meta, self.ch[*c].1.code(), be);
            put32(&mut meta, 1, be);
            put64(&mut meta, n, be);
            put32(&mut meta, 0, be);
        }
        let mut b = b"TDSm".to_vec();
        b.extend((2u32 | 4 | 8 | if il { 32 } else { 0 } | if be { 64 } else { 0 }).to_le_bytes());
        put32(&mut b, 4713, be);
        put64(&mut b, meta.len() as u64 + row * n * chunks, be);
        put64(&mut b, meta.len() as u64, be);
        b.extend(meta);
        let mut d = self.disk.borrow_mut();
        d.push(&b);
        let base = d.len();
        d.hole(row * n * chunks);
        drop(d);
        let mut off = 0;
        for c in &v {
            let size = self.ch[*c].1.size() as u64;
            let p = if il {
                Piece::Far { seg: base, at: base + off, n: n * chunks, chunks: 1, chunk: 0, step: row, be }
            } else {
                Piece::Far { seg: base, at: base + off * n, n, chunks, chunk: row * n, step: size, be }
            };
            off += size;
            self.has.entry(*c).or_default().push(p);
        }
    }
    fn lengths(&self, f: &TdmsFile<SFile>) -> Result<(), Violation> {
        for c in 0..self.ch.len() {
            let (l, want) = (f.channel_length(&self.path(c)), self.len(c));
            if l.unwrap_or(0) != want {
                return viol("length", format!("length of {} is {l:?} instead of {want}", self.path(c)));
            }
        }
        Ok(())
    }
    fn read(&self, f: &mut TdmsFile<SFile>, r: &mut Rng) -> Result<(), Violation> {
        let k = r.range(1, 3);
        let pick: Vec<u16> = (0..k).map(|_| r.below(64) as u16).collect();
        let set: Vec<usize> = self.set(&pick, true).into_iter().filter(|c| self.has.contains_key(c)).collect();
        let Some(first) = set.first() else { return Ok(()) };
        let ty = self.ch[*first].1;
        // Starts: near the borders of the pieces and where a position or a count outgrows 31 or 32 bits.
        let mut marks = vec![0u64, 1 << 31, 1 << 32, (1 << 32) / ty.size() as u64, (1 << 31) / ty.size() as u64];
        let mut sum = 0;
        for p in &self.has[first] {
            if let Piece::Far { at, n, step, .. } = p {
                marks.push(sum + n);
                for lim in [1u64 << 31, 1 << 32, 1 << 33] {
                    if let Some(x) = lim.checked_sub(*at) {
                        marks.push(sum + x / step);
                    }
                }
            }
            sum += p.len();
            marks.push(sum);
        }
        let start = match r.below(5) {
            0 => r.below(sum + 2),
            1 => sum.saturating_sub(r.below(60)),
            _ => (r.pick(&marks) + r.below(5)).saturating_sub(r.below(40)),
        };
        // Channels that begin far apart in one interleaved segment are read row by row in between: right, but slow.
        let mut skips: BTreeMap<u64, u64> = BTreeMap::new();
        for c in &set {
            let mut sum = 0;
            for p in &self.has[c] {
                if let Piece::Far { seg, chunk: 0, .. } = p {
                    let skip = start.saturating_sub(sum).min(p.len());
                    if skip.abs_diff(*skips.entry(*seg).or_insert(skip)) > 5000 {
                        return Ok(());
                    }
                }
                sum += p.len();
            }
        }
        let lens: Vec<usize> = set.iter().map(|_| r.range(1, 40) as usize).collect();
        let want: Vec<Vec<Option<u128>>> = set.iter().zip(&lens).map(|(c, n)| (0..*n as u64).map(|i| self.value(*c, start + i)).collect()).collect();
        let paths: Vec<ChannelPath> = set.iter().map(|c| self.path(*c)).collect();
        // Rows between different starts, and a read-ahead for each chunk of a channel that is needed.
        self.disk.borrow_mut().allow((self.parts() + self.ops + 2 * lens.iter().sum::<usize>() as u64) << 20);
        with_ty!(ty, T, {
            let mut bufs: Vec<Vec<T>> = want
                .iter()
                .map(|w| w.iter().enumerate().map(|(i, x)| <T as Samp>::from_bits(x.map(|x| if ty == Ty::Bool { (x == 0) as u128 } else { x ^ 1 }).unwrap_or(i as u128))).collect())
                .collect();
            let orig = bufs.clone();
            let res = if set.len() == 1 {
                f.read_channel_from(&paths[0], start, &mut bufs[0])
            } else {
                let mut refs: Vec<&mut [T]> = bufs.iter_mut().map(|b| &mut b[..]).collect();
                f.read_channels_from(&paths, start, &mut refs)
            };
            if let Err(e) = res {
                return viol("read-error", format!("reading {paths:?} from {start} (lengths {lens:?}): {e:?}"));
            }
            for c in 0..bufs.len() {
                for i in 0..bufs[c].len() {
                    let ok = match want[c][i] {
                        Some(w) => bufs[c][i].same(w),
                        None => bufs[c][i].show() == orig[c][i].show(),
                    };
                    if !ok {
                        let w = want[c][i].map(|w| <T as Samp>::from_bits(w).show());
                        return viol("window", format!("reading {paths:?} from {start} (lengths {lens:?}): position {i} of {} is {} instead of {w:?}", paths[c], bufs[c][i].show()));
                    }
                }
            }
        });
        Ok(())
    }
    fn writes_ok(&self) -> Result<(), Violation> {
        match &self.disk.borrow().bad {
            Some(m) => viol("append-only", m.clone()),
            None => Ok(()),
        }
    }
}

/// (storage accesses, hash)
pub fn run(t: &Trace, h: &Huge, st: &mut Stats) -> Result<(u64, u64), Violation> {
    let ids = t.channel_ids();
    let mut ch: Vec<(usize, Ty)> = vec![];
    for i in ids {
        let p = pstr(&t.names[i].0, &t.names[i].1);
        if ch.iter().all(|(j, _)| pstr(&t.names[*j].0, &t.names[*j].1) != p) {
            let ty = if h.types.is_empty() { Ty::F64 } else { h.types[ch.len() % h.types.len()] };
            ch.push((i, if ty == Ty::Str { Ty::F64 } else { ty.plain() }));
        }
    }
    if ch.is_empty() {
        return Ok((0, 0));
    }
    let disk = Rc::new(RefCell::new(Sparse::new(h.s as u64)));
    if t.prop == "C19" {
        disk.borrow_mut().left = Some(0);
    }
    let mut m = M { t, h, ch, has: BTreeMap::new(), disk: disk.clone(), ops: 0 };
    let mut r = Rng::new(h.s as u64);
    let mut file: Option<TdmsFile<SFile>> = None;
    let mut checks = 0;
    for p in &h.parts {
        match p {
            Part::Seg { ch, n, chunks, il, be } => {
                file = None;
                m.seg(ch, *n, *chunks, *il, *be);
            }
            Part::Reopen => file = None,
            Part::Own { ch, n, il } => {
                let mut f = match file.take() {
                    Some(f) => f,
                    None => m.open()?,
                };
                let r = m.own(&mut f, ch, *n, *il);
                m.writes_ok()?;
                r?;
                file = Some(f);
            }
        }
        let mut f = match file.take() {
            Some(f) => f,
            None => m.open()?,
        };
        m.lengths(&f)?;
        for _ in 0..h.reads % 40 {
            m.read(&mut f, &mut r)?;
            checks += 1;
        }
        file = Some(f);
    }
    if let Some(cut) = h.crash {
        drop(file.take());
        let before = disk.borrow().len();
        let saved = m.has.clone();
        let mut f = m.open()?;
        let ch = [r.below(64) as u16, r.below(64) as u16];
        if m.own(&mut f, &ch, 20, r.pct(50))? {
            drop(f);
            m.writes_ok()?;
            let total = disk.borrow().len() - before;
            // The samples are the first segment, the property the second.
            let first = {
                let d = disk.borrow();
                let b: Vec<u8> = (0..8).map(|i| d.at(before + 12 + i).unwrap()).collect();
                28 + u64::from_le_bytes(b.try_into().unwrap())
            };
            let cut = cut as u64 % total;
            disk.borrow_mut().truncate(before + cut);
            let mut f = m.open()?;
            if cut < first {
                m.has = saved;
            }
            m.lengths(&f)?;
            let ch = [r.below(64) as u16, r.below(64) as u16];
            let res = m.own(&mut f, &ch, 7, r.pct(50));
            m.writes_ok()?;
            res?;
            m.lengths(&f)?;
            drop(f);
            let mut f = m.open()?;
            m.lengths(&f)?;
            for _ in 0..6 {
                m.read(&mut f, &mut r)?;
                checks += 1;
            }
            *st.probes.entry("crash").or_insert(0) += 1;
        }
    }
    m.writes_ok()?;
    st.checks += checks;
    st.accepted += m.ops;
    *st.probes.entry("huge_file").or_insert(0) += 1;
    if disk.borrow().len() > 1 << 32 {
        *st.probes.entry("file_beyond_4_gib").or_insert(0) += 1;
    }
    let d = disk.borrow();
    Ok((d.calls, d.hash))
}
