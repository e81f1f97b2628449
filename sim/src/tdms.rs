//! A second TDMS encoder and decoder, written from the published format only. Shares no code with the library.

use crate::rng::mix2;
use crate::model::{pstr, Obj, State, QQ};
use crate::trace::{FIdx, FSeg, Trace};
use crate::ty::{Hex, Pv, Ty};
use std::collections::BTreeMap;
use std::rc::Rc;

/// One entry of the current object list.
#[derive(Clone, Debug, PartialEq)]
pub struct Active {
    pub path: String,
    pub ty: Ty,
    pub n: u64,
    /// Bytes per chunk of a string channel.
    pub total: u64,
    /// False after the object was listed without raw data; it has none until an index is given again.
    pub data: bool,
    /// That segment had raw data of others, so the following ones are as clear as it was.
    pub left: bool,
}

impl Active {
    fn bytes(&self) -> u64 {
        if self.ty == Ty::Str {
            self.total
        } else {
            self.n.saturating_mul(self.ty.size() as u64)
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Decoded {
    pub state: State,
    pub active: Vec<Active>,
    /// Last index of each object.
    pub last: BTreeMap<String, (Ty, u64, u64)>,
    /// (start, end of metadata, end) of each segment.
    pub segs: Vec<(usize, usize, usize)>,
    /// Shape of the file: one number per segment.
    pub shape: Vec<u64>,
    /// End of the last segment taken.
    pub end: usize,
    /// The last segment declares more than is stored.
    pub tail: bool,
    pub blocks: Vec<Block>,
}

/// The samples of one segment.
#[derive(Clone, Debug)]
pub struct Block {
    pub start: u64,
    pub end: u64,
    pub il: bool,
    /// Bytes of a chunk and, interleaved, of a row.
    pub chunk: u64,
    pub row: u64,
    pub chans: Vec<Part>,
}

/// A channel's samples in a block.
#[derive(Clone, Debug)]
pub struct Part {
    pub path: String,
    /// Position of the first one in the channel, number of samples in all and in a chunk.
    pub first: u64,
    pub count: u64,
    pub n: u64,
    /// Offset in the chunk or row, size of a sample.
    pub off: u64,
    pub size: u64,
}

impl Block {
    /// The stored bytes a reader of these windows (channel, start, length) has to look at. Of interleaved samples, that
    /// is all rows from the first to the last one with a sample asked for.
    pub fn needed(&self, windows: &[(&str, u64, u64)]) -> Vec<(u64, u64)> {
        let mut out = vec![];
        let mut rows: Option<(u64, u64)> = None;
        for (p, start, len) in windows {
            for c in self.chans.iter().filter(|c| c.path == *p) {
                let lo = (*start).max(c.first) - c.first;
                let hi = start.saturating_add(*len).min(c.first + c.count).saturating_sub(c.first);
                if lo >= hi {
                    continue;
                }
                if self.il {
                    rows = Some(rows.map(|(a, b)| (a.min(lo), b.max(hi))).unwrap_or((lo, hi)));
                    continue;
                }
                for k in lo / c.n..=(hi - 1) / c.n {
                    let (a, b) = (lo.max(k * c.n) - k * c.n, hi.min((k + 1) * c.n) - k * c.n);
                    let at = self.start + k * self.chunk + c.off;
                    out.push((at + a * c.size, at + b * c.size));
                }
            }
        }
        if let Some((a, b)) = rows {
            out.push((self.start + a * self.row, self.start + b * self.row));
        }
        out
    }
}

struct Cur<'a> {
    b: &'a [u8],
    p: usize,
    be: bool,
}
impl<'a> Cur<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        let e = self.p.checked_add(n).ok_or("length overflow")?;
        let r = self.b.get(self.p..e).ok_or_else(|| format!("metadata runs past its declared end at {}", self.p))?;
        self.p = e;
        Ok(r)
    }
    fn u32(&mut self) -> Result<u32, String> {
        let b: [u8; 4] = self.take(4)?.try_into().unwrap();
        Ok(if self.be { u32::from_be_bytes(b) } else { u32::from_le_bytes(b) })
    }
    fn u64(&mut self) -> Result<u64, String> {
        let b: [u8; 8] = self.take(8)?.try_into().unwrap();
        Ok(if self.be { u64::from_be_bytes(b) } else { u64::from_le_bytes(b) })
    }
    fn str(&mut self) -> Result<String, String> {
        let n = self.u32()? as usize;
        String::from_utf8(self.take(n)?.to_vec()).map_err(|e| format!("string is not UTF-8: {e}"))
    }
    fn prop(&mut self) -> Result<Pv, String> {
        let code = self.u32()?;
        if code == 0 {
            return Ok(Pv::Void);
        }
        if code == 0x20 {
            return Ok(Pv::Str(self.str()?));
        }
        let ty = Ty::from_code(code).ok_or_else(|| format!("unknown property type {code:#x}"))?;
        let be = self.be;
        let b = self.take(ty.size())?;
        Ok(Pv::Num(ty, Hex(ty.decode(b, be))).norm())
    }
}

/// Split an object path into its names; quotes inside a name are doubled (and noted as `QQ`).
pub fn split_path(p: &str) -> Option<Vec<String>> {
    if p == "/" {
        return Some(vec![]);
    }
    let c: Vec<char> = p.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    while i < c.len() {
        if c[i] != '/' || c.get(i + 1) != Some(&'\'') {
            return None;
        }
        i += 2;
        let mut s = String::new();
        loop {
            match c.get(i) {
                None => return None,
                Some('\'') if c.get(i + 1) == Some(&'\'') => {
                    s.push(QQ);
                    i += 2;
                }
                Some('\'') => {
                    i += 1;
                    break;
                }
                Some(x) => {
                    s.push(*x);
                    i += 1;
                }
            }
        }
        out.push(s);
    }
    if out.len() > 2 {
        return None;
    }
    Some(out)
}

/// `strict`: the file must consist of complete segments whose raw data is a whole number of chunks. Otherwise an
/// incomplete last segment and an incomplete last chunk of any segment are left out.
pub fn decode(bytes: &[u8], strict: bool) -> Result<Decoded, String> {
    let mut d = Decoded::default();
    let mut p = 0usize;
    while p < bytes.len() {
        let at = |m: &str| format!("segment at {p}: {m}");
        let Some(li) = bytes.get(p..p + 28) else {
            if strict {
                return Err(at("incomplete lead-in"));
            }
            break;
        };
        if &li[..4] != b"TDSm" {
            return Err(at("no TDSm tag"));
        }
        let toc = u32::from_le_bytes(li[4..8].try_into().unwrap());
        if toc & !0b1110_1110 != 0 {
            return Err(at(&format!("unknown ToC bits {toc:#x}")));
        }
        let (meta, newl, raw, il, be, daq) =
            (toc & 2 != 0, toc & 4 != 0, toc & 8 != 0, toc & 32 != 0, toc & 64 != 0, toc & 128 != 0);
        let mut c = Cur { b: bytes, p: p + 8, be };
        let version = c.u32()?;
        let next = c.u64()?;
        let rawoff = c.u64()?;
        if version != 4713 && version != 4712 {
            return Err(at(&format!("version {version}")));
        }
        if daq {
            return Err(at("DAQmx data"));
        }
        let mut end = match (p as u64 + 28).checked_add(next) {
            Some(e) if e <= bytes.len() as u64 => e as usize,
            _ if strict => return Err(at(&format!("declared length {next} runs past the end of the file"))),
            _ => {
                d.tail = true;
                bytes.len()
            }
        };
        let mend = match (p as u64 + 28).checked_add(rawoff) {
            Some(e) if e <= bytes.len() as u64 => e as usize,
            _ if strict => return Err(at("metadata runs past the end of the file")),
            _ => break,
        };
        if mend > end {
            return Err(at("raw data offset beyond next segment offset"));
        }
        if newl && !meta && strict {
            return Err(at("new object list without metadata"));
        }
        if !meta && rawoff != 0 {
            return Err(at("raw data offset without metadata"));
        }
        let mut shape = (toc as u64) << 8;
        if newl {
            d.active.clear();
        }
        if meta {
            let mut c = Cur { b: &bytes[..mend], p: p + 28, be };
            let nobj = c.u32().map_err(|e| at(&e))?;
            for _ in 0..nobj {
                let path = c.str().map_err(|e| at(&e))?;
                let names = split_path(&path).ok_or_else(|| at(&format!("malformed object path {path:?}")))?;
                let g = names.first().cloned();
                let ch = names.get(1).cloned();
                let idx = c.u32().map_err(|e| at(&e))?;
                let cur = d.active.iter_mut().find(|a| a.path == path);
                match idx {
                    0xFFFF_FFFF => {
                        shape = shape.wrapping_mul(31).wrapping_add(1);
                        if let Some(a) = cur {
                            a.data = false;
                            a.left = raw;
                        }
                    }
                    0 => {
                        shape = shape.wrapping_mul(31).wrapping_add(2);
                        let (ty, n, total) = *d.last.get(&path).ok_or_else(|| at("index repeated from nothing"))?;
                        match cur {
                            Some(a) => *a = Active { path: path.clone(), ty, n, total, data: true, left: false },
                            None => d.active.push(Active { path: path.clone(), ty, n, total, data: true, left: false }),
                        }
                    }
                    20 | 28 => {
                        shape = shape.wrapping_mul(31).wrapping_add(3);
                        let code = c.u32().map_err(|e| at(&e))?;
                        let ty = match code {
                            0x20 => Ty::Str,
                            _ => Ty::from_code(code).ok_or_else(|| at(&format!("unknown sample type {code:#x}")))?,
                        };
                        if (ty == Ty::Str) != (idx == 28) {
                            return Err(at("raw data index length does not fit the type"));
                        }
                        let dims = c.u32().map_err(|e| at(&e))?;
                        let n = c.u64().map_err(|e| at(&e))?;
                        if dims != 1 {
                            return Err(at("dimension is not 1"));
                        }
                        let total = if ty == Ty::Str { c.u64().map_err(|e| at(&e))? } else { 0 };
                        d.last.insert(path.clone(), (ty, n, total));
                        match cur {
                            Some(a) => *a = Active { path: path.clone(), ty, n, total, data: true, left: false },
                            None => d.active.push(Active { path: path.clone(), ty, n, total, data: true, left: false }),
                        }
                    }
                    x => return Err(at(&format!("raw data index length {x}"))),
                }
                if idx != 0xFFFF_FFFF && ch.is_none() {
                    return Err(at("raw data on an object that is not a channel"));
                }
                let np = c.u32().map_err(|e| at(&e))?;
                let o = Rc::make_mut(d.state.objs.entry(path.clone()).or_insert_with(|| {
                    Rc::new(Obj { group: g.clone(), chan: ch.clone(), ..Default::default() })
                }));
                for _ in 0..np {
                    let k = c.str().map_err(|e| at(&e))?;
                    let v = c.prop().map_err(|e| at(&e))?;
                    o.props.insert(k, v);
                }
            }
            if !bytes[c.p..mend].iter().all(|b| *b == PAD) {
                return Err(at(&format!("metadata ends at {} but {} is declared", c.p, mend)));
            }
        }
        if raw && end == mend && strict {
            return Err(at("raw data flag without raw data"));
        }
        if !raw && end != mend {
            return Err(at("raw data without raw data flag"));
        }
        if raw && end > mend {
            let act: Vec<Active> = d.active.iter().filter(|a| a.data).cloned().collect();
            if act.is_empty() {
                return Err(at("raw data without channels"));
            }
            let chunk: u64 = act.iter().map(|a| a.bytes()).fold(0, |x, y| x.saturating_add(y));
            let have = (end - mend) as u64;
            if chunk == 0 {
                return Err(at("raw data but no samples declared"));
            }
            if have % chunk != 0 && strict {
                return Err(at(&format!("{have} bytes of raw data are not a multiple of the chunk size {chunk}")));
            }
            if il && act.iter().any(|a| a.ty == Ty::Str) {
                return Err(at("interleaved strings"));
            }
            if il && act.iter().any(|a| a.n != act[0].n) {
                return Err(at("interleaved channels of different length"));
            }
            let mut q = mend;
            let first: Vec<u64> = act.iter().map(|a| d.state.objs[&a.path].len()).collect();
            for _ in 0..have / chunk {
                let mut vals: Vec<Vec<u128>> = vec![vec![]; act.len()];
                if il {
                    for _ in 0..act[0].n {
                        for (a, v) in act.iter().zip(vals.iter_mut()) {
                            v.push(a.ty.decode(&bytes[q..q + a.ty.size()], be));
                            q += a.ty.size();
                        }
                    }
                } else {
                    for (a, v) in act.iter().zip(vals.iter_mut()) {
                        if a.ty == Ty::Str {
                            let mut c = Cur { b: &bytes[..q + a.total as usize], p: q, be };
                            let mut e = 0;
                            for _ in 0..a.n {
                                let x = c.u32().map_err(|e| at(&e))?;
                                if x < e {
                                    return Err(at("string offsets not in order"));
                                }
                                e = x;
                                v.push(0);
                            }
                            if a.n * 4 + e as u64 != a.total {
                                return Err(at("string offsets do not fit the size"));
                            }
                            q += a.total as usize;
                            continue;
                        }
                        for _ in 0..a.n {
                            v.push(a.ty.decode(&bytes[q..q + a.ty.size()], be));
                            q += a.ty.size();
                        }
                    }
                }
                for (a, v) in act.iter().zip(vals) {
                    Rc::make_mut(d.state.objs.get_mut(&a.path).unwrap()).push(a.ty.plain(), v.into_iter());
                }
            }
            let mut off = 0;
            let mut chans = vec![];
            for (a, f) in act.iter().zip(first) {
                let size = if a.ty == Ty::Str { 1 } else { a.ty.size() as u64 };
                chans.push(Part { path: a.path.clone(), first: f, count: d.state.objs[&a.path].len() - f, n: a.n, off, size });
                off = off.saturating_add(if il { size } else { a.bytes() });
            }
            d.blocks.push(Block { start: mend as u64, end: end as u64, il, chunk, row: off, chans });
            shape = shape.wrapping_mul(31).wrapping_add((have / chunk).min(3) * 7 + act.len() as u64);
        }
        d.shape.push(shape);
        d.segs.push((p, mend, end));
        if end == p {
            end = p + 28;
        }
        p = end;
        d.end = end;
    }
    Ok(d)
}

/// Between metadata and raw data, where another tool leaves room there.
const PAD: u8 = b'~';

pub fn put_str(out: &mut Vec<u8>, s: &str, be: bool) {
    put32(out, s.len() as u32, be);
    out.extend_from_slice(s.as_bytes());
}
pub fn put32(out: &mut Vec<u8>, v: u32, be: bool) {
    out.extend_from_slice(&if be { v.to_be_bytes() } else { v.to_le_bytes() });
}
pub fn put64(out: &mut Vec<u8>, v: u64, be: bool) {
    out.extend_from_slice(&if be { v.to_be_bytes() } else { v.to_le_bytes() });
}
pub fn put_prop(out: &mut Vec<u8>, v: &Pv, be: bool) {
    match v {
        Pv::Void => put32(out, 0, be),
        Pv::Str(s) => {
            put32(out, 0x20, be);
            put_str(out, s, be);
        }
        Pv::Long(..) => put_prop(out, &v.norm(), be),
        Pv::Num(t, Hex(b)) => {
            put32(out, t.code(), be);
            t.encode(*b & t.mask(), be, out);
        }
    }
}

/// Append a segment another tool would write to `file`. Returns None (nothing appended) if nothing sensible can be
/// made of the description here. The new content of the file is described by `state`, which is updated.
pub fn foreign(t: &Trace, f: &FSeg, file: &mut Vec<u8>, state: &mut State) -> Option<()> {
    let d = decode(file, false).ok()?;
    if d.end != file.len() || d.tail {
        return None;
    }
    let be = f.be;
    let n = f.n.max(1) as u64;
    let mut newl = f.new_list;
    let mut nometa = f.no_meta;
    let live: Vec<Active> = d.active.iter().filter(|a| a.data).cloned().collect();
    let muted = d.active.iter().any(|a| !a.data && !a.left);
    // A channel without data in the last segment, where others had some, is not in the next one either unless listed
    // again. Where its samples are then is unclear without a new list.
    let back = d.active.iter().any(|a| !a.data && f.objs.iter().any(|o| pstr(&t.name(o.o).0, &t.name(o.o).1) == a.path));
    if nometa && (live.is_empty() || muted || !f.raw) {
        nometa = false;
    }
    if !nometa && !newl && (muted || back || live.is_empty()) {
        newl = true;
    }
    let uneven = f.uneven && !f.il;
    let mut act: Vec<Active> = if newl && !nometa { vec![] } else { live };
    let mut meta = vec![];
    let mut new_state = state.clone();
    if !nometa {
        // Lower the object list: distinct objects, indexes only where they mean something.
        let mut objs: Vec<(String, (Option<String>, Option<String>), FIdx, Vec<(String, Pv)>)> = vec![];
        for o in &f.objs {
            let nm = t.name(o.o);
            let path = pstr(&nm.0, &nm.1);
            if objs.iter().any(|x| x.0 == path) {
                continue;
            }
            let mut idx = o.idx.clone();
            if nm.1.is_none() {
                idx = FIdx::None;
            } else if idx == FIdx::Same && !d.last.contains_key(&path) {
                idx = FIdx::New(Ty::F64);
            }
            if idx == FIdx::None && act.iter().any(|a| a.path == path) {
                if f.raw && act.len() > 1 && f.s % 4 != 0 {
                    // No samples of this one from here on.
                    act.retain(|a| a.path != path);
                } else {
                    // An object with data pending keeps its place only if its index is repeated.
                    idx = FIdx::Same;
                }
            }
            objs.push((path, nm, idx, o.p.clone()));
        }
        // All channels of the resulting list have one length: those not listed with a new index decide, and if they
        // disagree (or a repeated index disagrees) the index is written out.
        let mut fixed: Option<u64> = None;
        for a in &act {
            if !objs.iter().any(|o| o.0 == a.path && matches!(o.2, FIdx::New(_))) {
                match fixed {
                    None => fixed = Some(a.n),
                    Some(x) if x == a.n => {}
                    _ if uneven => {}
                    _ => return None,
                }
            }
        }
        if uneven {
            fixed = None;
        }
        let len = fixed.unwrap_or(n);
        for o in objs.iter_mut() {
            if o.2 == FIdx::Same && !uneven {
                let (ty, k, _) = d.last[&o.0];
                if k != len {
                    if act.iter().any(|a| a.path == o.0) {
                        return None;
                    }
                    o.2 = FIdx::New(ty);
                }
            }
        }
        if objs.is_empty() && !f.raw {
            return None;
        }
        put32(&mut meta, objs.len() as u32, be);
        for (path, nm, idx, props) in &objs {
            put_str(&mut meta, path, be);
            match idx {
                FIdx::None => put32(&mut meta, 0xFFFF_FFFF, be),
                FIdx::Same => {
                    put32(&mut meta, 0, be);
                    let (ty, k, total) = d.last[path];
                    upsert(&mut act, path, ty, k, total);
                }
                FIdx::New(ty) => {
                    let len = match uneven {
                        true if f.empty && mix2(f.s as u64 ^ 5, meta.len() as u64) % 3 == 0 => 0,
                        true => 1 + mix2(f.s as u64, meta.len() as u64) % (len + 8),
                        false => len,
                    };
                    put32(&mut meta, if *ty == Ty::Str { 28 } else { 20 }, be);
                    put32(&mut meta, ty.code(), be);
                    put32(&mut meta, 1, be);
                    put64(&mut meta, len, be);
                    let mut total = 0;
                    if *ty == Ty::Str {
                        total = 4 * len + f.s as u64 % 40;
                        put64(&mut meta, total, be);
                    }
                    upsert(&mut act, path, *ty, len, total);
                }
            }
            put32(&mut meta, props.len() as u32, be);
            let o = new_state.obj(&nm.0, &nm.1);
            for (k, v) in props {
                put_str(&mut meta, k, be);
                put_prop(&mut meta, v, be);
                o.props.insert(k.clone(), v.norm());
            }
        }
    }
    if !nometa {
        meta.extend(std::iter::repeat_n(PAD, f.pad as usize));
    }
    let raw = f.raw && !act.is_empty();
    let mut data = vec![];
    // Strings: neither interleaved nor repeated chunks.
    let strings = act.iter().any(|a| a.ty == Ty::Str);
    let il = f.il && !strings;
    let chunks = if strings { 1 } else { f.chunks.max(1) as u64 };
    let mut chunk_len = 0;
    if raw {
        if act.iter().any(|a| a.n != act[0].n) && !uneven || act.iter().all(|a| a.n == 0) || act.iter().any(|a| a.n == 0 && a.ty == Ty::Str) {
            return None;
        }
        let size: u64 = act.iter().map(|a| a.bytes()).sum();
        if size * chunks > 6_000_000 {
            return None;
        }
        chunk_len = size;
        for ck in 0..chunks {
            let v = |c: usize, i: u64| {
                let ty = act[c].ty;
                let b = ty.sample(f.s as u64 ^ ((c as u64) << 40), ck * act[c].n + i);
                // Any byte but zero means true.
                if ty == Ty::Bool && b != 0 && f.s % 3 == 0 {
                    b | (mix2(f.s as u64, i) as u128 & 0xFF)
                } else {
                    b
                }
            };
            if il {
                for i in 0..act[0].n {
                    for c in 0..act.len() {
                        act[c].ty.encode(v(c, i), be, &mut data);
                    }
                }
            } else {
                for c in 0..act.len() {
                    let n = act[c].n;
                    if act[c].ty == Ty::Str {
                        let chars = act[c].total - 4 * n;
                        for i in 1..=n {
                            put32(&mut data, (chars * i / n) as u32, be);
                        }
                        data.extend((0..chars).map(|i| b'a' + ((f.s as u64 + i) % 26) as u8));
                        continue;
                    }
                    for i in 0..n {
                        act[c].ty.encode(v(c, i), be, &mut data);
                    }
                }
            }
        }
        let whole = if f.tail == 4 { 0 } else if f.tail >= 2 { chunks - 1 } else { chunks };
        for (c, a) in act.iter().enumerate() {
            let names = split_path(&a.path)?;
            let o = new_state.obj(&names.first().cloned(), &names.get(1).cloned());
            let ty = a.ty;
            o.push(ty.plain(), (0..whole * a.n).map(|i| {
                let b = ty.sample(f.s as u64 ^ ((c as u64) << 40), i);
                if ty == Ty::Bool { (b != 0) as u128 } else { b }
            }));
        }
    }
    if nometa && !raw {
        return None;
    }
    let mut toc = 0u32;
    if !nometa {
        toc |= 2;
        if newl {
            toc |= 4;
        }
    }
    if raw {
        toc |= 8;
    }
    if il {
        toc |= 32;
    }
    if be {
        toc |= 64;
    }
    let mut next = (meta.len() + data.len()) as u64;
    if raw && chunk_len > 0 && (1..=3).contains(&f.tail) {
        if f.tail <= 2 {
            next = u64::MAX;
        }
        if f.tail >= 2 {
            let cut = if f.s >> 8 & 7 == 0 { chunk_len } else { 1 + (f.s as u64 % chunk_len) };
            data.truncate(data.len() - cut as usize);
        }
    }
    if f.tail == 4 {
        // Lost entirely: what was there before is all there is.
        let at = file.len();
        file.extend_from_slice(b"TDSm");
        file.extend_from_slice(&toc.to_le_bytes());
        put32(file, if f.old { 4712 } else { 4713 }, be);
        put64(file, if f.s % 2 == 0 { u64::MAX } else { next }, be);
        put64(file, meta.len() as u64, be);
        file.extend(meta);
        let n = 1 + f.s as usize / 2 % (file.len() - at - 1);
        file.truncate(at + n);
        return Some(());
    }
    file.extend_from_slice(b"TDSm");
    file.extend_from_slice(&toc.to_le_bytes());
    put32(file, if f.old { 4712 } else { 4713 }, be);
    put64(file, next, be);
    put64(file, meta.len() as u64, be);
    file.extend(meta);
    file.extend(data);
    *state = new_state;
    Some(())
}

fn upsert(act: &mut Vec<Active>, path: &str, ty: Ty, n: u64, total: u64) {
    match act.iter_mut().find(|a| a.path == path) {
        Some(a) => *a = Active { path: path.into(), ty, n, total, data: true, left: false },
        None => act.push(Active { path: path.into(), ty, n, total, data: true, left: false }),
    }
}

/// Append a DAQmx segment of one channel, with one scaler and two 16-bit samples.
pub fn daqmx(out: &mut Vec<u8>, path: &str, be: bool, line: bool) {
    let mut m = vec![];
    put32(&mut m, 1, be);
    put_str(&mut m, path, be);
    put32(&mut m, if line { 0x126A } else { 0x1269 }, be);
    put32(&mut m, 0xFFFF_FFFF, be);
    put32(&mut m, 1, be);
    put64(&mut m, 2, be);
    put32(&mut m, 1, be); // scalers
    put32(&mut m, 3, be);
    put32(&mut m, 0, be);
    put32(&mut m, 0, be);
    if line {
        m.push(0);
    } else {
        put32(&mut m, 0, be);
    }
    put32(&mut m, 0, be);
    put32(&mut m, 1, be); // widths
    put32(&mut m, 2, be);
    put32(&mut m, 0, be); // properties
    out.extend_from_slice(b"TDSm");
    out.extend_from_slice(&(2u32 | 4 | 8 | 128 | if be { 64 } else { 0 }).to_le_bytes());
    put32(out, 4713, be);
    put64(out, m.len() as u64 + 4, be);
    put64(out, m.len() as u64, be);
    out.extend(m);
    out.extend([1, 0, 2, 0]);
}
