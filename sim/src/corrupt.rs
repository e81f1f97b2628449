//! Damaged and hostile content: how it is made, and everything a caller can ask of it.

use crate::alloc;
use crate::disk::*;
use crate::exec::{Stats, Violation};
use crate::rng::Rng;
use crate::trace::{Corrupt, Trace};
use crate::ty::*;
use crate::with_ty;
use tedium::{ChannelPath, DataLayout, PropertyPath, PropertyValue, TdmsFile};

/// Places of a (so far well-formed) file that hold a number: (position, width, kind).
pub fn fields(b: &[u8]) -> Vec<(usize, u8)> {
    let mut out = vec![];
    let mut p = 0usize;
    while p + 28 <= b.len() && &b[p..p + 4] == b"TDSm" {
        let be = b[p + 4] & 0x40 != 0;
        let g32 = |a: usize| -> Option<u32> {
            let x: [u8; 4] = b.get(a..a + 4)?.try_into().ok()?;
            Some(if be { u32::from_be_bytes(x) } else { u32::from_le_bytes(x) })
        };
        let g64 = |a: usize| -> Option<u64> {
            let x: [u8; 8] = b.get(a..a + 8)?.try_into().ok()?;
            Some(if be { u64::from_be_bytes(x) } else { u64::from_le_bytes(x) })
        };
        out.extend([(p, 4), (p + 4, 4), (p + 8, 4), (p + 12, 8), (p + 20, 8)]);
        if b[p + 4] & 2 != 0 {
            let _: Option<()> = (|| {
                let mut q = p + 28;
                out.push((q, 4));
                let n = g32(q)?;
                q += 4;
                for _ in 0..n {
                    out.push((q, 4));
                    q = q.checked_add(4 + g32(q)? as usize)?;
                    out.push((q, 4));
                    let idx = g32(q)?;
                    q += 4;
                    if idx == 20 {
                        out.extend([(q, 4), (q + 4, 4), (q + 8, 8)]);
                        q += 16;
                    }
                    out.push((q, 4));
                    let np = g32(q)?;
                    q += 4;
                    for _ in 0..np {
                        out.push((q, 4));
                        q = q.checked_add(4 + g32(q)? as usize)?;
                        out.push((q, 4));
                        let ty = g32(q)?;
                        q += 4;
                        if ty == 0x20 {
                            out.push((q, 4));
                            q = q.checked_add(4 + g32(q)? as usize)?;
                        } else if ty != 0 {
                            q += Ty::from_code(ty)?.size();
                        }
                    }
                }
                Some(())
            })();
        }
        let Some(next) = g64(p + 12) else { break };
        match (p as u64 + 28).checked_add(next) {
            Some(e) if e <= b.len() as u64 => p = e as usize,
            _ => break,
        }
    }
    out
}

/// Positions of the segments' lead-ins.
fn seg_starts(b: &[u8]) -> Vec<usize> {
    let mut v: Vec<usize> = (0..b.len().saturating_sub(3)).filter(|i| &b[*i..i + 4] == b"TDSm").collect();
    v.truncate(10_000);
    v
}

const MAX: usize = 4 << 20;

pub fn apply_corruption(d: &mut Vec<u8>, c: &Corrupt) {
    let m = |p: u64, n: usize| -> usize { (p % (n as u64).max(1)) as usize };
    let put = |d: &mut Vec<u8>, at: usize, w: u8, v: u64| {
        let le = v.to_le_bytes();
        for i in 0..(w as usize).min(8) {
            if at + i < d.len() {
                d[at + i] = le[i];
            }
        }
    };
    match c {
        Corrupt::Flip(p, k) => {
            if !d.is_empty() {
                let i = m(*p, d.len());
                d[i] ^= *k;
            }
        }
        Corrupt::Put(p, w, v) => {
            let at = m(*p, d.len());
            put(d, at, *w, *v);
        }
        Corrupt::Field(_, f, w, v) => {
            let fs = fields(d);
            if !fs.is_empty() {
                let (at, width) = fs[*f as usize % fs.len()];
                put(d, at, if *w == 0 { width } else { *w }, *v);
            }
        }
        Corrupt::Zero(p, n) => {
            let at = m(*p, d.len());
            let e = (at + *n as usize).min(d.len());
            d[at..e].fill(0);
        }
        Corrupt::Truncate(p) => {
            let at = m(*p, d.len() + 1);
            d.truncate(at);
        }
        Corrupt::Dup(p, n, to) => {
            // From a lead-in for even positions, from anywhere for odd ones.
            let ss = seg_starts(d);
            let at = if p % 2 == 0 && !ss.is_empty() { ss[m(*p / 2, ss.len())] } else { m(*p, d.len()) };
            let e = (at + *n as usize).min(d.len());
            let piece = d[at..e].to_vec();
            let to = if to % 2 == 0 && !ss.is_empty() { ss[m(*to / 2, ss.len())] } else { m(*to, d.len() + 1) };
            if d.len() + piece.len() < MAX {
                d.splice(to..to, piece);
            }
        }
        Corrupt::Insert(p, b) => {
            let at = m(*p, d.len() + 1);
            if d.len() + b.len() < MAX {
                d.splice(at..at, b.iter().copied());
            }
        }
        Corrupt::Append(b) => {
            if d.len() + b.len() < MAX {
                d.extend_from_slice(b);
            }
        }
        Corrupt::Raw(b) => *d = b.clone(),
    }
}

/// Open the file and ask for everything it claims to hold. Any result and any error will do; panics, endless access
/// and failing allocations that stop the process do not.
pub fn explore(t: &Trace, disk: &DiskRef, seed: u64, write: bool, limit: usize, mut late: Option<(u8, Vec<Corrupt>)>, st: &mut Stats) -> Result<(), Violation> {
    let mut r = Rng::new(seed);
    let size = disk.borrow().data.len() as u64;
    // Bytes interposed by a generous factor; the point is that it does not depend on what the file declares.
    let budget = |extra: u64| {
        let mut d = disk.borrow_mut();
        d.budget = d.calls + 4_000 + 64 * (size + extra);
    };
    let n0 = alloc::denied_count();
    if limit != usize::MAX {
        alloc::arm(limit.max(64 * size as usize));
    }
    budget(0);
    st.checks += 1;
    let opened = TdmsFile::new(SimFile::new(disk));
    let mut f = match opened {
        Ok(f) => {
            *st.probes.entry("damaged_file_opens").or_insert(0) += 1;
            f
        }
        Err(e) => {
            let _ = format!("{e} {e:?}");
            *st.probes.entry("damaged_file_refused").or_insert(0) += 1;
            note_denied(n0, st);
            return Ok(());
        }
    };
    budget(0);
    let groups: Vec<String> = f.list_groups().take(300).map(|g| g.to_string()).collect();
    let mut chans: Vec<ChannelPath> = vec![];
    let mut objs: Vec<PropertyPath> = vec![PropertyPath::file()];
    for g in &groups {
        utf8(g)?;
        // A damaged name may be no name at all.
        let gp = PropertyPath::try_from(format!("/'{g}'").as_str()).unwrap_or_else(|_| PropertyPath::group(g));
        for c in f.list_channels_in_group(&gp).take(200) {
            let _ = (c.group_name().to_string(), c.channel_name().to_string(), c.to_string());
            utf8(c.path())?;
            objs.push(PropertyPath::channel(c.group_name(), c.channel_name()));
            objs.push(AsRef::<PropertyPath>::as_ref(&c).clone());
            chans.push(c);
        }
        objs.push(gp);
    }
    for (g, c) in &t.names {
        if let (Some(g), Some(c)) = (g, c) {
            chans.push(crate::model::cpath(g, c));
        }
    }
    for o in &objs {
        if let Some(it) = f.read_all_properties(o) {
            for (k, v) in it.take(300) {
                let s = match v {
                    PropertyValue::String(s) => s.as_str(),
                    _ => "",
                };
                utf8(k)?;
                utf8(s)?;
                let _ = format!("{k:?} {v:?}");
            }
        }
        let _ = f.read_property(o, "a").is_ok();
        let _ = (o.group_name().map(|s| s.to_string()), o.channel_name().map(|s| s.to_string()));
    }
    let mut lens = vec![];
    for c in &chans {
        lens.push(f.channel_length(c).unwrap_or(0));
    }
    if !chans.is_empty() {
        let reads = 6 + r.below(10);
        for k in 0..reads {
            if late.as_ref().is_some_and(|l| l.0 as u64 <= k) {
                damage_now(disk, &mut late, st);
            }
            let multi = r.pct(40) && chans.len() > 1;
            let mut set: Vec<usize> = (0..chans.len()).collect();
            r.shuffle(&mut set);
            set.truncate(if multi { 2 + r.usize(4.min(chans.len() - 1)) } else { 1 });
            let len = lens[set[0]];
            let start = match r.below(9) {
                0 | 1 | 2 => 0,
                3 => r.below(8),
                4 => len.saturating_sub(1 + r.below(4)),
                5 => len / 2,
                6 => len.saturating_add(r.below(3)),
                7 => u64::MAX - r.below(3),
                _ => r.next() >> r.below(64),
            };
            let n = *r.pick(&[0u64, 1, 2, 5, 17, 64, 300]);
            budget(n * set.len() as u64 * 4);
            if k == 0 && r.pct(60) {
                // Strings as samples are a valid request too.
                let mut b: Vec<String> = (0..n.min(20)).map(|i| i.to_string()).collect();
                if let Err(e) = f.read_channel_from(&chans[set[0]], start, &mut b) {
                    let _ = format!("{e} {e:?}");
                }
                continue;
            }
            let ty = *r.pick(&OWN);
            with_ty!(ty, T, {
                let mut bufs: Vec<Vec<T>> =
                    set.iter().enumerate().map(|(i, _)| vec![<T as Samp>::from_bits(0); if i == 0 { n as usize } else { r.usize(20) }]).collect();
                let res = if set.len() == 1 {
                    f.read_channel_from(&chans[set[0]], start, &mut bufs[0])
                } else {
                    let paths: Vec<ChannelPath> = set.iter().map(|i| chans[*i].clone()).collect();
                    let mut refs: Vec<&mut [T]> = bufs.iter_mut().map(|b| &mut b[..]).collect();
                    f.read_channels_from(&paths, start, &mut refs)
                };
                match res {
                    Ok(()) => *st.probes.entry("damaged_read_ok").or_insert(0) += 1,
                    Err(e) => {
                        let _ = format!("{e} {e:?}");
                        *st.probes.entry("damaged_read_refused").or_insert(0) += 1;
                    }
                }
            });
        }
    }
    // Opening a writer, with or without using it.
    damage_now(disk, &mut late, st);
    budget(size);
    {
        let opened = f.writer();
        match opened {
            Ok(mut w) => {
                *st.probes.entry("damaged_writer_opens").or_insert(0) += 1;
                if write {
                    budget(2_000);
                    let mut res = vec![];
                    if let Some(c) = chans.first() {
                        res.push(w.write_channels(&chans[..1], &[1u16, 2, 3], DataLayout::Interleaved));
                        res.push(w.write_properties(&PropertyPath::channel(c.group_name(), c.channel_name()), &[("a", PropertyValue::I32(5))]));
                        let two: Vec<ChannelPath> = chans.iter().rev().take(2).cloned().collect();
                        res.push(w.write_channels(&two, &vec![1.5f64; two.len() * 3], DataLayout::Contigious));
                    }
                    res.push(w.sync());
                    for e in res.into_iter().flat_map(|r| r.err()) {
                        let _ = format!("{e} {e:?}");
                    }
                }
            }
            Err(e) => {
                let _ = format!("{e} {e:?}");
                *st.probes.entry("damaged_writer_refused").or_insert(0) += 1;
            }
        }
    }
    if write {
        budget(2_000);
        let mut b = [0u16; 9];
        if let Some(c) = chans.first() {
            if let Err(e) = f.read_channel(c, &mut b) {
                let _ = format!("{e} {e:?}");
            }
        }
        drop(f);
        budget(2_000);
        if let Err(e) = TdmsFile::new(SimFile::new(disk)) {
            let _ = format!("{e} {e:?}");
        }
    }
    note_denied(n0, st);
    Ok(())
}

/// The storage changes under the open file.
fn damage_now(disk: &DiskRef, late: &mut Option<(u8, Vec<Corrupt>)>, st: &mut Stats) {
    if let Some((_, cs)) = late.take() {
        let mut data = disk.borrow().data.clone();
        for c in &cs {
            apply_corruption(&mut data, c);
        }
        disk.borrow_mut().set(data);
        *st.probes.entry("damaged_while_open").or_insert(0) += 1;
    }
}

/// Strings given out are strings, whatever bytes are stored.
fn utf8(s: &str) -> Result<(), Violation> {
    match std::str::from_utf8(std::hint::black_box(s.as_bytes())) {
        Ok(_) => Ok(()),
        Err(e) => crate::exec::viol("not-utf8", format!("a string given out is not UTF-8: {:x?}: {e}", &s.as_bytes()[..s.len().min(40)])),
    }
}

fn note_denied(n0: u64, st: &mut Stats) {
    let n = alloc::denied_count() - n0;
    if n > 0 {
        *st.probes.entry("allocation_denied").or_insert(0) += n;
    }
}
