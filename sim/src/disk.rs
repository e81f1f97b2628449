//! The simulated storage: every byte the library reads or writes goes through here.

use crate::rng::{mix2, Rng};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{self, ErrorKind, Read, Seek, SeekFrom, Write};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub enum IoOp {
    Read,
    Write,
    Seek,
    Flush,
    /// Opening by path (path-based runs only).
    Open,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub enum FaultKind {
    /// An error of kind KINDS[i].
    Err(u8),
    /// A write that transfers some bytes first and then fails (the error comes on the next call).
    PartialThenErr(u32),
    /// A write that reports zero bytes taken.
    Zero,
}

pub const KINDS: [ErrorKind; 8] = [
    ErrorKind::Other,
    ErrorKind::PermissionDenied,
    ErrorKind::TimedOut,
    ErrorKind::BrokenPipe,
    ErrorKind::StorageFull,
    ErrorKind::UnexpectedEof,
    ErrorKind::InvalidData,
    ErrorKind::WouldBlock,
];

/// Armed fault: the nth matching call from arming on fails, and so do the following ones, `count` in all.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub struct Fault {
    pub op: IoOp,
    pub nth: u32,
    pub count: u32,
    pub kind: FaultKind,
}

/// How the storage splits transfers when nothing is wrong.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, Serialize, Deserialize)]
pub struct Delivery {
    pub seed: u64,
    pub short: u8,
    pub eintr: u8,
}

pub struct Disk {
    pub data: Vec<u8>,
    /// Content at the start of the current round and every write since.
    pub base: Vec<u8>,
    pub journal: Vec<(u64, Vec<u8>)>,
    pub keep_journal: bool,
    /// Bytes written in this round.
    pub jbytes: u64,
    /// jbytes at the last flush that reached the storage.
    pub barrier: u64,
    deliver: Delivery,
    rng: Rng,
    consec: u32,
    pub faults: Vec<(Fault, u32)>,
    partial_err: Option<ErrorKind>,
    /// Storage is full at this size.
    pub capacity: Option<u64>,
    pub calls: u64,
    pub budget: u64,
    pub hash: u64,
    pub fired: BTreeMap<&'static str, u64>,
    pub faults_fired: u64,
    /// Bytes before this belong to completely stored segments.
    pub sealed: u64,
    pub track_sealed: bool,
    pub readonly: bool,
    pub write_violation: Option<String>,
    /// Bytes transferred by reads, calls by kind.
    pub n: [u64; 5],
    /// Another process's writes land while this disk is read.
    pub live: Option<Live>,
    /// Ranges that cannot be read.
    pub bad: Vec<(u64, u64)>,
    pub bad_kind: u8,
}

/// Writes of another process, becoming visible step by step.
pub struct Live {
    pub journal: Rc<Vec<(u64, Vec<u8>)>>,
    pub seen: u64,
    pub total: u64,
    /// Bytes landing before each access.
    pub adv: Rc<Vec<u32>>,
    pub step: usize,
    pub moved: u64,
    /// Where the small writes (lengths stored afterwards) are, which land as a whole.
    pub whole: Vec<(u64, u64)>,
    /// All the amounts that were to be seen at one of the accesses.
    pub marks: Vec<u64>,
}

pub type DiskRef = Rc<RefCell<Disk>>;

pub const BUDGET_MSG: &str = "SIM: storage access budget exceeded";

impl Disk {
    pub fn new(deliver: Delivery) -> DiskRef {
        Rc::new(RefCell::new(Disk {
            data: vec![],
            base: vec![],
            journal: vec![],
            keep_journal: false,
            jbytes: 0,
            barrier: 0,
            deliver,
            rng: Rng::new(deliver.seed),
            consec: 0,
            faults: vec![],
            partial_err: None,
            capacity: None,
            calls: 0,
            budget: u64::MAX,
            hash: 0,
            fired: BTreeMap::new(),
            faults_fired: 0,
            sealed: 0,
            track_sealed: false,
            readonly: false,
            write_violation: None,
            n: [0; 5],
            live: None,
            bad: vec![],
            bad_kind: 0,
        }))
    }

    pub fn arm(&mut self, f: Fault) {
        self.faults.push((f, 0));
    }
    pub fn disarm(&mut self) {
        self.faults.clear();
        self.partial_err = None;
        self.capacity = None;
    }

    pub fn note(&mut self, k: &'static str) {
        *self.fired.entry(k).or_insert(0) += 1;
    }

    fn event(&mut self, op: IoOp, a: u64, b: u64) {
        self.calls += 1;
        self.n[op as usize] += 1;
        self.hash = mix2(self.hash, mix2(op as u64 + 1, mix2(a, b)));
        if self.calls > self.budget && !std::thread::panicking() {
            panic!("{}", BUDGET_MSG);
        }
    }

    /// Something of the other process's writes may land now.
    pub fn live_step(&mut self) {
        let Some(l) = self.live.as_mut() else { return };
        let a = l.adv.get(l.step).copied().unwrap_or(0) as u64;
        l.step += 1;
        let mut to = (l.seen + a).min(l.total);
        for (s, e) in &l.whole {
            if *s < to && to < *e {
                to = *e;
            }
        }
        if to > l.seen {
            l.marks.push(to);
            l.moved += 1;
            let mut off = 0u64;
            for (pos, b) in l.journal.iter() {
                let (s, e) = (off.max(l.seen), (off + b.len() as u64).min(to));
                if s < e {
                    apply(&mut self.data, pos + (s - off), &b[(s - off) as usize..(e - off) as usize]);
                }
                off += b.len() as u64;
                if off >= to {
                    break;
                }
            }
            l.seen = to;
        }
        self.hash = mix2(self.hash, to);
    }

    fn check_fault(&mut self, op: IoOp) -> Option<FaultKind> {
        let mut hit = None;
        for (f, seen) in self.faults.iter_mut() {
            if f.op == op {
                let i = *seen;
                *seen = seen.saturating_add(1);
                if i >= f.nth && i - f.nth < f.count && hit.is_none() {
                    hit = Some(f.kind);
                }
            }
        }
        hit
    }

    fn fail(&mut self, op: IoOp, kind: ErrorKind) -> io::Error {
        self.faults_fired += 1;
        self.note(match op {
            IoOp::Read => "read_error",
            IoOp::Write => "write_error",
            IoOp::Seek => "seek_error",
            IoOp::Flush => "flush_error",
            IoOp::Open => "open_error",
        });
        self.hash = mix2(self.hash, 0xFA11 + kind as u64);
        io::Error::new(kind, "injected")
    }

    fn benign(&mut self, len: usize) -> Result<usize, io::Error> {
        if self.deliver.eintr > 0 && self.consec < 2 && self.rng.pct(self.deliver.eintr as u64) {
            self.consec += 1;
            self.note("interrupted");
            self.hash = mix2(self.hash, 0xE1);
            return Err(io::Error::from(ErrorKind::Interrupted));
        }
        self.consec = 0;
        if len > 1 && self.deliver.short > 0 && self.rng.pct(self.deliver.short as u64) {
            let n = match self.rng.below(3) {
                0 => 1,
                1 => self.rng.range(1, (len as u64 - 1).min(16)) as usize,
                _ => self.rng.range(1, len as u64 - 1) as usize,
            };
            return Ok(n);
        }
        Ok(len)
    }

    pub fn read_at(&mut self, pos: u64, buf: &mut [u8]) -> io::Result<usize> {
        self.live_step();
        self.event(IoOp::Read, pos, buf.len() as u64);
        if let Some(k) = self.check_fault(IoOp::Read) {
            let kind = match k {
                FaultKind::Err(i) => KINDS[i as usize % KINDS.len()],
                _ => ErrorKind::Other,
            };
            return Err(self.fail(IoOp::Read, kind));
        }
        let avail = (self.data.len() as u64).saturating_sub(pos);
        let mut want = (buf.len() as u64).min(avail) as usize;
        for (s, e) in &self.bad {
            if pos < *e && pos + want as u64 > *s {
                want = s.saturating_sub(pos) as usize;
                if want == 0 {
                    self.note("bad_spot");
                    return Err(self.fail(IoOp::Read, KINDS[self.bad_kind as usize % KINDS.len()]));
                }
            }
        }
        let n = self.benign(want)?;
        if n < want {
            self.note("short_read");
        }
        if n > 0 {
            buf[..n].copy_from_slice(&self.data[pos as usize..pos as usize + n]);
        }
        self.hash = mix2(self.hash, n as u64);
        Ok(n)
    }

    pub fn write_at(&mut self, pos: u64, buf: &[u8]) -> io::Result<usize> {
        assert!(buf.len() < 1 << 30, "a string of gigabytes reaches the storage");
        self.event(IoOp::Write, pos, buf.len() as u64);
        if self.readonly && self.write_violation.is_none() {
            self.write_violation = Some(format!("a write of {} bytes at {} during a reading operation", buf.len(), pos));
        }
        if let Some(k) = self.partial_err.take() {
            return Err(self.fail(IoOp::Write, k));
        }
        let mut want = buf.len();
        if let Some(k) = self.check_fault(IoOp::Write) {
            match k {
                FaultKind::Err(i) => return Err(self.fail(IoOp::Write, KINDS[i as usize % KINDS.len()])),
                FaultKind::Zero => {
                    self.faults_fired += 1;
                    self.note("zero_write");
                    return Ok(0);
                }
                FaultKind::PartialThenErr(n) => {
                    let n = n as usize % buf.len().max(1);
                    self.partial_err = Some(ErrorKind::StorageFull);
                    self.note("partial_write");
                    if n == 0 {
                        self.partial_err = None;
                        return Err(self.fail(IoOp::Write, ErrorKind::StorageFull));
                    }
                    want = n;
                }
            }
        }
        if let Some(cap) = self.capacity {
            let room = cap.saturating_sub(pos).min(want as u64) as usize;
            if room == 0 && want > 0 {
                self.note("disk_full");
                return Err(self.fail(IoOp::Write, ErrorKind::StorageFull));
            }
            want = room;
        }
        let n = self.benign(want)?;
        if n < want {
            self.note("short_write");
        }
        self.put(pos, &buf[..n]);
        self.hash = mix2(self.hash, n as u64);
        Ok(n)
    }

    fn put(&mut self, pos: u64, bytes: &[u8]) {
        if bytes.is_empty() {
            return;
        }
        if self.track_sealed {
            let end = (pos + bytes.len() as u64).min(self.sealed);
            if pos < end {
                let old = &self.data[pos as usize..end as usize];
                if old != &bytes[..(end - pos) as usize] && self.write_violation.is_none() {
                    self.write_violation = Some(format!(
                        "a write at {}..{} changes bytes of completely stored segments (which end at {})",
                        pos,
                        pos + bytes.len() as u64,
                        self.sealed
                    ));
                }
            }
            if pos > self.data.len() as u64 && self.write_violation.is_none() {
                self.write_violation =
                    Some(format!("a write at {} leaves a gap after the end of the file at {}", pos, self.data.len()));
            }
        }
        let extends = pos + bytes.len() as u64 > self.data.len() as u64;
        apply(&mut self.data, pos, bytes);
        if self.keep_journal {
            self.journal.push((pos, bytes.to_vec()));
        }
        self.jbytes += bytes.len() as u64;
        // A rewrite of the incomplete tail may arrive in pieces: it counts as done when the file grows again.
        if self.track_sealed && extends {
            self.advance_sealed();
        }
    }

    /// Move `sealed` over all segments that are complete now.
    pub fn advance_sealed(&mut self) {
        loop {
            let s = self.sealed as usize;
            let Some(li) = self.data.get(s..s + 28) else { return };
            if &li[..4] != b"TDSm" {
                return;
            }
            let be = li[4] & 0x40 != 0;
            let u = |a: usize| {
                let b: [u8; 8] = li[a..a + 8].try_into().unwrap();
                if be {
                    u64::from_be_bytes(b)
                } else {
                    u64::from_le_bytes(b)
                }
            };
            let (next, raw) = (u(12), u(20));
            if raw > next {
                return;
            }
            match next.checked_add(s as u64 + 28) {
                Some(end) if end <= self.data.len() as u64 => self.sealed = end,
                _ => return,
            }
        }
    }

    pub fn seek_ok(&mut self, pos: u64) -> io::Result<()> {
        self.event(IoOp::Seek, pos, 0);
        if let Some(k) = self.check_fault(IoOp::Seek) {
            let kind = match k {
                FaultKind::Err(i) => KINDS[i as usize % KINDS.len()],
                _ => ErrorKind::Other,
            };
            return Err(self.fail(IoOp::Seek, kind));
        }
        Ok(())
    }

    pub fn open_ok(&mut self) -> io::Result<()> {
        self.live_step();
        self.event(IoOp::Open, 0, 0);
        if let Some(k) = self.check_fault(IoOp::Open) {
            let kind = match k {
                FaultKind::Err(i) => KINDS[i as usize % KINDS.len()],
                _ => ErrorKind::Other,
            };
            return Err(self.fail(IoOp::Open, kind));
        }
        self.benign(0)?;
        Ok(())
    }

    pub fn flush_ok(&mut self) -> io::Result<()> {
        self.event(IoOp::Flush, 0, 0);
        if let Some(k) = self.check_fault(IoOp::Flush) {
            let kind = match k {
                FaultKind::Err(i) => KINDS[i as usize % KINDS.len()],
                _ => ErrorKind::Other,
            };
            return Err(self.fail(IoOp::Flush, kind));
        }
        self.barrier = self.jbytes;
        Ok(())
    }

    /// Start a round: what is stored now is the base the journal applies to.
    pub fn new_round(&mut self) {
        self.base = self.data.clone();
        self.journal.clear();
        self.jbytes = 0;
        self.barrier = 0;
        self.keep_journal = true;
    }

    /// The content after the first `cut` bytes written in this round.
    pub fn image(&self, cut: u64) -> Vec<u8> {
        let mut img = self.base.clone();
        let mut left = cut;
        for (pos, b) in &self.journal {
            if left == 0 {
                break;
            }
            let n = (b.len() as u64).min(left) as usize;
            apply(&mut img, *pos, &b[..n]);
            left -= n as u64;
        }
        img
    }

    /// Replace the content (crash, foreign writer, corruption).
    pub fn set(&mut self, data: Vec<u8>) {
        self.data = data;
        self.sealed = 0;
        if self.track_sealed {
            self.advance_sealed();
        }
        if self.keep_journal {
            self.new_round();
        }
    }
}

pub fn apply(data: &mut Vec<u8>, pos: u64, bytes: &[u8]) {
    let end = pos as usize + bytes.len();
    if data.len() < end {
        data.resize(end, 0);
    }
    data[pos as usize..end].copy_from_slice(bytes);
}

pub fn seek_target(pos: u64, len: u64, to: SeekFrom) -> io::Result<u64> {
    let (base, off) = match to {
        SeekFrom::Start(p) => return if p > i64::MAX as u64 { Err(ErrorKind::InvalidInput.into()) } else { Ok(p) },
        SeekFrom::End(o) => (len, o),
        SeekFrom::Current(o) => (pos, o),
    };
    let t = base as i128 + off as i128;
    if t < 0 || t > i64::MAX as i128 {
        // As the operating system does.
        return Err(ErrorKind::InvalidInput.into());
    }
    Ok(t as u64)
}

/// One open handle on a simulated disk.
pub struct SimFile {
    pub disk: DiskRef,
    pub pos: u64,
}
impl SimFile {
    pub fn new(disk: &DiskRef) -> Self {
        SimFile { disk: disk.clone(), pos: 0 }
    }
}
impl Read for SimFile {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = self.disk.borrow_mut().read_at(self.pos, buf)?;
        self.pos += n as u64;
        Ok(n)
    }
}
impl Write for SimFile {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let n = self.disk.borrow_mut().write_at(self.pos, buf)?;
        self.pos += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.disk.borrow_mut().flush_ok()
    }
}
impl Seek for SimFile {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        let mut d = self.disk.borrow_mut();
        d.live_step();
        let len = d.data.len() as u64;
        let t = seek_target(self.pos, len, to)?;
        d.seek_ok(t)?;
        drop(d);
        self.pos = t;
        Ok(t)
    }
}
