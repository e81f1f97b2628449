//! The explicit description of one simulated execution. A trace plus the code under test determines everything.

use crate::disk::{Delivery, Fault};
use crate::ty::{Pv, Ty};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Trace {
    pub prop: String,
    #[serde(default)]
    pub delivery: Delivery,
    /// Objects the steps refer to by position: (group, channel). (None, None) is the file object.
    pub names: Vec<(Option<String>, Option<String>)>,
    pub steps: Vec<Step>,
    /// 0: on storage handed to the library. 1: by path, through the simulated file calls of the operating system, on an
    /// empty file that is there. 2: the same on a file created by path.
    #[serde(default)]
    pub path: u8,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    /// Accepted sample write: channels (indexes into names), type, samples per channel, interleaved, data seed.
    W { ch: Vec<u16>, ty: Ty, n: u32, il: bool, s: u32 },
    /// Accepted property write.
    P { o: u16, p: Vec<(String, Pv)> },
    Sync,
    /// Refused calls.
    NoChannels { ty: Ty, n: u32 },
    BadLen { ch: Vec<u16>, ty: Ty, n: u32, extra: u32, il: bool },
    NoValues { ch: Vec<u16>, ty: Ty, il: bool },
    Strings { ch: Vec<u16>, n: u32, il: bool },
    /// One of the channels is listed twice.
    Twice { ch: Vec<u16>, ty: Ty, n: u32, il: bool, at: u32 },
    /// A property with a name, or a value, whose length does not fit the 32 bits the format has for it.
    TooLong { o: u16, name: bool, first: bool },
    /// Arm a fault in the middle of the session.
    Arm(Fault),
    Full(u32),
    Disarm,
    /// Armed while writer() is called, which is called again when that fails (first in a session).
    ArmWriter(Fault),
    /// From here on the samples are of a type the caller defines, whose nth conversion fails (u32::MAX: none does).
    ArmValue { nth: u32, kind: u8 },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum FIdx {
    None,
    Same,
    New(Ty),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct FObj {
    pub o: u16,
    pub idx: FIdx,
    pub p: Vec<(String, Pv)>,
}

/// A segment written by another tool.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct FSeg {
    pub be: bool,
    pub il: bool,
    pub new_list: bool,
    pub no_meta: bool,
    pub raw: bool,
    pub objs: Vec<FObj>,
    pub n: u32,
    pub chunks: u32,
    pub s: u32,
    /// 0: complete. 1: the writer died before storing the length (all ones) but all data is there.
    /// 2: as 1 with the last chunk cut. 3: length stored but data cut inside the last chunk.
    /// 4: the writer died inside the lead-in or the metadata.
    pub tail: u8,
    /// Channels of different length (contiguous segments only).
    #[serde(default)]
    pub uneven: bool,
    /// Channels of no samples among the others (with `uneven`).
    #[serde(default)]
    pub empty: bool,
    /// The previous version of the format (4712).
    #[serde(default)]
    pub old: bool,
    /// Bytes between the metadata and the raw data.
    #[serde(default)]
    pub pad: u16,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct ReadStep {
    pub ch: Vec<u16>,
    pub ty: Option<Ty>,
    pub start: u64,
    pub len: Vec<u32>,
    /// Use the single-channel call for one channel.
    pub one: bool,
    /// Use the call without start when start is 0.
    pub plain: bool,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Corrupt {
    /// Flip bits: (position, mask).
    Flip(u64, u8),
    /// Overwrite with a little-endian value of the given width.
    Put(u64, u8, u64),
    /// Overwrite bytes at a position aligned to structure: nth segment, field (0 toc, 1 version, 2 next, 3 raw, 4.. meta offset).
    Field(u16, u16, u8, u64),
    Zero(u64, u32),
    Truncate(u64),
    Dup(u64, u32, u64),
    Insert(u64, Vec<u8>),
    Append(Vec<u8>),
    /// Replace everything.
    Raw(Vec<u8>),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Bad {
    /// Which blocks (by position) and, of each, from which byte how many (all of it: None).
    pub blocks: Vec<u16>,
    pub part: Option<(u32, u32)>,
    /// The blocks given are the ones that can be read instead.
    pub but: bool,
    pub kind: u8,
    /// On a handle opened while the region is bad, or on the current one.
    pub fresh: bool,
    pub reads: Vec<ReadStep>,
    /// Then written, with the region still bad.
    pub append: Vec<Op>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Step {
    /// writer(), the calls, release.
    Sess(Vec<Op>),
    /// A writing session on a second handle, while the first stays open and knows nothing of it.
    Other(Vec<Op>),
    /// Drop the handle and open the stored bytes again.
    Reopen,
    /// Compare everything on the current handle with the model.
    Check,
    /// The same on a second handle opened for that.
    Fresh,
    Read(ReadStep),
    Foreign(FSeg),
    /// Arm a fault for the following step(s).
    Arm(Fault),
    /// The reads that follow are into a type the caller defines, whose nth conversion fails (u32::MAX: none does).
    ArmValue { nth: u32, kind: u8 },
    Full(u32),
    Disarm,
    /// The process dies when `cut` (modulo) bytes of the round are stored; the file is then opened again.
    Crash { cut: u64 },
    /// As Crash, but only looked at on a copy; the run goes on as if nothing had happened. With `append`, a session
    /// follows on the copy, which is then reopened.
    Probe { cut: u64, append: Option<Vec<Op>> },
    /// A reader working while the round's writes land: bytes visible when it opens, then bytes landing before each of
    /// its storage accesses.
    Live { at: u64, adv: Vec<u32>, reads: u8, again: u8 },
    Corrupt(Vec<Corrupt>),
    /// Everything a caller can ask of a file with unknown content.
    Explore { s: u32, write: bool },
    /// Damage that is done during the following Explore step, when the file is open and so many reads have been done.
    Late { after: u8, cs: Vec<Corrupt> },
    /// Allocations above this many bytes fail during the following Explore steps.
    AllocLimit(u64),
    /// A copy of the file with a DAQmx segment after it is opened: it must be refused.
    Daqmx { be: bool, line: bool, o: u16 },
    /// A file of gigabytes, on a storage of its own.
    Huge(crate::huge::Huge),
    /// A file of very many small segments, on a storage of its own.
    Many(crate::many::Many),
    /// Regions inside the samples cannot be read: what does not need them must work.
    Bad(Bad),
    /// Another application adds segments while this library opens and reads the file. How (per segment): 0 as they
    /// are, 1 with an open end until all is stored, 2 with some of the chunks first, 3 as 1 with chunks in between.
    LiveForeign { segs: Vec<FSeg>, how: Vec<u8>, at: u64, adv: Vec<u32>, reads: u8, again: u8 },
    /// Path-based only: create the file anew.
    Create,
    /// Path-based only: loading a missing path.
    LoadMissing,
}
