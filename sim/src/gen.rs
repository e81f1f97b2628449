//! Seeded generation of traces, one family per property.

use crate::disk::{Delivery, Fault, FaultKind, IoOp};
use crate::rng::{mix2, Rng};
use crate::trace::*;
use crate::ty::*;

pub struct G {
    pub r: Rng,
    pub t: Trace,
    last: Option<Op>,
    props: Vec<String>,
    types: Vec<Ty>,
    big: bool,
    /// Other writers store strings.
    strs: bool,
    /// Beyond the sizes that fit one or two bytes.
    scale: Scale,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Scale {
    No,
    /// Hundreds of channels in one call.
    Channels,
    /// Hundreds of properties in one call.
    Props,
    /// Names and strings longer than 65535 bytes.
    Strings,
    /// More than 65536 values in one call.
    Values,
    /// Hundreds of calls.
    Calls,
}

const SIMPLE_G: [&str; 4] = ["group", "Group 2", "g", "measurement"];
const SIMPLE_C: [&str; 5] = ["ch1", "channel", "a", "b2", "Time"];
const ODD: [&str; 27] = [
    "",
    "a/b", "/", "//", "'", "''", "it's", "a'b'c", "\"", "say \"x\"", " ", "  lead", "x/", "/x", "'/'", "a'/'b", "ä", "温度", "🦀", "e\u{301}", "\n", "a\tb",
    "\u{1}", "x'", "'x", "/'g'", "a",
];

pub fn name(r: &mut Rng, odd: bool) -> String {
    if !odd {
        return r.pick(&SIMPLE_C).to_string();
    }
    match r.below(10) {
        0..=5 => r.pick(&ODD).to_string(),
        6 => {
            // Any characters at all.
            let n = r.range(1, 6);
            (0..n)
                .map(|_| {
                    let c = match r.below(4) {
                        0 => *r.pick(&['\'', '/', '"', ' ', '\\', 'a']) as u32,
                        1 => r.range(0x20, 0x7e) as u32,
                        2 => r.range(1, 0x7ff) as u32,
                        _ => r.range(0x800, 0x1ffff) as u32,
                    };
                    char::from_u32(c).filter(|c| *c != crate::model::QQ).unwrap_or('x')
                })
                .collect()
        }
        7 => long_string(r.range(20, 300) as u32, r.next()),
        8 => format!("{}{}", r.pick(&SIMPLE_C), r.pick(&ODD)),
        _ => r.pick(&SIMPLE_C).to_string(),
    }
}

/// Another name that is easily taken for this one.
fn near(r: &mut Rng, x: &str) -> String {
    match r.below(16) {
        0 | 1 => x.to_uppercase(),
        2 => x.to_lowercase(),
        3 => format!("{x} "),
        8 => format!("{x}\0"),
        9 => format!("\u{FEFF}{x}"),
        10 => format!("{x}\r\n"),
        11 => format!("{x}\n"),
        12 => format!("{x}{}", crate::model::QQ),
        13 => format!("{x}{}{x}", crate::model::QQ),
        14 => format!("{x}\\"),
        15 => format!("{x}\u{200B}"),
        4 => format!(" {x}"),
        5 => format!("{x}\u{301}"),
        6 => x.chars().rev().collect(),
        _ => x.chars().skip(1).collect(),
    }
}

impl G {
    pub fn new(prop: &str, seed: u64, odd_names: u64) -> G {
        let mut r = Rng::new(seed);
        let delivery = match r.below(4) {
            0 => Delivery { seed: r.next(), short: 0, eintr: 0 },
            1 => Delivery { seed: r.next(), short: 30, eintr: 10 },
            2 => Delivery { seed: r.next(), short: 90, eintr: 30 },
            _ => Delivery { seed: r.next(), short: 10, eintr: 0 },
        };
        let odd = r.pct(odd_names);
        let mut names: Vec<(Option<String>, Option<String>)> = vec![(None, None)];
        let ng = *r.pick(&[1u64, 1, 1, 2, 2, 3]);
        let mut groups: Vec<String> = vec![];
        for _ in 0..ng {
            let mut g = if odd { name(&mut r, true) } else { r.pick(&SIMPLE_G).to_string() };
            if odd && !groups.is_empty() && r.pct(30) {
                // One name the beginning of another.
                g = format!("{}{}", groups[0], r.pick(&["2", "'", " ", "/", "x"]));
            } else if !groups.is_empty() && r.pct(20) {
                g = near(&mut r, &groups[0]);
            }
            if !groups.contains(&g) {
                groups.push(g);
            }
        }
        let nc = *r.pick(&[1u64, 2, 2, 3, 3, 4, 6]);
        for _ in 0..nc {
            let g = r.pick(&groups).clone();
            let mut c = name(&mut r, odd);
            if odd && r.pct(15) {
                c = g.clone();
            }
            if odd && r.pct(12) {
                // As other applications store a quote.
                c = r.pick(&["it\u{F8FF}s", "\u{F8FF}", "x\u{F8FF}", "\u{F8FF}/\u{F8FF}", "it\u{F8FF}\u{F8FF}s"]).to_string();
            }
            if odd && r.pct(15) {
                if let Some((_, Some(x))) = names.last() {
                    c = format!("{x}{}", r.pick(&["2", "'", "/", "x"]));
                }
            }
            if let (Some((_, Some(x))), true) = (names.last(), r.pct(if odd { 15 } else { 6 })) {
                c = near(&mut r, x);
            }
            let e = (Some(g), Some(c));
            if !names.contains(&e) {
                names.push(e);
            }
        }
        for g in &groups {
            if r.pct(50) {
                names.push((Some(g.clone()), None));
            }
        }
        if r.pct(20) {
            // A name that may never be written.
            names.push((Some(r.pick(&groups).clone()), Some("never".into())));
        }
        let nt = *r.pick(&[1usize, 1, 2, 3]);
        let mut types: Vec<Ty> = (0..nt).map(|_| *r.pick(&OWN)).collect();
        if r.pct(15) {
            types = OWN.to_vec();
        }
        let np = r.range(1, 4);
        let mut props: Vec<String> = vec![];
        for _ in 0..np {
            let odd = r.pct(20);
            if let (Some(x), true) = (props.last(), r.pct(15)) {
                let p = near(&mut r, x).replace(crate::model::QQ, "''");
                props.push(p);
                continue;
            }
            props.push(if odd { name(&mut r, true) } else { r.pick(&["a", "A", "unit", "wf_increment", "Name", "name"]).to_string() });
        }
        if r.pct(5) {
            props.push(String::new());
        }
        let big = r.pct(12);
        let strs = r.pct(30);
        let mut scale = Scale::No;
        if !matches!(prop, "C11" | "C13" | "C14" | "C15") && r.below(1000) < 10 {
            scale = *r.pick(&[Scale::Channels, Scale::Props, Scale::Strings, Scale::Values, Scale::Calls]);
            match scale {
                Scale::Channels => {
                    let n = *r.pick(&[130u64, 257, 300, 520]);
                    let spread = r.pct(30);
                    for i in 0..n {
                        let own = if spread { format!("wide {i}") } else { groups[0].clone() };
                        names.push((Some(own), Some(format!("wide{i}"))));
                    }
                }
                Scale::Props => {
                    let n = *r.pick(&[130u64, 257, 300, 600]);
                    props.extend((0..n).map(|i| format!("prop{i}")));
                }
                Scale::Strings => {
                    let n = if matches!(prop, "C01" | "C03" | "C04") && r.pct(8) {
                        // More than a mebibyte, of bytes and of the words they could be counted in.
                        *r.pick(&[131_073u32, 1_048_576, 1_048_577, 2_200_000])
                    } else {
                        *r.pick(&[250u32, 255, 256, 32_767, 32_768, 65_500, 65_535, 65_536, 70_000])
                    };
                    let long = long_string(n, r.next());
                    match r.below(3) {
                        0 => names.push((Some(groups[0].clone()), Some(long))),
                        1 => names.push((Some(long), Some("c".into()))),
                        _ => props.push(long),
                    }
                    let k = names.len() - 1;
                    names.swap(k, r.usize(k) + 1);
                }
                _ => {}
            }
        }
        G { r, t: Trace { prop: prop.into(), delivery, names, steps: vec![], path: 0 }, last: None, props, types, big, strs, scale }
    }

    fn any(&mut self) -> u16 {
        self.r.below(self.t.names.len() as u64) as u16
    }
    fn chset(&mut self) -> Vec<u16> {
        let n = self.t.channel_ids().len();
        let mut v: Vec<u16> = (0..n as u16).collect();
        self.r.shuffle(&mut v);
        let k = if self.scale == Scale::Channels && self.r.pct(50) { n } else { *self.r.pick(&[1usize, 1, 2, 2, 3, 6]) };
        v.truncate(k.min(n));
        v
    }
    fn ty(&mut self) -> Ty {
        let v = self.types.clone();
        *self.r.pick(&v)
    }
    fn count(&mut self) -> u32 {
        if self.scale == Scale::Values && self.r.pct(35) {
            if matches!(&*self.t.prop, "C01" | "C05") && self.r.pct(3) {
                return *self.r.pick(&[1_048_575u32, 1_048_577, 1_300_000]);
            }
            return *self.r.pick(&[32_768u32, 65_535, 65_536, 65_537, 70_000, 131_073]);
        }
        if self.scale == Scale::Channels {
            if self.t.names.len() < 150 && self.r.pct(6) {
                return self.r.range(250, 300) as u32;
            }
            return self.r.range(1, 4) as u32;
        }
        let x = match self.r.below(if self.big { 14 } else { 12 }) {
            0..=2 => 1,
            3..=8 => self.r.range(1, 9),
            9 => self.r.range(9, 60),
            10 => *self.r.pick(&[2u64, 4, 8, 16, 32, 64, 128]),
            11 => self.r.range(1, 3),
            12 => self.r.range(100, 1100),
            _ => *self.r.pick(&[511u64, 512, 1023, 1024, 1025, 2047, 4100]),
        };
        x as u32
    }
    pub fn value(&mut self) -> Pv {
        if self.r.pct(15) {
            // Values that come again, some of them equal but not the same.
            let (t, b) = *self.r.pick(&[
                (Ty::F64, 0),
                (Ty::F64, 1 << 63),
                (Ty::F64, 0x7ff8 << 48),
                (Ty::F32, 0),
                (Ty::F32, 1 << 31),
                (Ty::I32, 0),
                (Ty::Bool, 0),
                (Ty::Bool, 1),
            ]);
            return Pv::Num(t, Hex(b));
        }
        match self.r.below(12) {
            0 => Pv::Str(String::new()),
            1 | 2 => Pv::Str(name(&mut self.r, true)),
            3 if self.scale == Scale::Strings && matches!(&*self.t.prop, "C03" | "C05") && self.r.pct(6) => {
                Pv::Long(*self.r.pick(&[131_073u32, 1_048_576, 1_048_577, 4_200_000, 16_777_217]), self.r.next())
            }
            3 if self.scale == Scale::Strings => Pv::Long(*self.r.pick(&[255u32, 256, 32_768, 65_535, 65_536, 70_000]), self.r.next()),
            3 => Pv::Long(*self.r.pick(&[10u32, 100, 3000, 8192, 9000]) / if self.big { 1 } else { 10 }, self.r.next()),
            _ => {
                let t = *self.r.pick(&OWN);
                let mut b = t.sample(self.r.next(), 0);
                if t == Ty::Time && b & 1 == 0 {
                    b &= (1 << 97) - 1; // an instant a calendar has
                }
                Pv::Num(t, Hex(b))
            }
        }
    }
    pub fn props_op(&mut self, max: u64) -> Vec<(String, Pv)> {
        let n = if self.scale == Scale::Props && self.r.pct(50) { self.props.len() as u64 * 3 } else { self.r.range(0, max) };
        (0..n)
            .map(|_| {
                let ps = self.props.clone();
                (self.r.pick(&ps).clone(), self.value())
            })
            .collect()
    }
    /// A sample write, related to the previous one in the ways that matter to the writer.
    pub fn write(&mut self) -> Op {
        let s = self.r.next() as u32;
        if let Some(Op::W { ch, ty, n, il, .. }) = self.last.clone() {
            let op = match self.r.below(100) {
                0..=34 => Op::W { ch, ty, n, il, s },
                35..=46 => Op::W { ch, ty, n: self.count(), il, s },
                47..=54 => Op::W { ch, ty: self.ty(), n, il, s },
                55..=59 => Op::W { ch, ty, n, il: !il, s },
                60..=66 => {
                    let mut ch = ch;
                    self.r.shuffle(&mut ch);
                    Op::W { ch, ty, n, il, s }
                }
                67..=72 => {
                    let mut ch = ch;
                    ch.truncate((ch.len() - 1).max(1));
                    Op::W { ch, ty, n, il, s }
                }
                73..=79 => {
                    let mut ch = ch;
                    for c in self.chset() {
                        if !ch.contains(&c) {
                            ch.push(c);
                            break;
                        }
                    }
                    Op::W { ch, ty, n, il, s }
                }
                _ => Op::W { ch: self.chset(), ty: self.ty(), n: self.count(), il: self.r.pct(50), s },
            };
            self.last = Some(op.clone());
            return op;
        }
        let op = Op::W { ch: self.chset(), ty: self.ty(), n: self.count(), il: self.r.pct(50), s };
        self.last = Some(op.clone());
        op
    }
    pub fn prop(&mut self) -> Op {
        Op::P { o: self.any(), p: self.props_op(3) }
    }
    pub fn sess(&mut self, n: u64, pprop: u64, psync: u64) -> Vec<Op> {
        let mut v = vec![];
        if matches!(&*self.t.prop, "C01" | "C05" | "C07" | "C12") && self.r.pct(4) {
            v.push(Op::ArmValue { nth: u32::MAX, kind: 0 });
        }
        if self.r.pct(3) {
            // Nothing to write after all.
            if self.r.pct(50) {
                v.push(Op::Sync);
            }
            return v;
        }
        for _ in 0..n {
            if self.r.pct(psync) {
                v.push(Op::Sync);
            }
            if self.r.pct(pprop) {
                v.push(self.prop());
            } else {
                v.push(self.write());
            }
        }
        if self.r.pct(psync) {
            v.push(Op::Sync);
        }
        v
    }
    pub fn refused(&mut self) -> Op {
        let (ch, ty, n, il) = (self.chset(), self.ty(), self.count(), self.r.pct(50));
        let last = self.last.clone();
        let ch = match (last, self.r.pct(50)) {
            (Some(Op::W { ch, .. }), true) => ch,
            _ => ch,
        };
        if self.r.below(3000) == 0 {
            return Op::TooLong { o: self.r.below(self.t.names.len() as u64) as u16, name: self.r.pct(50), first: self.r.pct(50) };
        }
        match self.r.below(6) {
            5 => Op::Twice { ch, ty, n: n % 20, il, at: self.r.next() as u32 % 1000 },
            0 => Op::NoChannels { ty, n: n % 5 },
            1 | 2 => Op::BadLen { ch, ty, n: n % 20, extra: self.r.next() as u32 % 8, il },
            3 => Op::NoValues { ch, ty, il },
            _ => Op::Strings { ch, n: n % 6, il },
        }
    }
    pub fn read(&mut self, spread: u64) -> ReadStep {
        let mut ch = self.chset();
        if self.r.pct(8) && !ch.is_empty() {
            for _ in 0..self.r.range(1, 2) {
                let (c, at) = (*self.r.pick(&ch), self.r.usize(ch.len() + 1));
                ch.insert(at, c);
            }
        }
        let start = match self.r.below(12) {
            0..=2 => 0,
            3..=8 => self.r.below(spread.max(1)),
            9 => self.r.below(8),
            10 => spread + self.r.below(20),
            _ => *self.r.pick(&[u64::MAX, u64::MAX - 1, 1 << 40, 1 << 63, u32::MAX as u64 + 1]),
        };
        let k = self.r.range(1, 3);
        let len = (0..k)
            .map(|_| match self.r.below(8) {
                0 => 0,
                1..=4 => self.r.below(12) as u32,
                5 | 6 => self.r.below(spread.max(2)) as u32,
                _ => (spread + 5) as u32,
            })
            .collect();
        ReadStep {
            ch,
            ty: if self.r.pct(12) {
                Some(if self.types.contains(&Ty::U8) && self.r.pct(40) { Ty::Bool } else { self.ty() })
            } else {
                None
            },
            start,
            len,
            one: self.r.pct(50),
            plain: self.r.pct(50),
        }
    }
    pub fn foreign(&mut self, tails: bool, be_ok: bool) -> FSeg {
        let be = be_ok && self.r.pct(35);
        let no_meta = self.r.pct(15);
        let nobj = self.r.range(if no_meta { 0 } else { 1 }, 4);
        let strs = self.strs;
        let objs = (0..nobj)
            .map(|_| {
                let idx = match self.r.below(10) {
                    0..=1 => FIdx::None,
                    2..=4 => FIdx::Same,
                    _ => FIdx::New(*self.r.pick(&ALL)),
                };
                let idx = match idx {
                    FIdx::New(t) if self.r.pct(40) => {
                        let _ = t;
                        FIdx::New(self.ty())
                    }
                    i => i,
                };
                let idx = match idx {
                    FIdx::New(_) if strs && self.r.pct(12) => FIdx::New(Ty::Str),
                    i => i,
                };
                FObj { o: self.any(), idx, p: if self.r.pct(40) { self.props_op(2) } else { vec![] } }
            })
            .collect();
        FSeg {
            be,
            il: self.r.pct(40),
            new_list: self.r.pct(40),
            no_meta,
            raw: self.r.pct(88),
            objs,
            n: if self.scale == Scale::Values && self.r.pct(30) {
                *self.r.pick(&[32_768u32, 65_536, 70_000])
            } else {
                self.r.range(1, 9) as u32 * if self.big && self.r.pct(20) { 90 } else { 1 }
            },
            chunks: *self.r.pick(&[1u32, 1, 1, 2, 3, 5]),
            s: self.r.next() as u32,
            tail: if tails && self.r.pct(15) { self.r.range(1, 4) as u8 } else { 0 },
            uneven: self.r.pct(12),
            empty: self.r.pct(30),
            old: self.r.pct(15),
            pad: match self.r.below(12) {
                0 => self.r.range(1, 40) as u16,
                1 => 512,
                _ => 0,
            },
        }
    }
    pub fn huge(&mut self) -> crate::huge::Huge {
        use crate::huge::*;
        let k = self.r.range(1, 4);
        let mut parts = vec![];
        let mut any = false;
        for i in 0..k {
            if !any && i + 1 == k || self.r.pct(45) {
                any = true;
                let il = self.r.pct(40);
                let chunks = match self.r.below(10) {
                    0 => self.r.range(65_530, 70_000),
                    1 if il => (1 << 32) + self.r.below(1000),
                    _ => *self.r.pick(&[1u64, 1, 1, 2, 3, 37, 500]),
                };
                let total = match self.r.below(4) {
                    0 => 1 << self.r.range(28, 44),
                    1 => (1 << 32) - self.r.below(200),
                    2 => (1 << 31) + self.r.below(1 << 33),
                    _ => (1 << 32) + self.r.below(1 << 30),
                };
                let ch = self.chset();
                // Either the samples or the bytes are that many.
                let size = if self.r.pct(50) { 1 } else { 8 * ch.len() as u64 };
                parts.push(Part::Seg { ch, n: (total / chunks / size).max(1), chunks, il, be: self.r.pct(40) });
            } else {
                parts.push(Part::Own { ch: self.chset(), n: self.r.below(40) as u32, il: self.r.pct(50) });
            }
            if self.r.pct(30) {
                parts.push(Part::Reopen);
            }
        }
        parts.push(Part::Own { ch: self.chset(), n: self.r.below(40) as u32, il: self.r.pct(50) });
        Huge {
            parts,
            types: self.types.clone(),
            s: self.r.next() as u32,
            reads: self.r.range(2, 12) as u32,
            crash: if self.r.pct(50) { Some(self.r.next() as u32) } else { None },
        }
    }
    pub fn many(&mut self, prop: &str) -> crate::many::Many {
        use crate::many::*;
        let style = match prop {
            "C01" | "C02" | "C09" => *self.r.pick(&[Style::Calls, Style::Calls, Style::Channels]),
            "C04" => Style::Channels,
            _ => *self.r.pick(&[Style::Calls, Style::Channels, Style::Props, Style::OneCall]),
        };
        let wide = match prop {
            "C01" | "C04" if self.r.pct(4) => 65_540,
            "C01" | "C02" | "C04" | "C05" | "C07" if self.r.pct(40) => *self.r.pick(&[1030u64, 2050, 4100, 9000]),
            _ => 0,
        };
        let style = if wide > 0 { Style::Wide } else { style };
        let n = match style {
            // Not all of the calls write samples, and not all to the same channel.
            Style::Calls => self.r.range(79_000, 98_000),
            Style::Channels => self.r.range(68_200, 69_500),
            Style::Wide => wide + self.r.below(99),
            _ => self.r.range(65_540, 66_500),
        };
        Many {
            n: n as u32,
            s: self.r.next() as u32,
            style,
            ty: *self.r.pick(&OWN),
            every: *self.r.pick(&[n as u32, 30_000, 9_000, 2_000]),
            crash: if self.r.pct(50) { Some(self.r.next() as u32) } else { None },
        }
    }
    fn kind(&mut self, op: IoOp) -> FaultKind {
        match op {
            IoOp::Write => match self.r.below(4) {
                0 => FaultKind::Zero,
                1 | 2 => FaultKind::PartialThenErr(self.r.next() as u32 % 9000),
                _ => FaultKind::Err(self.r.below(5) as u8),
            },
            _ => FaultKind::Err(self.r.below(8) as u8),
        }
    }
    fn fault(&mut self, op: IoOp, reach: u64) -> Fault {
        let kind = self.kind(op);
        let nth = if self.r.pct(60) { self.r.below(reach.min(6)) } else { self.r.below(reach) };
        let count = *self.r.pick(&[1u32, 1, 1, 2, 3, 1000]);
        Fault { op, nth: nth as u32, count, kind }
    }
    pub fn quiet(&mut self) {
        // No shortened transfers: fault positions then mean the same call in every run.
        self.t.delivery.short = 0;
        self.t.delivery.eintr = 0;
    }
    /// Segments of another application at the start, the last of which it may have left incomplete.
    fn foreign_first(&mut self) {
        let n = self.r.range(1, 2);
        for i in 0..n {
            let mut f = self.foreign(false, true);
            if i + 1 == n && self.r.pct(50) {
                f.tail = self.r.range(1, 4) as u8;
            }
            self.push(Step::Foreign(f));
        }
    }
    /// A session of which opening the writer fails first.
    fn stumble(&mut self, v: &mut Vec<Op>) {
        let op = *self.r.pick(&[IoOp::Write, IoOp::Write, IoOp::Seek, IoOp::Read]);
        let reach = *self.r.pick(&[1u64, 2, 6, 30]);
        let mut f = self.fault(op, reach);
        if let FaultKind::PartialThenErr(n) = &mut f.kind {
            *n %= 28;
        }
        v.insert(0, Op::ArmWriter(f));
    }
    fn push(&mut self, s: Step) {
        self.t.steps.push(s);
    }
    fn hist(&mut self, sessions: u64, ops: u64, pprop: u64, psync: u64) {
        for _ in 0..sessions {
            let n = self.r.range(1, ops);
            let v = self.sess(n, pprop, psync);
            self.push(Step::Sess(v));
            if self.r.pct(6) {
                let n = self.r.range(1, 3);
                let v = self.sess(n, pprop, psync);
                self.push(Step::Other(v));
            }
            if self.r.pct(45) {
                self.push(Step::Reopen);
            }
            if self.r.pct(15) {
                self.push(Step::Check);
            }
        }
    }
    fn len_class(&mut self) -> (u64, u64) {
        if self.scale == Scale::Channels || self.scale == Scale::Values {
            return (self.r.range(1, 2), 5);
        }
        if self.scale == Scale::Calls {
            self.t.delivery.short = self.t.delivery.short.min(10);
            return (self.r.range(1, 2), 500);
        }
        match self.r.below(10) {
            0..=4 => (self.r.range(1, 3), 5),
            5..=8 => (self.r.range(1, 5), 9),
            _ => (self.r.range(1, 3), 60),
        }
    }
}

pub fn gen(prop: &str, seed: u64) -> Trace {
    let base = mix2(seed, prop.bytes().fold(7, |a, b| a * 131 + b as u64));
    let odd = match prop {
        "C04" => 75,
        "C03" => 35,
        "C16" => 20,
        "C02" | "C14" | "C15" => 10,
        _ => 20,
    };
    let mut g = G::new(prop, base, odd);
    if matches!(prop, "C01" | "C02" | "C06" | "C07" | "C09" | "C19") && g.scale == Scale::No && g.r.below(1000) < 12 {
        let h = g.huge();
        g.push(Step::Huge(h));
        return g.t;
    }
    if matches!(prop, "C01" | "C02" | "C03" | "C04" | "C05" | "C07" | "C09") && g.scale == Scale::No && g.r.below(10_000) < 12 {
        let m = g.many(prop);
        g.push(Step::Many(m));
        return g.t;
    }
    match prop {
        "C01" => {
            let (s, o) = g.len_class();
            g.hist(s, o, 12, 8);
            g.push(Step::Check);
            g.push(Step::Fresh);
        }
        "C02" => {
            let n = g.r.range(1, 3);
            for _ in 0..n {
                if g.r.pct(40) {
                    let k = g.r.range(1, 4);
                    for _ in 0..k {
                        let f = g.foreign(false, true);
                        g.push(Step::Foreign(f));
                    }
                } else {
                    let k = g.r.range(1, 8);
                    let v = g.sess(k, 8, 0);
                    g.push(Step::Sess(v));
                }
                let spread = *g.r.pick(&[6u64, 20, 60, if g.big { 1500 } else { 30 }]);
                let k = g.r.range(2, 12);
                for _ in 0..k {
                    if g.r.pct(4) {
                        g.push(Step::ArmValue { nth: u32::MAX, kind: 0 });
                    }
                    let r = g.read(spread);
                    g.push(Step::Read(r));
                }
                if g.r.pct(30) {
                    g.push(Step::Reopen);
                }
            }
        }
        "C03" => {
            let (s, o) = g.len_class();
            for _ in 0..s {
                if g.r.pct(15) {
                    let f = g.foreign(false, true);
                    g.push(Step::Foreign(f));
                }
                g.hist(1, o, 70, 5);
            }
            g.push(Step::Check);
            g.push(Step::Fresh);
        }
        "C04" => {
            let (s, o) = g.len_class();
            g.hist(s, o.min(9), 45, 3);
            if g.r.pct(20) {
                let f = g.foreign(false, true);
                g.push(Step::Foreign(f));
            }
            g.push(Step::Check);
            g.push(Step::Fresh);
        }
        "C05" => {
            let (s, o) = g.len_class();
            g.hist(s, o, 35, 5);
        }
        "C06" => {
            let n = g.r.range(1, 7);
            for i in 0..n {
                if i == 0 || g.r.pct(65) {
                    let last = i + 1 == n;
                    let tail = last && g.r.pct(50);
                    let f = g.foreign(tail, true);
                    g.push(Step::Foreign(f));
                    if g.r.pct(30) {
                        g.push(Step::Fresh);
                    }
                    if g.r.pct(4) {
                        let (be, line, o) = (g.r.pct(40), g.r.pct(40), g.any());
                        g.push(Step::Daqmx { be, line, o });
                    }
                } else {
                    let k = g.r.range(1, 4);
                    let v = g.sess(k, 30, 5);
                    g.push(Step::Sess(v));
                }
                if g.r.pct(25) {
                    let r = g.read(20);
                    g.push(Step::Read(r));
                }
            }
            if g.r.pct(60) {
                // Whatever came last, this library goes on writing.
                let k = g.r.range(1, 3);
                let v = g.sess(k, 30, 5);
                g.push(Step::Sess(v));
            }
            g.push(Step::Check);
            g.push(Step::Fresh);
        }
        "C07" => {
            let n = g.r.range(1, 5);
            let mut crashed = false;
            for _ in 0..n {
                match g.r.below(10) {
                    0 if !crashed => {
                        let f = g.foreign(true, true);
                        g.push(Step::Foreign(f));
                    }
                    1 => {
                        let r = g.fault(IoOp::Read, 12);
                        g.push(Step::Arm(r));
                        g.push(Step::Reopen);
                    }
                    2 => {
                        let (x, y) = (*g.r.pick(&[IoOp::Write, IoOp::Write, IoOp::Flush]), g.r.pct(30));
                        let f = g.fault(x, 5);
                        if y {
                            let n = g.r.below(400) as u32;
                            g.push(Step::Full(n));
                        } else {
                            g.push(Step::Arm(f));
                        }
                        let k = g.r.range(1, 5);
                        let v = g.sess(k, 30, 30);
                        g.push(Step::Sess(v));
                    }
                    3 => {
                        crashed = true;
                        let cut = g.r.next();
                        g.push(Step::Crash { cut });
                    }
                    _ => {
                        let k = g.r.range(1, 5);
                        let v = g.sess(k, 30, 15);
                        g.push(Step::Sess(v));
                    }
                }
                if g.r.pct(10) {
                    let n = g.r.range(1, 3);
                    let v = g.sess(n, 30, 15);
                    g.push(Step::Other(v));
                }
                let k = g.r.below(3);
                for _ in 0..k {
                    let r = g.read(12);
                    g.push(Step::Read(r));
                }
                match g.r.below(4) {
                    0 => g.push(Step::Reopen),
                    1 => g.push(Step::Fresh),
                    2 => g.push(Step::Check),
                    _ => {}
                }
            }
        }
        "C08" => {
            if g.r.pct(20) {
                g.foreign_first();
            }
            let n = g.r.range(1, 3);
            g.hist(n, 5, 35, 35);
            let k = if g.scale != Scale::No { 2 } else if g.r.pct(12) { 300 } else { 10 };
            let base = g.r.next() >> 1;
            for i in 0..k {
                let cut = if k == 300 { base + i } else { g.r.next() };
                g.push(Step::Probe { cut, append: None });
            }
            if g.r.pct(40) {
                // Crashes in a file that has already lived through one.
                let cut = g.r.next();
                g.push(Step::Crash { cut });
                let k = g.r.range(1, 4);
                let v = g.sess(k, 35, 35);
                g.push(Step::Sess(v));
                for _ in 0..6 {
                    let cut = g.r.next();
                    g.push(Step::Probe { cut, append: None });
                }
            }
        }
        "C09" => {
            if g.r.pct(20) {
                g.foreign_first();
            }
            let rounds = g.r.range(1, 4);
            for _ in 0..rounds {
                let n = g.r.range(1, 2);
                g.hist(n, 4, 35, 25);
                let k = if g.scale != Scale::No { 1 } else if g.r.pct(6) { 150 } else { g.r.below(5) };
                let base = g.r.next() >> 1;
                for i in 0..k {
                    let cut = if k == 150 { base + i } else { g.r.next() };
                    let n = g.r.range(1, 3);
                    let a = g.sess(n, 30, 20);
                    g.push(Step::Probe { cut, append: Some(a) });
                }
                let cut = g.r.next();
                g.push(Step::Crash { cut });
                if g.r.pct(25) {
                    let mut v = g.sess(1, 30, 20);
                    g.stumble(&mut v);
                    g.push(Step::Sess(v));
                    if g.r.pct(50) {
                        g.push(Step::Check);
                    }
                }
                if g.r.pct(25) {
                    // Crashes following each other, also inside the repair the next writer makes.
                    let v = g.sess(1, 30, 20);
                    g.push(Step::Sess(v));
                    let cut = g.r.below(40);
                    g.push(Step::Crash { cut });
                }
            }
            let n = g.r.range(1, 3);
            let v = g.sess(n, 30, 20);
            g.push(Step::Sess(v));
            g.push(Step::Check);
            g.push(Step::Fresh);
        }
        "C10" if g.scale == Scale::No && g.r.pct(8) => {
            // A reader that meets the repair of a lead in, reading it in pieces.
            g.t.delivery.short = g.r.range(70, 95) as u8;
            if g.r.pct(30) {
                g.foreign_first();
            } else {
                g.hist(1, 2, 60, 0);
            }
            let cut = g.r.next();
            g.push(Step::Crash { cut });
            let n = g.r.below(2);
            let v = g.sess(n, 50, 0);
            g.push(Step::Sess(v));
            for _ in 0..12 {
                let still = g.r.below(12) as usize;
                let mut adv = vec![0; still];
                adv.extend((0..6).map(|_| if g.r.pct(40) { 0 } else { g.r.range(1, 14) as u32 }));
                let (at, again) = (g.r.below(29), g.r.below(2) as u8);
                g.push(Step::Live { at, adv, reads: 1, again });
            }
        }
        "C10" => {
            let pre = g.r.range(0, 2);
            let left = g.r.pct(12);
            if left {
                g.foreign_first();
            } else {
                g.hist(pre, 4, 35, 30);
            }
            let n = g.r.range(1, 2);
            g.hist(n, 5, 35, 30);
            let crash = g.r.pct(25) || left;
            if crash && g.r.pct(50) && left {
                g.t.delivery.short = g.r.range(60, 95) as u8;
            } else if crash {
                // The writer that is watched repairs what a crash has left.
                if g.r.pct(40) {
                    g.t.delivery.short = g.r.range(60, 95) as u8;
                }
                let cut = g.r.next();
                g.push(Step::Crash { cut });
                g.hist(1, 4, 35, 0);
            }
            let k = if g.scale != Scale::No { 2 } else { g.r.range(3, 10) };
            for _ in 0..k {
                let m = g.r.below(60);
                let repair = crash && g.r.pct(60);
                let scale = *g.r.pick(if repair { &[1u64, 2, 4, 8] } else { &[1u64, 4, 30, 200] });
                let mut adv: Vec<u32> = (0..m).map(|_| if g.r.pct(50) { 0 } else { g.r.below(scale * 2) as u32 }).collect();
                if repair && g.r.pct(60) {
                    // Nothing happens until the reader gets to the end.
                    let reach = *g.r.pick(&[8u64, 30, 100]);
                    let still = g.r.below(reach) as usize;
                    adv.splice(0..0, std::iter::repeat(0).take(still));
                }
                let (at, reads, again) = (if repair { g.r.below(40) } else { g.r.next() }, g.r.range(1, 2) as u8, g.r.below(4) as u8);
                g.push(Step::Live { at, adv, reads, again });
            }
        }
        "C11" => {
            if g.r.pct(60) {
                g.quiet();
            }
            let n = g.r.range(1, 3);
            for _ in 0..n {
                if g.r.pct(30) {
                    let f = g.foreign(false, true);
                    g.push(Step::Foreign(f));
                } else {
                    let k = g.r.range(1, 6);
                    let v = g.sess(k, 25, 5);
                    g.push(Step::Sess(v));
                }
                let k = g.r.range(2, 8);
                for _ in 0..k {
                    let op = *g.r.pick(&[IoOp::Read, IoOp::Read, IoOp::Seek]);
                    let reach = *g.r.pick(&[4u64, 12, 40]);
                    let f = g.fault(op, reach);
                    match g.r.below(10) {
                        0..=4 => {
                            if g.r.pct(20) {
                                let reach = *g.r.pick(&[2u64, 6, 30]);
                                let nth = g.r.below(reach) as u32;
                                let kind = g.r.below(3) as u8;
                                g.push(Step::ArmValue { nth, kind });
                            } else {
                                g.push(Step::Arm(f));
                            }
                            let r = g.read(20);
                            g.push(Step::Read(r));
                        }
                        5..=7 => {
                            g.push(Step::Arm(f));
                            g.push(Step::Reopen);
                        }
                        _ => {
                            g.push(Step::Arm(f));
                            let v = g.sess(1, 30, 0);
                            g.push(Step::Sess(v));
                        }
                    }
                }
                g.push(Step::Check);
            }
        }
        "C12" => {
            if g.r.pct(50) {
                g.quiet();
            }
            if g.r.pct(15) {
                g.foreign_first();
            }
            let n = g.r.range(1, 4);
            for _ in 0..n {
                if g.r.pct(50) {
                    let k = g.r.range(1, 4);
                    let v = g.sess(k, 30, 20);
                    g.push(Step::Sess(v));
                }
                if g.r.pct(12) && g.scale == Scale::No {
                    // A write of more than a buffer, of which nothing gets stored, tried again.
                    let mut w = g.write();
                    if let Op::W { n, .. } = &mut w {
                        *n = *g.r.pick(&[1050u32, 2100, 4200]);
                    }
                    let kind = *g.r.pick(&[FaultKind::Zero, FaultKind::Err(0), FaultKind::Err(3)]);
                    let mut v = vec![Op::Arm(Fault { op: IoOp::Write, nth: 0, count: 1000, kind }), w.clone()];
                    if g.r.pct(20) {
                        v.insert(0, Op::Sync);
                    }
                    g.push(Step::Sess(v));
                    g.push(Step::Sess(vec![w]));
                    continue;
                }
                let big = g.big;
                let k = g.r.range(1, 5);
                let mut v = g.sess(k, 30, 35);
                let at = g.r.usize(v.len() + 1);
                if g.r.pct(25) {
                    let n = g.r.below(if big { 9000 } else { 300 }) as u32;
                    v.insert(at, Op::Full(n));
                } else if g.r.pct(15) {
                    // The caller's own type fails.
                    let reach = *g.r.pick(&[2u64, 9, 60]);
                    let nth = g.r.below(reach) as u32;
                    let kind = g.r.below(3) as u8;
                    v.insert(at, Op::ArmValue { nth, kind });
                } else {
                    let op = *g.r.pick(&[IoOp::Write, IoOp::Write, IoOp::Write, IoOp::Flush]);
                    let reach = *g.r.pick(&[2u64, 5, 12]);
                    let f = g.fault(op, reach);
                    v.insert(at, Op::Arm(f));
                }
                if g.r.pct(40) {
                    let at = g.r.usize(v.len() + 1);
                    v.insert(at, Op::Disarm);
                }
                let mut again: Vec<Op> = v[at..].iter().filter(|o| matches!(o, Op::W { .. } | Op::P { .. } | Op::Sync)).cloned().collect();
                g.push(Step::Sess(v));
                if !again.is_empty() && g.r.pct(40) {
                    // The user tries what failed again.
                    if g.r.pct(50) {
                        again.truncate(1);
                    }
                    if g.r.pct(25) {
                        g.stumble(&mut again);
                    }
                    g.push(Step::Sess(again));
                } else if g.r.pct(50) {
                    let k = g.r.range(1, 3);
                    let mut v = g.sess(k, 30, 20);
                    if g.r.pct(25) {
                        g.stumble(&mut v);
                    }
                    g.push(Step::Sess(v));
                    if g.r.pct(50) {
                        g.push(Step::Check);
                    }
                }
                match g.r.below(4) {
                    0 => g.push(Step::Fresh),
                    1 | 2 => g.push(Step::Reopen),
                    _ => {}
                }
            }
            let k = g.r.range(1, 2);
            let v = g.sess(k, 30, 20);
            g.push(Step::Sess(v));
            g.push(Step::Check);
            g.push(Step::Fresh);
        }
        "C13" => {
            let n = g.r.range(1, 3);
            for _ in 0..n {
                if g.r.pct(15) {
                    let f = g.foreign(false, true);
                    g.push(Step::Foreign(f));
                }
                let k = g.r.range(1, 5);
                let v = g.sess(k, 25, 10);
                let mut w = vec![];
                for op in v {
                    while g.r.pct(40) {
                        let r = g.refused();
                        w.push(r);
                    }
                    w.push(op);
                }
                while g.r.pct(40) {
                    let r = g.refused();
                    w.push(r);
                }
                g.push(Step::Sess(w));
                if g.r.pct(40) {
                    g.push(Step::Reopen);
                }
                let k = g.r.below(4);
                for _ in 0..k {
                    let mut r = g.read(10);
                    if g.r.pct(60) {
                        r.ty = Some(*g.r.pick(&OWN));
                    }
                    g.push(Step::Read(r));
                }
                if g.r.pct(40) {
                    g.push(Step::Check);
                }
            }
            g.push(Step::Check);
            g.push(Step::Fresh);
        }
        "C14" | "C15" => {
            g.types = vec![*g.r.pick(&OWN), *g.r.pick(&OWN)];
            if g.r.pct(4) && prop == "C14" {
                let n = g.r.below(200);
                let mut b: Vec<u8> = (0..n).map(|_| g.r.next() as u8).collect();
                if g.r.pct(70) {
                    let mut h = b"TDSm".to_vec();
                    h.extend((g.r.next() as u32 & 0xEE).to_le_bytes());
                    h.extend(4713u32.to_le_bytes());
                    h.append(&mut b);
                    b = h;
                }
                g.push(Step::Corrupt(vec![Corrupt::Raw(b)]));
            } else {
                let n = g.r.range(1, 4);
                for _ in 0..n {
                    if g.r.pct(50) {
                        let f = g.foreign(true, true);
                        g.push(Step::Foreign(f));
                    } else {
                        let k = g.r.range(1, 4);
                        let v = g.sess(k, 40, 0);
                        g.push(Step::Sess(v));
                    }
                }
            }
            let limit = if prop == "C15" { *g.r.pick(&[8u64 << 20, 16 << 20, 64 << 20]) } else { 256 << 20 };
            g.push(Step::AllocLimit(limit));
            let rounds = if g.r.pct(50) { 1 } else { 3 };
            for _ in 0..rounds {
                let m = *g.r.pick(&[1u64, 1, 1, 2, 3, 8]);
                let cs = (0..m).map(|_| corruption(&mut g, prop == "C15")).collect();
                g.push(Step::Corrupt(cs));
                let (s, w) = (g.r.next() as u32, g.r.pct(50));
                if g.r.pct(15) {
                    let after = g.r.below(12) as u8;
                    let m = *g.r.pick(&[1u64, 1, 1, 3]);
                    let cs = (0..m).map(|_| corruption(&mut g, prop == "C15")).collect();
                    g.push(Step::Late { after, cs });
                }
                g.push(Step::Explore { s, write: w });
            }
        }
        "C20" => {
            let n = g.r.range(1, 3);
            for _ in 0..n {
                if g.r.pct(40) {
                    let k = g.r.range(1, 3);
                    let v = g.sess(k, 30, 0);
                    g.push(Step::Sess(v));
                }
                let k = g.r.range(1, 4);
                let segs: Vec<FSeg> = (0..k).map(|_| g.foreign(false, true)).collect();
                let how = segs.iter().map(|_| *g.r.pick(&[0u8, 1, 1, 2, 3])).collect();
                let at = g.r.next();
                let max = *g.r.pick(&[1u64, 3, 12, 40, 150, 1200]);
                let quiet = g.r.below(90);
                let adv = (0..g.r.range(1, 80)).map(|_| if g.r.pct(quiet) { 0 } else { 1 + g.r.below(max) as u32 }).collect();
                let (reads, again) = (g.r.range(1, 2) as u8, g.r.below(6) as u8);
                g.push(Step::LiveForeign { segs, how, at, adv, reads, again });
                if g.r.pct(30) {
                    g.push(Step::Check);
                }
            }
            if g.r.pct(30) {
                let v = g.sess(2, 30, 0);
                g.push(Step::Sess(v));
            }
            g.push(Step::Check);
        }
        "C19" => {
            let n = g.r.range(1, 4);
            for _ in 0..n {
                if g.r.pct(35) {
                    let k = g.r.range(1, 3);
                    for _ in 0..k {
                        let f = g.foreign(false, true);
                        g.push(Step::Foreign(f));
                    }
                } else {
                    let k = g.r.range(1, 6);
                    let v = g.sess(k, 20, 5);
                    g.push(Step::Sess(v));
                }
                let m = g.r.range(1, 3);
                for _ in 0..m {
                    let spread = *g.r.pick(&[6u64, 20, 60, if g.big { 1500 } else { 30 }]);
                    let k = g.r.range(2, 8);
                    let reads = (0..k).map(|_| g.read(spread)).collect();
                    let k = g.r.range(1, 3);
                    let bad = Bad {
                        blocks: (0..k).map(|_| g.r.below(64) as u16).collect(),
                        part: if g.r.pct(35) { Some((g.r.next() as u32, *g.r.pick(&[0u32, 7, 100, 4096]))) } else { None },
                        but: g.r.pct(35),
                        kind: g.r.below(8) as u8,
                        fresh: g.r.pct(60),
                        reads,
                        append: if g.r.pct(25) {
                            let k = g.r.range(1, 2);
                            g.sess(k, 30, 20)
                        } else {
                            vec![]
                        },
                    };
                    g.push(Step::Bad(bad));
                }
            }
            g.push(Step::Fresh);
        }
        "C16" => {
            g.push(Step::Create);
            let n = g.r.range(1, 5);
            for _ in 0..n {
                match g.r.below(12) {
                    0 => g.push(Step::LoadMissing),
                    1 => g.push(Step::Create),
                    2 => {
                        let f = g.foreign(false, true);
                        g.push(Step::Foreign(f));
                    }
                    3 => {
                        let op = *g.r.pick(&[IoOp::Read, IoOp::Seek, IoOp::Open]);
                        let f = g.fault(op, 10);
                        g.push(Step::Arm(f));
                        if g.r.pct(30) {
                            g.push(Step::Create);
                        } else {
                            g.push(Step::Reopen);
                        }
                    }
                    4 => {
                        let op = *g.r.pick(&[IoOp::Write, IoOp::Write, IoOp::Seek]);
                        let f = g.fault(op, 5);
                        g.push(Step::Arm(f));
                        let k = g.r.range(1, 4);
                        let v = g.sess(k, 30, 30);
                        g.push(Step::Sess(v));
                        g.push(Step::Reopen);
                    }
                    5 => {
                        let f = g.fault(IoOp::Read, 10);
                        g.push(Step::Arm(f));
                        let r = g.read(10);
                        g.push(Step::Read(r));
                    }
                    _ => {
                        let k = g.r.range(1, 5);
                        let v = g.sess(k, 30, 15);
                        g.push(Step::Sess(v));
                    }
                }
                if g.r.pct(8) {
                    let n = g.r.range(1, 3);
                    let v = g.sess(n, 30, 15);
                    g.push(Step::Other(v));
                }
                if g.r.pct(50) {
                    g.push(Step::Reopen);
                }
                if g.r.pct(30) {
                    let r = g.read(10);
                    g.push(Step::Read(r));
                }
                if g.r.pct(20) {
                    g.push(Step::Check);
                }
            }
            g.push(Step::Fresh);
        }
        _ => {}
    }
    if matches!(prop, "C01" | "C03" | "C05" | "C06" | "C07" | "C08" | "C09" | "C10" | "C11" | "C12" | "C13" | "C19" | "C20") && g.r.pct(20) {
        g.t.path = g.r.range(1, 2) as u8;
    }
    g.t
}

fn corruption(g: &mut G, huge: bool) -> Corrupt {
    let r = &mut g.r;
    let big = |r: &mut Rng| -> u64 {
        match r.below(10) {
            0 => u64::MAX,
            1 => u32::MAX as u64,
            2 => 0xFFFF_FFFE,
            3 => 0x7FFF_FFFF,
            4 => 1 << 63,
            5 => r.next() >> r.below(40),
            6 => 1 << r.range(20, 62),
            7 => (1 << 25) + r.below(1 << 30),
            8 => 0xFFFF_FFFF_0000_0000 | r.next() >> 32,
            _ => (r.next() as u32) as u64,
        }
    };
    if huge {
        let v = big(r);
        return match r.below(10) {
            0..=7 => Corrupt::Field(0, r.next() as u16, 0, v),
            _ => Corrupt::Put(r.next(), *r.pick(&[4u8, 8]), v),
        };
    }
    match r.below(20) {
        0..=2 => Corrupt::Flip(r.next(), 1 << r.below(8)),
        3 => Corrupt::Flip(r.next(), r.next() as u8),
        4 => {
            let v = big(r);
            Corrupt::Put(r.next(), *r.pick(&[1u8, 4, 8]), v)
        }
        5..=7 => {
            let v = big(r);
            Corrupt::Field(0, r.next() as u16, 0, v)
        }
        8..=10 => Corrupt::Field(0, r.next() as u16, 0, r.below(40)),
        11 => Corrupt::Field(0, r.next() as u16, 0, *r.pick(&[0x20u64, 0x69, 0x126, 0xFFFF_FFFF, 20, 28, 0, 0x1269, 0x1369, 0x44, 0x0b])),
        12 => Corrupt::Field(0, r.next() as u16, 1, r.next()),
        13 => Corrupt::Zero(r.next(), r.range(1, 64) as u32),
        14 | 15 => Corrupt::Truncate(r.next()),
        16 | 17 => Corrupt::Dup(r.next(), r.range(1, 300) as u32, r.next()),
        18 => {
            let n = r.range(1, 30);
            let b = (0..n).map(|_| r.next() as u8).collect();
            Corrupt::Insert(r.next(), b)
        }
        _ => {
            let n = r.range(1, 60);
            let mut b: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
            if r.pct(60) {
                let mut h = b"TDSm".to_vec();
                h.append(&mut b);
                b = h;
            }
            Corrupt::Append(b)
        }
    }
}
