//! Sample types as the simulator knows them, independent of the library's own tables.

use crate::rng::mix2;
use labview_interop::types::LVTime;
use serde::{Deserialize, Serialize};
use tedium::types::{Complex, ExtendedRaw};
use tedium::{PropertyValue, TdmsStorageType};

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Serialize, Deserialize)]
pub enum Ty {
    I8,
    I16,
    I32,
    I64,
    U8,
    U16,
    U32,
    U64,
    F32,
    F64,
    Ext,
    Bool,
    Time,
    C32,
    C64,
    /// Types with a unit: stored like the plain ones under another code; only other writers produce them.
    F32u,
    F64u,
    Extu,
    /// Variable length strings: only other writers produce them, and the library cannot read them.
    Str,
}

pub const OWN: [Ty; 15] = [
    Ty::I8,
    Ty::I16,
    Ty::I32,
    Ty::I64,
    Ty::U8,
    Ty::U16,
    Ty::U32,
    Ty::U64,
    Ty::F32,
    Ty::F64,
    Ty::Ext,
    Ty::Bool,
    Ty::Time,
    Ty::C32,
    Ty::C64,
];
pub const ALL: [Ty; 18] = [
    Ty::I8,
    Ty::I16,
    Ty::I32,
    Ty::I64,
    Ty::U8,
    Ty::U16,
    Ty::U32,
    Ty::U64,
    Ty::F32,
    Ty::F64,
    Ty::Ext,
    Ty::Bool,
    Ty::Time,
    Ty::C32,
    Ty::C64,
    Ty::F32u,
    Ty::F64u,
    Ty::Extu,
];

impl Ty {
    pub fn size(self) -> usize {
        match self {
            Ty::I8 | Ty::U8 | Ty::Bool => 1,
            Ty::I16 | Ty::U16 => 2,
            Ty::I32 | Ty::U32 | Ty::F32 | Ty::F32u => 4,
            Ty::I64 | Ty::U64 | Ty::F64 | Ty::F64u | Ty::C32 => 8,
            Ty::Ext | Ty::Extu => 10,
            Ty::Time | Ty::C64 => 16,
            Ty::Str => 0,
        }
    }
    /// Type code in the published format.
    pub fn code(self) -> u32 {
        match self {
            Ty::I8 => 1,
            Ty::I16 => 2,
            Ty::I32 => 3,
            Ty::I64 => 4,
            Ty::U8 => 5,
            Ty::U16 => 6,
            Ty::U32 => 7,
            Ty::U64 => 8,
            Ty::F32 => 9,
            Ty::F64 => 10,
            Ty::Ext => 11,
            Ty::F32u => 0x19,
            Ty::F64u => 0x1A,
            Ty::Extu => 0x1B,
            Ty::Bool => 0x21,
            Ty::Time => 0x44,
            Ty::C32 => 0x0008_000c,
            Ty::C64 => 0x0010_000d,
            Ty::Str => 0x20,
        }
    }
    pub fn from_code(code: u32) -> Option<Ty> {
        ALL.iter().copied().find(|t| t.code() == code)
    }
    /// The Rust-side type this one is read as.
    pub fn plain(self) -> Ty {
        match self {
            Ty::F32u => Ty::F32,
            Ty::F64u => Ty::F64,
            Ty::Extu => Ty::Ext,
            t => t,
        }
    }
    pub fn mask(self) -> u128 {
        if self.size() == 16 {
            u128::MAX
        } else {
            (1u128 << (self.size() * 8)) - 1
        }
    }
    /// Value number i of the sample stream `seed`.
    pub fn sample(self, seed: u64, i: u64) -> u128 {
        if self == Ty::Str {
            return 0;
        }
        // Some streams are constant, and some look like lead-ins.
        match mix2(seed, 0x57AE) % 32 {
            0 | 1 => return 0,
            2 => return if self == Ty::Bool { 1 } else { self.mask() },
            3 if self != Ty::Bool => {
                const LEAD_IN: &[u8; 28] = b"TDSm\x0e\0\0\0\x69\x12\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0";
                let z = self.size() as u64;
                let mut v = [0u8; 16];
                for j in 0..z {
                    v[j as usize] = LEAD_IN[(i.wrapping_mul(z).wrapping_add(j) % 28) as usize];
                }
                return u128::from_le_bytes(v);
            }
            _ => {}
        }
        let a = mix2(seed, i);
        if self == Ty::Bool {
            return (a & 1) as u128;
        }
        let b = mix2(a, 77);
        let v = ((b as u128) << 64 | a as u128) & self.mask();
        match a % 29 {
            0 => 0,
            1 => self.mask(),
            2 => 1,
            3 => 1 << (self.size() * 8 - 1),
            _ => v,
        }
    }
    /// Bytes of one value, each component of a complex number in the given byte order.
    pub fn encode(self, bits: u128, be: bool, out: &mut Vec<u8>) {
        let le = bits.to_le_bytes();
        let comps: &[(usize, usize)] = match self {
            Ty::C32 => &[(0, 4), (4, 8)],
            Ty::C64 => &[(0, 8), (8, 16)],
            t => match t.size() {
                1 => &[(0, 1)],
                2 => &[(0, 2)],
                4 => &[(0, 4)],
                8 => &[(0, 8)],
                10 => &[(0, 10)],
                _ => &[(0, 16)],
            },
        };
        for &(a, b) in comps {
            if be {
                out.extend(le[a..b].iter().rev());
            } else {
                out.extend_from_slice(&le[a..b]);
            }
        }
    }
    pub fn decode(self, bytes: &[u8], be: bool) -> u128 {
        let mut le = [0u8; 16];
        match self {
            Ty::C32 | Ty::C64 => {
                let h = self.size() / 2;
                for c in 0..2 {
                    for j in 0..h {
                        le[c * h + j] = if be { bytes[c * h + h - 1 - j] } else { bytes[c * h + j] };
                    }
                }
            }
            _ => {
                let n = self.size();
                for j in 0..n {
                    le[j] = if be { bytes[n - 1 - j] } else { bytes[j] };
                }
            }
        }
        let v = u128::from_le_bytes(le);
        if self == Ty::Bool {
            (v != 0) as u128
        } else {
            v
        }
    }
}

/// A sample type of the library, with conversion from and comparison to the simulator's bit patterns.
pub trait Samp: TdmsStorageType + Clone {
    fn from_bits(b: u128) -> Self;
    fn same(&self, b: u128) -> bool;
    fn show(&self) -> String;
}

macro_rules! int {
    ($($t:ty),*) => {$(
        impl Samp for $t {
            fn from_bits(b: u128) -> Self { b as $t }
            fn same(&self, b: u128) -> bool { *self == b as $t }
            fn show(&self) -> String { format!("{self}") }
        }
    )*};
}
int!(i8, i16, i32, i64, u8, u16, u32, u64);

impl Samp for f32 {
    fn from_bits(b: u128) -> Self {
        f32::from_bits(b as u32)
    }
    fn same(&self, b: u128) -> bool {
        self.to_bits() == b as u32
    }
    fn show(&self) -> String {
        format!("{self:?}#{:x}", self.to_bits())
    }
}
impl Samp for f64 {
    fn from_bits(b: u128) -> Self {
        f64::from_bits(b as u64)
    }
    fn same(&self, b: u128) -> bool {
        self.to_bits() == b as u64
    }
    fn show(&self) -> String {
        format!("{self:?}#{:x}", self.to_bits())
    }
}
impl Samp for bool {
    fn from_bits(b: u128) -> Self {
        b != 0
    }
    fn same(&self, b: u128) -> bool {
        *self == (b != 0)
    }
    fn show(&self) -> String {
        format!("{self}")
    }
}
impl Samp for ExtendedRaw {
    fn from_bits(b: u128) -> Self {
        ExtendedRaw::new(b)
    }
    fn same(&self, b: u128) -> bool {
        *self == ExtendedRaw::new(b)
    }
    fn show(&self) -> String {
        format!("{self:?}")
    }
}
impl Samp for LVTime {
    fn from_bits(b: u128) -> Self {
        LVTime::from_parts((b >> 64) as u64 as i64, b as u64)
    }
    fn same(&self, b: u128) -> bool {
        self.to_parts() == ((b >> 64) as u64 as i64, b as u64)
    }
    fn show(&self) -> String {
        format!("{:?}", self.to_parts())
    }
}
impl Samp for Complex<f32> {
    fn from_bits(b: u128) -> Self {
        Complex::new(f32::from_bits(b as u32), f32::from_bits((b >> 32) as u32))
    }
    fn same(&self, b: u128) -> bool {
        self.real.to_bits() == b as u32 && self.imaginary.to_bits() == (b >> 32) as u32
    }
    fn show(&self) -> String {
        format!("{self:?}")
    }
}
impl Samp for Complex<f64> {
    fn from_bits(b: u128) -> Self {
        Complex::new(f64::from_bits(b as u64), f64::from_bits((b >> 64) as u64))
    }
    fn same(&self, b: u128) -> bool {
        self.real.to_bits() == b as u64 && self.imaginary.to_bits() == (b >> 64) as u64
    }
    fn show(&self) -> String {
        format!("{self:?}")
    }
}

/// A sample type as a caller may define one: larger in memory than in the file, and able to fail by itself.
#[derive(Clone)]
pub struct Mine<T> {
    _memo: [u8; 3],
    v: T,
}

thread_local! {
    /// (calls until the failure, kind, failures so far)
    static VALUE_FAULT: std::cell::Cell<(u64, u8, u64)> = const { std::cell::Cell::new((u64::MAX, 0, 0)) };
}

/// After `nth` more conversions one fails. kind 0: at once, 1: after half of the value, 2: after all of it.
pub fn arm_value(nth: u64, kind: u8) {
    VALUE_FAULT.with(|c| c.set((nth, kind, c.get().2)));
}
pub fn value_faults() -> u64 {
    VALUE_FAULT.with(|c| c.get().2)
}
fn value_due() -> Option<u8> {
    VALUE_FAULT.with(|c| {
        let (n, k, f) = c.get();
        match n {
            u64::MAX => None,
            0 => {
                c.set((u64::MAX, k, f + 1));
                Some(k)
            }
            n => {
                c.set((n - 1, k, f));
                None
            }
        }
    })
}
fn value_error() -> tedium::TdmsError {
    std::io::Error::other("the caller's conversion fails").into()
}

impl<T: Samp> Mine<T> {
    fn get<R: std::io::Read>(reader: &mut R, f: impl FnOnce(&mut R) -> Result<T, tedium::TdmsError>) -> Result<Self, tedium::TdmsError> {
        match value_due() {
            None => Ok(Mine { _memo: [0; 3], v: f(reader)? }),
            Some(0) => Err(value_error()),
            Some(1) => {
                let mut half = vec![0; T::SIZE_BYTES / 2];
                reader.read_exact(&mut half)?;
                Err(value_error())
            }
            Some(_) => {
                f(reader)?;
                Err(value_error())
            }
        }
    }
    fn put<W: std::io::Write>(&self, w: &mut W, f: impl FnOnce(&T, &mut Vec<u8>) -> Result<(), tedium::TdmsError>) -> Result<(), tedium::TdmsError> {
        let mut bytes = vec![];
        f(&self.v, &mut bytes)?;
        match value_due() {
            None => w.write_all(&bytes)?,
            Some(0) => return Err(value_error()),
            Some(k) => {
                let n = if k == 1 { bytes.len() / 2 } else { bytes.len() };
                w.write_all(&bytes[..n])?;
                return Err(value_error());
            }
        }
        Ok(())
    }
}
impl<T: Samp> TdmsStorageType for Mine<T> {
    const SUPPORTED_TYPES: &'static [tedium::DataType] = T::SUPPORTED_TYPES;
    const NATURAL_TYPE: tedium::DataType = T::NATURAL_TYPE;
    const SIZE_BYTES: usize = T::SIZE_BYTES;
    fn read_le(reader: &mut impl std::io::Read) -> Result<Self, tedium::TdmsError> {
        Self::get(reader, |r| T::read_le(r))
    }
    fn read_be(reader: &mut impl std::io::Read) -> Result<Self, tedium::TdmsError> {
        Self::get(reader, |r| T::read_be(r))
    }
    fn write_le(&self, writer: &mut impl std::io::Write) -> Result<(), tedium::TdmsError> {
        self.put(writer, |v, b| v.write_le(b))
    }
    fn write_be(&self, writer: &mut impl std::io::Write) -> Result<(), tedium::TdmsError> {
        self.put(writer, |v, b| v.write_be(b))
    }
    fn size(&self) -> usize {
        self.v.size()
    }
}
impl<T: Samp> Samp for Mine<T> {
    fn from_bits(b: u128) -> Self {
        Mine { _memo: [0; 3], v: T::from_bits(b) }
    }
    fn same(&self, b: u128) -> bool {
        self.v.same(b)
    }
    fn show(&self) -> String {
        self.v.show()
    }
}

/// Run `$body` with `$T` bound to the Rust type for `$ty`.
#[macro_export]
macro_rules! with_ty {
    ($ty:expr, $T:ident, $body:expr) => {
        match $ty.plain() {
            $crate::ty::Ty::I8 => { type $T = i8; $body }
            $crate::ty::Ty::I16 => { type $T = i16; $body }
            $crate::ty::Ty::I32 => { type $T = i32; $body }
            $crate::ty::Ty::I64 => { type $T = i64; $body }
            $crate::ty::Ty::U8 => { type $T = u8; $body }
            $crate::ty::Ty::U16 => { type $T = u16; $body }
            $crate::ty::Ty::U32 => { type $T = u32; $body }
            $crate::ty::Ty::U64 => { type $T = u64; $body }
            $crate::ty::Ty::F32 => { type $T = f32; $body }
            $crate::ty::Ty::F64 => { type $T = f64; $body }
            $crate::ty::Ty::Ext => { type $T = tedium::types::ExtendedRaw; $body }
            $crate::ty::Ty::Bool => { type $T = bool; $body }
            $crate::ty::Ty::Time => { type $T = labview_interop::types::LVTime; $body }
            $crate::ty::Ty::C32 => { type $T = tedium::types::Complex<f32>; $body }
            _ => { type $T = tedium::types::Complex<f64>; $body }
        }
    };
}

/// A property value.
#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
pub enum Pv {
    Void,
    /// Type and bit pattern (as hex, u128 does not fit in JSON numbers).
    Num(Ty, Hex),
    Str(String),
    /// A string given by length and seed, for large values.
    Long(u32, u64),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Hex(pub u128);
impl Serialize for Hex {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&format!("{:x}", self.0))
    }
}
impl<'de> Deserialize<'de> for Hex {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        u128::from_str_radix(&s, 16).map(Hex).map_err(serde::de::Error::custom)
    }
}

pub fn long_string(n: u32, seed: u64) -> String {
    (0..n as u64).map(|i| char::from(b'a' + (mix2(seed, i) % 26) as u8)).collect()
}

impl Pv {
    /// The form compared: long strings written out, types with unit reduced to the plain ones.
    pub fn norm(&self) -> Pv {
        match self {
            Pv::Long(n, s) => Pv::Str(long_string(*n, *s)),
            Pv::Num(t, b) => Pv::Num(
                t.plain(),
                Hex(if t.plain() == Ty::Bool { (b.0 & t.mask() != 0) as u128 } else { b.0 & t.mask() }),
            ),
            p => p.clone(),
        }
    }
    /// As a caller would make it: by conversion from the plain value where there is one.
    pub fn converted(&self) -> PropertyValue {
        match self.norm() {
            Pv::Str(s) if s.len() % 2 == 0 => PropertyValue::from(s.as_str()),
            Pv::Str(s) => PropertyValue::from(s),
            Pv::Num(Ty::I8, Hex(b)) => PropertyValue::from(b as i8),
            Pv::Num(Ty::I16, Hex(b)) => PropertyValue::from(b as i16),
            Pv::Num(Ty::I32, Hex(b)) => PropertyValue::from(b as i32),
            Pv::Num(Ty::I64, Hex(b)) => PropertyValue::from(b as i64),
            Pv::Num(Ty::U8, Hex(b)) => PropertyValue::from(b as u8),
            Pv::Num(Ty::U16, Hex(b)) => PropertyValue::from(b as u16),
            Pv::Num(Ty::U32, Hex(b)) => PropertyValue::from(b as u32),
            Pv::Num(Ty::U64, Hex(b)) => PropertyValue::from(b as u64),
            Pv::Num(Ty::F32, Hex(b)) => PropertyValue::from(<f32 as Samp>::from_bits(b)),
            Pv::Num(Ty::F64, Hex(b)) => PropertyValue::from(<f64 as Samp>::from_bits(b)),
            Pv::Num(Ty::Bool, Hex(b)) => PropertyValue::from(b != 0),
            Pv::Num(Ty::Time, Hex(b)) => PropertyValue::from(<LVTime as Samp>::from_bits(b)),
            Pv::Num(Ty::C32, Hex(b)) => PropertyValue::from(<Complex<f32> as Samp>::from_bits(b)),
            Pv::Num(Ty::C64, Hex(b)) => PropertyValue::from(<Complex<f64> as Samp>::from_bits(b)),
            _ => self.to_lib(),
        }
    }
    /// The value as a caller gets it out: the conversion to its own type gives it, that to any other is refused.
    /// self must be normalised.
    pub fn converts(&self, v: &PropertyValue) -> Result<(), String> {
        macro_rules! num {
            ($($ty:path => $t:ty),*) => {$(
                let want = match self { Pv::Num($ty, Hex(b)) => Some(*b), _ => None };
                let (by_ref, by_val) = (<$t>::try_from(v), <$t>::try_from(v.clone()));
                for got in [by_ref, by_val] {
                    match (want, got) {
                        (Some(b), Ok(x)) if x.same(b) => {}
                        (None, Err(e)) => { let _ = e.to_string(); }
                        (w, x) => return Err(format!("{v:?} converted to {} gives {:?} (expected {})", stringify!($t), x.map(|x| x.show()), w.is_some())),
                    }
                }
            )*};
        }
        num!(Ty::I8 => i8, Ty::I16 => i16, Ty::I32 => i32, Ty::I64 => i64, Ty::U8 => u8, Ty::U16 => u16, Ty::U32 => u32, Ty::U64 => u64,
             Ty::F32 => f32, Ty::F64 => f64, Ty::Bool => bool, Ty::Time => LVTime, Ty::C32 => Complex<f32>, Ty::C64 => Complex<f64>);
        let want = match self {
            Pv::Str(s) => Some(s.as_str()),
            _ => None,
        };
        let r = <&str>::try_from(v);
        let s = String::try_from(v.clone());
        if r.as_ref().ok().copied() != want || s.as_ref().ok().map(|s| s.as_str()) != want {
            return Err(format!("{v:?} converted to a string gives {r:?} and {s:?}"));
        }
        // Calendar time, to within the microsecond the conversion works with, where both forms can hold the instant.
        use chrono::{DateTime, Utc};
        let inst = match self {
            Pv::Num(Ty::Time, Hex(b)) => {
                let (s, f) = <LVTime as Samp>::from_bits(*b).to_parts();
                if !(0..1 << 33).contains(&s) {
                    return Ok(());
                }
                Some((s as i128 - 2_082_844_800) * 1_000_000_000 + (f as i128 * 1_000_000_000 >> 64))
            }
            _ => None,
        };
        for got in [DateTime::<Utc>::try_from(v), DateTime::<Utc>::try_from(v.clone())] {
            match (inst, got) {
                (Some(n), Ok(d)) => {
                    let m = d.timestamp() as i128 * 1_000_000_000 + d.timestamp_subsec_nanos() as i128;
                    let b = match PropertyValue::from(d) {
                        PropertyValue::Timestamp(b) => b.to_parts(),
                        x => return Err(format!("{d:?} as a property is {x:?}")),
                    };
                    let k = (b.0 as i128 - 2_082_844_800) * 1_000_000_000 + (b.1 as i128 * 1_000_000_000 >> 64);
                    if (m - n).abs() > 2000 || (k - m).abs() > 2000 {
                        return Err(format!("{v:?} converted to calendar time is {d:?} and back {b:?}"));
                    }
                }
                (None, Err(e)) => { let _ = e.to_string(); }
                (_, x) => return Err(format!("{v:?} converted to calendar time gives {x:?}")),
            }
        }
        Ok(())
    }
    pub fn to_lib(&self) -> PropertyValue {
        match self.norm() {
            Pv::Void => PropertyValue::Void,
            Pv::Str(s) => PropertyValue::String(s),
            Pv::Long(..) => unreachable!(),
            Pv::Num(t, Hex(b)) => match t {
                Ty::I8 => PropertyValue::I8(b as i8),
                Ty::I16 => PropertyValue::I16(b as i16),
                Ty::I32 => PropertyValue::I32(b as i32),
                Ty::I64 => PropertyValue::I64(b as i64),
                Ty::U8 => PropertyValue::U8(b as u8),
                Ty::U16 => PropertyValue::U16(b as u16),
                Ty::U32 => PropertyValue::U32(b as u32),
                Ty::U64 => PropertyValue::U64(b as u64),
                Ty::F32 => PropertyValue::SingleFloat(Samp::from_bits(b)),
                Ty::F64 => PropertyValue::DoubleFloat(Samp::from_bits(b)),
                Ty::Ext => PropertyValue::Extended(Samp::from_bits(b)),
                Ty::Bool => PropertyValue::Boolean(b != 0),
                Ty::Time => PropertyValue::Timestamp(Samp::from_bits(b)),
                Ty::C32 => PropertyValue::ComplexSingleFloat(Samp::from_bits(b)),
                Ty::C64 => PropertyValue::ComplexDoubleFloat(Samp::from_bits(b)),
                _ => unreachable!(),
            },
        }
    }
    /// self must be normalised.
    pub fn same(&self, v: &PropertyValue) -> bool {
        match (self, v) {
            (Pv::Void, PropertyValue::Void) => true,
            (Pv::Str(a), PropertyValue::String(b)) => a == b,
            (Pv::Num(Ty::I8, Hex(b)), PropertyValue::I8(x)) => x.same(*b),
            (Pv::Num(Ty::I16, Hex(b)), PropertyValue::I16(x)) => x.same(*b),
            (Pv::Num(Ty::I32, Hex(b)), PropertyValue::I32(x)) => x.same(*b),
            (Pv::Num(Ty::I64, Hex(b)), PropertyValue::I64(x)) => x.same(*b),
            (Pv::Num(Ty::U8, Hex(b)), PropertyValue::U8(x)) => x.same(*b),
            (Pv::Num(Ty::U16, Hex(b)), PropertyValue::U16(x)) => x.same(*b),
            (Pv::Num(Ty::U32, Hex(b)), PropertyValue::U32(x)) => x.same(*b),
            (Pv::Num(Ty::U64, Hex(b)), PropertyValue::U64(x)) => x.same(*b),
            (Pv::Num(Ty::F32, Hex(b)), PropertyValue::SingleFloat(x)) => x.same(*b),
            (Pv::Num(Ty::F64, Hex(b)), PropertyValue::DoubleFloat(x)) => x.same(*b),
            (Pv::Num(Ty::Ext, Hex(b)), PropertyValue::Extended(x)) => x.same(*b),
            (Pv::Num(Ty::Bool, Hex(b)), PropertyValue::Boolean(x)) => x.same(*b),
            (Pv::Num(Ty::Time, Hex(b)), PropertyValue::Timestamp(x)) => x.same(*b),
            (Pv::Num(Ty::C32, Hex(b)), PropertyValue::ComplexSingleFloat(x)) => x.same(*b),
            (Pv::Num(Ty::C64, Hex(b)), PropertyValue::ComplexDoubleFloat(x)) => x.same(*b),
            _ => false,
        }
    }
}
