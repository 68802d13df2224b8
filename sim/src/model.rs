//! Simulated meters: telegrams as data, how a meter encodes them, and what a
//! correct receiver must report for them.

use crate::acc::with_crc;
use crate::crypto;
use crate::tables::{self, Unit, Vi};
use crate::util::{upper, Hex};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

// ------------------------------------------------------------------- records

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Base {
    P(u8),
    FD(u8),
    FDFD(u8),
    FB(u8),
    /// Unit given as plain text.
    Text(Hex),
    /// Manufacturer specific VIF (7E or 7F).
    Mfr(u8),
    /// Not a record with a value but a global readout request (DIF 7F).
    Global,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Val {
    None,
    Readout,
    Int(Hex),
    F32(u32),
    Bcd(Hex),
    Text(Hex),
    PosBcd(Hex),
    NegBcd(Hex),
    VInt(Hex),
    VLong(Hex),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Rec {
    /// Bytes to skip in front: low nibble count, high nibble which one
    /// (0 idle filler, otherwise a reserved special function).
    pub fill: u8,
    pub func: u8,
    pub storage: u64,
    pub tariff: u32,
    pub sub: u32,
    /// Superfluous (all zero) DIFEs.
    pub xdife: u8,
    pub base: Base,
    /// 0x00..=0x7F orthogonal, 0x100.. with FC prefix.
    pub vifes: Vec<u16>,
    pub val: Val,
}

/// Meters send the plain text unit before the extensions of its code.
pub const TEXT_FIRST: bool = cfg!(feature = "textfirst");

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Tail {
    None,
    Mfr(Hex),
    More(Hex),
}

#[derive(Clone, Debug, PartialEq)]
pub enum EVal {
    Dec(String),
    Float(f64),
    Special(&'static str),
    Text(String),
    Date(Value),
    DateTime(Value),
    Mfr,
    None,
}

/// What the receiver must report for one record.
#[derive(Clone, Debug)]
pub struct Exp {
    pub function: &'static str,
    pub storage: u64,
    pub tariff: u64,
    pub sub: u64,
    pub quantities: Vec<String>,
    pub unit: Option<String>,
    pub val: EVal,
    pub coding: &'static str,
    pub header: Vec<u8>,
    pub data: Vec<u8>,
    /// Floating point comparison scale (largest summand).
    pub mag: f64,
}

fn dig(b: u8) -> u8 {
    let (h, l) = (b >> 4, b & 15);
    (if h > 9 { h - 6 } else { h }) << 4 | (if l > 9 { l - 6 } else { l })
}

fn fit(v: &[u8], allowed: &[usize]) -> Vec<u8> {
    let n = allowed
        .iter()
        .copied()
        .filter(|a| *a <= v.len())
        .max()
        .unwrap_or(allowed[0]);
    let mut o = v.to_vec();
    o.resize(n, 0);
    o
}

impl Rec {
    pub fn true_vif(&self) -> Option<&'static Vi> {
        match &self.base {
            Base::P(c) => tables::PRIMARY[usize::from(c & 0x7F)].as_ref(),
            Base::FD(c) => tables::FD[usize::from(c & 0x7F)].as_ref(),
            Base::FDFD(c) => tables::FDFD[usize::from(c & 0x7F)].as_ref(),
            Base::FB(c) => tables::FB[usize::from(c & 0x7F)].as_ref(),
            _ => None,
        }
    }

    /// The extension chain after removing what this model does not cover.
    pub fn chain(&self) -> Vec<u16> {
        let mut out = Vec::new();
        if let Base::Mfr(_) = self.base {
            return self.vifes.iter().map(|v| v & 0x7F).take(8).collect();
        }
        let (mut labels, mut units) = self
            .true_vif()
            .map_or((1, 0), |v| (v.labels.len(), v.units.len()));
        // At most ten extension bytes follow the first one.
        let mut bytes = match self.base {
            Base::FD(_) | Base::FB(_) => 1,
            Base::FDFD(_) => 2,
            _ => 0,
        };
        let mut additive = false;
        for &v in &self.vifes {
            let fc = v & 0x100 != 0;
            let c = usize::from(v & 0x7F);
            let t = if fc { &tables::FC[c] } else { &tables::VIFE[c] };
            let Some(t) = t else { continue };
            let reserved = t.labels.first().is_some_and(|l| l.starts_with("Reserved"));
            let corr = (0x78..=0x7B).contains(&c);
            if reserved || (fc && corr) || (corr && additive) {
                continue;
            }
            if labels + t.labels.len() > 8
                || units + t.units.len() > 8
                || bytes + usize::from(fc) + 1 > 10
            {
                break;
            }
            additive |= corr;
            labels += t.labels.len();
            units += t.units.len();
            bytes += if fc { 2 } else { 1 };
            out.push(v & 0x17F);
            if !fc && c == 0x7F {
                break;
            }
        }
        if matches!(self.base, Base::Text(_)) && out.is_empty() && !TEXT_FIRST {
            // The plain text unit is only reachable with an extension.
            out.push(0x74 & 0x7F);
        }
        out
    }

    fn dib(&self, nibble: u8) -> Vec<u8> {
        let storage = self.storage & ((1 << 41) - 1);
        let tariff = u64::from(self.tariff) & ((1 << 20) - 1);
        let sub = u64::from(self.sub) & ((1 << 10) - 1);
        let mut v = vec![nibble | (self.func & 3) << 4 | ((storage & 1) as u8) << 6];
        let mut ext = Vec::new();
        for i in 0..10 {
            let s = (storage >> 1 >> (4 * i)) & 15;
            let t = (tariff >> (2 * i)) & 3;
            let u = (sub >> i) & 1;
            ext.push((s | t << 4 | u << 6) as u8);
        }
        let need = ext.iter().rposition(|x| *x != 0).map_or(0, |p| p + 1);
        ext.truncate((need + usize::from(self.xdife)).min(10));
        v.extend(ext);
        chain_bits(&mut v);
        v
    }

    fn vib(&self) -> Vec<u8> {
        let mut v = match &self.base {
            Base::P(c) => vec![*c & 0x7F],
            Base::FD(c) => vec![0x7D, *c & 0x7F],
            Base::FDFD(c) => vec![0x7D, 0x7D, *c & 0x7F],
            Base::FB(c) => vec![0x7B, *c & 0x7F],
            Base::Text(_) => vec![0x7C],
            Base::Mfr(c) => vec![0x7E | (*c & 1)],
            Base::Global => vec![],
        };
        for c in self.chain() {
            if c & 0x100 != 0 {
                v.push(0x7C);
            }
            v.push((c & 0x7F) as u8);
        }
        chain_bits(&mut v);
        if let Base::Text(t) = &self.base {
            let text = t.0.iter().take(9).map(|b| match b {
                0xA0..=0xFF => *b,
                b => 0x20 + b % 0x5F,
            });
            let mut text: Vec<u8> = text.rev().collect();
            text.insert(0, text.len() as u8);
            let at = if TEXT_FIRST { 1 } else { v.len() };
            v.splice(at..at, text);
        }
        v
    }

    /// (data field nibble, data bytes). `msb` = meter sends high byte first.
    fn dat(&self, msb: bool) -> (u8, Vec<u8>) {
        match &self.val {
            Val::None => (0, vec![]),
            Val::Readout => (8, vec![]),
            Val::Int(h) => {
                let d = fit(&h.0, &[1, 2, 3, 4, 6, 8]);
                (
                    match d.len() {
                        1 => 1,
                        2 => 2,
                        3 => 3,
                        4 => 4,
                        6 => 6,
                        _ => 7,
                    },
                    d,
                )
            }
            Val::F32(b) => (5, b.to_le_bytes().to_vec()),
            Val::Bcd(h) => {
                let mut d: Vec<u8> = fit(&h.0, &[1, 2, 3, 4, 6]).into_iter().map(dig).collect();
                let n = match d.len() {
                    1 => 9,
                    2 => 10,
                    3 => 11,
                    4 => 12,
                    _ => 14,
                };
                if msb {
                    d.reverse();
                }
                (n, d)
            }
            Val::Text(t) => {
                let t = &t.0[..t.0.len().min(0xBF)];
                let mut d = vec![t.len() as u8];
                d.extend(t.iter().rev());
                (13, d)
            }
            Val::PosBcd(h) | Val::NegBcd(h) => {
                let t: Vec<u8> = h.0.iter().take(9).copied().map(dig).collect();
                let m = if matches!(self.val, Val::PosBcd(_)) {
                    0xC0
                } else {
                    0xD0
                };
                let mut d = vec![m + t.len() as u8];
                d.extend(t);
                (13, d)
            }
            Val::VInt(h) => {
                let mut t: Vec<u8> = h.0.iter().take(15).copied().collect();
                if t.is_empty() {
                    t.push(0);
                }
                let mut d = vec![0xE0 + t.len() as u8];
                d.extend(t);
                (13, d)
            }
            Val::VLong(h) => {
                let t = fit(&h.0, &[16, 20, 24, 28, 32, 48, 64]);
                let m = match t.len() {
                    48 => 0xF5,
                    64 => 0xF6,
                    n => 0xEC + (n / 4) as u8,
                };
                let mut d = vec![m];
                d.extend(t);
                (13, d)
            }
        }
    }

    pub fn skipped(&self) -> Vec<u8> {
        let b = [0x2F, 0x3F, 0x4F, 0x5F, 0x6F][usize::from(self.fill >> 4) % 5];
        vec![b; usize::from(self.fill & 15)]
    }

    pub fn encode(&self, msb: bool) -> (Vec<u8>, Vec<u8>) {
        if self.base == Base::Global {
            return (vec![0x7F], vec![]);
        }
        let (nib, data) = self.dat(msb);
        let mut h = self.dib(nib);
        h.extend(self.vib());
        (h, data)
    }

    pub fn is_date(&self) -> bool {
        let n = match &self.val {
            Val::Int(h) => fit(&h.0, &[1, 2, 3, 4, 6, 8]).len(),
            _ => return false,
        };
        matches!(
            (&self.base, n),
            (Base::P(0x6C), 2) | (Base::P(0x6D), 4) | (Base::P(0x6D), 6)
        )
    }

    pub fn expect(&self, msb: bool) -> Exp {
        let (header, data) = self.encode(msb);
        if self.base == Base::Global {
            return Exp {
                function: "Global readout request",
                storage: 1,
                tariff: 0,
                sub: 0,
                quantities: vec![],
                unit: None,
                val: EVal::None,
                coding: "Global readout request",
                header,
                data,
                mag: 0.0,
            };
        }
        let mut quantities: Vec<String> = Vec::new();
        let mut units: Vec<Unit> = Vec::new();
        let mut scale = 0;
        let mut offset = None;
        match &self.base {
            Base::Mfr(_) => quantities.push("Manufacturer specific".into()),
            Base::Text(_) => quantities.push("Plain text".into()),
            _ => {
                if let Some(v) = self.true_vif() {
                    quantities.extend(v.labels.iter().map(|s| s.to_string()));
                    units.extend(v.units);
                    scale += v.scale;
                }
            }
        }
        if !matches!(self.base, Base::Mfr(_)) {
            for c in self.chain() {
                let t = if c & 0x100 != 0 {
                    &tables::FC[usize::from(c & 0x7F)]
                } else {
                    if (0x78..=0x7B).contains(&c) {
                        offset = Some(i32::from(c & 3) - 3);
                    }
                    &tables::VIFE[usize::from(c)]
                };
                let t = t.as_ref().unwrap();
                quantities.extend(t.labels.iter().map(|s| s.to_string()));
                units.extend(t.units);
                scale += t.scale;
            }
        }
        let mut coding = match &self.val {
            Val::None => "No data",
            Val::Readout => "Selection for readout",
            Val::Int(_) => match data.len() {
                1 => "8-bit integer",
                2 => "16-bit integer",
                3 => "24-bit integer",
                4 => "32-bit integer",
                6 => "48-bit integer",
                _ => "64-bit integer",
            },
            Val::F32(_) => "32-bit real",
            Val::Bcd(_) => match data.len() {
                1 => "2-digit BCD",
                2 => "4-digit BCD",
                3 => "6-digit BCD",
                4 => "8-digit BCD",
                _ => "12-digit BCD",
            },
            _ => "Variable length",
        };
        let mut mag = 0.0;
        let le = |d: &[u8]| Dec::from_le(d).shift(scale, offset);
        let val = match &self.val {
            Val::None | Val::Readout => EVal::None,
            Val::Int(_) if self.is_date() => {
                coding = match data.len() {
                    2 => "Date (type G)",
                    4 => "Date and time (type F)",
                    _ => "Date and time (type I)",
                };
                let v = calendar(&data);
                if data.len() == 2 {
                    EVal::Date(v)
                } else {
                    EVal::DateTime(v)
                }
            }
            Val::Int(_) => EVal::Dec(le(&data)),
            Val::F32(b) => {
                let f = f64::from(f32::from_bits(*b));
                if f.is_nan() {
                    EVal::Special("nan")
                } else if f.is_infinite() {
                    EVal::Special(if f > 0.0 {
                        "positive_infinity"
                    } else {
                        "negative_infinity"
                    })
                } else {
                    let mut x = if scale >= 0 {
                        f * 10f64.powi(scale)
                    } else {
                        f / 10f64.powi(-scale)
                    };
                    mag = x.abs();
                    if let Some(o) = offset {
                        let y = 10f64.powi(o);
                        mag = mag.max(y);
                        x += y;
                    }
                    EVal::Float(x)
                }
            }
            Val::Bcd(_) => {
                let d: Vec<u8> = if msb {
                    data.clone()
                } else {
                    data.iter().rev().copied().collect()
                };
                EVal::Dec(Dec::from_bcd(&d, false).shift(scale, offset))
            }
            Val::Text(_) => {
                let t: Vec<u8> = data[1..].iter().rev().copied().collect();
                EVal::Text(match String::from_utf8(t.clone()) {
                    Ok(s) => s,
                    Err(_) => t.iter().map(|b| char::from(*b)).collect(),
                })
            }
            Val::PosBcd(_) | Val::NegBcd(_) => {
                let d: Vec<u8> = data[1..].iter().rev().copied().collect();
                EVal::Dec(
                    Dec::from_bcd(&d, matches!(self.val, Val::NegBcd(_))).shift(scale, offset),
                )
            }
            Val::VInt(_) | Val::VLong(_) => EVal::Dec(le(&data[1..])),
        };
        Exp {
            function: [
                "Instantaneous value",
                "Maximum value",
                "Minimum value",
                "Value during error state",
            ][usize::from(self.func & 3)],
            storage: self.storage & ((1 << 41) - 1),
            tariff: u64::from(self.tariff) & ((1 << 20) - 1),
            sub: u64::from(self.sub) & ((1 << 10) - 1),
            quantities,
            unit: unit_text(&units),
            val,
            coding,
            header,
            data,
            mag,
        }
    }
}

fn chain_bits(v: &mut [u8]) {
    let n = v.len();
    for (i, b) in v.iter_mut().enumerate() {
        if i + 1 < n {
            *b |= 0x80;
        }
    }
}

fn unit_text(units: &[Unit]) -> Option<String> {
    if units.is_empty() {
        return None;
    }
    if units.iter().all(|u| !u.1.is_empty()) {
        return Some(
            units
                .iter()
                .map(|u| {
                    if u.2 == 1 {
                        u.1.to_string()
                    } else {
                        format!("{}{}", u.1, u.2)
                    }
                })
                .collect::<Vec<_>>()
                .join("."),
        );
    }
    const SUP: [char; 10] = ['⁰', '¹', '²', '³', '⁴', '⁵', '⁶', '⁷', '⁸', '⁹'];
    Some(
        units
            .iter()
            .map(|u| {
                let mut s = u.0.to_string();
                if u.2 != 1 {
                    if u.2 < 0 {
                        s.push('⁻');
                    }
                    for d in u.2.abs().to_string().bytes() {
                        s.push(SUP[usize::from(d - b'0')]);
                    }
                }
                s
            })
            .collect(),
    )
}

fn calendar(d: &[u8]) -> Value {
    let field = |v: u8, every: u8| {
        if v == every {
            json!("every")
        } else {
            json!(v)
        }
    };
    let (lo, hi) = match d.len() {
        2 => (d[0], d[1]),
        4 => (d[2], d[3]),
        _ => (d[3], d[4]),
    };
    let day = field(lo & 0x1F, 0);
    const M: [&str; 12] = [
        "January",
        "February",
        "March",
        "April",
        "May",
        "June",
        "July",
        "August",
        "September",
        "October",
        "November",
        "December",
    ];
    let m = hi & 15;
    let month = match m {
        1..=12 => json!(M[usize::from(m) - 1]),
        15 => json!("every"),
        _ => json!("invalid"),
    };
    let y = (hi >> 4) << 3 | lo >> 5;
    let year = field(y, 0x7F);
    let time: Option<(Value, Value, Option<Value>)> = match d.len() {
        2 => None,
        4 => Some((field(d[1] & 0x1F, 0x1F), field(d[0] & 0x3F, 0x3F), None)),
        _ => Some((
            field(d[2] & 0x1F, 0x1F),
            field(d[1] & 0x3F, 0x3F),
            Some(field(d[0] & 0x3F, 0x3F)),
        )),
    };
    let all = day.is_u64()
        && (1..=12).contains(&m)
        && year.is_u64()
        && time.as_ref().is_none_or(|(h, m, s)| {
            h.is_u64() && m.is_u64() && s.as_ref().is_none_or(|s| s.is_u64())
        });
    if all {
        let date = format!("{:04}-{:02}-{:02}", y, m, day.as_u64().unwrap());
        return json!(match time {
            None => date,
            Some((h, m, s)) => format!(
                "{date}T{:02}:{:02}:{:02}",
                h.as_u64().unwrap(),
                m.as_u64().unwrap(),
                s.and_then(|s| s.as_u64()).unwrap_or(0)
            ),
        });
    }
    let mut o = json!({"day": day, "month": month, "year": year});
    if let Some((h, m, s)) = time {
        o["hour"] = h;
        o["minute"] = m;
        if let Some(s) = s {
            o["second"] = s;
        }
    }
    o
}

/// Signed decimal integer: digits least significant first.
pub struct Dec {
    neg: bool,
    d: Vec<u8>,
}

impl Dec {
    pub fn from_le(b: &[u8]) -> Self {
        let neg = b.last().is_some_and(|x| x & 0x80 != 0);
        let mut m: Vec<u8> = b.to_vec();
        if neg {
            // Two's complement by subtracting from zero, byte by byte.
            let mut borrow = 0i16;
            for x in &mut m {
                let v = -i16::from(*x) - borrow;
                *x = v.rem_euclid(256) as u8;
                borrow = i16::from(v < 0);
            }
        }
        let mut d = Vec::new();
        while m.iter().any(|x| *x != 0) {
            let mut rem = 0u32;
            for x in m.iter_mut().rev() {
                let v = rem << 8 | u32::from(*x);
                *x = (v / 10) as u8;
                rem = v % 10;
            }
            d.push(rem as u8);
        }
        Self { neg, d }
    }
    /// Most significant byte first.
    pub fn from_bcd(b: &[u8], neg: bool) -> Self {
        let mut d = Vec::new();
        for x in b.iter().rev() {
            d.push(x & 15);
            d.push(x >> 4);
        }
        Self { neg, d }
    }
    /// self * 10^scale + 10^offset, in plain notation.
    pub fn shift(&self, scale: i32, offset: Option<i32>) -> String {
        let low = offset.map_or(scale, |o| o.min(scale)).min(0);
        // Signed digits, index 0 = 10^low.
        let mut v: Vec<i32> = vec![0; (scale - low) as usize];
        v.extend(
            self.d
                .iter()
                .map(|x| i32::from(*x) * if self.neg { -1 } else { 1 }),
        );
        if let Some(o) = offset {
            let p = (o - low) as usize;
            if v.len() <= p {
                v.resize(p + 1, 0);
            }
            v[p] += 1;
        }
        v.push(0);
        // Sign of the whole = sign of the most significant non-zero digit
        // after carrying with remainders in -9..=9.
        for i in 0..v.len() - 1 {
            let c = v[i] / 10;
            v[i] -= c * 10;
            v[i + 1] += c;
        }
        let neg = v.iter().rev().find(|x| **x != 0).is_some_and(|x| *x < 0);
        if neg {
            for x in &mut v {
                *x = -*x;
            }
        }
        for i in 0..v.len() - 1 {
            if v[i] < 0 {
                v[i] += 10;
                v[i + 1] -= 1;
            }
        }
        let frac = (-low) as usize;
        while v.len() <= frac {
            v.push(0);
        }
        let int: String = v[frac..]
            .iter()
            .rev()
            .map(|x| char::from(b'0' + *x as u8))
            .collect();
        let fr: String = v[..frac]
            .iter()
            .rev()
            .map(|x| char::from(b'0' + *x as u8))
            .collect();
        let int = int.trim_start_matches('0');
        let fr = fr.trim_end_matches('0');
        let mut s = if int.is_empty() { "0" } else { int }.to_string();
        if !fr.is_empty() {
            s.push('.');
            s.push_str(fr);
        }
        if neg && s != "0" {
            s.insert(0, '-');
        }
        s
    }
}

// ----------------------------------------------------------------- telegrams

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Ident {
    pub mfr: String,
    pub id: u32,
    pub ver: u8,
    pub dev: u8,
    /// A digit of the number that is none: 0, or 8 * (place + 1) + (digit - 10).
    #[serde(default, skip_serializing_if = "is_zero")]
    pub hexed: u8,
}

fn is_zero(n: &u8) -> bool {
    *n == 0
}

impl Ident {
    pub fn letters(&self) -> [u8; 3] {
        let b = self.mfr.as_bytes();
        std::array::from_fn(|i| b'A' + b.get(i).map_or(0, |c| c.wrapping_sub(b'A') % 26))
    }
    pub fn code(&self) -> u16 {
        let l = self.letters();
        let v = |i: usize| u16::from(l[i] - b'A' + 1);
        v(0) << 10 | v(1) << 5 | v(2)
    }
    /// A manufacturer number that stands for no three letters ("#0000").
    pub fn odd(&self) -> Option<u16> {
        let n = u16::from_str_radix(self.mfr.strip_prefix('#')?, 16).ok()?;
        let letters = n < 0x8000 && (0..3).all(|i| (1..=26).contains(&(n >> (5 * i) & 31)));
        (!letters).then_some(n)
    }
    pub fn number(&self) -> u32 {
        self.id % 100_000_000
    }
    pub fn mfr_text(&self) -> String {
        String::from_utf8(self.letters().to_vec()).unwrap()
    }
    pub fn bcd(&self) -> [u8; 4] {
        let mut n = self.number();
        let mut b: [u8; 4] = std::array::from_fn(|_| {
            let lo = n % 10;
            let hi = n / 10 % 10;
            n /= 100;
            (hi << 4 | lo) as u8
        });
        if self.hexed >= 8 {
            let (place, digit) = (self.hexed / 8 - 1, 10 + self.hexed % 8 % 6);
            let (i, up) = (usize::from(place / 2) % 4, place % 2 * 4);
            b[i] = b[i] & !(15 << up) | digit << up;
        }
        b
    }
    /// M(2) ID(4) V T, as in the radio link header.
    pub fn wire(&self) -> [u8; 8] {
        let m = self.code().to_le_bytes();
        let i = self.bcd();
        [m[0], m[1], i[0], i[1], i[2], i[3], self.ver, self.dev]
    }
    pub fn json(&self, source: &str) -> Value {
        let mut v = json!({
            "source": source,
            "id": format!("{:08}", self.number()),
            "version": self.ver,
            "device_type": device_name(self.dev),
            "device_type_code": self.dev,
        });
        if source != "tpl.long" || self.odd().is_none() {
            v["manufacturer_code"] = json!(self.mfr_text());
        }
        v
    }
}

pub fn device_name(c: u8) -> String {
    const N: [&str; 0x1D] = [
        "Other",
        "Oil Meter",
        "Electricity Meter",
        "Gas Meter",
        "Heat Meter (Return)",
        "Steam Meter",
        "Warm Water Meter (30-90°C)",
        "Water Meter",
        "Heat Cost Allocator",
        "Compressed Air",
        "Cooling Meter (Return)",
        "Cooling Meter (Flow)",
        "Heat Meter (Flow)",
        "Combined Heat/Cooling Meter",
        "Bus/System Component",
        "Unknown Device",
        "Irrigation Water Meter",
        "Water Data Logger",
        "Gas Data Logger",
        "Gas Converter",
        "Calorific Value",
        "Hot Water Meter (≥90°C)",
        "Cold Water Meter",
        "Dual Register Water Meter",
        "Pressure Meter",
        "A/D Converter",
        "Smoke Detector",
        "Room Sensor",
        "Gas Detector",
    ];
    match c {
        0..=0x1C => N[usize::from(c)].into(),
        0x1D..=0x1F => format!("Reserved Sensor (0x{c:02X})"),
        0x20 => "Breaker (Electricity)".into(),
        0x21 => "Valve (Gas/Water)".into(),
        0x22..=0x24 => format!("Reserved Switch (0x{c:02X})"),
        0x25 => "Customer Unit (Display)".into(),
        0x26..=0x27 => format!("Reserved Customer Unit (0x{c:02X})"),
        0x28 => "Waste Water Meter".into(),
        0x29 => "Garbage".into(),
        0x2A => "Reserved (CO₂)".into(),
        0x2B..=0x2F => format!("Reserved Environmental (0x{c:02X})"),
        0x30 => "Service Tool".into(),
        0x31 => "Communication Controller (Gateway)".into(),
        0x32 => "Unidirectional Repeater".into(),
        0x33 => "Bidirectional Repeater".into(),
        0x36 => "Radio Converter (System Side)".into(),
        0x37 => "Radio Converter (Meter Side)".into(),
        0x38 => "Bus Converter (Meter Side)".into(),
        0x34..=0x3F => format!("Reserved System (0x{c:02X})"),
        0xFF => "Wildcard".into(),
        _ => format!("Reserved (0x{c:02X})"),
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Enc {
    Plain,
    Trailing,
    FormatA,
    /// Only the CRC of the first block is left.
    First,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Link {
    Ack,
    Short { c: u8, a: u8 },
    Control { a: u8 },
    Long { c: u8, a: u8 },
    Radio { c: u8, id: Ident, enc: Enc },
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum App {
    /// 72 or 76.
    Long {
        msb: bool,
        id: Ident,
        acc: u8,
        status: u8,
    },
    /// 7A, or one of A0 to AF when `ci` is not zero.
    Short {
        #[serde(default)]
        ci: u8,
        acc: u8,
        status: u8,
    },
    NoHdr,
    Ell1Short {
        cc: u8,
        ell_acc: u8,
        acc: u8,
        status: u8,
    },
    Ell1None {
        cc: u8,
        ell_acc: u8,
    },
    Ell2 {
        cc: u8,
        ell_acc: u8,
        sn: u32,
        crc: u16,
    },
    Ell3 {
        cc: u8,
        ell_acc: u8,
        mfr: u16,
        addr: Hex,
        sn: u32,
        crc: u16,
    },
    Fixed {
        id: u32,
        acc: u8,
        status: u8,
        unit: u16,
        c1: u32,
        c2: u32,
    },
    Reset {
        sub: Hex,
    },
    Raw {
        bytes: Hex,
    },
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Sec {
    pub mode: u8,
    pub key: Hex,
    /// Two idle fillers first, as the standard's decryption marker.
    pub marker: bool,
    /// Fill the last block with idle fillers (otherwise a plain tail stays).
    pub pad: bool,
}

impl Sec {
    pub fn key16(&self) -> [u8; 16] {
        let mut k = [0; 16];
        for (i, b) in self.key.0.iter().take(16).enumerate() {
            k[i] = *b;
        }
        k
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Telegram {
    pub link: Link,
    pub app: App,
    /// Configuration word without the mode bits.
    pub cfg: u16,
    pub sec: Option<Sec>,
    pub recs: Vec<Rec>,
    pub tail: Tail,
    /// Idle fillers after the last record, before the tail.
    pub fill: u8,
}

#[derive(Clone, Debug)]
pub struct Wire {
    /// Bytes on the medium.
    pub bytes: Vec<u8>,
    /// Radio telegram before CRCs were added (wired: same as bytes).
    pub normal: Vec<u8>,
    /// Link payload (CI and everything after it), if the link has one.
    pub payload: Option<Vec<u8>>,
    /// Record region as the meter means it (plaintext).
    pub plain: Vec<u8>,
    /// Where the record region starts inside the payload.
    pub start: usize,
    /// (start of fillers, start of header, start of data, end) per record.
    pub spans: Vec<(usize, usize, usize, usize)>,
    pub exp: Vec<Exp>,
    /// The last two bytes of the CRC-free radio telegram happen to be a valid
    /// CRC over the others, so it reads like one with a trailing CRC.
    pub ambiguous: bool,
}

impl Telegram {
    pub fn mode(&self) -> u8 {
        self.sec.as_ref().map_or(0, |s| s.mode & 31)
    }
    pub fn config(&self) -> u16 {
        (self.cfg & !0x1F00) | u16::from(self.mode()) << 8
    }
    pub fn is_wired(&self) -> bool {
        !matches!(self.link, Link::Radio { .. })
    }
    pub fn msb(&self) -> bool {
        matches!(self.app, App::Long { msb: true, .. })
    }
    /// Whether a payload with records is carried in clear.
    pub fn carries_records(&self) -> bool {
        // A long telegram with C = 53 is a control frame.
        (matches!(self.link, Link::Radio { .. })
            || matches!(self.link, Link::Long { c, .. } if c != 0x53))
            && matches!(
                self.app,
                App::Long { .. }
                    | App::Short { .. }
                    | App::NoHdr
                    | App::Ell1Short { .. }
                    | App::Ell1None { .. }
            )
    }
    pub fn has_mode_field(&self) -> bool {
        matches!(
            self.app,
            App::Long { .. } | App::Short { .. } | App::Ell1Short { .. }
        )
    }
    pub fn ell_encrypted(&self) -> bool {
        matches!(self.app, App::Ell2 { .. } | App::Ell3 { .. })
    }
    /// Identity whose fields enter the key lookup and initialisation vector.
    pub fn key_ident(&self) -> Option<Ident> {
        match (&self.app, &self.link) {
            (App::Long { id, .. }, _) => Some(id.clone()),
            (_, Link::Radio { id, .. }) => Some(id.clone()),
            _ => None,
        }
    }
    /// Address of the radio link as the receiver understands it.
    pub fn link_ident(&self) -> Option<Ident> {
        let Link::Radio { id, .. } = &self.link else {
            return None;
        };
        let mut id = id.clone();
        // Behind A0 to AF the low nibble is not part of the device type.
        if matches!(self.app, App::Short { ci, .. } if ci != 0) {
            id.dev >>= 4;
        }
        Some(id)
    }
    pub fn acc(&self) -> u8 {
        match &self.app {
            App::Long { acc, .. } | App::Short { acc, .. } | App::Ell1Short { acc, .. } => *acc,
            _ => 0,
        }
    }

    pub fn header(&self) -> Vec<u8> {
        let c = self.config().to_le_bytes();
        match &self.app {
            App::Long {
                msb,
                id,
                acc,
                status,
            } => {
                let mut v = vec![if *msb { 0x76 } else { 0x72 }];
                let mut b = id.bcd();
                if *msb {
                    b.reverse();
                }
                v.extend(b);
                v.extend(id.odd().unwrap_or(id.code()).to_le_bytes());
                v.extend([id.ver, id.dev, *acc, *status, c[0], c[1]]);
                v
            }
            App::Short { ci, acc, status } => match ci {
                0 => vec![0x7A, *acc, *status, c[0], c[1]],
                // A0 is followed by one more byte.
                n if n & 0x0F == 0 => vec![0xA0, *n, *acc, *status, c[0], c[1]],
                n => vec![0xA0 | n & 0x0F, *acc, *status, c[0], c[1]],
            },
            App::NoHdr => vec![0x78],
            App::Ell1Short {
                cc,
                ell_acc,
                acc,
                status,
            } => vec![0x8C, *cc, *ell_acc, 0x7A, *acc, *status, c[0], c[1]],
            App::Ell1None { cc, ell_acc } => vec![0x8C, *cc, *ell_acc, 0x78],
            App::Ell2 {
                cc,
                ell_acc,
                sn,
                crc,
            } => {
                let mut v = vec![0x8D, *cc, *ell_acc];
                v.extend(sn.to_be_bytes());
                v.extend(crc.to_le_bytes());
                v
            }
            App::Ell3 {
                cc,
                ell_acc,
                mfr,
                addr,
                sn,
                crc,
            } => {
                let mut v = vec![0x8E, *cc, *ell_acc];
                v.extend(mfr.to_le_bytes());
                let mut a = addr.0.clone();
                a.resize(6, 0);
                v.extend(a);
                v.extend(sn.to_be_bytes());
                v.extend(crc.to_le_bytes());
                v
            }
            App::Fixed {
                id,
                acc,
                status,
                unit,
                c1,
                c2,
            } => {
                let bcd = |n: u32| {
                    let i = Ident {
                        mfr: String::new(),
                        id: n,
                        ver: 0,
                        dev: 0,
                        hexed: 0,
                    };
                    i.bcd()
                };
                let mut v = vec![0x73];
                v.extend(bcd(*id));
                v.extend([*acc, *status]);
                v.extend(unit.to_be_bytes());
                v.extend(bcd(*c1));
                v.extend(bcd(*c2));
                v
            }
            App::Reset { sub } => {
                let mut v = vec![0x50];
                v.extend(&sub.0[..sub.0.len().min(10)]);
                v
            }
            App::Raw { bytes } => {
                let mut v = bytes.0.clone();
                v.truncate(240);
                if v.is_empty() {
                    v.push(0x72);
                }
                v
            }
        }
    }

    /// Longest payload the link can carry.
    fn room(&self) -> usize {
        match &self.link {
            Link::Ack | Link::Short { .. } => 0,
            Link::Control { .. } | Link::Long { .. } => 253,
            Link::Radio { enc, .. } => match enc {
                // L counts everything after itself except CRCs.
                Enc::Plain | Enc::FormatA | Enc::First => 246,
                Enc::Trailing => 244,
            },
        }
    }

    /// (bytes on the medium, radio telegram before CRCs) for a link payload.
    pub fn frame(&self, payload: &[u8]) -> (Vec<u8>, Vec<u8>) {
        match &self.link {
            Link::Ack => (vec![0xE5], vec![0xE5]),
            Link::Short { c, a } => {
                let v = vec![0x10, *c, *a, c.wrapping_add(*a), 0x16];
                (v.clone(), v)
            }
            Link::Control { a } => {
                let v = wired_long(0x53, *a, payload);
                (v.clone(), v)
            }
            Link::Long { c, a } => {
                let v = wired_long(*c, *a, payload);
                (v.clone(), v)
            }
            Link::Radio { c, id, enc } => {
                let extra = if *enc == Enc::Trailing { 2 } else { 0 };
                let mut v = vec![(9 + payload.len() + extra) as u8, *c];
                v.extend(id.wire());
                v.extend(payload);
                match enc {
                    Enc::Plain => (v.clone(), v),
                    Enc::Trailing => {
                        let mut o = Vec::new();
                        with_crc(&v, &mut o);
                        (o.clone(), o)
                    }
                    Enc::First => {
                        let mut o = Vec::new();
                        with_crc(&v[..10], &mut o);
                        o.extend(&v[10..]);
                        (o, v)
                    }
                    Enc::FormatA => {
                        let mut o = Vec::new();
                        with_crc(&v[..10], &mut o);
                        for b in v[10..].chunks(16) {
                            with_crc(b, &mut o);
                        }
                        (o, v)
                    }
                }
            }
        }
    }

    pub fn ambiguous(&self, normal: &[u8]) -> bool {
        let n = normal.len();
        matches!(
            &self.link,
            Link::Radio {
                enc: Enc::Plain | Enc::FormatA | Enc::First,
                ..
            }
        ) && n >= 12
            && crate::acc::crc16(&normal[..n - 2]).to_be_bytes() == normal[n - 2..]
    }

    pub fn encode(&self) -> Wire {
        let hdr = self.header();
        let room = self.room();
        let msb = self.msb();
        let mut plain = Vec::new();
        let mut spans = Vec::new();
        let mut exp = Vec::new();
        let has_recs = !matches!(
            self.app,
            App::Fixed { .. } | App::Reset { .. } | App::Raw { .. }
        );
        if has_recs && room > 0 {
            let limit = room.saturating_sub(hdr.len());
            let limit = if self.sec.as_ref().is_some_and(|s| s.mode != 0 && s.pad) {
                limit / 16 * 16
            } else {
                limit
            };
            if self.sec.as_ref().is_some_and(|s| s.marker) {
                plain.extend([0x2F, 0x2F]);
            }
            // A meter with more to say keeps a byte for saying so.
            let kept = usize::from(matches!(self.tail, Tail::More(_)));
            for r in &self.recs {
                let s = plain.len();
                let (h, d) = r.encode(msb);
                let fill = r.skipped();
                if s + fill.len() + h.len() + d.len() + kept > limit {
                    continue;
                }
                plain.extend(&fill);
                let hs = plain.len();
                plain.extend(&h);
                let ds = plain.len();
                plain.extend(&d);
                spans.push((s, hs, ds, plain.len()));
                exp.push(r.expect(msb));
            }
            let last = plain.len();
            let fill = usize::from(self.fill).min(limit.saturating_sub(last + kept));
            plain.resize(last + fill, 0x2F);
            if let Tail::Mfr(t) | Tail::More(t) = &self.tail {
                let s = plain.len();
                if s < limit {
                    let more = matches!(self.tail, Tail::More(_));
                    plain.push(if more { 0x1F } else { 0x0F });
                    let n = t.0.len().min(limit - s - 1);
                    plain.extend(&t.0[..n]);
                    spans.push((last, s, s + 1, plain.len()));
                    let name = if more {
                        "More records follow"
                    } else {
                        "Manufacturer specific"
                    };
                    exp.push(Exp {
                        function: name,
                        storage: 0,
                        tariff: 0,
                        sub: 0,
                        quantities: vec![],
                        unit: None,
                        val: EVal::Mfr,
                        coding: name,
                        header: plain[s..s + 1].to_vec(),
                        data: plain[s + 1..].to_vec(),
                        mag: 0.0,
                    });
                }
            }
            if let Some(sec) = &self.sec {
                if sec.mode != 0 && (sec.pad || plain.is_empty()) {
                    let tail_open = !matches!(self.tail, Tail::None) && !spans.is_empty();
                    while plain.len() % 16 != 0 || plain.is_empty() {
                        plain.push(0x2F);
                    }
                    if tail_open {
                        // The padding belongs to the manufacturer data.
                        if let (Some(e), Some(sp)) = (exp.last_mut(), spans.last_mut()) {
                            if e.header.len() == 1 && matches!(e.val, EVal::Mfr) {
                                e.data = plain[sp.2..].to_vec();
                                sp.3 = plain.len();
                            }
                        }
                    }
                }
            }
        }
        let mut body = plain.clone();
        if let Some(sec) = &self.sec {
            let key = sec.key16();
            let iv = match sec.mode & 31 {
                5 => self.key_ident().map(|i| {
                    let w = i.wire();
                    let mut iv = [self.acc(); 16];
                    iv[..8].copy_from_slice(&w);
                    iv
                }),
                7 => Some([0; 16]),
                0 => None,
                // Unsupported modes: some ciphertext.
                _ => Some([0xA5; 16]),
            };
            if let Some(iv) = iv {
                crypto::cbc_encrypt(&key, &iv, &mut body);
            }
        }
        let mut payload = hdr.clone();
        payload.extend(&body);
        payload.truncate(room);
        let (bytes, normal) = self.frame(&payload);
        let payload = (room > 0).then_some(payload);
        let ambiguous = self.ambiguous(&normal);
        Wire {
            bytes,
            normal,
            payload,
            plain,
            start: hdr.len(),
            spans,
            exp,
            ambiguous,
        }
    }

    /// Link section of the canonical document.
    pub fn expect_frame(&self) -> (Value, Value) {
        match &self.link {
            Link::Ack => (json!("wired"), json!({"kind": "single_character"})),
            Link::Short { c, a } => (
                json!("wired"),
                json!({"kind": "short", "function": function_name(*c), "address": address_name(*a)}),
            ),
            Link::Control { a } => (
                json!("wired"),
                json!({"kind": "control", "function": function_name(0x53), "address": address_name(*a)}),
            ),
            Link::Long { c, a } => (
                json!("wired"),
                json!({"kind": if *c == 0x53 { "control" } else { "long" },
                       "function": function_name(*c), "address": address_name(*a)}),
            ),
            Link::Radio { c, .. } => {
                let mut v = json!({"kind": "wireless", "control_field": format!("{c:02X}")});
                if let Some(f) = function_name(*c) {
                    v["function"] = json!(f);
                }
                (json!("wireless"), v)
            }
        }
    }

    /// Meter and transport sections of the canonical document.
    pub fn expect_meter(&self) -> (Value, Value) {
        let link = self.link_ident().map(|id| id.json("link.wireless"));
        let mut meter = json!({});
        let mut tr = json!({});
        if let Some(l) = &link {
            meter["identity"] = l.clone();
        }
        let parsed = matches!(self.link, Link::Radio { .. })
            || matches!(self.link, Link::Long { c, .. } if c != 0x53);
        if !parsed {
            return (meter, tr);
        }
        let short = |tr: &mut Value, src: &str, acc: u8, status: u8| {
            tr["access_numbers"] = json!([{"source": src, "value": acc}]);
            tr["statuses"] = json!([{"source": src, "raw": format!("{status:02X}"),
                                     "display": status_text(status)}]);
            tr["configuration"] = json!({"source": src, "raw": format!("{:04X}", self.config())});
        };
        match &self.app {
            App::Long {
                id, acc, status, ..
            } => {
                let me = id.json("tpl.long");
                // The identities carry their source, so they always differ.
                if let Some(l) = link {
                    meter["alternate_identities"] = json!([l]);
                }
                meter["identity"] = me;
                tr["header_kind"] = json!("long_tpl");
                short(&mut tr, "tpl.long", *acc, *status);
            }
            App::Short { acc, status, .. } => {
                tr["header_kind"] = json!("short_tpl");
                short(&mut tr, "tpl.short", *acc, *status);
            }
            App::NoHdr => tr["header_kind"] = json!("none"),
            App::Ell1Short {
                cc,
                ell_acc,
                acc,
                status,
            } => {
                tr["header_kind"] = json!("short_tpl");
                short(&mut tr, "tpl.short", *acc, *status);
                tr["ell"] = json!({"communication_control": format!("{cc:02X}"),
                                   "access_number": ell_acc});
            }
            App::Ell1None { cc, ell_acc } => {
                tr["header_kind"] = json!("ell");
                tr["access_numbers"] = json!([{"source": "ell", "value": ell_acc}]);
                tr["ell"] = json!({"communication_control": format!("{cc:02X}"),
                                   "access_number": ell_acc});
            }
            App::Ell2 {
                cc,
                ell_acc,
                sn,
                crc,
            } => {
                tr["header_kind"] = json!("ell");
                tr["access_numbers"] = json!([{"source": "ell", "value": ell_acc}]);
                tr["ell"] = json!({"communication_control": format!("{cc:02X}"),
                                   "access_number": ell_acc,
                                   "session_number": upper(&sn.to_be_bytes()),
                                   "payload_crc": format!("{crc:04X}")});
            }
            App::Ell3 {
                cc,
                ell_acc,
                mfr,
                addr,
                sn,
                crc,
            } => {
                let mut a = addr.0.clone();
                a.resize(6, 0);
                tr["header_kind"] = json!("ell");
                tr["access_numbers"] = json!([{"source": "ell", "value": ell_acc}]);
                tr["ell"] = json!({"communication_control": format!("{cc:02X}"),
                                   "access_number": ell_acc,
                                   "receiver_manufacturer": format!("{mfr:04X}"),
                                   "receiver_address": upper(&a),
                                   "session_number": upper(&sn.to_be_bytes()),
                                   "payload_crc": format!("{crc:04X}")});
            }
            App::Fixed {
                id,
                acc,
                status,
                unit,
                ..
            } => {
                meter["identity"] = json!({"source": "application.fixed",
                    "id": format!("{:08}", id % 100_000_000),
                    "device_type": format!("fixed type/unit 0x{unit:04X}")});
                tr["header_kind"] = json!("fixed");
                tr["access_numbers"] = json!([{"source": "application.fixed", "value": acc}]);
                tr["statuses"] = json!([{"source": "application.fixed",
                    "raw": format!("{status:02X}"), "display": status_text(*status)}]);
            }
            App::Reset { .. } => tr["header_kind"] = json!("application_reset"),
            App::Raw { .. } => {}
        }
        (meter, tr)
    }
}

pub fn wired_long(c: u8, a: u8, payload: &[u8]) -> Vec<u8> {
    let l = (payload.len() + 2) as u8;
    let mut v = vec![0x68, l, l, 0x68, c, a];
    v.extend(payload);
    let s = v[4..].iter().fold(0u8, |x, y| x.wrapping_add(*y));
    v.extend([s, 0x16]);
    v
}

pub fn function_name(c: u8) -> Option<String> {
    Some(match c {
        0x40 => "SND_NKE (PRM: false)".into(),
        0x44 => "SND_NR".into(),
        0x53 => "SND_UD (FCB: false)".into(),
        0x73 => "SND_UD (FCB: true)".into(),
        0x5B => "REQ_UD2 (FCB: false)".into(),
        0x7B => "REQ_UD2 (FCB: true)".into(),
        0x5A => "REQ_UD1 (FCB: false)".into(),
        0x7A => "REQ_UD1 (FCB: true)".into(),
        0x08 | 0x18 | 0x28 | 0x38 => {
            format!("RSP_UD (ACD: {}, DFC: {})", c & 0x20 != 0, c & 0x10 != 0)
        }
        _ => return None,
    })
}

pub fn address_name(a: u8) -> String {
    match a {
        0 => "Uninitalized".into(),
        253 => "Secondary".into(),
        254 => "Broadcast (Reply Required: true)".into(),
        255 => "Broadcast (Reply Required: false)".into(),
        n => format!("Primary ({n})"),
    }
}

pub fn status_text(s: u8) -> String {
    const N: [&str; 8] = [
        "Counter binary signed",
        "Counter fixed date",
        "Power low",
        "Permanent error",
        "Temporary error",
        "Manufacturer specific 1",
        "Manufacturer specific 2",
        "Manufacturer specific 3",
    ];
    let v: Vec<&str> = (0..8).filter(|i| s >> i & 1 == 1).map(|i| N[i]).collect();
    if v.is_empty() {
        "No Error(s)".into()
    } else {
        v.join(", ")
    }
}
