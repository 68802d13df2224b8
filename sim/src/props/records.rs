//! C06–C12: record decoding.

use super::{ORDER, STUBS};
use crate::acc;
use crate::chan;
use crate::engine::{viol, Cx, Meta, Prop, Res, Tier, Viol};
use crate::gen::*;
use crate::model::*;
use crate::oracle::{self, decode, has_diag, Want};
use crate::rng::Rng;
use crate::util::{spaced, Hex};
use m_bus_parser::user_data::{self, data_information::DataType, DataRecords};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

const REAL: &[&str] = &[
    "wired-mbus-link-layer",
    "wireless-mbus-link-layer",
    "m-bus-core",
    "m-bus-application-layer",
    "m-bus-parser decoder",
];

/// Records as the low-level reader yields them: raw bytes and coarse value.
fn low_records(cx: &mut Cx, tg: &Telegram, w: &Wire, want: Want) -> Res {
    let payload = w.payload.clone().unwrap_or_default();
    cx.call("parse_application_layer", || -> Res {
        let block = match user_data::parse_application_layer(&payload) {
            Ok(b) => b,
            Err(e) => return viol("application-rejected", format!("{e:?}")),
        };
        let Some(mut it) = block.data_records() else {
            return viol("no-record-reader", "no record reader for a clear payload");
        };
        let mut pos = 0usize;
        for (i, e) in w.exp.iter().enumerate() {
            let r = match it.next() {
                Some(Ok(r)) => r,
                x => return viol("low-record-missing", format!("record {i}: {x:?}")),
            };
            let span = w.spans[i];
            if want.raw && r.raw_bytes() != &w.plain[span.1..span.3] {
                return viol(
                    "low-raw-bytes",
                    format!(
                        "record {i}: must be {}, is {}",
                        spaced(&w.plain[span.1..span.3]),
                        spaced(r.raw_bytes())
                    ),
                );
            }
            pos = pos.max(span.3);
            if want.raw && it.offset() != pos {
                return viol(
                    "low-offset",
                    format!("after record {i}: {} instead of {pos}", it.offset()),
                );
            }
            if want.value {
                if let (
                    EVal::Dec(_) | EVal::Float(_),
                    Some(DataType::Number(n) | DataType::LossyNumber(n)),
                ) = (&e.val, r.value())
                {
                    let rec = raw_number(tg, i, e);
                    if let Some(x) = rec {
                        if (x - n).abs() > x.abs() * 1e-12 {
                            return viol("low-value", format!("record {i}: must be {x}, is {n}"));
                        }
                    }
                } else if let EVal::Dec(_) | EVal::Float(_) = &e.val {
                    return viol("low-value-kind", format!("record {i}: {:?}", r.value()));
                }
            }
            if want.attrs {
                if let Some(d) = r.data_information() {
                    if e.header != [0x7F]
                        && e.function != "Manufacturer specific"
                        && e.function != "More records follow"
                        && (d.storage_number != e.storage
                            || d.tariff != e.tariff
                            || d.device != e.sub)
                    {
                        return viol("low-register", format!("record {i}: {d:?}"));
                    }
                }
            }
        }
        match it.next() {
            None => Ok(()),
            Some(x) => viol("low-record-extra", format!("{x:?}")),
        }
    })?
}

/// Everything the low-level reader says about each record of a payload.
fn low_dump(cx: &mut Cx, payload: &[u8]) -> Result<Vec<String>, Viol> {
    cx.call("data_records", || {
        user_data::parse_application_layer(payload)
            .ok()
            .and_then(|b| {
                b.data_records()
                    .map(|it| it.map(|r| format!("{r:?}")).collect())
            })
            .unwrap_or_default()
    })
}

/// The unscaled number of record `i`, rounded to a double.
fn raw_number(tg: &Telegram, _i: usize, e: &Exp) -> Option<f64> {
    let d = &e.data;
    let s = match e.coding {
        "8-bit integer" | "16-bit integer" | "24-bit integer" | "32-bit integer"
        | "48-bit integer" | "64-bit integer" => Dec::from_le(d).shift(0, None),
        c if c.ends_with("BCD") => {
            let mut v = d.clone();
            if !tg.msb() {
                v.reverse();
            }
            Dec::from_bcd(&v, false).shift(0, None)
        }
        "Variable length" => match d[0] {
            0xC0..=0xDF => {
                let v: Vec<u8> = d[1..].iter().rev().copied().collect();
                Dec::from_bcd(&v, d[0] >= 0xD0).shift(0, None)
            }
            0xE0.. => Dec::from_le(&d[1..]).shift(0, None),
            _ => return None,
        },
        "32-bit real" => return Some(f64::from(f32::from_le_bytes(d[..4].try_into().ok()?))),
        _ => return None,
    };
    s.parse().ok()
}

/// Deliver traffic and judge the records of every intact delivery.
fn judge(sc: &Traffic, cx: &mut Cx, want: Want, sig: fn(&Exp, usize) -> Option<String>) -> Res {
    let wires: Vec<Wire> = sc.sends.iter().map(|s| s.tg.encode()).collect();
    let mut prev = 0usize;
    for d in sc.run(&wires, cx) {
        let w = &wires[d.src];
        let tg = &sc.sends[d.src].tg;
        let high = decode(cx, &d.bytes, None)?;
        cx.event(|| format!("{} {} {}", d.at, d.src, high.is_ok()));
        cx.note(|| {
            format!(
                "t={}us bytes={} intact={}",
                d.at,
                spaced(&d.bytes),
                d.intact
            )
        });
        if d.intact {
            if let App::Fixed {
                c1,
                c2,
                status,
                unit,
                ..
            } = &tg.app
            {
                if want.value {
                    fixed_counters(cx, &d.bytes, &[*c1, *c2])?;
                }
                if want.attrs {
                    fixed_units(cx, &d.bytes, unit.to_be_bytes(), *status)?;
                }
            }
        }
        if !d.intact || w.ambiguous || !tg.carries_records() {
            continue;
        }
        let doc = match high {
            Ok(d) => d,
            Err(e) => {
                return viol(
                    "intact-rejected",
                    format!("decoder error {e}: {}", spaced(&d.bytes)),
                )
            }
        };
        if doc["decode_state"] != json!("complete") {
            return viol(
                "complete-marked-partial",
                format!("{} for {}", doc["diagnostics"], spaced(&d.bytes)),
            );
        }
        oracle::records(&w.exp, &doc["records"], want)?;
        low_records(cx, tg, w, want)?;
        if !tg.msb() && !w.plain.is_empty() {
            // The header-less entry point sees the same records.
            let list = cx.call("decode_data_records", || {
                m_bus_parser::decode_data_records(&w.plain)
                    .map(|v| serde_json::to_value(v).unwrap())
                    .map_err(|e| e.to_string())
            })?;
            match list {
                Ok(v) => oracle::records(&w.exp, &v, want)?,
                Err(e) => return viol("record-list-rejected", e),
            }
        }
        for (i, e) in w.exp.iter().enumerate() {
            if let Some(s) = sig(e, i) {
                cx.evals += 1;
                cx.sig(&s);
            }
        }
        cx.probe(if prev == d.src {
            "same_sender"
        } else {
            "other_sender_between"
        });
        prev = d.src;
        if let Some(e) = w.exp.first() {
            cx.sample(
                json!({"record": spaced(&e.header) + " | " + &spaced(&e.data),
                             "reported": doc["records"][0]}),
            );
        }
    }
    Ok(())
}

/// Turn some wired telegrams into fixed structures with counters of any size.
fn maybe_fixed(r: &mut Rng, s: &mut Send) {
    if !s.tg.is_wired() || !r.chance(1, 12) {
        return;
    }
    let digits = [r.range(1, 9), r.range(1, 9)].map(|n| 10usize.pow(n as u32));
    s.tg.app = App::Fixed {
        id: r.below(100_000_000) as u32,
        acc: r.u8(),
        status: r.u8() & 0xFE,
        unit: r.u64() as u16,
        c1: r.below(digits[0].min(100_000_000)) as u32,
        c2: r.below(digits[1].min(100_000_000)) as u32,
    };
    s.tg.recs.clear();
}

/// The XML of a fixed structure.
fn fixed_xml(cx: &mut Cx, bytes: &[u8]) -> Result<crate::doc::Elem, Viol> {
    let xml = super::security::render(cx, bytes, m_bus_parser::OutputFormat::Xml, None, None)?;
    match xml.and_then(|x| crate::doc::xml(&x).map_err(|e| e.to_string())) {
        Ok(x) => Ok(x),
        Err(e) => viol("fixed-xml", e),
    }
}

/// The two counters of a fixed structure, from the low-level call and the XML.
fn fixed_counters(cx: &mut Cx, bytes: &[u8], want: &[u32; 2]) -> Res {
    let low = cx.call("parse_application_layer", || {
        let Ok(m_bus_parser::WiredFrame::LongFrame { data, .. }) =
            m_bus_parser::WiredFrame::try_from(bytes)
        else {
            return Err("no long frame".to_string());
        };
        match user_data::parse_application_layer(data) {
            Ok(user_data::UserDataBlock::FixedDataStructure {
                counter1, counter2, ..
            }) => Ok([counter1.to_string(), counter2.to_string()]),
            x => Err(format!("{x:?}")),
        }
    })?;
    if low != Ok(want.map(|n| format!("{n:08}"))) {
        return viol("fixed-counter", format!("must be {want:?}, is {low:?}"));
    }
    let x = fixed_xml(cx, bytes)?;
    let got: Vec<_> = x.kids.iter().filter(|k| k.name == "DataRecord").collect();
    for (i, n) in want.iter().enumerate() {
        if got.get(i).and_then(|g| g.value("Value")) != Some(n.to_string().as_str()) {
            return viol("fixed-xml-counter", format!("{i}: must be {n}, is {got:?}"));
        }
        cx.evals += 1;
        cx.sig(&format!("fixed{i}{}", n.to_string().len()));
    }
    Ok(())
}

/// Unit of a counter code of the fixed structure (EN 13757-3, table of
/// physical units). The rows 0x0D and 0x0E differ between documents.
fn fixed_unit(code: u8) -> Option<String> {
    let steps = |first: u8, units: &[&str]| {
        let k = usize::from(code - first);
        let u = units[k / 3];
        Some(["", "10 ", "100 "][k % 3].to_string() + u)
    };
    match code {
        0x00 => Some("h,m,s".into()),
        0x01 => Some("D,M,Y".into()),
        0x02..=0x0A => steps(0x02, &["Wh", "kWh", "MWh"]),
        0x0D | 0x0E => None,
        0x0B..=0x13 => steps(0x0B, &["kJ", "MJ", "GJ"]),
        0x14..=0x1C => steps(0x14, &["W", "kW", "MW"]),
        0x1D..=0x25 => steps(0x1D, &["kJ/h", "MJ/h", "GJ/h"]),
        0x26..=0x2E => steps(0x26, &["ml", "l", "m^3"]),
        0x2F..=0x37 => steps(0x2F, &["ml/h", "l/h", "m^3/h"]),
        0x38 => Some("1e-3 °C".into()),
        0x39 => Some("units for HCA".into()),
        0x3F => Some("without units".into()),
        _ => None,
    }
}

/// Units, function and number of the counters of a fixed structure in the XML.
fn fixed_units(cx: &mut Cx, bytes: &[u8], unit: [u8; 2], status: u8) -> Res {
    let x = fixed_xml(cx, bytes)?;
    let got: Vec<_> = x.kids.iter().filter(|k| k.name == "DataRecord").collect();
    if got.len() != 2 {
        return viol("fixed-xml", format!("{} counters", got.len()));
    }
    let f = ["Actual value", "Stored value"][usize::from(status >> 6 & 1)];
    for (i, u) in unit.iter().enumerate() {
        let want = fixed_unit(u & 0x3F);
        if got[i].value("Function") != Some(f) {
            return viol("fixed-xml-function", format!("must be {f}, is {got:?}"));
        }
        if want.is_some() && got[i].value("Unit") != want.as_deref() {
            return viol(
                "fixed-xml-unit",
                format!("counter {i}: must be {want:?}, is {got:?}"),
            );
        }
        cx.evals += 1;
        cx.sig(&format!("fixed{i}{u}"));
    }
    Ok(())
}

fn val_name(e: &Exp) -> &'static str {
    oracle::value_json(&e.val).0
}

fn traffic(r: &mut Rng) -> Traffic {
    let n = r.range(1, 6);
    gen_traffic(r, Medium::Both, Kind::Records, chan::ALL, n)
}

fn mag_class(e: &Exp) -> String {
    match &e.val {
        EVal::Dec(s) => format!(
            "{}{}.{}",
            if s.starts_with('-') { "-" } else { "+" },
            s.split('.').next().unwrap_or("").len(),
            s.split('.').nth(1).unwrap_or("").len()
        ),
        EVal::Float(f) => format!("f{}{}", f.is_sign_negative(), f.abs().log10() as i32),
        EVal::Special(s) => s.to_string(),
        _ => String::new(),
    }
}

pub struct C06;
impl Prop for C06 {
    type Sc = Traffic;
    fn meta(&self) -> Meta {
        Meta {
            id: "C06",
            level: "exploration",
            rule: "numeric records of intact deliveries judged; distinct = (coding, sign, integer digits, fraction digits, value header shape)",
            quick: 250_000,
            thorough: 8_000_000,
            components: REAL,
            stubs: STUBS,
            measure: ORDER,
        }
    }
    fn gen(&self, r: &mut Rng, _t: Tier, _i: u64) -> Traffic {
        let mut t = traffic(r);
        for s in &mut t.sends {
            maybe_fixed(r, s);
            let msb = s.tg.msb();
            for rec in &mut s.tg.recs {
                if r.chance(1, 2) {
                    while matches!(rec.val, Val::None | Val::Readout | Val::Text(_)) {
                        rec.val = gen_val(r, msb);
                    }
                }
                if r.chance(1, 3) && !matches!(rec.base, Base::Mfr(_) | Base::Global) {
                    rec.vifes.push(*r.pick(&[
                        0x70, 0x71, 0x72, 0x73, 0x74, 0x75, 0x76, 0x77, 0x78, 0x79, 0x7A, 0x7B,
                        0x7D, 0x30, 0x31, 0x32,
                    ]));
                }
            }
        }
        t
    }
    fn exec(&self, sc: &Traffic, cx: &mut Cx) -> Res {
        let want = Want {
            value: true,
            attrs: false,
            dates: false,
            raw: false,
        };
        judge(sc, cx, want, |e, i| {
            matches!(e.val, EVal::Dec(_) | EVal::Float(_) | EVal::Special(_))
                .then(|| format!("{}{}{}{}", e.coding, mag_class(e), e.header.len(), i.min(3)))
        })
    }
    fn known(&self, input: &[u8], cx: &mut Cx) -> Res {
        // One decimal record whose leading digit F is a minus sign.
        let list = cx.call("decode_data_records", || {
            m_bus_parser::decode_data_records(input)
                .map(|v| serde_json::to_value(v).unwrap())
                .map_err(|e| e.to_string())
        })?;
        match list {
            Ok(v)
                if v.as_array().map(Vec::len) == Some(1) && v[0]["value"]["kind"] == "decimal" =>
            {
                Ok(())
            }
            x => viol("minus-sign", format!("{x:?}")),
        }
    }
}

pub struct C07;
impl Prop for C07 {
    type Sc = Traffic;
    fn meta(&self) -> Meta {
        Meta {
            id: "C07",
            level: "exploration",
            rule: "records of intact deliveries judged; distinct = (function, data header extensions, quantities, unit)",
            quick: 250_000,
            thorough: 8_000_000,
            components: REAL,
            stubs: STUBS,
            measure: ORDER,
        }
    }
    fn gen(&self, r: &mut Rng, _t: Tier, _i: u64) -> Traffic {
        let mut t = traffic(r);
        for s in &mut t.sends {
            maybe_fixed(r, s);
        }
        t
    }
    fn exec(&self, sc: &Traffic, cx: &mut Cx) -> Res {
        let want = Want {
            value: false,
            attrs: true,
            dates: false,
            raw: false,
        };
        judge(sc, cx, want, |e, _| {
            Some(format!(
                "{}{}{:?}{:?}",
                e.function,
                e.header.len(),
                e.quantities,
                e.unit
            ))
        })
    }
    fn directed(&self) -> Vec<Traffic> {
        // Every coded quantity and every single extension once.
        let mut recs: Vec<Rec> = Vec::new();
        let mk = |base: Base, vifes: Vec<u16>| Rec {
            fill: 0,
            func: 0,
            storage: 0,
            tariff: 0,
            sub: 0,
            xdife: 0,
            base,
            vifes,
            val: Val::Int(Hex(vec![1])),
        };
        let ok = |t: &[Option<crate::tables::Vi>; 128], c: usize| {
            t[c].as_ref()
                .is_some_and(|v| v.labels.first().is_some_and(|l| !l.starts_with("Reserved")))
        };
        for c in 0..128usize {
            if c < 0x7B && ok(&crate::tables::PRIMARY, c) {
                recs.push(mk(Base::P(c as u8), vec![]));
                recs.push(mk(Base::P(c as u8), vec![0x22]));
            }
            if ok(&crate::tables::FD, c) {
                recs.push(mk(Base::FD(c as u8), vec![]));
            }
            if ok(&crate::tables::FDFD, c) {
                recs.push(mk(Base::FDFD(c as u8), vec![]));
            }
            if ok(&crate::tables::FB, c) {
                recs.push(mk(Base::FB(c as u8), vec![]));
            }
            for base in [
                Base::P(0x13),
                Base::FD(0x48),
                Base::FB(0x00),
                Base::FDFD(0x02),
            ] {
                recs.push(mk(base.clone(), vec![c as u16]));
                recs.push(mk(base.clone(), vec![c as u16 | 0x100]));
                recs.push(mk(base, vec![c as u16, 0x3B, c as u16]));
            }
        }
        // Data header: every position of every field.
        for i in 0..41 {
            let mut x = mk(Base::P(0x13), vec![]);
            x.storage = 1 << i;
            x.tariff = 1 << (i % 20);
            x.sub = 1 << (i % 10);
            x.func = (i % 4) as u8;
            recs.push(x.clone());
            x.tariff = 0;
            x.sub = 0;
            recs.push(x);
        }
        recs.chunks(20)
            .map(|c| Traffic {
                sends: vec![Send {
                    at: 0,
                    tg: Telegram {
                        link: Link::Long { c: 8, a: 1 },
                        app: App::NoHdr,
                        cfg: 0,
                        sec: None,
                        recs: c.to_vec(),
                        tail: Tail::None,
                        fill: 0,
                    },
                    faults: vec![],
                }],
            })
            .collect()
    }
    fn known(&self, input: &[u8], cx: &mut Cx) -> Res {
        // A record with a plain text unit: header ends after the text.
        let n = usize::from(input.get(2).copied().unwrap_or(0));
        let list = cx.call("decode_data_records", || {
            m_bus_parser::decode_data_records(input)
                .map(|v| serde_json::to_value(v).unwrap())
                .map_err(|e| e.to_string())
        })?;
        match list {
            Ok(v)
                if v.as_array().map(Vec::len) == Some(1)
                    && v[0]["header_hex"] == json!(spaced(&input[..3 + n])) =>
            {
                Ok(())
            }
            x => viol("plain-text-unit", format!("{x:?}")),
        }
    }
}

pub struct C08;
impl Prop for C08 {
    type Sc = Traffic;
    fn meta(&self) -> Meta {
        Meta {
            id: "C08",
            level: "exploration",
            rule: "calendar records of intact deliveries judged; distinct = (type, reported value)",
            quick: 250_000,
            thorough: 8_000_000,
            components: REAL,
            stubs: STUBS,
            measure: ORDER,
        }
    }
    fn gen(&self, r: &mut Rng, _t: Tier, _i: u64) -> Traffic {
        let mut t = traffic(r);
        for s in &mut t.sends {
            if s.tg.msb() {
                continue;
            }
            for rec in &mut s.tg.recs {
                if r.chance(3, 4) {
                    (rec.base, rec.val) = gen_date(r);
                    if r.chance(1, 8) {
                        // Date code on another length stays a number.
                        let n = *r.pick(&[1, 2, 3, 4, 6, 8]);
                        rec.val = Val::Int(Hex(r.bytes(n)));
                    }
                }
            }
        }
        t
    }
    fn exec(&self, sc: &Traffic, cx: &mut Cx) -> Res {
        let want = Want {
            value: false,
            attrs: false,
            dates: true,
            raw: true,
        };
        judge(sc, cx, want, |e, _| {
            matches!(e.val, EVal::Date(_) | EVal::DateTime(_))
                .then(|| format!("{}{:?}", e.coding, oracle::value_json(&e.val)))
        })?;
        // No code announces a time of day, so it is read from the bare bytes.
        for s in &sc.sends {
            for e in s.tg.encode().exp {
                time_of_day(cx, &e.data)?;
            }
        }
        Ok(())
    }
    fn directed(&self) -> Vec<Traffic> {
        // Every two-byte date, and every value of each time byte.
        let rec = |base: u8, b: Vec<u8>| Rec {
            fill: 0,
            func: 0,
            storage: 0,
            tariff: 0,
            sub: 0,
            xdife: 0,
            base: Base::P(base),
            vifes: vec![],
            val: Val::Int(Hex(b)),
        };
        let mut recs = Vec::new();
        for v in 0..=0xFFFFu16 {
            recs.push(rec(0x6C, v.to_le_bytes().to_vec()));
        }
        for v in 0..=255u8 {
            for p in 0..4 {
                let mut b = vec![10, 11, 0x2C, 0x35];
                b[p] = v;
                recs.push(rec(0x6D, b));
            }
            for p in 0..6 {
                let mut b = vec![9, 10, 11, 0x2C, 0x35, 0x01];
                b[p] = v;
                recs.push(rec(0x6D, b));
            }
        }
        recs.chunks(25 * 40)
            .map(|c| Traffic {
                sends: c
                    .chunks(25)
                    .map(|c| Send {
                        at: 0,
                        tg: Telegram {
                            link: Link::Long { c: 8, a: 1 },
                            app: App::NoHdr,
                            cfg: 0,
                            sec: None,
                            recs: c.to_vec(),
                            tail: Tail::None,
                            fill: 0,
                        },
                        faults: vec![],
                    })
                    .collect(),
            })
            .collect()
    }
}

fn time_of_day(cx: &mut Cx, b: &[u8]) -> Res {
    use user_data::data_information::{DataFieldCoding, SingleEveryOrInvalid};
    let got = cx.call("DataFieldCoding::parse", || {
        DataFieldCoding::DateTimeTypeJ
            .parse(b, None)
            .ok()
            .and_then(|d| match d.value {
                Some(DataType::Time(s, m, h)) => Some([s, m, h]),
                _ => None,
            })
    })?;
    let part = |v: u8, mask: u8| {
        if v & mask == mask {
            SingleEveryOrInvalid::Every()
        } else {
            SingleEveryOrInvalid::Single(v & mask)
        }
    };
    let want = match b {
        [s, m, h, ..] => Some([part(*s, 0x3F), part(*m, 0x3F), part(*h, 0x1F)]),
        _ => None,
    };
    if got != want {
        return viol(
            "time-of-day",
            format!("{}: {got:?} must be {want:?}", spaced(b)),
        );
    }
    Ok(())
}

pub struct C09;
impl Prop for C09 {
    type Sc = Traffic;
    fn meta(&self) -> Meta {
        Meta {
            id: "C09",
            level: "exploration",
            rule: "records of intact deliveries whose raw bytes were compared; distinct = (coding, header length, data length, skipped bytes around)",
            quick: 250_000,
            thorough: 8_000_000,
            components: REAL,
            stubs: STUBS,
            measure: ORDER,
        }
    }
    fn gen(&self, r: &mut Rng, _t: Tier, _i: u64) -> Traffic {
        let mut t = traffic(r);
        for s in &mut t.sends {
            let msb = s.tg.msb();
            if r.chance(1, 4) {
                s.tg.recs = gen_recs(r, msb, 40);
            }
            for rec in &mut s.tg.recs {
                if !msb && r.chance(1, 5) {
                    rec.val = match r.below(3) {
                        0 => Val::Text(Hex(gen_text(r))),
                        _ => gen_val(r, msb),
                    };
                }
            }
        }
        t
    }
    fn exec(&self, sc: &Traffic, cx: &mut Cx) -> Res {
        let want = Want {
            value: false,
            attrs: false,
            dates: false,
            raw: true,
        };
        judge(sc, cx, want, |e, i| {
            Some(format!(
                "{}{}{}{}{}",
                e.coding,
                e.header.len(),
                e.data.len(),
                val_name(e),
                i.min(20)
            ))
        })?;
        // Conservation over the whole run: what left the meters intact is
        // what the receiver lists, byte for byte.
        let wires: Vec<Wire> = sc.sends.iter().map(|s| s.tg.encode()).collect();
        for (s, w) in sc.sends.iter().zip(&wires) {
            if !s.tg.carries_records() || s.tg.msb() || w.plain.is_empty() {
                continue;
            }
            let got = cx.call("DataRecords", || {
                let mut v = Vec::new();
                for x in DataRecords::from(&w.plain[..]).flatten() {
                    v.extend_from_slice(x.raw_bytes());
                }
                v
            })?;
            let mut want = Vec::new();
            for sp in &w.spans {
                want.extend_from_slice(&w.plain[sp.1..sp.3]);
            }
            if got != want {
                return viol(
                    "bytes-not-conserved",
                    format!("sent {}, listed {}", spaced(&want), spaced(&got)),
                );
            }
        }
        Ok(())
    }
}

// ----------------------------------------------------------------------- C10

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct CutSc {
    pub tg: Telegram,
    /// Cut points tried: all, or the given one.
    pub only: Option<u16>,
}

pub struct C10;
impl Prop for C10 {
    type Sc = CutSc;
    fn meta(&self) -> Meta {
        Meta {
            id: "C10",
            level: "fault_enumeration",
            rule: "every cut point of every generated payload, each judged; distinct = (coding of the record hit, part hit, bytes missing, records before)",
            quick: 30_000,
            thorough: 1_200_000,
            components: REAL,
            stubs: STUBS,
            measure: "not a schedule: number of distinct cut telegrams by (records before cut, bytes into record)",
        }
    }
    fn gen(&self, r: &mut Rng, _t: Tier, _i: u64) -> CutSc {
        let mut tg = gen_telegram(r, Medium::Both, Kind::Records);
        if r.chance(3, 4) {
            tg.recs.truncate(6);
        }
        CutSc { tg, only: None }
    }
    fn exec(&self, sc: &CutSc, cx: &mut Cx) -> Res {
        let tg = &sc.tg;
        let w = tg.encode();
        if !tg.carries_records() {
            return Ok(());
        }
        let payload = w.payload.clone().unwrap_or_default();
        let n = w.plain.len();
        let range = match sc.only {
            Some(p) => {
                let p = usize::from(p).min(n);
                p..=p
            }
            None => 0..=n,
        };
        for p in range {
            let (bytes, normal) = tg.frame(&payload[..w.start + p]);
            if tg.ambiguous(&normal) {
                continue;
            }
            cx.fault("payload_cut");
            // What survives the cut.
            let mut exp: Vec<Exp> = Vec::new();
            let mut stop = None;
            for (sp, e) in w.spans.iter().zip(&w.exp) {
                if sp.3 <= p {
                    exp.push(e.clone());
                } else if sp.1 < p {
                    if e.val == EVal::Mfr {
                        let mut e = e.clone();
                        e.data = w.plain[sp.2..p].to_vec();
                        exp.push(e);
                    } else {
                        stop = Some((sp.1, e));
                    }
                }
            }
            let high = decode(cx, &bytes, None)?;
            cx.event(|| format!("{p} {}", high.is_ok()));
            cx.note(|| format!("cut at {p} of {n}: {}", spaced(&bytes)));
            let doc = match high {
                Ok(d) => d,
                Err(e) => return viol("cut-rejected", format!("cut at {p}: {e}")),
            };
            let at = |v: crate::engine::Viol| crate::engine::Viol {
                msg: format!("cut at {p} of {n}: {}", v.msg),
                ..v
            };
            oracle::records(&exp, &doc["records"], oracle::EVERYTHING).map_err(at)?;
            cx.evals += 1;
            let diag = has_diag(&doc, "application.record_partial");
            match stop {
                Some((off, e)) => {
                    if doc["decode_state"] != json!("partial") {
                        return viol(
                            "cut-not-marked",
                            format!("cut at {p} of {n}: state {}", doc["decode_state"]),
                        );
                    }
                    match diag {
                        Some(d) if d["offset_start"] == json!(off) => {}
                        d => {
                            return viol(
                                "cut-diagnostic",
                                format!("cut at {p} of {n}: must name offset {off}, is {d:?}"),
                            )
                        }
                    }
                    cx.sig(&format!(
                        "{}{}{}{}",
                        e.coding,
                        if p < off + e.header.len() {
                            "header"
                        } else {
                            "data"
                        },
                        off + e.header.len() + e.data.len() - p,
                        exp.len().min(4)
                    ));
                    cx.sample(json!({"cut": p, "of": n, "records_kept": exp.len(), "diagnostic": diag_text(&doc)}));
                }
                None => {
                    if doc["decode_state"] != json!("complete") || diag.is_some() {
                        return viol(
                            "boundary-marked-partial",
                            format!(
                                "cut at {p} of {n} is a record boundary, state {} {}",
                                doc["decode_state"], doc["diagnostics"]
                            ),
                        );
                    }
                    cx.sig(&format!("boundary{}", exp.len().min(8)));
                }
            }
            cx.orders.insert(crate::rng::hash_bytes(
                format!("{}-{}", exp.len(), p).as_bytes(),
            ));
            if !tg.msb() && p > 0 {
                let list = cx.call("decode_data_records", || {
                    m_bus_parser::decode_data_records(&w.plain[..p])
                        .map(|v| serde_json::to_value(v).unwrap())
                        .map_err(|e| (e.code().to_string(), e.to_string()))
                })?;
                match (list, stop) {
                    (Ok(v), None) => oracle::records(&exp, &v, oracle::EVERYTHING).map_err(at)?,
                    (Ok(_), Some(_)) => {
                        return viol("record-list-accepted-cut", format!("cut at {p} of {n}"))
                    }
                    (Err((c, m)), Some((off, _))) => {
                        if c != "application.records_invalid"
                            || !m.contains(&format!("offset {off}:"))
                        {
                            return viol(
                                "record-list-error",
                                format!("cut at {p} of {n}: must name offset {off}: {c} {m}"),
                            );
                        }
                    }
                    (Err((c, m)), None) => {
                        return viol(
                            "record-list-rejected",
                            format!("cut at {p} of {n}: {c} {m}"),
                        )
                    }
                }
            }
        }
        // Cuts inside the application header: nothing may be invented.
        if sc.only.is_none() {
            for p in 1..w.start {
                let (bytes, _) = tg.frame(&payload[..p]);
                if let Ok(doc) = decode(cx, &bytes, None)? {
                    cx.fault("header_cut");
                    if doc["records"].as_array().is_some_and(|a| !a.is_empty()) {
                        return viol(
                            "records-from-cut-header",
                            format!("header cut at {p}: {}", doc["records"]),
                        );
                    }
                    if doc["decode_state"] != json!("partial") && !matches!(tg.app, App::NoHdr) {
                        return viol(
                            "cut-header-not-marked",
                            format!("header cut at {p}: {}", doc["decode_state"]),
                        );
                    }
                }
            }
        }
        Ok(())
    }
}

fn diag_text(doc: &Value) -> Value {
    doc["diagnostics"].clone()
}

// ----------------------------------------------------------------------- C11

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct DamageSc {
    pub tg: Telegram,
    /// (record, damage XORed onto its value bytes).
    pub hits: Vec<(u16, Hex)>,
    /// Orders in which the same records are sent again.
    pub perms: Vec<Vec<u16>>,
}

pub struct C11;
impl C11 {
    fn strip(v: &Value) -> Value {
        let mut v = v.clone();
        if let Some(o) = v.as_object_mut() {
            o.remove("index");
        }
        v
    }
}
impl Prop for C11 {
    type Sc = DamageSc;
    fn meta(&self) -> Meta {
        Meta {
            id: "C11",
            level: "exploration",
            rule: "records compared between paired runs (undamaged against damaged, alone or permuted); distinct = (coding hit, position, outcome, number of records)",
            quick: 200_000,
            thorough: 6_000_000,
            components: REAL,
            stubs: STUBS,
            measure: "distinct record orders sent (hash of the permutation)",
        }
    }
    fn gen(&self, r: &mut Rng, _t: Tier, _i: u64) -> DamageSc {
        let mut tg = gen_telegram(r, Medium::Both, Kind::Records);
        let msb = tg.msb();
        while tg.recs.len() < 2 {
            tg.recs.push(gen_rec(r, msb));
        }
        tg.recs.truncate(12);
        let n = tg.recs.len();
        let hits = (0..r.range(1, 4))
            .map(|_| {
                let k = r.range(1, 8);
                let x = if r.chance(1, 3) {
                    let mut v = vec![0; k];
                    let i = r.below(k);
                    v[i] = 1 << r.below(8);
                    v
                } else {
                    r.bytes(k)
                };
                (r.below(n) as u16, Hex(x))
            })
            .collect();
        let perms = (0..r.range(0, 3))
            .map(|_| {
                let mut p: Vec<u16> = (0..n as u16).collect();
                r.shuffle(&mut p);
                if r.chance(1, 4) {
                    p.truncate(r.range(1, n));
                }
                p
            })
            .collect();
        DamageSc { tg, hits, perms }
    }
    fn exec(&self, sc: &DamageSc, cx: &mut Cx) -> Res {
        let tg = &sc.tg;
        let w = tg.encode();
        if !tg.carries_records() || w.ambiguous {
            return Ok(());
        }
        let base = match decode(cx, &w.bytes, None)? {
            Ok(d) => d,
            Err(e) => return viol("intact-rejected", e),
        };
        let empty = vec![];
        let recs = base["records"].as_array().unwrap_or(&empty).clone();
        if recs.len() != w.exp.len() {
            return viol(
                "record-count",
                format!("{} sent, {} reported", w.exp.len(), recs.len()),
            );
        }
        let payload = w.payload.clone().unwrap_or_default();
        let lows = low_dump(cx, &payload)?;
        if lows.len() != recs.len() {
            return viol(
                "low-record-count",
                format!("{} sent, {} read", recs.len(), lows.len()),
            );
        }
        for (k, x) in &sc.hits {
            if w.spans.is_empty() {
                break;
            }
            let k = usize::from(*k) % w.spans.len();
            let sp = w.spans[k];
            let fixed = matches!(w.exp[k].coding, c if c.ends_with("integer") || c.ends_with("BCD") || c.ends_with("real") || c.contains("type"));
            if !fixed || sp.2 == sp.3 {
                continue;
            }
            let mut p = payload.clone();
            for (i, b) in (sp.2..sp.3).zip(x.0.iter()) {
                p[w.start + i] ^= b;
            }
            let val = p[w.start + sp.2..w.start + sp.3].to_vec();
            let (bytes, normal) = tg.frame(&p);
            if tg.ambiguous(&normal) {
                continue;
            }
            cx.fault("value_damaged");
            let doc = match decode(cx, &bytes, None)? {
                Ok(d) => d,
                Err(e) => return viol("damaged-rejected", e),
            };
            cx.event(|| format!("hit {k} {}", doc["decode_state"]));
            cx.note(|| format!("damaged record {k}: {}", spaced(&bytes)));
            let got = doc["records"].as_array().unwrap_or(&empty);
            let undecodable =
                w.exp[k].coding.ends_with("BCD") && val.iter().any(|b| b & 15 > 9 || b >> 4 > 9);
            cx.evals += recs.len() as u64;
            for i in 0..k {
                if got.get(i) != Some(&recs[i]) {
                    return viol(
                        "earlier-record-changed",
                        format!(
                            "damage in record {k}: record {i} was {}, is {:?}",
                            recs[i],
                            got.get(i)
                        ),
                    );
                }
            }
            let stopped = got.len() == k;
            if stopped && undecodable {
                match has_diag(&doc, "application.record_partial") {
                    Some(d)
                        if d["offset_start"] == json!(sp.1)
                            && doc["decode_state"] == json!("partial") => {}
                    d => {
                        return viol(
                            "stop-diagnostic",
                            format!("must name offset {}: {d:?}", sp.1),
                        )
                    }
                }
            } else {
                for i in k + 1..recs.len() {
                    if got.get(i) != Some(&recs[i]) {
                        return viol(
                            "later-record-changed",
                            format!(
                                "damage in record {k}: record {i} was {}, is {:?}",
                                recs[i],
                                got.get(i)
                            ),
                        );
                    }
                }
                if got.len() != recs.len() {
                    return viol(
                        "record-count-changed",
                        format!(
                            "damage in record {k}: {} records, were {}",
                            got.len(),
                            recs.len()
                        ),
                    );
                }
                // Only the value of the hit record may differ.
                for f in [
                    "function",
                    "storage_number",
                    "tariff",
                    "subunit",
                    "quantities",
                    "unit",
                    "data_coding",
                    "header_hex",
                ] {
                    if got[k].get(f) != recs[k].get(f) {
                        return viol(
                            "header-of-hit-record-changed",
                            format!(
                                "record {k}: {f} was {:?}, is {:?}",
                                recs[k].get(f),
                                got[k].get(f)
                            ),
                        );
                    }
                }
                if got[k]["data_hex"] != json!(spaced(&val)) {
                    return viol(
                        "value-bytes",
                        format!(
                            "record {k}: must be {}, is {}",
                            spaced(&val),
                            got[k]["data_hex"]
                        ),
                    );
                }
            }
            let low = low_dump(cx, &p)?;
            let upto = if undecodable { k } else { recs.len() };
            for i in (0..upto).filter(|i| *i != k) {
                if low.get(i) != Some(&lows[i]) {
                    return viol(
                        "low-record-changed",
                        format!(
                            "damage in record {k}: record {i} was {}, is {:?}",
                            lows[i],
                            low.get(i)
                        ),
                    );
                }
            }
            cx.sig(&format!("{}{k}{stopped}{}", w.exp[k].coding, recs.len()));
            cx.sample(json!({"record": k, "damage": spaced(&x.0), "stopped": stopped, "records": recs.len()}));
        }
        // The same records in other orders, and alone.
        let mut perms: Vec<Vec<u16>> = sc.perms.clone();
        perms.extend((0..tg.recs.len().min(4) as u16).map(|i| vec![i]));
        for p in &perms {
            if tg.recs.is_empty() {
                break;
            }
            let idx: Vec<usize> = p.iter().map(|i| usize::from(*i) % tg.recs.len()).collect();
            let mut t2 = tg.clone();
            t2.recs = idx.iter().map(|i| tg.recs[*i].clone()).collect();
            t2.tail = Tail::None;
            let w2 = t2.encode();
            let full = Telegram {
                tail: Tail::None,
                fill: 0,
                ..tg.clone()
            }
            .encode();
            if w2.ambiguous || full.exp.len() != tg.recs.len() || w2.exp.len() != idx.len() {
                continue;
            }
            // A record that did not fit beside the tail was not sent.
            if idx
                .iter()
                .any(|i| w.exp.get(*i).map(|e| &e.header) != Some(&full.exp[*i].header))
            {
                continue;
            }
            cx.fault("records_reordered");
            let doc = match decode(cx, &w2.bytes, None)? {
                Ok(d) => d,
                Err(e) => return viol("intact-rejected", e),
            };
            cx.event(|| format!("perm {idx:?} {}", doc["decode_state"]));
            cx.note(|| format!("order {idx:?}: {}", spaced(&w2.bytes)));
            cx.orders
                .insert(crate::rng::hash_bytes(format!("{idx:?}").as_bytes()));
            let got = doc["records"].as_array().unwrap_or(&empty);
            cx.evals += idx.len() as u64;
            if got.len() != idx.len() {
                return viol(
                    "order-changes-count",
                    format!("order {idx:?}: {} of {} records", got.len(), idx.len()),
                );
            }
            for (j, i) in idx.iter().enumerate() {
                if recs.get(*i).map(Self::strip) != Some(Self::strip(&got[j])) {
                    return viol(
                        "order-changes-record",
                        format!(
                            "order {idx:?}: record {i} was {:?}, is {}",
                            recs.get(*i),
                            got[j]
                        ),
                    );
                }
            }
            let low = low_dump(cx, &w2.payload.clone().unwrap_or_default())?;
            for (j, i) in idx.iter().enumerate() {
                if low.get(j) != lows.get(*i) {
                    return viol(
                        "order-changes-low-record",
                        format!(
                            "order {idx:?}: record {i} was {:?}, is {:?}",
                            lows.get(*i),
                            low.get(j)
                        ),
                    );
                }
            }
            cx.sig(&format!("perm{}{:?}", idx.len(), idx.first()));
        }
        Ok(())
    }
}

// ----------------------------------------------------------------------- C12

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct ReaderSc {
    pub tg: Telegram,
    /// Damage to the payload before reading.
    pub faults: Vec<chan::Fault>,
    /// (operation, reader): 0..=5 step, 6 clone, 7 drop, 8 new reader.
    pub ops: Vec<(u8, u8)>,
    /// Number of real threads the readers hop over (0 = none).
    pub threads: u8,
}

pub struct C12;
impl Prop for C12 {
    type Sc = ReaderSc;
    fn meta(&self) -> Meta {
        Meta {
            id: "C12",
            level: "exploration",
            rule: "reader steps compared with the uninterrupted reading; distinct = (operation sequence, items in payload, error at end)",
            quick: 250_000,
            thorough: 8_000_000,
            components: &["m-bus-application-layer", "m-bus-core"],
            stubs: &["reader scheduler (token passing)", "meters (encoder model)"],
            measure: "distinct operation schedules (hash of the whole op sequence)",
        }
    }
    fn gen(&self, r: &mut Rng, _t: Tier, i: u64) -> ReaderSc {
        let mut tg = gen_telegram(r, Medium::Both, Kind::Records);
        tg.recs.truncate(10);
        let len = tg.encode().payload.map_or(1, |p| p.len());
        let faults = if r.chance(1, 2) {
            let s = chan::Swarm::new(r, chan::DAMAGE);
            s.faults(r, len)
        } else {
            vec![]
        };
        let n = r.range(5, 60);
        ReaderSc {
            tg,
            faults,
            ops: (0..n)
                .map(|_| (r.below(9) as u8, r.below(6) as u8))
                .collect(),
            threads: if i % 16 == 0 { r.range(1, 3) as u8 } else { 0 },
        }
    }
    fn exec(&self, sc: &ReaderSc, cx: &mut Cx) -> Res {
        let w = sc.tg.encode();
        let mut payload = w.payload.clone().unwrap_or_default();
        for f in &sc.faults {
            f.apply(&mut payload, &[]);
            cx.fault(f.kind());
        }
        let keep = payload.clone();
        let trace = cx.trace.is_some();
        // Everything borrows from the parsed block, so one closure does it.
        let r = cx.call(
            "record readers",
            || -> Result<(u64, u64, bool, Vec<String>), crate::engine::Viol> {
                let Ok(block) = user_data::parse_application_layer(&payload) else {
                    return Ok((0, 0, false, vec![]));
                };
                let Some(fresh) = block.data_records() else {
                    return Ok((0, 0, false, vec![]));
                };
                // One uninterrupted reading.
                let mut reference: Vec<(String, usize)> = Vec::new();
                let mut it = fresh.clone();
                let mut failed = false;
                for _ in 0..=payload.len() {
                    match it.next() {
                        None => break,
                        Some(x) => {
                            failed |= x.is_err();
                            reference.push((format!("{x:?}"), it.offset()));
                        }
                    }
                }
                let end = it.offset();
                let mut readers: Vec<(DataRecords<'_>, usize)> = vec![(fresh.clone(), 0)];
                let mut steps = 0u64;
                let mut log = Vec::new();
                let mut run_op =
                    |op: u8, who: u8, readers: &mut Vec<(DataRecords<'_>, usize)>| -> Res {
                        Ok(()).and_then(|()| {
                            if readers.is_empty() {
                                return Ok(());
                            }
                            let i = usize::from(who) % readers.len();
                            let (rd, pos) = &mut readers[i];
                            steps += 1;
                            let got = rd.next().map(|x| format!("{x:?}"));
                            let want = reference.get(*pos).map(|x| x.0.clone());
                            if trace {
                                log.push(format!("op {op} reader {i} at item {pos}: {got:?}"));
                            }
                            if got != want {
                                return viol(
                                    "reader-item",
                                    format!("reader {i}, item {pos}: must be {want:?}, is {got:?}"),
                                );
                            }
                            let want_off = reference.get(*pos).map_or(end, |x| x.1);
                            if rd.offset() != want_off {
                                return viol(
                                    "reader-offset",
                                    format!(
                                        "reader {i} after item {pos}: must be {want_off}, is {}",
                                        rd.offset()
                                    ),
                                );
                            }
                            *pos += 1;
                            Ok(())
                        })
                    };
                if sc.threads == 0 {
                    for (op, who) in &sc.ops {
                        match op {
                            0..=5 => run_op(*op, *who, &mut readers)?,
                            6 => {
                                if !readers.is_empty() && readers.len() < 12 {
                                    let c = readers[usize::from(*who) % readers.len()].clone();
                                    readers.push(c);
                                }
                            }
                            7 => {
                                if readers.len() > 1 {
                                    readers.swap_remove(usize::from(*who) % readers.len());
                                }
                            }
                            _ => {
                                if readers.len() < 12 {
                                    readers.push((fresh.clone(), 0));
                                }
                            }
                        }
                    }
                } else {
                    // The op sequence decides which thread acts next; a token
                    // makes the interleaving exact.
                    let state = std::sync::Mutex::new((0usize, readers, Ok(()) as Res));
                    let turn = std::sync::Condvar::new();
                    let n = usize::from(sc.threads);
                    let fresh_ref = &fresh;
                    let run = std::sync::Mutex::new(&mut run_op);
                    let (state_ref, turn_ref, run_ref) = (&state, &turn, &run);
                    let ops = &sc.ops;
                    std::thread::scope(|s| {
                        for t in 0..n {
                            s.spawn(move || loop {
                                let mut g = state_ref.lock().unwrap();
                                while g.0 < ops.len()
                                    && usize::from(ops[g.0].1) % n != t
                                    && g.2.is_ok()
                                {
                                    g = turn_ref.wait(g).unwrap();
                                }
                                if g.0 >= ops.len() || g.2.is_err() {
                                    turn_ref.notify_all();
                                    return;
                                }
                                let (op, who) = ops[g.0];
                                let readers = &mut g.1;
                                let r = match op {
                                    0..=5 => (run_ref.lock().unwrap())(op, who, readers),
                                    6 => {
                                        if !readers.is_empty() && readers.len() < 12 {
                                            let c =
                                                readers[usize::from(who) % readers.len()].clone();
                                            readers.push(c);
                                        }
                                        Ok(())
                                    }
                                    7 => {
                                        if readers.len() > 1 {
                                            readers.swap_remove(usize::from(who) % readers.len());
                                        }
                                        Ok(())
                                    }
                                    _ => {
                                        if readers.len() < 12 {
                                            readers.push((fresh_ref.clone(), 0));
                                        }
                                        Ok(())
                                    }
                                };
                                g.2 = r;
                                g.0 += 1;
                                turn_ref.notify_all();
                            });
                        }
                    });
                    state.into_inner().unwrap().2?;
                }
                Ok((steps, reference.len() as u64, failed, log))
            },
        )?;
        let (steps, items, failed, log) = r?;
        for l in log {
            cx.note(|| l);
        }
        if payload != keep {
            return viol("input-modified", "the payload changed while being read");
        }
        cx.evals += steps;
        cx.event(|| format!("{steps} {items} {failed}"));
        cx.orders
            .insert(crate::rng::hash_bytes(format!("{:?}", sc.ops).as_bytes()));
        if sc.threads > 0 {
            cx.probe("threads");
        }
        if items > 0 {
            cx.sig(&format!(
                "{:?}{items}{failed}",
                &sc.ops[..sc.ops.len().min(6)]
            ));
        }
        cx.sample(json!({"ops": sc.ops.len(), "items": items, "ends_with_error": failed}));
        let _ = acc::crc16;
        Ok(())
    }
}
