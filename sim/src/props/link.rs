//! C01–C04: link layer, wired and wireless.

use super::{ORDER, STUBS};
use crate::acc;
use crate::chan::{self, Fault};
use crate::engine::{viol, Cx, Meta, Prop, Res, Tier};
use crate::gen::{gen_traffic, Kind, Medium, Traffic};
use crate::model::{Enc, Link, Telegram, Wire};
use crate::oracle::decode;
use crate::rng::Rng;
use crate::util::{spaced, upper};
use m_bus_parser::{Address, Function, WiredFrame, WirelessFrame};
use serde_json::json;

const REAL: &[&str] = &[
    "wired-mbus-link-layer",
    "wireless-mbus-link-layer",
    "m-bus-core",
    "m-bus-application-layer",
    "m-bus-parser decoder",
];

fn fn_eq(c: u8, f: &Function) -> bool {
    match f {
        Function::SndNk { prm } => c == 0x40 && !prm,
        Function::SndNr => c == 0x44,
        Function::SndUd { fcb } => c == if *fcb { 0x73 } else { 0x53 },
        Function::ReqUd2 { fcb } => c == if *fcb { 0x7B } else { 0x5B },
        Function::ReqUd1 { fcb } => c == if *fcb { 0x7A } else { 0x5A },
        Function::RspUd { acd, dfc } => c == 0x08 | u8::from(*acd) << 5 | u8::from(*dfc) << 4,
        _ => false,
    }
}

pub fn addr_eq(a: u8, x: &Address) -> bool {
    match x {
        Address::Uninitalized => a == 0,
        Address::Primary(n) => *n == a && (1..=252).contains(&a),
        Address::Secondary => a == 253,
        Address::Broadcast { reply_required } => a == if *reply_required { 254 } else { 255 },
        _ => false,
    }
}

/// What the low-level parser made of the bytes, compared with the acceptor.
fn low_wired(b: &[u8], f: &WiredFrame<'_>) -> Res {
    let Some(want) = acc::wired(b) else {
        return viol(
            "accepted-damaged-frame",
            format!("not a wired telegram, but parsed as {f:?}"),
        );
    };
    let ok = match (&want, f) {
        (acc::Wired::Ack, WiredFrame::SingleCharacter { character }) => *character == 0xE5,
        (acc::Wired::Short { c, a }, WiredFrame::ShortFrame { function, address }) => {
            fn_eq(*c, function) && addr_eq(*a, address)
        }
        (
            acc::Wired::Long { c, a, data: d },
            WiredFrame::LongFrame {
                function,
                address,
                data,
            },
        ) => *c != 0x53 && fn_eq(*c, function) && addr_eq(*a, address) && d == data,
        (
            acc::Wired::Long { c, a, data: d },
            WiredFrame::ControlFrame {
                function,
                address,
                data,
            },
        ) => *c == 0x53 && fn_eq(*c, function) && addr_eq(*a, address) && d == data,
        _ => false,
    };
    if ok {
        Ok(())
    } else {
        viol(
            "wired-content",
            format!("telegram {want:?} reported as {f:?}"),
        )
    }
}

pub struct C01;
impl Prop for C01 {
    type Sc = Traffic;
    fn meta(&self) -> Meta {
        Meta {
            id: "C01",
            level: "exploration",
            rule: "intact wired deliveries judged; distinct = (link kind, function code, address, payload length, kinds of faults around it)",
            quick: 200_000,
            thorough: 5_000_000,
            components: REAL,
            stubs: STUBS,
            measure: ORDER,
        }
    }
    fn gen(&self, r: &mut Rng, _t: Tier, _i: u64) -> Traffic {
        let n = r.range(2, 10);
        gen_traffic(r, Medium::Wired, Kind::Any, chan::ALL, n)
    }
    fn exec(&self, sc: &Traffic, cx: &mut Cx) -> Res {
        let wires: Vec<Wire> = sc.sends.iter().map(|s| s.tg.encode()).collect();
        for d in sc.run(&wires, cx) {
            let w = &wires[d.src];
            let tg = &sc.sends[d.src].tg;
            let low = cx.call("WiredFrame::try_from", || {
                WiredFrame::try_from(&d.bytes[..]).map_err(|e| format!("{e:?}"))
            })?;
            let high = decode(cx, &d.bytes, None)?;
            cx.event(|| format!("{} {:?} {}", d.at, low.is_ok(), high.is_ok()));
            cx.note(|| {
                format!(
                    "t={}us bytes={} intact={}",
                    d.at,
                    spaced(&d.bytes),
                    d.intact
                )
            });
            if acc::wired(&d.bytes).is_none() {
                continue;
            }
            // Whatever happened to it, this is exactly one wired telegram.
            cx.evals += 1;
            match &low {
                Err(e) => {
                    return viol(
                        "intact-rejected",
                        format!("rejected with {e}: {}", spaced(&d.bytes)),
                    )
                }
                Ok(f) => low_wired(&d.bytes, f)?,
            }
            if !d.intact {
                cx.probe("damaged_into_valid");
                continue;
            }
            let (proto, frame) = tg.expect_frame();
            match &high {
                Err(e) => {
                    return viol(
                        "intact-rejected-by-decoder",
                        format!("decoder error {e}: {}", spaced(&d.bytes)),
                    )
                }
                Ok(doc) => {
                    if doc["protocol"] != proto || doc["frame"] != frame {
                        return viol(
                            "frame-section",
                            format!(
                                "must be {proto} {frame}, reported {} {}",
                                doc["protocol"], doc["frame"]
                            ),
                        );
                    }
                    let pay = w.payload.as_ref().map(|p| json!(upper(p)));
                    if doc["raw"].get("payload_hex") != pay.as_ref() {
                        return viol(
                            "payload",
                            format!(
                                "payload must be {pay:?}, reported {}",
                                doc["raw"]["payload_hex"]
                            ),
                        );
                    }
                    let raw = &doc["raw"];
                    if raw["original_frame_hex"] != json!(upper(&d.bytes))
                        || raw["normalized_frame_hex"] != json!(upper(&d.bytes))
                        || raw["byte_length"] != json!(d.bytes.len())
                        || raw["format_a_crc_stripped"] != json!(false)
                    {
                        return viol("raw-section", format!("raw section {raw}"));
                    }
                }
            }
            let around: Vec<&str> = sc
                .sends
                .iter()
                .flat_map(|s| s.faults.first())
                .map(|f| f.kind())
                .take(3)
                .collect();
            let plen = w.payload.as_ref().map_or(0, Vec::len);
            cx.sig(&format!("{frame}{plen}{around:?}"));
            cx.sample(json!({"sent": spaced(&w.bytes), "reported": frame}));
        }
        Ok(())
    }
    fn directed(&self) -> Vec<Traffic> {
        // Every link-only telegram and every payload length once.
        let mut v = Vec::new();
        let mk = |link: Link, n: usize| crate::gen::Send {
            at: n as u64,
            tg: Telegram {
                link,
                app: crate::model::App::Raw {
                    bytes: crate::util::Hex(vec![0x51; n]),
                },
                cfg: 0,
                sec: None,
                recs: vec![],
                tail: crate::model::Tail::None,
                fill: 0,
            },
            faults: vec![],
        };
        for &c in crate::gen::WIRED_C {
            v.push(Traffic {
                sends: (0..=255u8).map(|a| mk(Link::Short { c, a }, 1)).collect(),
            });
            v.push(Traffic {
                sends: (0..=255u8).map(|a| mk(Link::Long { c, a }, 1)).collect(),
            });
        }
        v.push(Traffic {
            sends: (1..=240)
                .map(|n| mk(Link::Long { c: 8, a: 1 }, n))
                .collect(),
        });
        v
    }
}

pub struct C02;
impl Prop for C02 {
    type Sc = Traffic;
    fn meta(&self) -> Meta {
        Meta {
            id: "C02",
            level: "exploration",
            rule: "damaged wired deliveries judged; distinct = (fault kinds, first byte, length relation, which acceptance condition fails)",
            quick: 400_000,
            thorough: 8_000_000,
            components: REAL,
            stubs: STUBS,
            measure: ORDER,
        }
    }
    fn gen(&self, r: &mut Rng, _t: Tier, i: u64) -> Traffic {
        let n = r.range(2, 10);
        let mut t = gen_traffic(r, Medium::Wired, Kind::Any, chan::ALL, n);
        for s in &mut t.sends {
            let len = s.tg.encode().bytes.len();
            if s.faults.is_empty() {
                s.faults.push(chan::gen_fault(r, 3 + (i % 13) as u8, len));
            }
            // A relay that repairs the outer shape reaches the inner checks.
            if r.chance(1, 3) {
                s.faults.push(if r.bool() {
                    Fault::Refit
                } else {
                    Fault::Reseal
                });
            }
            if r.chance(1, 6) {
                let p = r.below(6) as u16;
                s.faults.push(Fault::Set(p, r.edge_u8()));
                s.faults.push(Fault::Reseal);
            }
            if r.chance(1, 10) {
                // Damage that cancels in the sum.
                let (p, q) = (r.below(len) as u16, r.below(len) as u16);
                s.faults.push(Fault::Swap(p, q));
            }
        }
        t
    }
    fn exec(&self, sc: &Traffic, cx: &mut Cx) -> Res {
        let wires: Vec<Wire> = sc.sends.iter().map(|s| s.tg.encode()).collect();
        for d in sc.run(&wires, cx) {
            let low = cx.call("WiredFrame::try_from", || {
                WiredFrame::try_from(&d.bytes[..]).map_err(|e| format!("{e:?}"))
            })?;
            let data = cx.call("MbusData::try_from", || {
                m_bus_parser::mbus_data::MbusData::<WiredFrame>::try_from(&d.bytes[..]).is_ok()
            })?;
            let high = decode(cx, &d.bytes, None)?;
            let good = acc::wired(&d.bytes);
            cx.event(|| format!("{} {} {}", d.at, low.is_ok(), high.is_ok()));
            cx.note(|| format!("t={}us bytes={} low={low:?}", d.at, spaced(&d.bytes)));
            if let Ok(f) = &low {
                low_wired(&d.bytes, f)?;
            }
            if good.is_some() {
                continue;
            }
            cx.evals += 1;
            if data {
                return viol(
                    "mbusdata-accepted",
                    format!("MbusData accepted {}", spaced(&d.bytes)),
                );
            }
            if let Ok(doc) = &high {
                if doc["protocol"] == json!("wired") {
                    return viol(
                        "decoder-accepted",
                        format!("reported as wired {}: {}", doc["frame"], spaced(&d.bytes)),
                    );
                }
            }
            let kinds: Vec<&str> = sc.sends[d.src].faults.iter().map(|f| f.kind()).collect();
            let b = &d.bytes;
            let why = match b.first() {
                None => "empty",
                Some(0x68) if b.len() < 6 => "short",
                Some(0x68) if b[1] != b[2] => "lengths-differ",
                Some(0x68) if b[3] != 0x68 => "start2",
                Some(0x68) if b.len() != usize::from(b[1]) + 6 => "length",
                Some(0x68) if b[b.len() - 1] != 0x16 => "stop",
                Some(0x68) if !acc::known_c(b[4]) => "function",
                Some(0x68) => "checksum",
                Some(0x10) if b.len() != 5 => "short-length",
                Some(0x10) if b[4] != 0x16 => "short-stop",
                Some(0x10) if !acc::known_c(b[1]) => "short-function",
                Some(0x10) => "short-checksum",
                Some(0xE5) => "ack-extra",
                _ => "start",
            };
            cx.probe(&format!("reject_{why}"));
            cx.sig(&format!("{kinds:?}{why}{:?}{}", b.first(), b.len() / 4));
            cx.sample(json!({"received": spaced(b), "defect": why, "error": low.err()}));
        }
        Ok(())
    }
}

pub struct C03;
impl Prop for C03 {
    type Sc = Traffic;
    fn meta(&self) -> Meta {
        Meta {
            id: "C03",
            level: "exploration",
            rule: "intact wireless deliveries judged; distinct = (encoding, control field, payload length, kinds of faults around it)",
            quick: 200_000,
            thorough: 5_000_000,
            components: REAL,
            stubs: STUBS,
            measure: ORDER,
        }
    }
    fn gen(&self, r: &mut Rng, _t: Tier, _i: u64) -> Traffic {
        let n = r.range(2, 10);
        gen_traffic(r, Medium::Radio, Kind::Any, chan::ALL, n)
    }
    fn exec(&self, sc: &Traffic, cx: &mut Cx) -> Res {
        let wires: Vec<Wire> = sc.sends.iter().map(|s| s.tg.encode()).collect();
        for d in sc.run(&wires, cx) {
            let w = &wires[d.src];
            let tg = &sc.sends[d.src].tg;
            let Link::Radio { c, id, enc } = &tg.link else {
                continue;
            };
            let mut buf = vec![0u8; d.bytes.len()];
            let strip = cx.call("strip_format_a_crcs", || {
                wireless_mbus_link_layer::strip_format_a_crcs(&d.bytes, &mut buf)
                    .map(<[u8]>::to_vec)
            })?;
            let high = decode(cx, &d.bytes, None)?;
            cx.event(|| format!("{} {} {}", d.at, strip.is_some(), high.is_ok()));
            cx.note(|| {
                format!(
                    "t={}us bytes={} intact={}",
                    d.at,
                    spaced(&d.bytes),
                    d.intact
                )
            });
            if !d.intact || w.ambiguous {
                continue;
            }
            cx.evals += 1;
            if matches!(enc, Enc::FormatA | Enc::First) {
                match &strip {
                    None => return viol("strip-refused-intact", spaced(&d.bytes)),
                    Some(s) if *s != w.normal => {
                        return viol(
                            "strip-altered",
                            format!("must be {}, got {}", spaced(&w.normal), spaced(s)),
                        )
                    }
                    _ => {}
                }
            } else if strip.is_some() {
                return viol(
                    "strip-of-crc-free",
                    format!(
                        "CRC removal accepted a telegram without blocks: {}",
                        spaced(&d.bytes)
                    ),
                );
            }
            let pay = w.payload.clone().unwrap_or_default();
            // Low level: fields of the frame parser on the CRC-free form.
            let odd_device = pay.first().is_some_and(|b| (0xA0..=0xAF).contains(b));
            cx.call("WirelessFrame::try_from", || -> Res {
                let f = match WirelessFrame::try_from(&w.normal[..]) {
                    Ok(f) => f,
                    Err(e) => {
                        return viol("intact-rejected", format!("{e:?}: {}", spaced(&w.normal)))
                    }
                };
                if f.control_field != *c {
                    return viol(
                        "control-field",
                        format!("must be {c:02X}, is {:02X}", f.control_field),
                    );
                }
                if f.data != &pay[..] {
                    return viol(
                        "payload",
                        format!("must be {}, is {}", spaced(&pay), spaced(f.data)),
                    );
                }
                let m = &f.manufacturer_id;
                let dt: u8 = m.device_type.into();
                if m.manufacturer_code.to_string() != id.mfr_text()
                    || m.identification_number.number != id.number()
                    || m.version != id.ver
                    || (!odd_device && dt != id.dev)
                {
                    return viol("meter-address", format!("must be {id:?}, is {m:?}"));
                }
                Ok(())
            })??;
            let doc = match &high {
                Ok(d) => d,
                Err(e) if e.starts_with("security.") => continue,
                Err(e) => {
                    return viol(
                        "intact-rejected-by-decoder",
                        format!("decoder error {e}: {}", spaced(&d.bytes)),
                    )
                }
            };
            let (proto, frame) = tg.expect_frame();
            if doc["protocol"] != proto || doc["frame"] != frame {
                return viol(
                    "frame-section",
                    format!(
                        "must be {proto} {frame}, reported {} {}",
                        doc["protocol"], doc["frame"]
                    ),
                );
            }
            let raw = &doc["raw"];
            let want = json!({
                "original_frame_hex": upper(&d.bytes),
                "normalized_frame_hex": upper(&w.normal),
                "byte_length": d.bytes.len(),
                "format_a_crc_stripped": matches!(enc, Enc::FormatA | Enc::First),
                "payload_hex": upper(&pay),
            });
            if *raw != want {
                return viol("raw-section", format!("must be {want}, reported {raw}"));
            }
            let link = std::iter::once(&doc["meter"]["identity"])
                .chain(
                    doc["meter"]["alternate_identities"]
                        .as_array()
                        .into_iter()
                        .flatten(),
                )
                .find(|i| i["source"] == json!("link.wireless"));
            if !odd_device
                && !matches!(tg.app, crate::model::App::Fixed { .. })
                && !matches!(tg.app, crate::model::App::Raw { .. })
            {
                match link {
                    Some(i) if *i == id.json("link.wireless") => {}
                    x => {
                        return viol(
                            "meter-address-section",
                            format!("must be {}, reported {x:?}", id.json("link.wireless")),
                        )
                    }
                }
            }
            let around: Vec<&str> = sc
                .sends
                .iter()
                .flat_map(|s| s.faults.first())
                .map(|f| f.kind())
                .take(3)
                .collect();
            cx.probe(match enc {
                Enc::Plain => "crc_free",
                Enc::Trailing => "trailing_crc",
                Enc::FormatA => "format_a",
                Enc::First => "first_crc_only",
            });
            cx.sig(&format!("{enc:?}{c}{}{around:?}", pay.len()));
            cx.sample(json!({"sent": spaced(&w.bytes), "reported": frame}));
        }
        Ok(())
    }
    fn directed(&self) -> Vec<Traffic> {
        let mk = |enc: Enc, n: usize| crate::gen::Send {
            at: n as u64,
            tg: Telegram {
                link: Link::Radio {
                    c: 0x44,
                    id: crate::model::Ident {
                        mfr: "KAM".into(),
                        id: 12345678,
                        ver: n as u8,
                        dev: 7,
                        hexed: 0,
                    },
                    enc,
                },
                app: crate::model::App::Raw {
                    bytes: crate::util::Hex((0..n).map(|i| 0x51 ^ (i * 7) as u8).collect()),
                },
                cfg: 0,
                sec: None,
                recs: vec![],
                tail: crate::model::Tail::None,
                fill: 0,
            },
            faults: vec![],
        };
        [Enc::FormatA, Enc::Plain, Enc::Trailing, Enc::First]
            .into_iter()
            .map(|e| Traffic {
                sends: (1..=240).map(|n| mk(e.clone(), n)).collect(),
            })
            .collect()
    }
    fn known(&self, input: &[u8], cx: &mut Cx) -> Res {
        // A frame format A telegram: the payload must be what is left after
        // the link header once all block CRCs are checked and removed.
        let Some(want) = acc::format_a(input) else {
            return Ok(());
        };
        match decode(cx, input, None)? {
            Ok(d) if d["raw"]["payload_hex"] == json!(upper(&want[10..])) => Ok(()),
            _ => viol("payload", "payload altered"),
        }
    }
}

pub struct C04;
impl Prop for C04 {
    type Sc = Traffic;
    fn meta(&self) -> Meta {
        Meta {
            id: "C04",
            level: "exploration",
            rule: "damaged frame format A deliveries judged; distinct = (fault kinds, damaged block number, total blocks, verdict)",
            quick: 400_000,
            thorough: 8_000_000,
            components: REAL,
            stubs: STUBS,
            measure: ORDER,
        }
    }
    fn gen(&self, r: &mut Rng, _t: Tier, i: u64) -> Traffic {
        let n = r.range(2, 8);
        let mut t = gen_traffic(r, Medium::Radio, Kind::Any, chan::ALL, n);
        for s in &mut t.sends {
            if let Link::Radio { enc, .. } = &mut s.tg.link {
                *enc = Enc::FormatA;
            }
            let len = s.tg.encode().bytes.len();
            if s.faults.is_empty() {
                s.faults.push(chan::gen_fault(r, 3 + (i % 13) as u8, len));
            }
            if r.chance(1, 4) {
                // Whole blocks lost, repeated or exchanged with stray bytes.
                let blk = 12 + 18 * r.below(12);
                s.faults.push(match r.below(4) {
                    0 => Fault::Cut(blk as u16),
                    1 => Fault::Del(blk as u16, 18),
                    2 => {
                        let b = s.tg.encode().bytes;
                        let p = blk % len.max(1);
                        let e = (p + 18).min(b.len());
                        Fault::Ins(p as u16, crate::util::Hex(b[p..e].to_vec()))
                    }
                    _ => Fault::Flip((len - 1 - r.below(len.min(3))) as u16, r.below(8) as u8),
                });
            }
            if r.chance(1, 16) {
                // A repeater that only repairs the first block.
                s.faults.push(Fault::Recrc);
                s.faults
                    .push(Fault::Flip((12 + r.below(len)) as u16, r.below(8) as u8));
            }
        }
        t
    }
    fn exec(&self, sc: &Traffic, cx: &mut Cx) -> Res {
        let wires: Vec<Wire> = sc.sends.iter().map(|s| s.tg.encode()).collect();
        for d in sc.run(&wires, cx) {
            let b = &d.bytes;
            let mut buf = [0u8; 640];
            let strip = cx.call("strip_format_a_crcs", || {
                wireless_mbus_link_layer::strip_format_a_crcs(b, &mut buf).map(<[u8]>::to_vec)
            })?;
            let high = decode(cx, b, None)?;
            cx.event(|| format!("{} {} {}", d.at, strip.is_some(), high.is_ok()));
            cx.note(|| format!("t={}us bytes={} intact={}", d.at, spaced(b), d.intact));
            if d.intact {
                continue;
            }
            cx.evals += 1;
            let l = b.first().map_or(0, |x| usize::from(*x));
            // The three other shapes the length field can legitimately state.
            let header_only = b.len() == l + 3
                && b.len() >= 12
                && acc::crc16(&b[..10]).to_be_bytes() == b[10..12];
            let plain = b.len() == l + 1;
            let canonical = acc::format_a(b);
            if let Some(s) = &strip {
                let header_form =
                    header_only && s.len() == l + 1 && s[..10] == b[..10] && s[10..] == b[12..];
                if canonical.as_ref() != Some(s) && !header_form && !acc::any_split(b, s) {
                    return viol(
                        "unchecked-bytes-returned",
                        format!("CRC removal returned {} for {}", spaced(s), spaced(b)),
                    );
                }
            }
            let mut verdict = "rejected";
            match &high {
                Ok(doc) if doc["protocol"] == json!("wireless") => {
                    verdict = "other-form";
                    if doc["raw"]["format_a_crc_stripped"] == json!(true) {
                        verdict = "still-valid";
                        if strip.is_none() {
                            return viol(
                                "decoder-stripped",
                                format!(
                                    "decoder removed CRCs that CRC removal refuses: {}",
                                    spaced(b)
                                ),
                            );
                        }
                        if strip.as_ref().map(|s| json!(upper(s)))
                            != Some(doc["raw"]["normalized_frame_hex"].clone())
                        {
                            return viol(
                                "decoder-normalised",
                                format!(
                                    "decoder normalised {} to {}",
                                    spaced(b),
                                    doc["raw"]["normalized_frame_hex"]
                                ),
                            );
                        }
                    } else if !plain {
                        return viol(
                            "damaged-block-decoded",
                            format!("decoder reported a telegram for {}", spaced(b)),
                        );
                    }
                }
                _ => {}
            }
            let clean = &wires[d.src].bytes;
            let first = b
                .iter()
                .zip(clean)
                .position(|(x, y)| x != y)
                .unwrap_or(b.len().min(clean.len()));
            let block = if first < 12 { 0 } else { 1 + (first - 12) / 18 };
            let kinds: Vec<&str> = sc.sends[d.src].faults.iter().map(|f| f.kind()).collect();
            cx.probe(&format!("{verdict}_block{}", block.min(4)));
            cx.sig(&format!("{kinds:?}{block}{}{verdict}", clean.len() / 18));
            cx.sample(json!({"sent": spaced(clean), "received": spaced(b), "verdict": verdict}));
        }
        Ok(())
    }
}
