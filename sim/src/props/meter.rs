//! C25 (who sent it) and C26 (polled readout).

use super::{ORDER, STUBS};
use crate::acc;
use crate::chan::{self, Fault};
use crate::engine::{viol, Cx, Meta, Prop, Res, Tier};
use crate::gen::*;
use crate::model::*;
use crate::oracle::{self, decode};
use crate::rng::Rng;
use crate::util::{compact, spaced, upper};
use m_bus_parser as mbp;
use m_bus_parser::user_data::extended_link_layer::{
    EllFormat, EncryptionFields, ExtendedLinkLayer, ReceiverAddress,
};
use m_bus_parser::user_data::{self, UserDataBlock};
use mbp::OutputFormat;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

const REAL: &[&str] = &[
    "wired-mbus-link-layer",
    "wireless-mbus-link-layer",
    "m-bus-core",
    "m-bus-application-layer",
    "m-bus-parser decoder and renderers",
];

pub fn mode_text(m: u8) -> String {
    match m {
        0 => "No encryption used".into(),
        1 => "Manufacturer specific usage".into(),
        2 => "DES; IV = 0 (deprecated)".into(),
        3 => "DES; IV ≠ 0 (deprecated)".into(),
        4 => "Specific usage (Bibliographical Entry [6])".into(),
        5 => "AES-CBC-128; IV ≠ 0".into(),
        7 => "AES-CBC-128; IV = 0".into(),
        8 => "AES-CTR-128; CMAC".into(),
        9 => "AES-GCM-128".into(),
        10 => "AES-CCM-128".into(),
        13 => "Specific usage (Bibliographical Entry [8])".into(),
        15 => "Specific usage (Bibliographical Entry [7])".into(),
        6 | 11 | 12 | 14 => "Reserved for future use".into(),
        m => format!("Reserved for future use (mode {m})"),
    }
}

/// Application data of a kind that is not interpreted: delivered as such,
/// with no header, identity or reading made up from it.
fn not_understood(cx: &mut Cx, tg: &Telegram, ci: u8, doc: &Value) -> Res {
    use user_data::ApplicationLayerError;
    if matches!(ci, 0x50 | 0x72 | 0x73 | 0x76..=0x78 | 0x7A | 0x8C..=0x8E | 0xA0..=0xAF) {
        return Ok(());
    }
    cx.evals += 1;
    let named = matches!(ci, 0x51 | 0x52 | 0x54 | 0x5A | 0x5B | 0x60 | 0x61 | 0x64 | 0x65
        | 0x69..=0x85 | 0x89..=0x8B | 0x90..=0x97 | 0xB1..=0xB4 | 0xB6 | 0xB8..=0xBF);
    let low = cx.call("UserDataBlock::try_from", || match UserDataBlock::try_from(
        &[ci, 0, 0, 0, 0, 0, 0, 0, 0, 0][..],
    ) {
        Err(ApplicationLayerError::InvalidControlInformation { byte }) => byte == ci && !named,
        Err(ApplicationLayerError::Unimplemented { .. }) => named,
        _ => false,
    })?;
    if !low {
        return viol("unknown-kind-low", format!("CI {ci:02X}"));
    }
    let parsed = matches!(tg.link, Link::Radio { .. })
        || matches!(tg.link, Link::Long { c, .. } if c != 0x53);
    if !parsed {
        return Ok(());
    }
    let link = tg.link_ident().map(|i| i.json("link.wireless"));
    let none = |v: &Value| v.as_array().is_none_or(|a| a.is_empty());
    let ok = doc["decode_state"] == json!("partial")
        && oracle::has_diag(doc, "application.partial").is_some()
        && none(&doc["records"])
        && doc["transport"]["header_kind"].is_null()
        && none(&doc["transport"]["access_numbers"])
        && doc["meter"]["identity"] == link.unwrap_or(Value::Null)
        && none(&doc["meter"]["alternate_identities"]);
    if !ok {
        return viol("unknown-kind", format!("CI {ci:02X}: {doc}"));
    }
    Ok(())
}

/// The XML output's word for a device type; types it calls reserved or
/// unknown are not judged.
fn xml_medium(dev: u8) -> Option<&'static str> {
    const LOW: [&str; 0x1D] = [
        "Other",
        "Oil",
        "Electricity",
        "Gas",
        "Heat: Outlet",
        "Steam",
        "Warm water (30-90°C)",
        "Water",
        "Heat Cost Allocator",
        "Compressed Air",
        "Cooling load meter: Outlet",
        "Cooling load meter: Inlet",
        "Heat: Inlet",
        "Heat / Cooling load meter",
        "Bus/System",
        "Unknown Medium",
        "Irrigation Water",
        "Water Logger",
        "Gas Logger",
        "Gas Converter",
        "Calorific value",
        "Hot water (>90°C)",
        "Cold water",
        "Dual water",
        "Pressure",
        "A/D Converter",
        "Smoke Detector",
        "Ambient Sensor",
        "Gas Detector",
    ];
    match dev {
        0x20 => Some("Breaker: Electricity"),
        0x21 => Some("Valve: Gas or Water"),
        0x25 => Some("Customer Unit: Display Device"),
        0x28 => Some("Waste Water"),
        0x29 => Some("Garbage"),
        0x30 => Some("Service Unit"),
        0x36 => Some("Radio Converter: System"),
        0x37 => Some("Radio Converter: Meter"),
        d => LOW.get(usize::from(d)).copied(),
    }
}

/// Sub-codes of the application reset: reported variant and wording.
const RESET: [(&str, &str); 16] = [
    ("All", "All"),
    ("UserData", "User data"),
    ("SimpleBilling", "Simple billing"),
    ("EnhancedBilling", "Enhanced billing"),
    ("MultiTariffBilling", "Multi-tariff billing"),
    ("InstantaneousValues", "Instantaneous values"),
    ("LoadManagementValues", "Load management values"),
    ("Reserved1", "Reserved"),
    ("InstallationStartup", "Installation startup"),
    ("Testing", "Testing"),
    ("Calibration", "Calibration"),
    ("ConfigurationUpdates", "Configuration updates"),
    ("Manufacturing", "Manufacturing"),
    ("Development", "Development"),
    ("Selftest", "Self-test"),
    ("Reserved2", "Reserved"),
];

/// Media of the fixed structure (EN 13757-3).
const FIXED_MEDIUM: [&str; 16] = [
    "Other",
    "Oil",
    "Electricity",
    "Gas",
    "Heat",
    "Steam",
    "Hot Water",
    "Water",
    "H.C.A.",
    "Reserved",
    "Gas Mode 2",
    "Heat Mode 2",
    "Hot Water Mode 2",
    "Water Mode 2",
    "H.C.A. Mode 2",
    "Reserved",
];

pub struct C25;
impl C25 {
    /// What else is asked for changes nothing here: a key leaves the headers
    /// alone, the registry entry is that of the meter named, only on request.
    fn asked_for(&self, cx: &mut Cx, tg: &Telegram, bytes: &[u8], doc: &Value) -> Res {
        let key = tg.sec.as_ref().map(|s| s.key16());
        for (key, on) in [(None, true), (key, false), (key, true)] {
            let got = cx.call("decode_bytes", || {
                mbp::decode_bytes(
                    bytes,
                    &mbp::DecodeOptions {
                        key,
                        include_enrichment: on,
                    },
                )
                .ok()
                .map(|d| serde_json::to_value(d).expect("document serialises"))
            })?;
            // A key may fail to fit the mode.
            let Some(got) = got else { continue };
            for part in ["meter", "transport", "frame"] {
                if got[part] != doc[part] {
                    return viol(
                        "depends-on-request",
                        format!(
                            "{part}, key {}: {} after {}",
                            key.is_some(),
                            got[part],
                            doc[part]
                        ),
                    );
                }
            }
            let e = &got["enrichment"];
            let code = &doc["meter"]["identity"]["manufacturer_code"];
            let known = code
                .as_str()
                .and_then(mbp::manufacturers::lookup_manufacturer);
            let want = match known {
                Some(i) if on => json!({
                    "source": "bundled_manufacturer_registry",
                    "manufacturer_code": code,
                    "manufacturer_name": i.name,
                    "manufacturer_website": i.website,
                    "manufacturer_description": i.description,
                }),
                _ => Value::Null,
            };
            if *e != want {
                return viol("registry-entry", format!("must be {want}, is {e}"));
            }
        }
        Ok(())
    }
}

impl C25 {
    fn xml_field(x: &str, tag: &str) -> Option<String> {
        let a = x.find(&format!("<{tag}>"))? + tag.len() + 2;
        let b = x[a..].find(&format!("</{tag}>"))? + a;
        Some(x[a..b].replace("&gt;", ">"))
    }
}

impl Prop for C25 {
    type Sc = Traffic;
    fn meta(&self) -> Meta {
        Meta {
            id: "C25",
            level: "exploration",
            rule: "intact deliveries whose header fields were compared with the sender's; distinct = (header kind, link, device type, mode, status, whether another meter spoke before)",
            quick: 150_000,
            thorough: 4_000_000,
            components: REAL,
            stubs: STUBS,
            measure: ORDER,
        }
    }
    fn gen(&self, r: &mut Rng, _t: Tier, _i: u64) -> Traffic {
        let n = r.range(2, 6);
        let mut t = gen_traffic(r, Medium::Both, Kind::Any, chan::ALL, n);
        let pool: Vec<Telegram> = (0..3)
            .map(|_| {
                let k = *r.pick(&[Kind::Any, Kind::Records, Kind::Encrypted]);
                gen_telegram(r, Medium::Both, k)
            })
            .collect();
        for s in &mut t.sends {
            if r.chance(2, 3) {
                s.tg = r.pick(&pool).clone();
            }
            if let Some(sec) = &mut s.tg.sec {
                if r.bool() {
                    sec.mode = r.below(32) as u8;
                }
            }
            s.tg.recs.truncate(2);
            // Headers that nearly agree.
            let near = r.below(8);
            if let (Link::Radio { id: l, .. }, App::Long { id, .. }) = (&s.tg.link, &mut s.tg.app) {
                if near < 5 {
                    let keep = id.clone();
                    *id = l.clone();
                    match near {
                        0 => id.mfr = keep.mfr,
                        1 => id.id = keep.id,
                        2 => id.ver = keep.ver,
                        3 => id.dev = keep.dev,
                        _ => {}
                    }
                }
            }
            // A manufacturer number that stands for no letters.
            if r.chance(1, 6) {
                if let App::Long { id, .. } = &mut s.tg.app {
                    let n = match r.below(4) {
                        0 => 0,
                        1 => 0xFFFF,
                        2 => id.code() | 0x8000,
                        _ => r.u64() as u16,
                    };
                    id.mfr = format!("#{n:04X}");
                }
            }
            // A device number with a digit that is none.
            if r.chance(1, 12) {
                let n = 8 * (r.range(1, 8) as u8) + r.below(6) as u8;
                match (&mut s.tg.link, &mut s.tg.app) {
                    (Link::Radio { id, .. }, app)
                        if !matches!(app, App::Long { .. }) || r.bool() =>
                    {
                        id.hexed = n;
                    }
                    (_, App::Long { id, .. }) => id.hexed = n,
                    _ => {}
                }
            }
        }
        t
    }
    fn exec(&self, sc: &Traffic, cx: &mut Cx) -> Res {
        let wires: Vec<Wire> = sc.sends.iter().map(|s| s.tg.encode()).collect();
        let mut prev = usize::MAX;
        for d in sc.run(&wires, cx) {
            let w = &wires[d.src];
            let tg = &sc.sends[d.src].tg;
            let high = decode(cx, &d.bytes, None)?;
            cx.event(|| format!("{} {} {}", d.at, d.src, high.is_ok()));
            cx.note(|| {
                format!(
                    "t={}us bytes={} intact={}",
                    d.at,
                    spaced(&d.bytes),
                    d.intact
                )
            });
            let other = prev != d.src;
            prev = d.src;
            if !d.intact || w.ambiguous {
                continue;
            }
            if let App::Raw { bytes } = &tg.app {
                if let (Some(ci), Ok(doc)) = (bytes.0.first(), &high) {
                    not_understood(cx, tg, *ci, doc)?;
                }
                continue;
            }
            // An application reset without a sub-code: the tree refuses it, the
            // standard allows it; not judged.
            if matches!(&tg.app, App::Reset { sub } if sub.0.is_empty()) {
                continue;
            }
            let spoiled: Vec<&str> = [
                (
                    matches!(&tg.link, Link::Radio { id, .. } if id.hexed > 0),
                    "link.wireless",
                ),
                (
                    matches!(&tg.app, App::Long { id, .. } if id.hexed > 0),
                    "tpl.long",
                ),
            ]
            .into_iter()
            .filter_map(|(h, s)| h.then_some(s))
            .collect();
            if !spoiled.is_empty() {
                // Nobody has a decimal number to report.
                cx.evals += 1;
                cx.fault("device number with a digit that is none");
                let Ok(doc) = high else { continue };
                let mut ids = vec![&doc["meter"]["identity"]];
                ids.extend(
                    doc["meter"]["alternate_identities"]
                        .as_array()
                        .into_iter()
                        .flatten(),
                );
                for i in ids {
                    if spoiled.iter().any(|s| i["source"] == *s) && i["id"].is_string() {
                        return viol("number-made-up", format!("{i}: {}", spaced(&d.bytes)));
                    }
                }
                continue;
            }
            let doc = match high {
                Ok(d) => d,
                Err(e) => return viol("intact-rejected", format!("{e}: {}", spaced(&d.bytes))),
            };
            cx.evals += 1;
            let (mut meter, mut tr) = tg.expect_meter();
            // Absent lists read as empty lists.
            for (v, keys) in [
                (&mut meter, vec!["alternate_identities"]),
                (&mut tr, vec!["access_numbers", "statuses"]),
            ] {
                for k in keys {
                    if v.get(k).is_none() {
                        v[k] = json!([]);
                    }
                }
            }
            let strip = |v: &Value, keys: &[&str]| {
                let mut v = v.clone();
                for k in keys {
                    if v.get(k).is_none() {
                        v[*k] = json!([]);
                    }
                }
                v
            };
            let gm = strip(&doc["meter"], &["alternate_identities"]);
            let gt = strip(&doc["transport"], &["access_numbers", "statuses"]);
            if gm != meter {
                return viol("meter", format!("must be {meter}, is {gm}"));
            }
            if gt != tr {
                return viol("transport", format!("must be {tr}, is {gt}"));
            }
            self.asked_for(cx, tg, &d.bytes, &doc)?;
            let parsed = matches!(tg.link, Link::Radio { .. })
                || matches!(tg.link, Link::Long { c, .. } if c != 0x53);
            if parsed && tg.has_mode_field() {
                let s = &doc["security"];
                if s["mode_code"] != json!(tg.mode()) || s["mode"] != json!(mode_text(tg.mode())) {
                    return viol("security-mode", format!("must be {}, is {s}", tg.mode()));
                }
            }
            if parsed {
                self.low(cx, tg, w)?;
                self.other_formats(cx, tg, &d.bytes, &tr)?;
            }
            let (dev, status) = match &tg.app {
                App::Long { id, status, .. } => (id.dev, *status),
                App::Short { status, .. }
                | App::Ell1Short { status, .. }
                | App::Fixed { status, .. } => (0, *status),
                _ => (0, 0),
            };
            cx.sig(&format!(
                "{:?}{:?}{dev}{}{status}{other}",
                std::mem::discriminant(&tg.app),
                std::mem::discriminant(&tg.link),
                tg.mode()
            ));
            cx.sample(json!({"meter": doc["meter"], "transport": doc["transport"]}));
        }
        Ok(())
    }
}

impl C25 {
    fn low(&self, cx: &mut Cx, tg: &Telegram, w: &Wire) -> Res {
        let payload = w.payload.clone().unwrap_or_default();
        let r = cx.call("parse_application_layer", || -> Res {
            let b = match user_data::parse_application_layer(&payload) {
                Ok(b) => b,
                Err(e) => return viol("application-rejected", format!("{e:?}")),
            };
            let short = |h: &user_data::ShortTplHeader, acc: u8, status: u8| -> Res {
                if h.access_number != acc
                    || h.status.bits() != status
                    || h.configuration_field.raw() != tg.config()
                    || h.configuration_field.security_mode().to_bits() != tg.mode()
                    || h.is_encrypted() != (tg.mode() != 0)
                {
                    return viol("low-short-header", format!("{h:?}"));
                }
                Ok(())
            };
            let head = tg.header().len();
            let block = |got: &[u8]| -> Res {
                if got != &payload[head..] || b.variable_data_len() != got.len() {
                    return viol(
                        "low-block",
                        format!("{} of {}", spaced(got), spaced(&payload)),
                    );
                }
                Ok(())
            };
            let ell = |got: &Option<ExtendedLinkLayer>| -> Res {
                let enc = |sn: u32, crc: u16| EncryptionFields {
                    session_number: sn.to_be_bytes(),
                    payload_crc: crc,
                };
                let (cc, acc, to, enc) = match &tg.app {
                    App::Ell1Short { cc, ell_acc, .. } | App::Ell1None { cc, ell_acc } => {
                        (cc, ell_acc, None, None)
                    }
                    App::Ell2 {
                        cc,
                        ell_acc,
                        sn,
                        crc,
                    } => (cc, ell_acc, None, Some(enc(*sn, *crc))),
                    App::Ell3 {
                        cc,
                        ell_acc,
                        mfr,
                        addr,
                        sn,
                        crc,
                    } => {
                        let mut address = [0; 6];
                        for (t, f) in address.iter_mut().zip(&addr.0) {
                            *t = *f;
                        }
                        let to = ReceiverAddress {
                            manufacturer: *mfr,
                            address,
                        };
                        (cc, ell_acc, Some(to), Some(enc(*sn, *crc)))
                    }
                    _ => {
                        return if got.is_some() {
                            viol("low-ell", "extended link layer invented")
                        } else {
                            Ok(())
                        }
                    }
                };
                let want = ExtendedLinkLayer {
                    communication_control: *cc,
                    access_number: *acc,
                    receiver_address: to,
                    encryption: enc,
                };
                if got.as_ref() != Some(&want) {
                    return viol("low-ell", format!("must be {want:?}, is {got:?}"));
                }
                let (format, size) = match &tg.app {
                    App::Ell2 { .. } => (EllFormat::FormatII, 8),
                    App::Ell3 { .. } => (EllFormat::FormatIII, 16),
                    _ => (EllFormat::FormatI, 2),
                };
                let alone = ExtendedLinkLayer::parse(&payload[1..], format);
                if alone.as_ref().ok() != Some(&(want, size)) {
                    return viol(
                        "low-ell-alone",
                        format!("{alone:?} of {}", spaced(&payload)),
                    );
                }
                Ok(())
            };
            match (&tg.app, &b) {
                (
                    App::Long {
                        id, acc, status, ..
                    },
                    UserDataBlock::VariableDataStructureWithLongTplHeader {
                        long_tpl_header: h,
                        extended_link_layer,
                        variable_data_block,
                    },
                ) => {
                    ell(extended_link_layer)?;
                    block(variable_data_block)?;
                    if b.is_encrypted() != Some(tg.mode() != 0)
                        || h.is_encrypted() != (tg.mode() != 0)
                    {
                        return viol("low-encrypted", format!("{h:?}"));
                    }
                    if h.identification_number.number != id.number()
                        || match id.odd() {
                            Some(_) => h.manufacturer.is_ok(),
                            None => {
                                h.manufacturer.map(|m| m.to_string()) != Ok(id.mfr_text())
                                    || h.manufacturer.map(|m| m.to_id()) != Ok(id.code())
                            }
                        }
                        || h.version != id.ver
                        || u8::from(h.device_type) != id.dev
                    {
                        return viol("low-long-header", format!("must be {id:?}, is {h:?}"));
                    }
                    short(&h.short_tpl_header, *acc, *status)
                }
                (
                    App::Short { acc, status, .. } | App::Ell1Short { acc, status, .. },
                    UserDataBlock::VariableDataStructureWithShortTplHeader {
                        short_tpl_header,
                        extended_link_layer,
                        variable_data_block,
                    },
                ) => {
                    ell(extended_link_layer)?;
                    block(variable_data_block)?;
                    short(short_tpl_header, *acc, *status)
                }
                (
                    App::NoHdr | App::Ell1None { .. },
                    UserDataBlock::VariableDataStructureWithoutTplHeader {
                        extended_link_layer,
                        variable_data_block,
                    },
                )
                // The tree makes up a short header from the extended link layer.
                | (
                    App::Ell2 { .. } | App::Ell3 { .. },
                    UserDataBlock::VariableDataStructureWithoutTplHeader {
                        extended_link_layer,
                        variable_data_block,
                    }
                    | UserDataBlock::VariableDataStructureWithShortTplHeader {
                        extended_link_layer,
                        variable_data_block,
                        ..
                    },
                ) => {
                    ell(extended_link_layer)?;
                    block(variable_data_block)
                }
                (App::Reset { sub }, UserDataBlock::ResetAtApplicationLevel { subcode }) => {
                    let (name, text) = RESET[usize::from(sub.0[0] & 15)];
                    if format!("{subcode:?}") != format!("{name}({})", sub.0[0])
                        || subcode.to_string() != text
                    {
                        return viol(
                            "low-reset",
                            format!("{:02X} reported as {subcode:?} {subcode}", sub.0[0]),
                        );
                    }
                    Ok(())
                }
                (
                    App::Fixed {
                        id,
                        acc,
                        status,
                        unit,
                        ..
                    },
                    UserDataBlock::FixedDataStructure {
                        identification_number,
                        access_number,
                        status: st,
                        device_type_and_unit,
                        ..
                    },
                ) => {
                    if identification_number.number != id % 100_000_000
                        || access_number != acc
                        || st.bits() != *status
                        || device_type_and_unit != unit
                    {
                        return viol("low-fixed", format!("{b:?}"));
                    }
                    Ok(())
                }
                (App::Raw { .. }, _) => Ok(()),
                _ => viol("low-kind", format!("{:?} reported as {b:?}", tg.app)),
            }
        })?;
        r
    }

    fn other_formats(&self, cx: &mut Cx, tg: &Telegram, bytes: &[u8], tr: &Value) -> Res {
        let s = cx.call("serialize_mbus_data", || {
            mbp::serialize_mbus_data(&compact(bytes), "json-legacy", None)
        })?;
        let v: Value = serde_json::from_str(&s).unwrap_or(Value::Null);
        let sm = &v["summary"];
        // Long header first, else the radio link header.
        let who = match (&tg.app, &tg.link) {
            (App::Long { id, .. }, _) => Some(id.clone()),
            (App::Fixed { .. }, _) => None,
            (_, Link::Radio { .. }) => tg.link_ident(),
            _ => None,
        };
        let odd = matches!(&tg.app, App::Long { id, .. } if id.odd().is_some());
        if odd {
            // No letters anywhere: neither made up nor the link header's.
            let c = sm["manufacturer"]["code"].as_str().unwrap_or("");
            if c.len() == 3 {
                return viol("legacy-manufacturer-invented", format!("{sm}"));
            }
        }
        if let Some(id) = who.filter(|_| !odd) {
            let ok = sm["identification_number"] == json!(format!("{:08}", id.number()))
                && sm["manufacturer"]["code"] == json!(id.mfr_text())
                && sm["version"] == json!(id.ver)
                && sm["device_type"] == json!(device_name(id.dev));
            if !ok {
                return viol("legacy-identity", format!("must be {id:?}, is {sm}"));
            }
            let x = super::security::render(cx, bytes, OutputFormat::Xml, None, None)?;
            if let Ok(x) = x {
                let f = |t: &str| Self::xml_field(&x, t);
                if f("Id") != Some(id.number().to_string())
                    || f("Manufacturer") != Some(id.mfr_text())
                    || f("Version") != Some(id.ver.to_string())
                {
                    return viol("xml-identity", format!("must be {id:?}, is {x}"));
                }
                if xml_medium(id.dev).is_some_and(|m| f("Medium").as_deref() != Some(m)) {
                    return viol("xml-medium", format!("must be {id:?}, is {x}"));
                }
                if let App::Long { acc, status, .. }
                | App::Short { acc, status, .. }
                | App::Ell1Short { acc, status, .. } = &tg.app
                {
                    if f("AccessNumber") != Some(acc.to_string())
                        || f("Status") != Some(format!("{status:02X}"))
                        || f("Signature") != Some(format!("{:04X}", tg.config()))
                    {
                        return viol("xml-header", x.to_string());
                    }
                }
            } else if !tg.is_wired() || matches!(tg.app, App::Long { .. }) {
                return viol("xml-rejected", format!("{x:?}"));
            }
        }
        // The older diagram names the radio's sender, or the long header's on a wire.
        let drawn = match (&tg.app, &tg.link) {
            (_, Link::Radio { .. }) => tg.link_ident(),
            (App::Long { id, .. }, _) => Some(id.clone()),
            _ => None,
        };
        if let Some(id) = drawn.filter(|i| i.odd().is_none()) {
            let m = cx.call("parse_to_mermaid", || {
                mbp::mbus_data::parse_to_mermaid(&compact(bytes), None)
            })?;
            let label = |k: &str| {
                let t = m.split_once(&format!("[\"{k}: "))?.1;
                t.split_once("\"]").map(|t| t.0.to_string())
            };
            let number = label("ID").map(|t| {
                let t: String = t.chars().filter(char::is_ascii_digit).collect();
                t.trim_start_matches('0').to_string()
            });
            let want = id.number().to_string();
            if number.as_deref() != Some(want.trim_start_matches('0'))
                || label("Manufacturer") != Some(id.mfr_text())
                || label("Version") != Some(id.ver.to_string())
            {
                return viol("older-diagram-identity", format!("must be {id:?}, is {m}"));
            }
            if let (App::Long { acc, .. }, true) = (&tg.app, tg.is_wired()) {
                if label("Access Number") != Some(acc.to_string()) {
                    return viol("older-diagram-access", format!("must be {acc}, is {m}"));
                }
            }
        }
        if let App::Fixed {
            id,
            acc,
            status,
            unit,
            ..
        } = &tg.app
        {
            // The top bits of the two unit bytes, the second byte's first.
            let [u1, u2] = unit.to_be_bytes();
            let medium = FIXED_MEDIUM[usize::from(u2 >> 6 << 2 | u1 >> 6)];
            let x = super::security::render(cx, bytes, OutputFormat::Xml, None, None)?;
            let f = |t: &str| x.as_ref().ok().and_then(|x| Self::xml_field(x, t));
            if f("Id") != Some((id % 100_000_000).to_string())
                || f("AccessNumber") != Some(acc.to_string())
                || f("Status") != Some(format!("{status:02X}"))
                || f("Medium").as_deref() != Some(medium)
            {
                return viol("xml-fixed", format!("must be {:?}, is {x:?}", tg.app));
            }
        }
        if let App::Long { acc, status, .. }
        | App::Short { acc, status, .. }
        | App::Ell1Short { acc, status, .. } = &tg.app
        {
            let ok = sm["access_number"] == json!(acc)
                && sm["status"] == json!(status_text(*status))
                && sm["security_mode"] == json!(mode_text(tg.mode()));
            if !ok {
                return viol("legacy-header", format!("{sm}"));
            }
        }
        let csv = super::security::render(cx, bytes, OutputFormat::Csv, None, None)?;
        if let Ok(c) = csv {
            let accs: Vec<String> = tr["access_numbers"]
                .as_array()
                .map(|a| {
                    a.iter()
                        .map(|x| format!("{}:{}", x["source"].as_str().unwrap_or(""), x["value"]))
                        .collect()
                })
                .unwrap_or_default();
            if !c.contains(&accs.join("|")) {
                return viol("csv-access-number", c);
            }
        }
        Ok(())
    }
}

// ----------------------------------------------------------------------- C26

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Net {
    Ok,
    LoseRequest,
    DamageRequest(Vec<Fault>),
    EchoRequest,
    LoseReply,
    DamageReply(Vec<Fault>),
    DupReply(u32),
    DelayReply(u32),
    /// The reply and the one before arrive glued together.
    Glue,
    /// Another meter's telegram is heard as well.
    Crosstalk,
    /// The meter loses power and restarts, its access number jumps.
    MeterRestart(u8),
    /// The master crashes and starts over.
    MasterRestart,
    /// The meter answers busy with an empty application layer.
    Busy,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct MeterSc {
    pub addr: u8,
    pub id: Ident,
    pub acc0: u8,
    pub telegrams: Vec<Vec<Rec>>,
    pub cfg: u16,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct PollSc {
    pub meters: Vec<MeterSc>,
    pub plan: Vec<Net>,
    /// The master works on the low-level calls instead of the decoder.
    pub low: bool,
}

/// What the master learned from one received byte string.
struct Reply {
    acc: u8,
    records: Vec<(Vec<u8>, Vec<u8>)>,
    more: bool,
}

fn understand(
    cx: &mut Cx,
    b: &[u8],
    addr: u8,
    id: &Ident,
    low: bool,
) -> Result<Option<Reply>, crate::engine::Viol> {
    if low {
        return cx.call("low-level parse", || {
            let Ok(mbp::WiredFrame::LongFrame {
                function: mbp::Function::RspUd { .. },
                address,
                data,
            }) = mbp::WiredFrame::try_from(b)
            else {
                return None;
            };
            if !super::link::addr_eq(addr, &address) {
                return None;
            }
            let block = user_data::parse_application_layer(data).ok()?;
            let UserDataBlock::VariableDataStructureWithLongTplHeader {
                long_tpl_header: h, ..
            } = &block
            else {
                return None;
            };
            if h.identification_number.number != id.number() {
                return None;
            }
            let mut records = Vec::new();
            let mut more = false;
            for r in block.data_records()? {
                let r = r.ok()?;
                let raw = r.raw_bytes().to_vec();
                if raw == [0x1F] {
                    more = true;
                } else {
                    records.push((raw, vec![]));
                }
            }
            Some(Reply {
                acc: h.short_tpl_header.access_number,
                records,
                more,
            })
        });
    }
    let Ok(doc) = decode(cx, b, None)? else {
        return Ok(None);
    };
    let f = &doc["frame"];
    let ours = doc["protocol"] == json!("wired")
        && f["kind"] == json!("long")
        && f["function"]
            .as_str()
            .is_some_and(|s| s.starts_with("RSP_UD"))
        && f["address"] == json!(address_name(addr))
        && doc["decode_state"] == json!("complete")
        && doc["meter"]["identity"]["id"] == json!(format!("{:08}", id.number()));
    if !ours {
        return Ok(None);
    }
    let Some(acc) = doc["transport"]["access_numbers"][0]["value"].as_u64() else {
        return Ok(None);
    };
    let mut records = Vec::new();
    let mut more = false;
    for r in doc["records"].as_array().into_iter().flatten() {
        let x = |k: &str| crate::util::unspaced(r[k].as_str().unwrap_or("")).unwrap_or_default();
        if r["function"] == json!("More records follow") {
            more = true;
        } else {
            records.push((x("header_hex"), x("data_hex")));
        }
    }
    Ok(Some(Reply {
        acc: acc as u8,
        records,
        more,
    }))
}

/// A simulated meter: FCB state machine; requests are understood with the
/// repository's frame parser.
struct Meter<'a> {
    sc: &'a MeterSc,
    fcb: Option<bool>,
    pos: usize,
    acc: u8,
    last: Vec<u8>,
}

impl Meter<'_> {
    fn telegram(&self, i: usize, acc: u8) -> Telegram {
        let n = self.sc.telegrams.len();
        Telegram {
            link: Link::Long {
                c: 0x08,
                a: self.sc.addr,
            },
            app: App::Long {
                msb: false,
                id: self.sc.id.clone(),
                acc,
                status: 0,
            },
            cfg: self.sc.cfg,
            sec: None,
            recs: self.sc.telegrams[i % n].clone(),
            tail: if i + 1 < n {
                Tail::More(crate::util::Hex(vec![]))
            } else {
                Tail::None
            },
            fill: 0,
        }
    }
    fn request(&mut self, cx: &mut Cx, b: &[u8]) -> Result<Option<Vec<u8>>, crate::engine::Viol> {
        enum Cmd {
            Reset,
            Next(bool),
        }
        let me = self.sc.addr;
        let cmd = cx.call("WiredFrame::try_from", || {
            match mbp::WiredFrame::try_from(b) {
                Ok(mbp::WiredFrame::ShortFrame { function, address })
                    if super::link::addr_eq(me, &address) =>
                {
                    match function {
                        mbp::Function::SndNk { .. } => Some(Cmd::Reset),
                        mbp::Function::ReqUd2 { fcb } => Some(Cmd::Next(fcb)),
                        _ => None,
                    }
                }
                _ => None,
            }
        })?;
        Ok(match cmd {
            None => None,
            Some(Cmd::Reset) => {
                self.fcb = None;
                self.pos = 0;
                self.last.clear();
                Some(vec![0xE5])
            }
            Some(Cmd::Next(f)) => {
                if self.fcb == Some(f) && !self.last.is_empty() {
                    return Ok(Some(self.last.clone()));
                }
                if self.fcb.is_some() {
                    self.pos = (self.pos + 1) % self.sc.telegrams.len();
                }
                self.fcb = Some(f);
                self.acc = self.acc.wrapping_add(1);
                self.last = self.telegram(self.pos, self.acc).encode().bytes;
                Some(self.last.clone())
            }
        })
    }
}

pub struct C26;
impl Prop for C26 {
    type Sc = PollSc;
    fn meta(&self) -> Meta {
        Meta {
            id: "C26",
            level: "exploration",
            rule: "replies presented to the polling master; distinct = (fault, protocol state, reply position, accepted or not)",
            quick: 160_000,
            thorough: 1_200_000,
            components: REAL,
            stubs: &["meters (FCB state machine, encoder model)", "polling master", "bus with fault injector", "simulated clock"],
            measure: "distinct event histories (hash of the sequence of requests, faults and verdicts)",
        }
    }
    fn gen(&self, r: &mut Rng, _t: Tier, _i: u64) -> PollSc {
        let meters: Vec<MeterSc> = (0..r.range(1, 3))
            .map(|k| MeterSc {
                addr: (r.range(1, 80) * 3 + k) as u8,
                id: gen_ident(r),
                acc0: r.u8(),
                telegrams: (0..r.range(1, 5))
                    .map(|_| {
                        (0..r.range(1, 5))
                            .map(|_| {
                                let mut x = gen_rec(r, false);
                                if x.base == Base::Global {
                                    x.base = Base::P(0x13);
                                }
                                x
                            })
                            .collect()
                    })
                    .collect(),
                cfg: r.u64() as u16,
            })
            .collect();
        let rate = *r.pick(&[100u32, 300, 600, 900]);
        let kinds: Vec<u8> = {
            let mut v: Vec<u8> = (0..12).filter(|_| r.bool()).collect();
            if v.is_empty() {
                v.push(r.below(12) as u8);
            }
            v
        };
        let n = r.range(0, 40);
        let plan = (0..n)
            .map(|_| {
                if !r.chance(rate, 1000) {
                    return Net::Ok;
                }
                let faults = |r: &mut Rng| {
                    (0..r.range(1, 3))
                        .map(|_| {
                            let k = *r.pick(chan::DAMAGE);
                            chan::gen_fault(r, k, 60)
                        })
                        .collect::<Vec<_>>()
                };
                match *r.pick(&kinds) {
                    0 => Net::LoseRequest,
                    1 => Net::DamageRequest(faults(r)),
                    2 => Net::EchoRequest,
                    3 => Net::LoseReply,
                    4 | 5 => Net::DamageReply(faults(r)),
                    6 => Net::DupReply(r.below(3_000_000) as u32),
                    7 => Net::DelayReply(r.below(3_000_000) as u32),
                    8 => Net::Glue,
                    9 => Net::Crosstalk,
                    10 => Net::MeterRestart(r.range(40, 200) as u8),
                    _ => {
                        if r.chance(1, 4) {
                            Net::MasterRestart
                        } else {
                            Net::Busy
                        }
                    }
                }
            })
            .collect();
        PollSc {
            meters,
            plan,
            low: r.chance(1, 3),
        }
    }
    fn exec(&self, sc: &PollSc, cx: &mut Cx) -> Res {
        let mut meters: Vec<Meter> = sc
            .meters
            .iter()
            .map(|m| Meter {
                sc: m,
                fcb: None,
                pos: 0,
                acc: m.acc0,
                last: vec![],
            })
            .collect();
        let mut now = 0u64;
        let mut seq = 0u64;
        // Replies in flight: (arrival, sequence, bytes).
        let mut flight: std::collections::BTreeSet<(u64, u64, Vec<u8>)> = Default::default();
        let mut plan = sc.plan.iter();
        let mut hist = 0u64;
        let mut prev_reply: Vec<u8> = Vec::new();
        for m in 0..meters.len() {
            let ms = &sc.meters[m];
            if ms.telegrams.is_empty() {
                continue;
            }
            // What the readout must amount to.
            let mut want: Vec<(Vec<u8>, Vec<u8>)> = Vec::new();
            for i in 0..ms.telegrams.len() {
                let w = meters[m].telegram(i, 0).encode();
                for e in &w.exp {
                    if e.header != [0x1F] {
                        if sc.low {
                            let mut b = e.header.clone();
                            b.extend(&e.data);
                            want.push((b, vec![]));
                        } else {
                            want.push((e.header.clone(), e.data.clone()));
                        }
                    }
                }
            }
            let mut got: Vec<(Vec<u8>, Vec<u8>)> = Vec::new();
            let mut fcb = true;
            let mut reset = true;
            let mut last_acc: Option<u8> = None;
            let mut clean_polls = 0usize;
            let bound = 3 * ms.telegrams.len() + 12;
            loop {
                // One request.
                let req = if reset {
                    vec![0x10, 0x40, ms.addr, 0x40u8.wrapping_add(ms.addr), 0x16]
                } else {
                    let c = if fcb { 0x7B } else { 0x5B };
                    vec![0x10, c, ms.addr, ms.addr.wrapping_add(c), 0x16]
                };
                let net = plan.next().cloned().unwrap_or_else(|| {
                    clean_polls += 1;
                    Net::Ok
                });
                if clean_polls > bound {
                    return viol(
                        "readout-stalls",
                        format!(
                            "{} of {} records after {clean_polls} undisturbed polls",
                            got.len(),
                            want.len()
                        ),
                    );
                }
                let name = format!("{net:?}");
                let name = name.split('(').next().unwrap_or("").to_string();
                if net != Net::Ok {
                    cx.fault(&format!("bus_{}", name.to_lowercase()));
                }
                let mut heard = req.clone();
                let mut times = 1;
                match &net {
                    Net::LoseRequest => times = 0,
                    Net::DamageRequest(fs) => {
                        for f in fs {
                            f.apply(&mut heard, &prev_reply);
                        }
                        // Damage no receiver could notice is not a fault to judge.
                        if heard != req && acc::wired(&heard).is_some() {
                            times = 0;
                        }
                    }
                    Net::EchoRequest => times = 2,
                    Net::MeterRestart(j) => {
                        let x = &mut meters[m];
                        x.fcb = None;
                        x.pos = 0;
                        x.last.clear();
                        x.acc = x.acc.wrapping_add((*j).clamp(40, 200));
                    }
                    Net::MasterRestart => {
                        got.clear();
                        fcb = true;
                        reset = true;
                        last_acc = None;
                        now += 4_000_000;
                        cx.event(|| "master restart".into());
                        continue;
                    }
                    _ => {}
                }
                now += 11 * 5 * 417;
                let mut answer = None;
                for _ in 0..times {
                    for x in meters.iter_mut() {
                        if let Some(a) = x.request(cx, &heard)? {
                            answer = Some(a);
                        }
                    }
                }
                if let Some(a) = answer {
                    let mut out = vec![(30_000u64, a.clone())];
                    match &net {
                        Net::LoseReply => out.clear(),
                        Net::DamageReply(fs) => {
                            let mut b = a.clone();
                            for f in fs {
                                f.apply(&mut b, &prev_reply);
                            }
                            if b != a && acc::wired(&b).is_some() {
                                out.clear();
                            } else {
                                out[0].1 = b;
                            }
                        }
                        Net::DupReply(d) => {
                            out.push((30_000 + u64::from(*d).min(3_000_000), a.clone()))
                        }
                        Net::DelayReply(d) => out[0].0 += u64::from(*d).min(3_000_000),
                        Net::Glue => {
                            let mut b = prev_reply.clone();
                            b.extend(&a);
                            if acc::wired(&b).is_some() && b != a {
                                out.clear();
                            } else {
                                out[0].1 = b;
                            }
                        }
                        Net::Crosstalk => {
                            let k = (m + 1) % meters.len();
                            if k != m && !sc.meters[k].telegrams.is_empty() {
                                let t =
                                    meters[k].telegram(0, last_acc.unwrap_or(0).wrapping_add(1));
                                out.insert(0, (20_000, t.encode().bytes));
                            }
                        }
                        Net::Busy => {
                            let t = Telegram {
                                link: Link::Long {
                                    c: 0x18,
                                    a: ms.addr,
                                },
                                app: App::Raw {
                                    bytes: crate::util::Hex(vec![0x70, 0x08]),
                                },
                                cfg: 0,
                                sec: None,
                                recs: vec![],
                                tail: Tail::None,
                                fill: 0,
                            };
                            out[0].1 = t.encode().bytes;
                        }
                        _ => {}
                    }
                    prev_reply = a;
                    for (d, b) in out {
                        seq += 1;
                        flight.insert((now + d + 11 * 417 * b.len() as u64, seq, b));
                    }
                }
                // Listen until the first useful reply or the timeout.
                let deadline = now + 1_500_000;
                let mut done = false;
                let mut acted = false;
                while let Some((at, q, b)) = flight.first().cloned() {
                    if at > deadline {
                        break;
                    }
                    flight.remove(&(at, q, b.clone()));
                    now = now.max(at);
                    if reset {
                        let ack = cx.call("WiredFrame::try_from", || {
                            matches!(
                                mbp::WiredFrame::try_from(&b[..]),
                                Ok(mbp::WiredFrame::SingleCharacter { .. })
                            )
                        })?;
                        cx.event(|| format!("{name} reset {ack}"));
                        cx.note(|| format!("t={now}us <- {}", upper(&b)));
                        if ack {
                            // Let everything still in flight pass by.
                            now += 4_000_000;
                            flight.retain(|f| f.0 > now);
                            reset = false;
                            acted = true;
                            break;
                        }
                        continue;
                    }
                    let r = understand(cx, &b, ms.addr, &ms.id, sc.low)?;
                    cx.evals += 1;
                    let verdict = match &r {
                        None => "refused",
                        Some(r) => match last_acc {
                            Some(l) if l.wrapping_sub(r.acc) < 16 => "stale",
                            Some(l) if r.acc != l.wrapping_add(1) => "gap",
                            _ => "accepted",
                        },
                    };
                    cx.event(|| format!("{name} {} {verdict}", got.len()));
                    cx.note(|| format!("t={now}us {verdict} <- {}", upper(&b)));
                    hist = crate::rng::mix(
                        hist ^ crate::rng::hash_bytes(
                            format!("{name}{verdict}{}", got.len()).as_bytes(),
                        ),
                    );
                    cx.sig(&format!(
                        "{name}{verdict}{}{}{}{}",
                        got.len().min(12),
                        fcb,
                        ms.telegrams.len(),
                        sc.low
                    ));
                    match verdict {
                        "accepted" => {
                            let r = r.unwrap();
                            got.extend(r.records);
                            last_acc = Some(r.acc);
                            fcb = !fcb;
                            acted = true;
                            if got.len() > want.len() || got[..] != want[..got.len()] {
                                let i = got
                                    .iter()
                                    .zip(&want)
                                    .position(|(a, b)| a != b)
                                    .unwrap_or(want.len());
                                return viol(
                                    "wrong-readout",
                                    format!(
                                        "record {i}: meter has {:?}, master collected {:?}",
                                        want.get(i).map(show),
                                        got.get(i).map(show)
                                    ),
                                );
                            }
                            done = !r.more;
                            break;
                        }
                        "gap" => {
                            got.clear();
                            fcb = true;
                            reset = true;
                            last_acc = None;
                            now += 4_000_000;
                            flight.retain(|f| f.0 > now);
                            acted = true;
                            break;
                        }
                        _ => {}
                    }
                }
                if !acted {
                    now = now.max(deadline);
                }
                if done {
                    break;
                }
            }
            if got != want {
                return viol(
                    "readout-incomplete",
                    format!("{} of {} records", got.len(), want.len()),
                );
            }
            cx.probe("readouts_completed");
            cx.sample(json!({"records": want.len(), "telegrams": ms.telegrams.len(), "simulated_ms": now / 1000}));
        }
        cx.orders.insert(hist);
        cx.sim_us += now;
        let _ = oracle::EVERYTHING;
        Ok(())
    }
}

fn show(r: &(Vec<u8>, Vec<u8>)) -> String {
    format!("{} {}", spaced(&r.0), spaced(&r.1))
}
