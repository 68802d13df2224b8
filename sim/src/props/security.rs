//! C13–C15: encryption, key sources, key store.

use super::{ORDER, STUBS};
use crate::chan;
use crate::engine::{viol, Cx, Meta, Prop, Res, Tier};
use crate::gen::*;
use crate::model::*;
use crate::oracle::{self, decode, has_diag};
use crate::rng::Rng;
use crate::util::{compact, spaced, upper, Hex};
use m_bus_core::decryption::{
    DecryptionError, EncryptedPayload, KeyContext, KeyProvider, StaticKeyProvider,
};
use m_bus_core::{DeviceType, ManufacturerCode, SecurityMode};
use m_bus_parser as mbp;
use m_bus_parser::user_data;
use mbp::OutputFormat;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

const REAL: &[&str] = &[
    "wired-mbus-link-layer",
    "wireless-mbus-link-layer",
    "m-bus-core incl. decryption",
    "m-bus-application-layer",
    "m-bus-parser decoder and renderers",
    "aes/cbc crates",
];

pub fn render(
    cx: &mut Cx,
    b: &[u8],
    f: OutputFormat,
    key: Option<[u8; 16]>,
    width: Option<usize>,
) -> Result<Result<String, String>, crate::engine::Viol> {
    cx.call("render_bytes", || {
        mbp::render_bytes(
            b,
            f,
            &mbp::RenderOptions {
                decode: mbp::DecodeOptions {
                    key,
                    include_enrichment: false,
                },
                table_width: width,
            },
        )
        .map_err(|e| e.code().to_string())
    })
}

fn legacy(cx: &mut Cx, b: &[u8], key: Option<[u8; 16]>) -> Result<Value, crate::engine::Viol> {
    let s = cx.call("serialize_mbus_data", || {
        mbp::serialize_mbus_data(&compact(b), "json-legacy", key.as_ref())
    })?;
    Ok(serde_json::from_str(&s).unwrap_or(Value::Null))
}

/// Key source the simulation controls.
pub struct Source {
    pub key: Vec<u8>,
    pub fail: Option<DecryptionError>,
    pub seen: std::cell::RefCell<Vec<KeyContext>>,
}
impl KeyProvider for Source {
    fn get_key(&self, c: &KeyContext) -> Result<&[u8], DecryptionError> {
        self.seen.borrow_mut().push(c.clone());
        match self.fail {
            Some(e) => Err(e),
            None => Ok(&self.key),
        }
    }
}

/// Decrypt with the application layer call that fits the header.
fn low_decrypt<K: KeyProvider>(
    tg: &Telegram,
    block: &user_data::UserDataBlock<'_>,
    src: &K,
    out: &mut [u8],
) -> Result<usize, DecryptionError> {
    match (&tg.app, tg.key_ident()) {
        (App::Long { .. }, _) => block.decrypt_variable_data(src, out),
        (_, Some(id)) => block.decrypt_variable_data_with_context(
            src,
            ManufacturerCode::from_id(id.code()).expect("valid letters"),
            id.number(),
            id.ver,
            DeviceType::from(id.dev),
            out,
        ),
        _ => Err(DecryptionError::UnknownEncryptionState),
    }
}

fn context(tg: &Telegram) -> Option<KeyContext> {
    let id = tg.key_ident()?;
    Some(KeyContext {
        manufacturer: ManufacturerCode::from_id(id.code()).ok()?,
        identification_number: id.number(),
        version: id.ver,
        device_type: DeviceType::from(id.dev),
        security_mode: SecurityMode::from_bits(tg.mode()),
        access_number: tg.acc(),
    })
}

pub struct C13;
impl Prop for C13 {
    type Sc = Traffic;
    fn meta(&self) -> Meta {
        Meta {
            id: "C13",
            level: "exploration",
            rule: "encrypted deliveries decoded with the sender's key and compared with the sender's plaintext; distinct = (mode, header, link, plaintext length, records)",
            quick: 120_000,
            thorough: 3_500_000,
            components: REAL,
            stubs: STUBS,
            measure: ORDER,
        }
    }
    fn gen(&self, r: &mut Rng, _t: Tier, _i: u64) -> Traffic {
        let n = r.range(1, 4);
        let mut t = gen_traffic(r, Medium::Both, Kind::Encrypted, chan::ALL, n);
        for s in &mut t.sends {
            if r.chance(1, 10) {
                if let App::Long { msb, .. } = &mut s.tg.app {
                    *msb = true;
                    s.tg.recs = gen_recs(r, true, 6);
                }
            }
        }
        t
    }
    fn exec(&self, sc: &Traffic, cx: &mut Cx) -> Res {
        let wires: Vec<Wire> = sc.sends.iter().map(|s| s.tg.encode()).collect();
        // The receiver's key ring holds one key per meter.
        let mut ring = StaticKeyProvider::<32>::new();
        let mut known: Vec<(u16, u32, [u8; 16])> = Vec::new();
        for s in sc.sends.iter().take(32) {
            if let (Some(id), Some(sec)) = (s.tg.key_ident(), &s.tg.sec) {
                let e = (id.code(), id.number());
                if !known.iter().any(|k| (k.0, k.1) == e) {
                    known.push((e.0, e.1, sec.key16()));
                    let _ = ring.add_key(e.0, e.1, sec.key16());
                }
            }
        }
        for d in sc.run(&wires, cx) {
            let w = &wires[d.src];
            let tg = &sc.sends[d.src].tg;
            let Some(sec) = &tg.sec else { continue };
            let key = sec.key16();
            let high = decode(cx, &d.bytes, Some(key))?;
            cx.event(|| format!("{} {} {}", d.at, d.src, high.is_ok()));
            cx.note(|| {
                format!(
                    "t={}us key={} bytes={} intact={}",
                    d.at,
                    compact(&key),
                    spaced(&d.bytes),
                    d.intact
                )
            });
            let Some(id) = tg.key_ident() else { continue };
            if !d.intact
                || w.ambiguous
                || !tg.carries_records()
                || !matches!(tg.mode(), 5 | 7)
                || !tg.has_mode_field()
            {
                continue;
            }
            let doc = match high {
                Ok(d) => d,
                Err(e) => return viol("right-key-rejected", format!("{e}: {}", spaced(&d.bytes))),
            };
            cx.evals += 1;
            let plain_hex = json!(upper(&w.plain));
            if doc["security"]["decrypted_payload_hex"] != plain_hex {
                return viol(
                    "plaintext",
                    format!(
                        "must be {plain_hex}, is {}",
                        doc["security"]["decrypted_payload_hex"]
                    ),
                );
            }
            oracle::records(&w.exp, &doc["records"], oracle::EVERYTHING)?;
            let s = &doc["security"];
            if s["payload_protection"] != json!("encrypted")
                || s["decryption_state"] != json!("decrypted_unverified")
                || s["key_supplied"] != json!(true)
                || s["mode_code"] != json!(tg.mode())
                || s["encrypted_payload_hex"] != json!(upper(w.payload.as_ref().unwrap()))
                || doc["decode_state"] != json!("complete")
                || has_diag(&doc, "security.decrypted_unverified").is_none()
                || has_diag(&doc, "security.key_missing").is_some()
            {
                return viol(
                    "not-reported-as-decrypted",
                    format!("state {} {s} {}", doc["decode_state"], doc["diagnostics"]),
                );
            }
            // The same from the low-level calls.
            let payload = w.payload.clone().unwrap_or_default();
            let single = Source {
                key: key.to_vec(),
                fail: None,
                seen: Default::default(),
            };
            let ctx = context(tg).expect("identity");
            let shared = known.iter().any(|k| *k == (id.code(), id.number(), key));
            let low = cx.call("low-level decryption", || -> Res {
                let block = match user_data::parse_application_layer(&payload) {
                    Ok(b) => b,
                    Err(e) => return viol("application-rejected", format!("{e:?}")),
                };
                let mut buf = [0xCCu8; 300];
                let check = |what: &str, r: Result<usize, DecryptionError>, buf: &[u8]| -> Res {
                    match r {
                        Ok(n) if buf.get(..n) == Some(&w.plain[..]) => Ok(()),
                        Ok(n) => viol(
                            "low-plaintext",
                            format!(
                                "{what}: must be {}, is {}",
                                spaced(&w.plain),
                                spaced(&buf[..n.min(300)])
                            ),
                        ),
                        Err(e) => viol("low-decryption-failed", format!("{what}: {e:?}")),
                    }
                };
                check("block", low_decrypt(tg, &block, &single, &mut buf), &buf)?;
                if single.seen.borrow().iter().any(|c| *c != ctx) {
                    return viol(
                        "key-context",
                        format!("asked for {:?}, must be {ctx:?}", single.seen.borrow()),
                    );
                }
                if shared {
                    check("key ring", low_decrypt(tg, &block, &ring, &mut buf), &buf)?;
                }
                let e = EncryptedPayload::new(&payload[w.start..], ctx.clone());
                check("payload", e.decrypt_into(&single, &mut buf), &buf)?;
                let mut exact = vec![0u8; w.plain.len()];
                let r = e.decrypt_into(&single, &mut exact);
                check("exact buffer", r, &exact)?;
                if block.variable_data_len() != w.plain.len() {
                    return viol(
                        "variable-data-len",
                        format!("{}", block.variable_data_len()),
                    );
                }
                // The context call also serves telegrams with a long header.
                let r = block.decrypt_variable_data_with_context(
                    &single,
                    ctx.manufacturer,
                    ctx.identification_number,
                    ctx.version,
                    ctx.device_type,
                    &mut buf,
                );
                check("with context", r, &buf)
            })?;
            low?;
            // Other front ends given the key. The legacy summary and the XML
            // list records of payloads that decode completely.
            if d.src % 2 == 0 || sc.sends.len() == 1 {
                let l = legacy(cx, &d.bytes, Some(key))?;
                let n = l["summary"]["records"].as_array().map_or(0, Vec::len);
                if l["summary"]["decrypted"] != json!(true) || n != w.exp.len() {
                    return viol(
                        "legacy-summary",
                        format!("{} records of {}: {}", n, w.exp.len(), l["summary"]),
                    );
                }
                for (i, e) in w.exp.iter().enumerate() {
                    let r = &l["summary"]["records"][i];
                    let h = r["header_hex"].as_str().unwrap_or("").replace(' ', "");
                    let x = r["data_hex"].as_str().unwrap_or("").replace(' ', "");
                    if h != upper(&e.header) || x != upper(&e.data) {
                        return viol("legacy-record", format!("record {i}: {r}"));
                    }
                }
                match render(cx, &d.bytes, OutputFormat::Xml, Some(key), None)? {
                    Ok(x) if x.matches("<DataRecord ").count() == w.exp.len() => {}
                    x => {
                        return viol(
                            "xml-records",
                            format!("{} records sent: {x:?}", w.exp.len()),
                        )
                    }
                }
                match render(cx, &d.bytes, OutputFormat::Annotated, Some(key), None)? {
                    Ok(x) => {
                        let v: Value = serde_json::from_str(&x).unwrap_or(Value::Null);
                        let bytes: Vec<u8> = v["bytes"]
                            .as_array()
                            .map(|a| {
                                a.iter()
                                    .filter_map(|b| b.as_u64().map(|b| b as u8))
                                    .collect()
                            })
                            .unwrap_or_default();
                        let mut shown = w.normal.clone();
                        let tail = match &tg.link {
                            Link::Radio {
                                enc: Enc::Trailing, ..
                            } => 2,
                            Link::Radio { .. } => 0,
                            _ => 2,
                        };
                        let a = shown.len() - tail - w.plain.len();
                        shown[a..a + w.plain.len()].copy_from_slice(&w.plain);
                        let end = shown.len() - tail;
                        if v["decrypted"] != json!(true) || bytes.get(a..end) != shown.get(a..end) {
                            return viol(
                                "annotated-plaintext",
                                format!("{} instead of {}", spaced(&bytes), spaced(&shown)),
                            );
                        }
                    }
                    Err(e) => return viol("annotated-rejected", e),
                }
            }
            cx.sig(&format!(
                "{}{:?}{:?}{}{}",
                tg.mode(),
                std::mem::discriminant(&tg.app),
                std::mem::discriminant(&tg.link),
                w.plain.len(),
                w.exp.len()
            ));
            cx.sample(
                json!({"mode": tg.mode(), "plaintext": upper(&w.plain), "records": w.exp.len()}),
            );
        }
        Ok(())
    }
}

// ----------------------------------------------------------------------- C14

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum KeyFault {
    /// Nobody has the key.
    Missing,
    /// A key of the right size that is not the meter's.
    Wrong(Hex),
    /// The right key; used with modes that are not supported.
    Right,
    /// The key source fails.
    NotFound,
    Broken,
    /// The key source hands out a key of another size.
    Size(Hex),
    /// The buffer for the plaintext is too small by this many bytes.
    Buffer(u8),
    /// The store knows the number but of another manufacturer, or the
    /// manufacturer but another number.
    OtherMeter(u8),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct KeySc {
    pub traffic: Traffic,
    pub faults: Vec<KeyFault>,
}

pub struct C14;
impl Prop for C14 {
    type Sc = KeySc;
    fn meta(&self) -> Meta {
        Meta {
            id: "C14",
            level: "exploration",
            rule: "encrypted deliveries met with a key-source fault; distinct = (fault, mode, header, link, outcome)",
            quick: 120_000,
            thorough: 3_500_000,
            components: REAL,
            stubs: &["meters (encoder model)", "channel with fault injector", "key source with fault injector", "simulated clock"],
            measure: ORDER,
        }
    }
    fn gen(&self, r: &mut Rng, _t: Tier, _i: u64) -> KeySc {
        let n = r.range(1, 4);
        let mut t = gen_traffic(r, Medium::Both, Kind::Encrypted, chan::ALL, n);
        for s in &mut t.sends {
            if let Some(sec) = &mut s.tg.sec {
                if r.chance(1, 3) {
                    sec.mode = r.below(32) as u8;
                }
            }
            if let App::Short { ci, .. } = &mut s.tg.app {
                if r.chance(1, 5) {
                    *ci = r.u8();
                }
            }
            if r.chance(1, 6) {
                s.tg.sec = None;
                s.tg.app = if r.bool() {
                    App::Ell2 {
                        cc: r.u8(),
                        ell_acc: r.u8(),
                        sn: r.u64() as u32,
                        crc: r.u64() as u16,
                    }
                } else {
                    App::Ell3 {
                        cc: r.u8(),
                        ell_acc: r.u8(),
                        mfr: r.u64() as u16,
                        addr: Hex(r.bytes(6)),
                        sn: r.u64() as u32,
                        crc: r.u64() as u16,
                    }
                };
            } else if s.tg.is_wired() && r.chance(1, 6) {
                s.tg.app = App::Short {
                    ci: if r.chance(1, 4) { r.u8() } else { 0 },
                    acc: r.u8(),
                    status: r.u8(),
                };
            }
        }
        let faults = (0..n)
            .map(|_| match r.below(12) {
                0..=2 => KeyFault::Missing,
                3 | 4 => KeyFault::Wrong(Hex(r.bytes(16))),
                5 => KeyFault::Right,
                6 => KeyFault::NotFound,
                7 => KeyFault::Broken,
                8 => {
                    let k = *r.pick(&[0, 1, 8, 15, 17, 24, 32, 64]);
                    KeyFault::Size(Hex(r.bytes(k)))
                }
                9 | 10 => KeyFault::Buffer(r.range(1, 255) as u8),
                _ => KeyFault::OtherMeter(r.u8()),
            })
            .collect();
        KeySc { traffic: t, faults }
    }
    fn exec(&self, sc: &KeySc, cx: &mut Cx) -> Res {
        let t = &sc.traffic;
        let wires: Vec<Wire> = t.sends.iter().map(|s| s.tg.encode()).collect();
        for d in t.run(&wires, cx) {
            let w = &wires[d.src];
            let tg = &t.sends[d.src].tg;
            let fault = sc.faults.get(d.src).cloned().unwrap_or(KeyFault::Missing);
            let right = tg.sec.as_ref().map_or([7; 16], Sec::key16);
            let given = match &fault {
                KeyFault::Wrong(k) => {
                    let mut x = [0u8; 16];
                    for (a, b) in x.iter_mut().zip(&k.0) {
                        *a = *b;
                    }
                    Some(x)
                }
                KeyFault::Right => Some(right),
                _ => None,
            };
            let name = format!("{fault:?}");
            let name = name.split('(').next().unwrap_or("").to_string();
            cx.fault(&format!("key_{}", name.to_lowercase()));
            let high = decode(cx, &d.bytes, given)?;
            cx.event(|| {
                format!(
                    "{} {} {name} {:?}",
                    d.at,
                    d.src,
                    high.as_ref().map(|_| ()).map_err(|e| e.clone())
                )
            });
            cx.note(|| {
                format!(
                    "t={}us key={:?} bytes={} intact={}",
                    d.at,
                    given.map(|k| compact(&k)),
                    spaced(&d.bytes),
                    d.intact
                )
            });
            // Holds for every document, damaged telegram or not.
            if let Ok(doc) = &high {
                consistent(doc, given.is_some())?;
            }
            if !d.intact || w.ambiguous {
                continue;
            }
            let encrypted = tg.mode() != 0 && tg.has_mode_field() || tg.ell_encrypted();
            if !encrypted {
                continue;
            }
            cx.evals += 1;
            let supported =
                matches!(tg.mode(), 5 | 7) && tg.key_ident().is_some() && !tg.ell_encrypted();
            match (&high, given) {
                (Ok(doc), None) => {
                    if doc["records"].as_array().is_none_or(|a| !a.is_empty())
                        || doc["decode_state"] != json!("partial")
                        || has_diag(doc, "security.key_missing").is_none()
                        || doc["security"]["payload_protection"] != json!("encrypted")
                        || doc["security"]["decryption_state"] != json!("key_missing")
                        || doc["security"].get("decrypted_payload_hex").is_some()
                    {
                        return viol(
                            "reading-without-key",
                            format!(
                                "{} {} {}",
                                doc["decode_state"], doc["security"], doc["records"]
                            ),
                        );
                    }
                    // Nor in any other rendering.
                    for f in [OutputFormat::Csv, OutputFormat::Yaml, OutputFormat::Table] {
                        let s = match render(cx, &d.bytes, f, None, Some(200))? {
                            Ok(s) => s,
                            Err(e) => return viol("render-failed", e),
                        };
                        let bad = match f {
                            OutputFormat::Csv => s.contains("record_1_") || s.contains("record_0_"),
                            OutputFormat::Yaml => !s.contains("\nrecords: []"),
                            _ => false,
                        };
                        if bad {
                            return viol("reading-without-key-in-format", format!("{f}: {s}"));
                        }
                    }
                    if !(tg.is_wired() && matches!(tg.app, App::Long { .. })) {
                        if let Ok(x) = render(cx, &d.bytes, OutputFormat::Xml, None, None)? {
                            if x.contains("<DataRecord") {
                                return viol("reading-without-key-in-format", format!("xml: {x}"));
                            }
                        }
                    }
                    let l = legacy(cx, &d.bytes, None)?;
                    if l["summary"]["records"]
                        .as_array()
                        .is_some_and(|a| !a.is_empty())
                        || l["summary"]["encrypted"] != json!(true)
                    {
                        return viol(
                            "reading-without-key-in-format",
                            format!("legacy: {}", l["summary"]),
                        );
                    }
                    let a = cx.call("annotate_frame", || {
                        mbp::annotate::annotate_frame(&d.bytes).map(|s| {
                            s.iter()
                                .find(|x| x.group.is_some())
                                .map(|x| format!("{x:?}"))
                        })
                    })?;
                    if let Ok(Some(x)) = a {
                        return viol("reading-without-key-in-format", format!("annotation: {x}"));
                    }
                    let m = cx.call("parse_to_mermaid", || {
                        mbp::mbus_data::parse_to_mermaid(&compact(&d.bytes), None)
                    })?;
                    if m.contains("Data Records") {
                        return viol("reading-without-key-in-format", format!("diagram: {m}"));
                    }
                }
                (Err(e), None) => {
                    return viol("encrypted-rejected", format!("{e}: {}", spaced(&d.bytes)))
                }
                (Ok(doc), Some(_)) => {
                    if !supported {
                        return viol(
                            "unsupported-accepted",
                            format!("mode {}: {}", tg.mode(), doc["security"]),
                        );
                    }
                    let s = &doc["security"];
                    if s["payload_protection"] != json!("encrypted")
                        || s["decryption_state"] != json!("decrypted_unverified")
                        || has_diag(doc, "security.decrypted_unverified").is_none()
                    {
                        return viol(
                            "unverified-not-marked",
                            format!("{s} {}", doc["diagnostics"]),
                        );
                    }
                }
                (Err(e), Some(_)) => {
                    if supported {
                        return viol("decryption-rejected", e.clone());
                    }
                    let want: &[&str] = if tg.key_ident().is_none() && !tg.ell_encrypted() {
                        &["security.decryption_failed", "security.unsupported_mode"]
                    } else {
                        &["security.unsupported_mode"]
                    };
                    if !want.contains(&e.as_str()) {
                        return viol(
                            "unsupported-error",
                            format!("must be one of {want:?}, is {e}"),
                        );
                    }
                    // The renderers refuse too.
                    for f in [
                        OutputFormat::Json,
                        OutputFormat::Csv,
                        OutputFormat::Table,
                        OutputFormat::Xml,
                    ] {
                        if let Ok(s) = render(cx, &d.bytes, f, given, None)? {
                            let xml_hdr = f == OutputFormat::Xml && !s.contains("<DataRecord");
                            if !xml_hdr {
                                return viol("unsupported-rendered", format!("{f}: {s}"));
                            }
                        }
                    }
                }
            }
            // Application layer: no records without decryption, and every
            // key-source fault is an error.
            let payload = w.payload.clone().unwrap_or_default();
            let mut outcome = String::new();
            let low = cx.call("low-level decryption", || -> Res {
                let block = match user_data::parse_application_layer(&payload) {
                    Ok(b) => b,
                    Err(e) => return viol("application-rejected", format!("{e:?}")),
                };
                if block.data_records().is_some() {
                    return viol(
                        "records-of-ciphertext",
                        "the application layer offers records of an encrypted payload",
                    );
                }
                if matches!(tg.app, App::Long { .. }) && block.is_encrypted() != Some(true) {
                    return viol("is-encrypted", "encrypted payload reported as clear");
                }
                if tg.ell_encrypted() || tg.key_ident().is_none() {
                    // No call can decrypt these.
                    let src = Source {
                        key: right.to_vec(),
                        fail: None,
                        seen: Default::default(),
                    };
                    let mut buf = [0u8; 300];
                    if let Ok(n) = block.decrypt_variable_data(&src, &mut buf) {
                        return viol("undecryptable-decrypted", format!("{n} bytes"));
                    }
                    return Ok(());
                }
                let mut src = Source {
                    key: right.to_vec(),
                    fail: None,
                    seen: Default::default(),
                };
                let n = payload.len() - w.start;
                let mut room = 300;
                let mut want: Option<DecryptionError> = None;
                match &fault {
                    KeyFault::NotFound => {
                        src.fail = Some(DecryptionError::KeyNotFound);
                        want = src.fail;
                    }
                    KeyFault::Broken => {
                        src.fail = Some(DecryptionError::DecryptionFailed);
                        want = src.fail;
                    }
                    KeyFault::Size(k) if k.0.len() != 16 => {
                        src.key = k.0.clone();
                        want = Some(DecryptionError::InvalidKeyLength);
                    }
                    KeyFault::Buffer(x) => {
                        room = n.saturating_sub(1 + usize::from(*x) % n.max(1));
                        want = Some(DecryptionError::InvalidDataLength);
                    }
                    _ => {}
                }
                let unsupported = !matches!(tg.mode(), 5 | 7);
                let mut buf = vec![0u8; room];
                let r = if let KeyFault::OtherMeter(x) = &fault {
                    let id = tg.key_ident().expect("identity");
                    let mut ring = StaticKeyProvider::<4>::new();
                    let bit = x % 24;
                    let other_no = id.number() ^ (1 << bit);
                    let other_mf = id.code() ^ (1 << (x % 15));
                    let _ = ring.add_key(id.code(), other_no, right);
                    let _ = ring.add_key(other_mf, id.number(), right);
                    let _ = ring.add_key(id.number() as u16, u32::from(id.code()), right);
                    if id.number() as u16 == id.code() && u32::from(id.code()) == id.number() {
                        return Ok(());
                    }
                    want = Some(DecryptionError::KeyNotFound);
                    low_decrypt(tg, &block, &ring, &mut buf)
                } else {
                    low_decrypt(tg, &block, &src, &mut buf)
                };
                outcome = format!("{r:?}");
                match (r, want) {
                    (Ok(_), Some(e)) => {
                        viol("key-fault-ignored", format!("{fault:?} must give {e:?}"))
                    }
                    (Ok(_), None) if unsupported => {
                        viol("unsupported-decrypted", format!("mode {}", tg.mode()))
                    }
                    (Ok(_), None) => Ok(()),
                    (Err(_), Some(_)) => Ok(()),
                    (Err(_), None) if unsupported => Ok(()),
                    (Err(e), None) => viol("decryption-failed", format!("{fault:?}: {e:?}")),
                }
            })?;
            low?;
            let outcome: String = outcome.chars().filter(|c| !c.is_ascii_digit()).collect();
            cx.sig(&format!(
                "{name}{}{:?}{:?}{outcome}",
                tg.mode(),
                std::mem::discriminant(&tg.app),
                std::mem::discriminant(&tg.link)
            ));
            cx.sample(json!({"fault": name, "mode": tg.mode(), "outcome": outcome}));
        }
        Ok(())
    }
}

/// Internal agreement of the security part of one document.
fn consistent(doc: &Value, key: bool) -> Res {
    let s = &doc["security"];
    let mode = s["mode_code"].as_u64().unwrap_or(0);
    let prot = s["payload_protection"].as_str().unwrap_or("");
    let state = s["decryption_state"].as_str().unwrap_or("");
    if mode != 0 && prot != "encrypted" {
        return viol("ciphertext-as-clear", format!("mode {mode} but {prot}"));
    }
    if prot == "encrypted" && !key {
        let n = doc["records"].as_array().map_or(0, Vec::len);
        if n > 0 || state != "key_missing" || doc["decode_state"] != json!("partial") {
            return viol(
                "ciphertext-read",
                format!("{n} records, {state}, {}", doc["decode_state"]),
            );
        }
    }
    if s.get("decrypted_payload_hex").is_some() != (state == "decrypted_unverified") {
        return viol("decryption-state", format!("{s}"));
    }
    if s["key_supplied"] != json!(key) {
        return viol("key-supplied", format!("{s}"));
    }
    Ok(())
}

// ----------------------------------------------------------------------- C15

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Op {
    Add {
        m: u16,
        id: u32,
        key: Hex,
    },
    Look {
        m: u16,
        id: u32,
        ver: u8,
        dev: u8,
        mode: u8,
        acc: u8,
    },
    /// Use the store to decrypt a block of zeros.
    Use {
        m: u16,
        id: u32,
    },
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct StoreSc {
    pub cap: u8,
    pub ops: Vec<Op>,
}

trait Store {
    fn add(&mut self, m: u16, id: u32, k: [u8; 16]) -> Result<(), DecryptionError>;
    fn get(&self, c: &KeyContext) -> Result<Vec<u8>, DecryptionError>;
    fn dec(&self, c: &KeyContext, data: &[u8], out: &mut [u8]) -> Result<usize, DecryptionError>;
}
impl<const N: usize> Store for StaticKeyProvider<N> {
    fn add(&mut self, m: u16, id: u32, k: [u8; 16]) -> Result<(), DecryptionError> {
        self.add_key(m, id, k)
    }
    fn get(&self, c: &KeyContext) -> Result<Vec<u8>, DecryptionError> {
        self.get_key(c).map(<[u8]>::to_vec)
    }
    fn dec(&self, c: &KeyContext, data: &[u8], out: &mut [u8]) -> Result<usize, DecryptionError> {
        EncryptedPayload::new(data, c.clone()).decrypt_into(self, out)
    }
}

const CAPS: [usize; 7] = [0, 1, 2, 3, 5, 8, 33];

fn store(cap: u8) -> (usize, Box<dyn Store>) {
    match cap % 7 {
        0 => (0, Box::new(StaticKeyProvider::<0>::new())),
        1 => (1, Box::new(StaticKeyProvider::<1>::default())),
        2 => (2, Box::new(StaticKeyProvider::<2>::new())),
        3 => (3, Box::new(StaticKeyProvider::<3>::new())),
        4 => (5, Box::new(StaticKeyProvider::<5>::new())),
        5 => (8, Box::new(StaticKeyProvider::<8>::default())),
        _ => (33, Box::new(StaticKeyProvider::<33>::new())),
    }
}

pub struct C15;
impl Prop for C15 {
    type Sc = StoreSc;
    fn meta(&self) -> Meta {
        Meta {
            id: "C15",
            level: "exploration",
            rule: "operations on the key store compared with a list model; distinct = (capacity, fill, operation, outcome, position of the answer)",
            quick: 500_000,
            thorough: 15_000_000,
            components: &["m-bus-core key store", "aes/cbc crates"],
            stubs: &["clients of the key store"],
            measure: "distinct operation histories (hash of the operations)",
        }
    }
    fn gen(&self, r: &mut Rng, _t: Tier, _i: u64) -> StoreSc {
        let cap = r.below(7) as u8;
        // A small population, with near misses.
        let mut pool: Vec<(u16, u32)> = Vec::new();
        for _ in 0..r.range(1, 4) {
            let m = (r.range(1, 26) as u16) << 10
                | (r.range(1, 26) as u16) << 5
                | r.range(1, 26) as u16;
            let id = match r.below(5) {
                0 => 0,
                1 => u32::MAX,
                2 => r.u64() as u32,
                _ => r.below(100_000_000) as u32,
            };
            pool.push((m, id));
            pool.push((m, id ^ 1 << r.below(32)));
            let m2 = loop {
                let x = m ^ 1 << r.below(15);
                if ManufacturerCode::from_id(x).is_ok() {
                    break x;
                }
            };
            pool.push((m2, id));
            pool.push((
                m2,
                id.wrapping_add(u32::from(m).wrapping_sub(u32::from(m2))),
            ));
            pool.push((m, id.rotate_left(16)));
        }
        let n = r.range(2, 8 + 2 * CAPS[usize::from(cap)]);
        let ops = (0..n)
            .map(|_| {
                let (m, id) = *r.pick(&pool);
                match r.below(7) {
                    0..=2 => Op::Add {
                        m,
                        id,
                        key: Hex(r.bytes(16)),
                    },
                    3 => Op::Use { m, id },
                    _ => Op::Look {
                        m,
                        id,
                        ver: r.u8(),
                        dev: r.u8(),
                        mode: r.below(32) as u8,
                        acc: r.u8(),
                    },
                }
            })
            .collect();
        StoreSc { cap, ops }
    }
    fn exec(&self, sc: &StoreSc, cx: &mut Cx) -> Res {
        let (cap, mut s) = store(sc.cap);
        let mut model: Vec<(u16, u32, [u8; 16])> = Vec::new();
        let k16 = |k: &Hex| {
            let mut x = [0u8; 16];
            for (a, b) in x.iter_mut().zip(&k.0) {
                *a = *b;
            }
            x
        };
        let mut hist = 0u64;
        for op in &sc.ops {
            cx.evals += 1;
            hist = crate::rng::mix(hist ^ crate::rng::hash_bytes(format!("{op:?}").as_bytes()));
            let ctx = |m: u16, id: u32, ver: u8, dev: u8, mode: u8, acc: u8| {
                ManufacturerCode::from_id(m)
                    .ok()
                    .map(|manufacturer| KeyContext {
                        manufacturer,
                        identification_number: id,
                        version: ver,
                        device_type: DeviceType::from(dev),
                        security_mode: SecurityMode::from_bits(mode),
                        access_number: acc,
                    })
            };
            match op {
                Op::Add { m, id, key } => {
                    let key = k16(key);
                    let got = cx.call("add_key", || s.add(*m, *id, key))?;
                    let full = model.len() == cap;
                    if got.is_ok() == full {
                        return viol(
                            "add-result",
                            format!("{} of {cap} stored, add gave {got:?}", model.len()),
                        );
                    }
                    if full {
                        cx.fault("store_full");
                    } else {
                        model.push((*m, *id, key));
                    }
                    cx.event(|| format!("add {full}"));
                    cx.note(|| format!("{op:?} -> {got:?}"));
                    cx.sig(&format!("{cap}{}add{full}", model.len()));
                }
                Op::Look {
                    m,
                    id,
                    ver,
                    dev,
                    mode,
                    acc,
                } => {
                    let Some(c) = ctx(*m, *id, *ver, *dev, *mode, *acc) else {
                        continue;
                    };
                    let got = cx.call("get_key", || s.get(&c))?;
                    let at = model.iter().position(|e| (e.0, e.1) == (*m, *id));
                    let want = at.map(|i| model[i].2.to_vec());
                    cx.event(|| format!("look {at:?}"));
                    cx.note(|| format!("{op:?} -> {got:?}"));
                    if got.clone().ok() != want {
                        return viol("lookup", format!("{op:?}: must be {want:?}, is {got:?}"));
                    }
                    if at.is_none() && got != Err(DecryptionError::KeyNotFound) {
                        return viol("lookup-error", format!("{got:?}"));
                    }
                    cx.sig(&format!("{cap}{}look{at:?}", model.len()));
                    cx.sample(json!({"stored": model.len(), "capacity": cap, "answer": at}));
                }
                Op::Use { m, id } => {
                    let Some(c) = ctx(*m, *id, 1, 7, 7, 0) else {
                        continue;
                    };
                    let at = model.iter().position(|e| (e.0, e.1) == (*m, *id));
                    let mut out = [0u8; 16];
                    let mut data = [0x2F; 16];
                    if let Some(i) = at {
                        crate::crypto::cbc_encrypt(&model[i].2, &[0; 16], &mut data);
                    }
                    let got = cx.call("decrypt_into", || s.dec(&c, &data, &mut out))?;
                    cx.event(|| format!("use {at:?}"));
                    cx.note(|| format!("{op:?} -> {got:?}"));
                    if got.is_ok() != at.is_some() || (at.is_some() && out != [0x2F; 16]) {
                        return viol("use-key", format!("{op:?}: stored at {at:?}, got {got:?}"));
                    }
                }
            }
        }
        cx.orders.insert(hist);
        Ok(())
    }
}
