//! C17, C19, C20 and C22: output formats, annotations, sinks.

use super::{ORDER, STUBS};
use crate::chan;
use crate::doc;
use crate::engine::{viol, Cx, Meta, Prop, Res, Tier, Viol};
use crate::gen::*;
use crate::model::*;
use crate::rng::Rng;
use crate::util::{compact, spaced, unspaced, upper};
use m_bus_parser as mbp;
use mbp::OutputFormat;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

const REAL: &[&str] = &[
    "wired-mbus-link-layer",
    "wireless-mbus-link-layer",
    "m-bus-core incl. decryption",
    "m-bus-application-layer",
    "m-bus-parser decoder, annotator and renderers",
    "serde_json, serde_yaml, csv (as used by the repository)",
];

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct ViewSc {
    pub traffic: Traffic,
    /// Per send: 0 no key, 1 the meter's key, 2 another key.
    pub keys: Vec<u8>,
    pub widths: Vec<u16>,
    pub enrich: bool,
}

fn gen_view(r: &mut Rng, n: usize, allowed: &[u8]) -> ViewSc {
    let mut traffic = gen_mixed(r, Medium::Both, allowed, n);
    for s in &mut traffic.sends {
        if r.chance(1, 3) {
            s.faults.clear();
        }
    }
    ViewSc {
        keys: (0..n).map(|_| *r.pick(&[0, 1, 1, 2])).collect(),
        widths: (0..n)
            .map(|_| match r.below(6) {
                0 => r.below(32) as u16,
                1 => *r.pick(&[32, 33, 71, 72, 99, 100]),
                2 => r.range(32, 72) as u16,
                3 => r.range(72, 100) as u16,
                4 => r.range(100, 200) as u16,
                _ => r.range(200, 1000) as u16,
            })
            .collect(),
        enrich: r.bool(),
        traffic,
    }
}

impl ViewSc {
    fn key(&self, k: usize) -> Option<[u8; 16]> {
        let sec = self.traffic.sends[k].tg.sec.as_ref();
        match self.keys.get(k).copied().unwrap_or(0) {
            0 => None,
            1 => Some(sec.map_or([3; 16], |s| s.key16())),
            _ => Some([0xB7; 16]),
        }
    }
    fn width(&self, k: usize) -> usize {
        usize::from(self.widths.get(k).copied().unwrap_or(100))
    }
}

struct Ask {
    key: Option<[u8; 16]>,
    enrich: bool,
    width: Option<usize>,
}

impl Ask {
    fn options(&self) -> mbp::RenderOptions {
        mbp::RenderOptions {
            decode: mbp::DecodeOptions {
                key: self.key,
                include_enrichment: self.enrich,
            },
            table_width: self.width,
        }
    }
    fn get(
        &self,
        cx: &mut Cx,
        b: &[u8],
        f: OutputFormat,
    ) -> Result<Result<String, (String, String)>, Viol> {
        cx.call("render_bytes", || {
            mbp::render_bytes(b, f, &self.options())
                .map_err(|e| (e.code().to_string(), e.to_string()))
        })
    }
    fn legacy(&self, cx: &mut Cx, b: &[u8], f: &str) -> Result<String, Viol> {
        cx.call("serialize_mbus_data", || {
            mbp::serialize_mbus_data(&compact(b), f, self.key.as_ref())
        })
    }
}

fn shown(r: &Value) -> String {
    let v = &r["value"];
    match &v["value"] {
        Value::String(s) => s.clone(),
        Value::Object(m) => m
            .iter()
            .map(|(k, v)| {
                format!(
                    "{k}={}",
                    v.as_str().map_or_else(|| v.to_string(), str::to_string)
                )
            })
            .collect::<Vec<_>>()
            .join(", "),
        Value::Null => match v["kind"].as_str() {
            Some("manufacturer_specific") => r["data_hex"].as_str().unwrap_or("").replace(' ', ""),
            Some("none") => "No data".into(),
            Some("unknown") => "Unsupported value type".into(),
            _ => String::new(),
        },
        x => x.to_string(),
    }
}

fn text(v: &Value) -> String {
    match v {
        Value::String(s) => s.clone(),
        Value::Null => String::new(),
        x => x.to_string(),
    }
}

fn joined(v: &Value, f: impl Fn(&Value) -> String) -> String {
    v.as_array()
        .map(|a| a.iter().map(f).collect::<Vec<_>>().join("|"))
        .unwrap_or_default()
}

const FRAME_COLUMNS: [&str; 18] = [
    "schema_version",
    "protocol",
    "frame_kind",
    "frame_function",
    "address",
    "meter_id",
    "manufacturer_code",
    "identity_source",
    "access_numbers",
    "status_codes",
    "security_mode",
    "decryption_state",
    "decode_state",
    "record_count",
    "diagnostic_codes",
    "manufacturer_name",
    "manufacturer_website",
    "frame_hex",
];
const RECORD_COLUMNS: [&str; 11] = [
    "function",
    "storage_number",
    "tariff",
    "subunit",
    "quantities",
    "value_type",
    "value",
    "unit",
    "data_coding",
    "header_hex",
    "data_hex",
];

fn csv_agrees(doc: &Value, s: &str) -> Res {
    let Some(t) = doc::csv(s) else {
        return viol("csv-malformed", s.to_string());
    };
    let recs = doc["records"].as_array().cloned().unwrap_or_default();
    if t.len() != 2 || t[0].len() != t[1].len() || t[0].len() != 18 + 11 * recs.len() {
        return viol(
            "csv-shape",
            format!(
                "{:?} columns for {} records",
                t.iter().map(Vec::len).collect::<Vec<_>>(),
                recs.len()
            ),
        );
    }
    let id = &doc["meter"]["identity"];
    let want_frame = [
        text(&doc["schema_version"]),
        text(&doc["protocol"]),
        text(&doc["frame"]["kind"]),
        text(&doc["frame"]["function"]),
        text(&doc["frame"]["address"]),
        text(&id["id"]),
        text(&id["manufacturer_code"]),
        text(&id["source"]),
        joined(&doc["transport"]["access_numbers"], |x| {
            format!("{}:{}", text(&x["source"]), x["value"])
        }),
        joined(&doc["transport"]["statuses"], |x| text(&x["raw"])),
        text(&doc["security"]["mode"]),
        text(&doc["security"]["decryption_state"]),
        text(&doc["decode_state"]),
        recs.len().to_string(),
        joined(&doc["diagnostics"], |x| text(&x["code"])),
        text(&doc["enrichment"]["manufacturer_name"]),
        text(&doc["enrichment"]["manufacturer_website"]),
        text(&doc["raw"]["original_frame_hex"]),
    ];
    for (i, name) in FRAME_COLUMNS.iter().enumerate() {
        if t[0][i] != *name {
            return viol("csv-header", format!("column {i} is {:?}", t[0][i]));
        }
        if t[1][i] != want_frame[i] {
            return viol(
                "csv-frame-column",
                format!(
                    "{name}: document has {:?}, CSV {:?}",
                    want_frame[i], t[1][i]
                ),
            );
        }
    }
    for (k, r) in recs.iter().enumerate() {
        for (j, name) in RECORD_COLUMNS.iter().enumerate() {
            let c = 18 + 11 * k + j;
            let head = format!("record_{}_{name}", r["index"]);
            if t[0][c] != head {
                return viol(
                    "csv-header",
                    format!("column {c} is {:?}, not {head}", t[0][c]),
                );
            }
            let want = match *name {
                "quantities" => joined(&r["quantities"], text),
                "value_type" => text(&r["value"]["kind"]),
                "value" => shown(r),
                n => text(&r[n]),
            };
            if t[1][c] != want {
                return viol(
                    "csv-record-column",
                    format!("{head}: document has {want:?}, CSV {:?}", t[1][c]),
                );
            }
        }
    }
    Ok(())
}

fn reading(r: &Value) -> String {
    let q: Vec<String> = r["quantities"]
        .as_array()
        .map(|a| a.iter().map(text).collect())
        .unwrap_or_default();
    let q = if q.is_empty() {
        "Reading".to_string()
    } else {
        q.join(", ")
    };
    let u = match &r["unit"] {
        Value::String(u) => format!(" {u}"),
        _ => String::new(),
    };
    format!("{q}: {}{u}", shown(r))
}

fn table_agrees(doc: &Value, s: &str) -> Res {
    if doc["records"].to_string().contains('│') {
        return Ok(());
    }
    let bx = doc::boxes(s);
    let recs = doc["records"].as_array().cloned().unwrap_or_default();
    let mut cells: Vec<Vec<String>> = Vec::new();
    for r in &recs {
        cells.push(
            [
                text(&r["index"]),
                reading(r),
                text(&r["function"]),
                format!("{}/{}/{}", r["storage_number"], r["tariff"], r["subunit"]),
                text(&r["data_coding"]),
                format!("{} {}", text(&r["header_hex"]), text(&r["data_hex"])),
            ]
            .iter()
            .map(|x| doc::squeeze(x))
            .collect(),
        );
    }
    // First box: the summary.
    let Some(sum) = bx.first() else {
        return viol("table-shape", s.to_string());
    };
    let id = &doc["meter"]["identity"];
    let dash = |v: &Value| {
        if v.is_null() {
            "—".to_string()
        } else {
            text(v)
        }
    };
    for (k, v) in [
        ("Function", dash(&doc["frame"]["function"])),
        ("Meter", dash(&id["id"])),
        ("Manufacturer", dash(&id["manufacturer_code"])),
        ("Device", dash(&id["device_type"])),
        (
            "Security",
            format!(
                "{} · {}",
                text(&doc["security"]["payload_protection"]),
                text(&doc["security"]["decryption_state"])
            ),
        ),
    ] {
        if !sum
            .iter()
            .any(|r| r.len() == 2 && r[0] == k && r[1] == doc::squeeze(&v))
        {
            return viol("table-summary", format!("{k} must be {v:?}: {sum:?}"));
        }
    }
    // Every diagnostic, in order, in a box of its own at the end.
    let told = doc["diagnostics"].as_array().cloned().unwrap_or_default();
    if !told.is_empty() {
        let want: Vec<Vec<String>> = told
            .iter()
            .map(|d| {
                vec![
                    doc::squeeze(&text(&d["code"])),
                    doc::squeeze(&format!(
                        "{}: {}",
                        text(&d["severity"]),
                        text(&d["message"])
                    )),
                ]
            })
            .collect();
        let last = bx.last().map(|b| b[1..].to_vec()).unwrap_or_default();
        if last != want {
            return viol(
                "table-diagnostics",
                format!("must be {want:?}, is {last:?}"),
            );
        }
    }
    // Every record's cells, in order.
    let mut got: Vec<Vec<String>> = Vec::new();
    for b in &bx[1..] {
        let head = &b[0];
        if head.first().map(String::as_str) == Some("#") {
            got.extend(b[1..].iter().cloned());
        } else if b.get(1).and_then(|r| r.first()).map(String::as_str) == Some("Reading") {
            got.push(
                b[1..]
                    .iter()
                    .map(|r| r.get(1).cloned().unwrap_or_default())
                    .collect(),
            );
        }
    }
    if got.len() != cells.len() {
        return viol(
            "table-records",
            format!(
                "{} records in the table, {} in the document",
                got.len(),
                cells.len()
            ),
        );
    }
    for (i, (g, c)) in got.iter().zip(&cells).enumerate() {
        let want = match g.len() {
            6 => c.clone(),
            5 => c[1..].to_vec(),
            _ => vec![
                c[0].clone(),
                format!("{}{}·raw{}", c[1], c[4], c[5]),
                c[2].clone(),
                c[3].clone(),
            ],
        };
        if *g != want {
            return viol(
                "table-record",
                format!("record {i}: must be {want:?}, is {g:?}"),
            );
        }
    }
    if got.first().is_some_and(|g| g.len() == 5) {
        let heads: Vec<String> = s
            .split('\n')
            .filter_map(|l| l.strip_prefix("Record ").map(str::to_string))
            .collect();
        if heads != recs.iter().map(|r| text(&r["index"])).collect::<Vec<_>>() {
            return viol("table-record-number", format!("{heads:?}"));
        }
    }
    Ok(())
}

/// Factor, unit and quantity of a value code in the vocabulary of the XML
/// output. An empty unit marked "?" is not judged.
fn xml_code(table: u8, c: u8) -> Option<(f64, &'static str, &'static str)> {
    const MONTH: f64 = 2_629_743.83;
    const YEAR: f64 = 31_556_926.0;
    let n = i32::from(c & 7);
    let t = i32::from(c & 3);
    let x = i32::from(c & 15);
    let p = |e: i32| 10f64.powi(e);
    let time = [1.0, 60.0, 3600.0, 86400.0][usize::from(c & 3)];
    let long = [3600.0, 86400.0, MONTH, YEAR][usize::from(c & 3)];
    let plain = |q: &'static str| Some((1.0, "", q));
    Some(match (table, c) {
        (0, 0x00..=0x07) => (p(n - 3), "Wh", "Energy"),
        (0, 0x08..=0x0F) => (p(n), "J", "Energy"),
        (0, 0x10..=0x17) => (p(n - 6), "m^3", "Volume"),
        (0, 0x18..=0x1F) => (p(n - 3), "kg", "Mass"),
        (0, 0x20..=0x23) => (time, "s", "On time"),
        (0, 0x24..=0x27) => (time, "s", "Operating time"),
        (0, 0x28..=0x2F) => (p(n - 3), "W", "Power"),
        (0, 0x30..=0x37) => (p(n), "J/h", "Power"),
        (0, 0x38..=0x3F) => (p(n - 6), "m^3/h", "Volume flow"),
        (0, 0x40..=0x47) => (p(n - 7), "m^3/min", "Volume flow"),
        (0, 0x48..=0x4F) => (p(n - 9), "m^3/s", "Volume flow"),
        (0, 0x50..=0x57) => (p(n - 3), "kg/h", "Mass flow"),
        (0, 0x58..=0x5B) => (p(t - 3), "°C", "Flow temperature"),
        (0, 0x5C..=0x5F) => (p(t - 3), "°C", "Return temperature"),
        (0, 0x60..=0x63) => (p(t - 3), "K", "Temperature difference"),
        (0, 0x64..=0x67) => (p(t - 3), "°C", "External temperature"),
        (0, 0x68..=0x6B) => (p(t - 3), "bar", "Pressure"),
        (0, 0x6E) => (1.0, "Units for H.C.A.", "H.C.A."),
        (0, 0x70..=0x73) => (time, "s", "Averaging Duration"),
        (0, 0x74..=0x77) => (time, "s", "Actuality Duration"),
        (0, 0x78) => return plain("Fabrication No"),
        (0, 0x79) => return plain("(Enhanced) Identification"),
        (0, 0x7A) => return plain("Bus Address"),
        (1, 0x00..=0x03) => (p(t - 3), "Currency units", "Credit"),
        (1, 0x04..=0x07) => (p(t - 3), "Currency units", "Debit"),
        (1, 0x08) => return plain("Access Number (transmission count)"),
        (1, 0x09) => return plain("Medium"),
        (1, 0x0A) => return plain("Manufacturer"),
        (1, 0x0B) => return plain("Parameter set identification"),
        (1, 0x0C) => return plain("Model / Version"),
        (1, 0x0D) => return plain("Hardware version"),
        (1, 0x0E) => return plain("Firmware version"),
        (1, 0x0F) => return plain("Software version"),
        (1, 0x10) => return plain("Customer location"),
        (1, 0x11) => return plain("Customer"),
        (1, 0x12) => return plain("Access Code User"),
        (1, 0x13) => return plain("Access Code Operator"),
        (1, 0x14) => return plain("Access Code System Operator"),
        (1, 0x15) => return plain("Access Code Developer"),
        (1, 0x16) => return plain("Password"),
        (1, 0x17) => return plain("Error flags"),
        (1, 0x18) => return plain("Error mask"),
        (1, 0x1A) => return plain("Digital Output"),
        (1, 0x1B) => return plain("Digital Input"),
        (1, 0x1C) => (1.0, "Baud", "Baudrate"),
        (1, 0x1D) => (1.0, "Bittimes", "Response delay time"),
        (1, 0x1E) => return plain("Retry"),
        (1, 0x20) => return plain("First storage # for cyclic storage"),
        (1, 0x21) => return plain("Last storage # for cyclic storage"),
        (1, 0x22) => return plain("Size of storage block"),
        (1, 0x24..=0x27) => (time, "s", "Storage interval"),
        (1, 0x28) => (MONTH, "s", "Storage interval"),
        (1, 0x29) => (YEAR, "s", "Storage interval"),
        (1, 0x3A) => return plain("Dimensionless"),
        (1, 0x40..=0x4F) => (p(x - 9), "V", "Voltage"),
        (1, 0x50..=0x5F) => (p(x - 12), "A", "Current"),
        (1, 0x60) => return plain("Reset counter"),
        (1, 0x61) => return plain("Cumulation counter"),
        (1, 0x62) => return plain("Control signal"),
        (1, 0x63) => return plain("Day of week"),
        (1, 0x64) => return plain("Week number"),
        (1, 0x65) => return plain("Time point of day change"),
        (1, 0x66) => return plain("State of parameter activation"),
        (1, 0x67) => return plain("Special supplier information"),
        (1, 0x68..=0x6B) => (long, "s", "Duration since last cumulation"),
        (1, 0x6C..=0x6F) => (long, "s", "Operating time battery"),
        (2, 0x00..=0x01) => (p(t + 5), "Wh", "Energy"),
        (2, 0x08..=0x09) => (p(t + 8), "?", "Energy"),
        (2, 0x10..=0x11) => (p(t + 2), "m^3", "Volume"),
        (2, 0x18..=0x19) => (p(t + 5), "kg", "Mass"),
        (2, 0x21) => (0.1, "feet^3", "Volume"),
        (2, 0x28..=0x29) => (p(t + 5), "W", "Power"),
        (2, 0x30..=0x31) => (p(t + 8), "?", "Power"),
        (2, 0x58..=0x5B) => (p(t - 3), "°F", "Flow temperature"),
        (2, 0x5C..=0x5F) => (p(t - 3), "°F", "Return temperature"),
        (2, 0x60..=0x63) => (p(t - 3), "°F", "Temperature difference"),
        (2, 0x64..=0x67) => (p(t - 3), "°F", "External temperature"),
        (2, 0x70..=0x73) => (p(t - 3), "°F", "Cold / Warm Temperature Limit"),
        (2, 0x74..=0x77) => (p(t - 3), "°C", "Cold / Warm Temperature Limit"),
        (2, 0x78..=0x7F) => (p(n - 3), "W", "Cumul count max power"),
        _ => return None,
    })
}

/// What the XML output must give for a plain record: value, unit, quantity.
/// Plain: one code of a table, at most one extension that does not add.
fn xml_plain(h: &[u8], d: &[u8], w: &Value) -> Option<(String, &'static str, &'static str)> {
    let dif = *h.first()?;
    let e = h.iter().position(|b| b & 0x80 == 0)? + 1;
    let v = &h[e..];
    let date = w["value"]["value"].as_str().filter(|_| {
        let k = w["value"]["kind"].as_str();
        k == Some("date") || k == Some("datetime")
    });
    let (table, code, rest) = match v {
        [0xFB, c] => (2, *c, None),
        [0xFD, c] => (1, *c, None),
        [c] => (0, *c, None),
        [c, x] if *c != 0xFB && *c != 0xFC && *c != 0xFD && *c < 0xFE => (0, *c & 0x7F, Some(*x)),
        _ => return None,
    };
    if table == 0 && matches!(code, 0x6C | 0x6D) {
        // A complete date; the century is this format's own.
        let date = date?;
        let clock = match dif & 15 {
            2 => return Some((century(date)?, "-", "Time point (date)")),
            4 if d[0] & 0x80 == 0 => date,
            6 if d[1] & 0x80 == 0 => date,
            _ => return None,
        };
        return Some((century(clock)? + "Z", "-", "Time point (date & time)"));
    }
    let (mut f, u, q) = xml_code(table, code)?;
    match rest {
        None | Some(0x00..=0x6F | 0x7C) => {}
        Some(x @ 0x70..=0x77) => f *= 10f64.powi(i32::from(x & 7) - 6),
        Some(0x7D) => f *= 1000.0,
        _ => return None,
    }
    let raw = match dif & 0x0F {
        0 => return Some((String::new(), u, q)),
        1 | 2 | 3 | 4 | 6 | 7 => {
            let mut v: i64 = if d.last()? & 0x80 != 0 { -1 } else { 0 };
            for b in d.iter().rev() {
                v = v << 8 | i64::from(*b);
            }
            v as f64
        }
        5 => f64::from(f32::from_le_bytes(d.try_into().ok()?)),
        0x9..=0xC | 0xE => {
            let mut v = 0f64;
            let neg = d.last()? >> 4 == 15;
            for (i, b) in d.iter().enumerate().rev() {
                let b = if neg && i + 1 == d.len() { b & 15 } else { *b };
                if b >> 4 > 9 || b & 15 > 9 {
                    return None;
                }
                v = v * 100.0 + f64::from(b >> 4) * 10.0 + f64::from(b & 15);
            }
            if neg {
                -v
            } else {
                v
            }
        }
        0xD => {
            let t = w["value"]["value"].as_str()?;
            let printable = !t.is_empty() && t.bytes().all(|b| (0x20..0x7F).contains(&b));
            return (w["value"]["kind"] == json!("text") && printable)
                .then(|| (t.to_string(), u, q));
        }
        _ => return None,
    };
    raw.is_finite().then(|| ((raw * f).to_string(), u, q))
}

/// "0024-05-06" as the XML writes it.
fn century(date: &str) -> Option<String> {
    let (y, rest) = date.split_once('-')?;
    Some(format!("{:04}-{rest}", 2000 + y.parse::<u32>().ok()?))
}

fn xml_agrees(doc: &Value, s: &str) -> Res {
    let x = match doc::xml(s) {
        Ok(x) => x,
        Err(e) => return viol("xml-malformed", format!("{e}: {s}")),
    };
    let recs: Vec<&doc::Elem> = x.kids.iter().filter(|k| k.name == "DataRecord").collect();
    let want = doc["records"].as_array().cloned().unwrap_or_default();
    if doc["transport"]["header_kind"] == json!("fixed") {
        // Two counters, which the document keeps as raw bytes only.
        if recs.len() != 2 {
            return viol("xml-fixed", format!("{} records", recs.len()));
        }
        return Ok(());
    }
    if recs.len() != want.len() {
        return viol(
            "xml-records",
            format!(
                "{} records in the XML, {} in the document",
                recs.len(),
                want.len()
            ),
        );
    }
    for (i, (g, w)) in recs.iter().zip(&want).enumerate() {
        if g.attrs != [("id".to_string(), i.to_string())] {
            return viol("xml-index", format!("record {i}: {:?}", g.attrs));
        }
        let h = unspaced(w["header_hex"].as_str().unwrap_or("")).unwrap_or_default();
        let d = unspaced(w["data_hex"].as_str().unwrap_or("")).unwrap_or_default();
        let plain = xml_plain(&h, &d, w);
        if g.kids.is_empty() && plain.is_none() {
            // A code outside the vocabulary of this format.
            continue;
        }
        let bad = |what: &str| {
            viol::<()>(
                "xml-record",
                format!("record {i}: {what} of {g:?} against {w}"),
            )
        };
        if g.value("Function") != w["function"].as_str() {
            return bad("function");
        }
        let special = h.first().is_some_and(|d| matches!(d, 0x0F | 0x1F));
        if special {
            if g.value("Value") != Some(spaced(&d).as_str()) {
                return bad("value");
            }
            continue;
        }
        if g.value("StorageNumber") != Some(text(&w["storage_number"]).as_str()) {
            return bad("storage number");
        }
        if h.first().is_some_and(|d| d & 0x80 != 0) {
            if g.value("Tariff") != Some(text(&w["tariff"]).as_str())
                || g.value("Device") != Some(text(&w["subunit"]).as_str())
            {
                return bad("tariff");
            }
        }
        if let Some((v, u, q)) = plain {
            let t = g.value("Value").unwrap_or("");
            let same = t == v
                || matches!((t.parse::<f64>(), v.parse::<f64>()), (Ok(g), Ok(v))
                    if (g - v).abs() <= 1e-6 + v.abs() * 1e-12);
            if !same || g.value("Quantity") != Some(q) || u != "?" && g.value("Unit") != Some(u) {
                return viol(
                    "xml-value",
                    format!("record {i} {}: must be {v} {u} {q}, is {g:?}", spaced(&h)),
                );
            }
        }
    }
    Ok(())
}

fn mermaid_agrees(doc: &Value, s: &str) -> Res {
    let esc = |t: &str| {
        t.replace('&', "&amp;")
            .replace('"', "&quot;")
            .replace('<', "&lt;")
            .replace('>', "&gt;")
            .replace('\n', " ")
    };
    let mut lines = s.split('\n');
    for r in doc["records"].as_array().into_iter().flatten() {
        let want = format!("R{}[\"{}\"]", r["index"], esc(&reading(r)));
        if !lines.any(|l| l.trim_start() == want.trim_start()) {
            return viol("mermaid-record", format!("no line {want}"));
        }
    }
    let drawn = s
        .split('\n')
        .filter(|l| {
            let n = l.trim_start().strip_prefix('R').unwrap_or("");
            n.starts_with(|c: char| c.is_ascii_digit())
                && n.trim_start_matches(|c: char| c.is_ascii_digit())
                    .starts_with('[')
        })
        .count();
    if drawn != doc["records"].as_array().map_or(0, Vec::len) {
        return viol("mermaid-records", format!("{drawn} drawn: {s}"));
    }
    let id = &doc["meter"]["identity"];
    let mut want = vec![
        format!(
            "FRAME_KIND[\"{} · {}\"]",
            text(&doc["protocol"]),
            text(&doc["frame"]["kind"])
        ),
        format!(
            "SECURITY_MODE[\"{}\"]",
            text(&doc["security"]["payload_protection"])
        ),
        format!(
            "SECURITY_STATE[\"{}\"]",
            text(&doc["security"]["decryption_state"])
        ),
    ];
    for (v, node) in [
        (&doc["frame"]["function"], "FRAME_FUNCTION[\"Function"),
        (&doc["frame"]["address"], "FRAME_ADDRESS[\"Address"),
        (&id["id"], "METER_ID[\"ID"),
        (
            &id["manufacturer_code"],
            "METER_MANUFACTURER[\"Manufacturer",
        ),
        (&id["device_type"], "METER_TYPE[\"Type"),
        (&id["version"], "METER_VERSION[\"Version"),
    ] {
        if !v.is_null() {
            want.push(format!("{node} · {}\"]", esc(&text(v))));
        }
    }
    if let Some(d) = doc["diagnostics"].as_array().filter(|d| !d.is_empty()) {
        want.push(format!(
            "DIAG[\"{} diagnostic(s) · {}\"]",
            d.len(),
            text(&d[0]["code"])
        ));
    }
    for w in want {
        if !s.split('\n').any(|l| l.trim_start() == w) {
            return viol("mermaid-frame", format!("no line {w}: {s}"));
        }
    }
    Ok(())
}

/// A unit of the document as the older documents write it.
fn old_unit(unit: &str) -> String {
    let mut out = String::new();
    for part in unit.split('.') {
        let n = part
            .find(|c: char| c == '-' || c.is_ascii_digit())
            .unwrap_or(part.len());
        let name = match &part[..n] {
            "kg" => "Kg",
            "[ft_i]" => "ft",
            "Cel" => "°C",
            "K" => "°K",
            "bar" => "Bar",
            "d" => "day",
            "wk" => "week",
            "mo" => "month",
            "a" => "year",
            "L" => "l",
            "[degF]" => "°F",
            "[gal_us]" => "UsGal",
            x @ ("W" | "J" | "t" | "m" | "s" | "min" | "h" | "V" | "A" | "%" | "Hz" | "cal") => x,
            // Not of that vocabulary: written alike in all documents.
            _ => return unit.to_string(),
        };
        out.push_str(name);
        for c in part[n..].chars() {
            out.push(match c {
                '-' => '⁻',
                c => ['⁰', '¹', '²', '³', '⁴', '⁵', '⁶', '⁷', '⁸', '⁹']
                    [c.to_digit(10).unwrap_or(0) as usize],
            });
        }
    }
    out
}

/// The value of a document record as the older documents write it.
fn old_value(w: &Value, plain: Option<f64>) -> Option<String> {
    const NAMES: [&str; 12] = [
        "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec",
    ];
    let v = &w["value"]["value"];
    match w["value"]["kind"].as_str()? {
        "decimal" | "float" => plain.map(|p| p.to_string()),
        "text" => Some(text(v)),
        "none" => Some("No Data".to_string()),
        "date" | "datetime" => {
            let full = unspaced(w["data_hex"].as_str()?)?.len() > 4;
            let mut f: Vec<String> = Vec::new();
            if let Some(iso) = v.as_str() {
                let n: Vec<usize> = iso
                    .split(|c: char| !c.is_ascii_digit())
                    .map(|p| p.parse().ok())
                    .collect::<Option<_>>()?;
                f.push(n[2].to_string());
                f.push(NAMES[n[1] - 1].to_string());
                f.push(n[0].to_string());
                f.extend(n[3..].iter().map(usize::to_string));
                if f.len() == 6 && !full {
                    f.pop();
                }
            } else {
                for k in ["day", "month", "year", "hour", "minute", "second"] {
                    match &v[k] {
                        Value::Null => {}
                        Value::String(s) if s == "every" => f.push("Every".to_string()),
                        Value::String(s) if s == "invalid" => f.push("Invalid".to_string()),
                        Value::String(s) => f.push(s.chars().take(3).collect()),
                        n => f.push(n.to_string()),
                    }
                }
            }
            match f.len() {
                3 => Some(f.join("/")),
                5 => Some(format!("{}/{}/{} {}:{}:00", f[0], f[1], f[2], f[3], f[4])),
                6 => Some(format!(
                    "{}/{}/{} {}:{}:{}",
                    f[0], f[1], f[2], f[3], f[4], f[5]
                )),
                _ => None,
            }
        }
        _ => None,
    }
}

/// What an older document says of a record in words agrees with the document.
fn old_words(r: &Value, w: &Value) -> Res {
    let unit = w["unit"].as_str().map(old_unit);
    if r["unit"].as_str() != unit.as_deref() {
        return viol("legacy-unit", format!("{r} against {w}"));
    }
    let words = |s: &str| -> String {
        s.chars()
            .filter(|c| c.is_ascii_alphanumeric())
            .map(|c| c.to_ascii_lowercase())
            .collect()
    };
    let told = r["quantity"].as_str().unwrap_or("");
    let labels: Vec<&str> = told.split(", ").filter(|l| !l.is_empty()).collect();
    let names = w["quantities"].as_array().cloned().unwrap_or_default();
    let same = labels.len() == names.len()
        && labels.iter().zip(&names).all(|(l, n)| {
            let n = text(n);
            match *l {
                "Date" => n == "Time point (date)",
                "Time" => n == "Time point (time)",
                "DateTime" | "DateTimeWithSeconds" => n == "Time point (date and time)",
                "DataContainerForWmbusProtocol" => n.starts_with("Data container"),
                l => words(l) == words(&n),
            }
        });
    if !same {
        return viol("legacy-quantity", format!("{r} against {w}"));
    }
    let coding = text(&w["data_coding"]);
    let coding = match coding.split_once('-') {
        Some((n, c)) if c == "digit BCD" => format!("BCD {n}-digit"),
        Some((n, "bit integer")) => format!("{n}-bit Integer"),
        Some((n, "bit real")) => format!("{n}-bit Real"),
        _ => match coding.as_str() {
            "No data" => "No Data".to_string(),
            "Selection for readout" => "Selection for Readout".to_string(),
            "Variable length" => "Variable Length".to_string(),
            "Date (type G)" => "Date Type G".to_string(),
            "Date and time (type F)" => "Date Time Type F".to_string(),
            "Date and time (type I)" => "Date Time Type I".to_string(),
            _ => return Ok(()),
        },
    };
    let function = match w["function"].as_str() {
        Some("Instantaneous value") => "Inst",
        Some("Maximum value") => "Max",
        Some("Minimum value") => "Min",
        _ => "Value During Error State",
    };
    let info = format!("{},{function},{coding}", w["storage_number"]);
    if r["data_information"] != json!(info) {
        return viol("legacy-information", format!("must be {info}: {r}"));
    }
    if let Some(v) = old_value(w, r["value"].as_f64()) {
        let mut d = format!("({v}");
        if has_additive(w) {
            if !text(&r["display"]).starts_with(&d) {
                return viol("legacy-display", format!("must start with {d}: {r}"));
            }
            return Ok(());
        }
        d.push(')');
        if let Some(e) = r["exponent"].as_i64().filter(|e| *e != 0) {
            d.push_str(&format!("e{e}"));
        }
        if let Some(u) = unit {
            d.push_str(&format!("[{u}]"));
        }
        if !told.is_empty() {
            d.push_str(&format!("({told})"));
        }
        if r["display"] != json!(d) {
            return viol("legacy-display", format!("must be {d}: {r}"));
        }
    }
    Ok(())
}

/// Every format is called by its own name.
fn named(cx: &mut Cx) -> Res {
    use OutputFormat::*;
    for f in [
        Table,
        Json,
        Yaml,
        Csv,
        Mermaid,
        Xml,
        Annotated,
        AnnotatedText,
    ] {
        let g = cx.call("OutputFormat::parse", || {
            f.to_string().parse::<OutputFormat>()
        })?;
        if g.as_ref() != Ok(&f) || f.to_string() != f.as_str() {
            return viol(
                "format-name",
                format!("the format named {f} is read back as {g:?}, not {f:?}"),
            );
        }
    }
    Ok(())
}

pub struct C17;
impl Prop for C17 {
    type Sc = ViewSc;
    fn meta(&self) -> Meta {
        Meta {
            id: "C17",
            level: "exploration",
            rule: "deliveries rendered in every format and compared with the decoded document; distinct = (link, header, mode, key, records, decode state, width class)",
            quick: 60_000,
            thorough: 700_000,
            components: REAL,
            stubs: STUBS,
            measure: ORDER,
        }
    }
    fn gen(&self, r: &mut Rng, _t: Tier, _i: u64) -> ViewSc {
        let n = r.range(1, 3);
        gen_view(r, n, chan::ALL)
    }
    fn exec(&self, sc: &ViewSc, cx: &mut Cx) -> Res {
        let wires: Vec<Wire> = sc.traffic.sends.iter().map(|s| s.tg.encode()).collect();
        named(cx)?;
        for d in sc.traffic.run(&wires, cx) {
            let tg = &sc.traffic.sends[d.src].tg;
            let ask = Ask {
                key: sc.key(d.src),
                enrich: sc.enrich,
                width: Some(sc.width(d.src).max(32)),
            };
            cx.note(|| {
                format!(
                    "t={}us key={:?} width={:?} bytes={} intact={}",
                    d.at,
                    ask.key.map(|k| compact(&k)),
                    ask.width,
                    spaced(&d.bytes),
                    d.intact
                )
            });
            let doc = cx.call("decode_bytes", || {
                mbp::decode_bytes(&d.bytes, &ask.options().decode)
                    .map(|d| serde_json::to_value(d).expect("document serialises"))
                    .map_err(|e| (e.code().to_string(), e.to_string()))
            })?;
            cx.evals += 1;
            cx.event(|| {
                format!(
                    "{} {:?}",
                    d.at,
                    doc.as_ref()
                        .map(|d| crate::rng::hash_bytes(d.to_string().as_bytes()))
                        .map_err(|e| e.0.clone())
                )
            });
            let mut texts = Vec::new();
            for f in [
                OutputFormat::Json,
                OutputFormat::Yaml,
                OutputFormat::Csv,
                OutputFormat::Table,
                OutputFormat::Mermaid,
            ] {
                let g = ask.get(cx, &d.bytes, f)?;
                match (&doc, &g) {
                    (Ok(_), Ok(_)) => {}
                    (Err(a), Err(b)) if a == b => {}
                    (_, g) => {
                        return viol(
                            "acceptance-differs",
                            format!(
                                "{f}: {:?}, decode: {:?}",
                                g.as_ref().map(|_| ()),
                                doc.as_ref().map(|_| ())
                            ),
                        )
                    }
                }
                texts.push(g);
            }
            // Same bytes as text, same result; and through the string call.
            let hex = cx.call("render_hex", || {
                mbp::render_hex(&upper(&d.bytes), OutputFormat::Csv, &ask.options())
                    .map_err(|e| (e.code().to_string(), e.to_string()))
            })?;
            if !d.bytes.is_empty() && hex != texts[2] {
                return viol("hex-differs", format!("{hex:?} against {:?}", texts[2]));
            }
            let dh = cx.call("decode_hex", || {
                mbp::decode_hex(&upper(&d.bytes), &ask.options().decode)
                    .map(|d| serde_json::to_value(d).expect("document serialises"))
                    .map_err(|e| (e.code().to_string(), e.to_string()))
            })?;
            let dh = dh.map(|mut v| {
                if let Some(m) = v["raw"].as_object_mut() {
                    m.remove("input");
                }
                v
            });
            if !d.bytes.is_empty() && dh != doc {
                return viol("hex-differs", format!("{dh:?} against {doc:?}"));
            }
            let xml = ask.get(cx, &d.bytes, OutputFormat::Xml)?;
            let ann = ask.get(cx, &d.bytes, OutputFormat::Annotated)?;
            let ant = ask.get(cx, &d.bytes, OutputFormat::AnnotatedText)?;
            if let Err(e) = &doc {
                if e.0 == "frame.invalid" || e.0 == "input.empty" {
                    for (n, g) in [("xml", &xml), ("annotated", &ann), ("annotated-text", &ant)] {
                        if let Ok(t) = g {
                            return viol(
                                "acceptance-differs",
                                format!("{n} accepts what decode refuses ({e:?}): {t}"),
                            );
                        }
                    }
                } else if let Ok(t) = &xml {
                    return viol(
                        "acceptance-differs",
                        format!("xml accepts what decode refuses ({e:?}): {t}"),
                    );
                }
                cx.sig(&format!("err{}{}", e.0, d.bytes.len() / 16));
                continue;
            }
            let doc = doc.unwrap();
            for (n, g) in [("annotated", &ann), ("annotated-text", &ant)] {
                if let Err(e) = g {
                    return viol(
                        "acceptance-differs",
                        format!("{n} refuses what decode accepts: {e:?}"),
                    );
                }
            }
            let t = |i: usize| texts[i].as_ref().map(String::as_str).unwrap_or("");
            match serde_json::from_str::<Value>(t(0)) {
                Ok(v) if v == doc => {}
                v => return viol("json-differs", format!("{v:?} against {doc}")),
            }
            match serde_yaml::from_str::<Value>(t(1)) {
                Ok(v) if v == doc => {}
                v => return viol("yaml-differs", format!("{v:?} against {doc}")),
            }
            csv_agrees(&doc, t(2))?;
            table_agrees(&doc, t(3))?;
            mermaid_agrees(&doc, t(4))?;
            let kind = doc["transport"]["header_kind"].as_str().unwrap_or("");
            let wired = doc["protocol"] == json!("wired");
            match &xml {
                Ok(x) => {
                    // Without a key the XML of wired meters lists whatever
                    // follows the header, see DESIGN.md.
                    let raw_listing = wired
                        && ask.key.is_none()
                        && doc["security"]["payload_protection"] != json!("cleartext");
                    if !raw_listing {
                        xml_agrees(&doc, x)?;
                    }
                }
                Err(_) if wired && kind != "long_tpl" && kind != "fixed" => {}
                Err(e) => {
                    return viol(
                        "acceptance-differs",
                        format!("xml refuses what decode accepts: {e:?}"),
                    )
                }
            }
            // The string call gives the same documents.
            if ask.enrich {
                let fixed = Ask {
                    width: Some(100),
                    enrich: true,
                    key: ask.key,
                };
                for (n, f) in [
                    ("json", OutputFormat::Json),
                    ("yml", OutputFormat::Yaml),
                    ("csv", OutputFormat::Csv),
                    ("table_format", OutputFormat::Table),
                    ("mermaid", OutputFormat::Mermaid),
                    ("xml", OutputFormat::Xml),
                    ("hexview", OutputFormat::Annotated),
                    ("annotated-text", OutputFormat::AnnotatedText),
                ] {
                    let a = fixed.legacy(cx, &d.bytes, n)?;
                    let b = match fixed.get(cx, &d.bytes, f)? {
                        Ok(s) => s,
                        Err((c, m)) => format!("Error [{c}]: {m}"),
                    };
                    if a != b {
                        return viol("string-call-differs", format!("{n}: {a}\nagainst {b}"));
                    }
                }
            }
            self.legacy(cx, &ask, &d.bytes, &doc)?;
            cx.sig(&format!(
                "{:?}{:?}{}{:?}{}{}{}",
                std::mem::discriminant(&tg.link),
                std::mem::discriminant(&tg.app),
                doc["security"]["mode_code"],
                ask.key.is_some(),
                doc["records"].as_array().map_or(0, Vec::len),
                doc["decode_state"],
                ask.width.map_or(0, |w| w / 36)
            ));
            cx.sample(json!({"kind": kind, "records": doc["records"].as_array().map(Vec::len), "xml": xml.is_ok()}));
        }
        Ok(())
    }
}

impl C17 {
    /// The older documents tell the same records.
    fn legacy(&self, cx: &mut Cx, ask: &Ask, b: &[u8], doc: &Value) -> Res {
        // What arrived may be another meter's telegram, so its own CI counts.
        let ci = doc["raw"]["payload_hex"].as_str().unwrap_or("");
        let msb = ci.starts_with("76") || ci.starts_with('8') && ci.contains("76");
        let j = ask.legacy(cx, b, "json-legacy")?;
        let y = ask.legacy(cx, b, "yaml-legacy")?;
        let c = ask.legacy(cx, b, "csv-wide")?;
        let jv: Value = match serde_json::from_str(&j) {
            Ok(v) => v,
            Err(e) => return viol("legacy-json", format!("{e}: {j}")),
        };
        let recs = jv["summary"]["records"]
            .as_array()
            .cloned()
            .unwrap_or_default();
        let want = doc["records"].as_array().cloned().unwrap_or_default();
        let refused = doc["security"]["payload_protection"] != json!("cleartext")
            && ask.key.is_some()
            && jv["summary"]["decrypted"] != json!(true);
        if !refused {
            if recs.len() != want.len() {
                return viol(
                    "legacy-records",
                    format!(
                        "{} records, document has {}: {}",
                        recs.len(),
                        want.len(),
                        jv["summary"]
                    ),
                );
            }
            for (i, (r, w)) in recs.iter().zip(&want).enumerate() {
                let n = |v: &Value| v.as_str().unwrap_or("").replace(' ', "");
                if n(&r["header_hex"]) != n(&w["header_hex"])
                    || n(&r["data_hex"]) != n(&w["data_hex"])
                {
                    return viol("legacy-record", format!("record {i}: {r} against {w}"));
                }
                // Scaled value, where both are plain numbers.
                if let (Some(v), Some(e), Some(t)) = (
                    r["value"].as_f64(),
                    r["exponent"].as_i64(),
                    w["value"]["value"]
                        .as_str()
                        .filter(|_| w["value"]["kind"] == json!("decimal")),
                ) {
                    let off = msb || has_additive(w);
                    let x = v * 10f64.powi(e as i32);
                    let z: f64 = t.parse().unwrap_or(f64::NAN);
                    if !off && !((x - z).abs() <= z.abs() * 1e-9 + 1e-300) {
                        return viol("legacy-value", format!("record {i}: {v}e{e} against {t}"));
                    }
                }
                if !msb {
                    old_words(r, w)?;
                }
            }
        }
        // The older diagram takes no key.
        let m = cx.call("parse_to_mermaid", || {
            mbp::mbus_data::parse_to_mermaid(&compact(b), None)
        })?;
        let drawn = m.matches("    style R").count()
            - m.matches("    style REC_SG").count()
            - m.matches("    style RP").count();
        let clear = doc["security"]["payload_protection"] == json!("cleartext");
        if drawn != if clear { recs.len() } else { 0 } {
            return viol(
                "legacy-diagram-records",
                format!("{drawn} drawn, {} listed: {m}", recs.len()),
            );
        }
        for (i, r) in recs.iter().enumerate().filter(|_| clear) {
            let esc = text(&r["display"])
                .replace('"', "#quot;")
                .replace('[', "#91;")
                .replace(']', "#93;");
            // Without a value header the diagram leaves the bracket open.
            let open = esc.strip_suffix(')').unwrap_or(&esc);
            if ![esc.as_str(), open]
                .iter()
                .any(|t| m.contains(&format!("        R{i}[\"{t}\"]\n")))
            {
                return viol("legacy-diagram-record", format!("record {i} {esc}: {m}"));
            }
        }
        let yv: serde_yaml::Value = match serde_yaml::from_str(&y) {
            Ok(v) => v,
            Err(e) => return viol("legacy-yaml", format!("{e}: {y}")),
        };
        let ys = serde_yaml::from_value::<Value>(yv["summary"].clone());
        if ys.as_ref().ok() != Some(&jv["summary"]) {
            return viol("legacy-yaml", format!("{ys:?} against {}", jv["summary"]));
        }
        let Some(t) = doc::csv(&c) else {
            return viol("legacy-csv", c);
        };
        if t.len() != 2 || t[0].len() != t[1].len() || t[0].len() != 11 + 2 * recs.len() {
            return viol("legacy-csv-shape", c);
        }
        for (i, r) in recs.iter().enumerate() {
            if t[0][11 + 2 * i] != format!("DataPoint{}_Value", i + 1)
                || t[0][12 + 2 * i] != format!("DataPoint{}_Info", i + 1)
                || t[1][11 + 2 * i] != text(&r["display"])
                || t[1][12 + 2 * i] != text(&r["data_information"])
            {
                return viol("legacy-csv-record", format!("record {i}: {c}"));
            }
        }
        for (k, name) in [
            (0, "frame_type"),
            (1, "function"),
            (2, "address"),
            (3, "identification_number"),
            (6, "access_number"),
            (7, "status"),
            (8, "security_mode"),
            (9, "version"),
            (10, "device_type"),
        ] {
            if t[1][k] != text(&jv["summary"][name]) {
                return viol(
                    "legacy-csv-frame",
                    format!("{name}: {:?} against {}", t[1][k], jv["summary"]),
                );
            }
        }
        Ok(())
    }
}

/// An additive correction is not part of the scale exponent.
fn has_additive(r: &Value) -> bool {
    let h = unspaced(r["header_hex"].as_str().unwrap_or("")).unwrap_or_default();
    h.iter().any(|b| matches!(b & 0x7F, 0x78..=0x7B))
}

// ---- C19 -------------------------------------------------------------------

struct Seg {
    start: usize,
    end: usize,
    kind: String,
    detail: String,
    group: Option<usize>,
    layer: String,
}

fn segs(v: &Value) -> Option<Vec<Seg>> {
    v.as_array()?
        .iter()
        .map(|s| {
            Some(Seg {
                start: s["start"].as_u64()? as usize,
                end: s["end"].as_u64()? as usize,
                kind: s["kind"].as_str()?.to_string(),
                detail: s["detail"].as_str()?.to_string(),
                group: s["group"].as_u64().map(|g| g as usize),
                layer: s["layer"].as_str().unwrap_or("").to_string(),
            })
        })
        .collect()
}

fn tiles(what: &str, s: &[Seg], data: &[u8]) -> Res {
    let mut at = 0;
    for (i, x) in s.iter().enumerate() {
        if x.start != at || x.end <= x.start {
            return viol(
                "not-tiled",
                format!(
                    "{what}: segment {i} ({}) is {}..{}, must start at {at}",
                    x.kind, x.start, x.end
                ),
            );
        }
        at = x.end;
        // Details that quote bytes quote those of their segment; a segment
        // continued after a block CRC repeats its first part's text.
        let cont = i >= 2 && s[i - 1].kind == "crc" && s[i - 2].detail == x.detail;
        let hex = |p: usize| -> Vec<u8> {
            let h: String = x.detail[p..]
                .chars()
                .take_while(char::is_ascii_hexdigit)
                .collect();
            crate::util::unhex(&h).unwrap_or_default()
        };
        let quoted = match x.kind.as_str() {
            "identification_number" => x.detail.find("ID: ").map(|p| hex(p + 4)),
            "version" | "access_number" | "length" | "l_field" => x.detail.find(": ").map(|p| {
                let d: String = x.detail[p + 2..]
                    .chars()
                    .take_while(char::is_ascii_digit)
                    .collect();
                d.parse::<u8>().map_or(Vec::new(), |v| vec![v])
            }),
            _ => x.detail.find("0x").map(|p| hex(p + 2)),
        };
        let quoted = quoted.filter(|_| !cont);
        let Some(have) = data.get(x.start..x.end) else {
            break;
        };
        if let Some(q) = quoted.filter(|_| x.kind != "data_payload" && x.kind != "plaintext_vif") {
            let n = q.len().min(have.len());
            if q[..n] != have[..n] {
                return viol(
                    "wrong-bytes",
                    format!(
                        "{what}: segment {i} {}..{} says {:?}, has {}",
                        x.start,
                        x.end,
                        x.detail,
                        spaced(have)
                    ),
                );
            }
        }
    }
    if at != data.len() {
        return viol(
            "not-tiled",
            format!("{what}: segments end at {at}, telegram at {}", data.len()),
        );
    }
    Ok(())
}

/// The human readable form: hex dump and segment table.
fn text_form(s: &str, data: &[u8], want: &[Seg]) -> Res {
    let mut lines = s.lines();
    let mut dump = Vec::new();
    if lines.next() != Some("Hex Dump:") {
        return viol("text-shape", s.to_string());
    }
    lines.next();
    for l in lines.by_ref() {
        if l.is_empty() {
            break;
        }
        let off = l.get(2..6).and_then(|t| usize::from_str_radix(t, 16).ok());
        if off != Some(dump.len()) {
            return viol("text-offset", format!("{l:?} at {}", dump.len()));
        }
        let n = (data.len() - dump.len().min(data.len())).min(16);
        let hex: String = l.chars().skip(8).take(49).collect();
        let Some(b) = unspaced(hex.trim()) else {
            return viol("text-dump", l.to_string());
        };
        if b.len() != n {
            return viol(
                "text-dump",
                format!("{l:?}: {} bytes, must be {n}", b.len()),
            );
        }
        let chars: String = l.chars().skip(8 + 50).collect();
        let seen: String = b
            .iter()
            .map(|c| {
                if c.is_ascii_graphic() || *c == b' ' {
                    *c as char
                } else {
                    '·'
                }
            })
            .collect();
        if chars != seen {
            return viol("text-dump", format!("{chars:?} beside {hex}"));
        }
        dump.extend(b);
    }
    if dump != data {
        return viol(
            "text-dump",
            format!("{} instead of {}", spaced(&dump), spaced(data)),
        );
    }
    let mut it = want.iter();
    let mut rest = s;
    if let Some(p) = s.find("\n\n") {
        rest = &s[p..];
    }
    // A detail may contain line breaks, so only lines with a complete
    // offset column in sequence are taken.
    let mut cur = it.next();
    for l in rest.lines() {
        let Some(x) = cur else { break };
        let span = if x.end - x.start == 1 {
            format!("[{:02X}]", x.start)
        } else {
            format!("[{:02X}..{:02X}]", x.start, x.end)
        };
        let shown = data.get(x.start..x.end).unwrap_or(&[]);
        let mut hex = spaced(&shown[..shown.len().min(8)]);
        if shown.len() > 8 {
            hex.push_str(" ...");
        }
        if l.starts_with(&format!("│  {span:<10} {hex:<24} ")) {
            cur = it.next();
        }
    }
    if let Some(x) = cur {
        return viol(
            "text-segment",
            format!("no line for {}..{} {}: {s}", x.start, x.end, x.kind),
        );
    }
    Ok(())
}

/// Which record every byte belongs to, counted in record region bytes.
fn numbered(what: &str, s: &[Seg], pos: &dyn Fn(usize) -> usize, w: &Wire) -> Res {
    let mut of = vec![None; w.plain.len()];
    for (i, sp) in w.spans.iter().enumerate() {
        of[sp.1..sp.3].fill(Some(i));
    }
    for (k, want) in of.iter().enumerate() {
        let p = pos(k);
        let Some(x) = s.iter().find(|x| x.start <= p && p < x.end) else {
            return viol("not-tiled", format!("{what}: no segment for byte {p}"));
        };
        if x.group != *want {
            return viol(
                "wrong-record",
                format!(
                    "{what}: byte {p} ({}) carries record {:?}, belongs to {want:?}",
                    x.kind, x.group
                ),
            );
        }
    }
    // And no byte outside the region carries one.
    let inside: std::collections::BTreeSet<usize> = (0..w.plain.len()).map(pos).collect();
    if let Some(x) = s
        .iter()
        .find(|x| x.group.is_some() && !(x.start..x.end).all(|p| inside.contains(&p)))
    {
        return viol(
            "wrong-record",
            format!("{what}: {} at {} carries {:?}", x.kind, x.start, x.group),
        );
    }
    Ok(())
}

/// What every byte of the telegram is; "" where the model has no opinion.
/// `plain`: the payload is shown decrypted.
fn fields(tg: &Telegram, w: &Wire, plain: bool) -> Vec<&'static str> {
    let mut k: Vec<&'static str> = match &tg.link {
        Link::Ack => return vec!["start_byte"],
        Link::Short { .. } => {
            return vec!["start_byte", "c_field", "a_field", "checksum", "stop_byte"]
        }
        Link::Control { .. } | Link::Long { .. } => {
            vec![
                "start_byte",
                "length",
                "length",
                "start_byte",
                "c_field",
                "a_field",
            ]
        }
        Link::Radio { .. } => {
            let mut k = vec!["l_field", "c_field"];
            k.extend(["manufacturer_code"; 2]);
            k.extend(["identification_number"; 4]);
            k.extend(["version", "device_type"]);
            k
        }
    };
    let payload = w.payload.as_ref().map_or(0, Vec::len);
    let begin = k.len();
    const SHORT: [&str; 5] = [
        "ci_field",
        "access_number",
        "status",
        "configuration_field",
        "configuration_field",
    ];
    match &tg.app {
        _ if matches!(tg.link, Link::Control { .. } | Link::Long { c: 0x53, .. }) => {
            k.extend(vec![""; payload])
        }
        App::Long { .. } => {
            k.push("ci_field");
            k.extend(["identification_number"; 4]);
            k.extend(["manufacturer_code"; 2]);
            k.extend(["version", "device_type"]);
            k.extend(&SHORT[1..]);
        }
        App::Short { ci, .. } => {
            k.push("ci_field");
            if *ci != 0 && ci & 0x0F == 0 {
                k.push("encryption_config_byte");
            }
            k.extend(&SHORT[1..]);
        }
        App::NoHdr => k.push("ci_field"),
        App::Ell1Short { .. } => {
            k.extend(["ci_field", "extended_link_layer", "extended_link_layer"]);
            k.extend(SHORT);
        }
        App::Ell1None { .. } => k.extend([
            "ci_field",
            "extended_link_layer",
            "extended_link_layer",
            "ci_field",
        ]),
        App::Ell2 { .. } => {
            k.push("ci_field");
            k.extend(["extended_link_layer"; 8]);
        }
        App::Ell3 { .. } => {
            k.push("ci_field");
            k.extend(["extended_link_layer"; 16]);
        }
        App::Fixed { .. } | App::Reset { .. } | App::Raw { .. } => k.extend(vec![""; payload]),
    }
    if k.len() > begin + payload {
        // The header did not fit into the telegram.
        k.truncate(begin);
        k.extend(vec![""; payload]);
    }
    let body = begin + payload - k.len();
    if (tg.mode() != 0 && tg.has_mode_field() || tg.ell_encrypted()) && !plain {
        k.extend(vec!["encrypted_payload"; body]);
    } else if body == w.plain.len() {
        let mut r: Vec<&'static str> = w
            .plain
            .iter()
            .map(|b| if *b == 0x2F { "idle_filler" } else { "unknown" })
            .collect();
        for (sp, e) in w.spans.iter().zip(&w.exp) {
            if e.val == EVal::Mfr {
                r[sp.1..sp.3].fill("manufacturer_specific");
                continue;
            }
            let h = &w.plain[sp.1..sp.2];
            let more = |i: usize| h.get(i).is_some_and(|b| b & 0x80 != 0);
            let mut parts = vec!["dif"];
            if h != [0x7F] {
                while more(parts.len() - 1) {
                    parts.push("dife");
                }
                let vif = parts.len();
                parts.push("vif");
                let text = h[vif] & 0x7F == 0x7C;
                let mut last = vif;
                if text && crate::model::TEXT_FIRST {
                    let n = usize::from(h[vif + 1]) + 1;
                    parts.extend(vec!["plaintext_vif"; n]);
                }
                while more(last) {
                    last = parts.len();
                    parts.push("vife");
                }
                parts.resize(h.len(), "plaintext_vif");
            }
            r[sp.1..sp.2].copy_from_slice(&parts);
            r[sp.2..sp.3].fill("data_payload");
        }
        k.extend(r);
    } else {
        k.extend(vec![""; body]);
    }
    match &tg.link {
        Link::Radio {
            enc: Enc::FormatA, ..
        } if !plain => {
            let mut out = k[..10].to_vec();
            out.extend(["crc"; 2]);
            for b in k[10..].chunks(16) {
                out.extend(b);
                out.extend(["crc"; 2]);
            }
            k = out;
        }
        Link::Radio {
            enc: Enc::First, ..
        } if !plain => {
            k.splice(10..10, ["crc"; 2]);
        }
        Link::Radio {
            enc: Enc::Trailing, ..
        } if !plain => k.extend(["crc"; 2]),
        Link::Radio { .. } => {}
        _ => k.extend(["checksum", "stop_byte"]),
    }
    k
}

/// The layer a label belongs to; the radio link names the meter itself.
fn layer(label: &str, p: usize, radio: bool) -> &'static str {
    match label {
        "start_byte" | "length" | "c_field" | "a_field" | "checksum" | "stop_byte" | "l_field"
        | "crc" => "frame",
        "manufacturer_code" | "identification_number" | "version" | "device_type"
            if radio && p < 10 =>
        {
            "frame"
        }
        "manufacturer_code"
        | "identification_number"
        | "version"
        | "device_type"
        | "ci_field"
        | "access_number"
        | "status"
        | "configuration_field"
        | "encryption_config_byte"
        | "extended_link_layer" => "app_header",
        _ => "record_field",
    }
}

fn labelled(what: &str, s: &[Seg], want: &[&str]) -> Res {
    let radio = want.first() == Some(&"l_field");
    for x in s {
        for p in x.start..x.end {
            let w = want.get(p).copied().unwrap_or("");
            if !w.is_empty() && w != x.kind {
                return viol(
                    "wrong-label",
                    format!("{what}: byte {p} is labelled {}, must be {w}", x.kind),
                );
            }
            if !w.is_empty() && x.layer != layer(w, p, radio) {
                return viol(
                    "wrong-layer",
                    format!("{what}: byte {p} ({w}) is put in layer {:?}", x.layer),
                );
            }
        }
    }
    Ok(())
}

/// One in 65536 decrypted radio telegrams ends in two bytes that happen to be
/// a CRC over the rest.
fn reads_as_crc(tg: &Telegram, b: &[u8]) -> bool {
    let n = b.len();
    !tg.is_wired() && n > 2 && crate::acc::crc16(&b[..n - 2]).to_be_bytes() == b[n - 2..]
}

pub struct C19;
impl Prop for C19 {
    type Sc = ViewSc;
    fn meta(&self) -> Meta {
        Meta {
            id: "C19",
            level: "exploration",
            rule: "deliveries annotated (call, JSON with and without key, text, older forms); distinct = (link, encoding, header, mode, key, length class, record count)",
            quick: 100_000,
            thorough: 3_000_000,
            components: REAL,
            stubs: STUBS,
            measure: ORDER,
        }
    }
    fn gen(&self, r: &mut Rng, _t: Tier, _i: u64) -> ViewSc {
        let n = r.range(1, 4);
        gen_view(r, n, chan::ALL)
    }
    fn exec(&self, sc: &ViewSc, cx: &mut Cx) -> Res {
        let wires: Vec<Wire> = sc.traffic.sends.iter().map(|s| s.tg.encode()).collect();
        for d in sc.traffic.run(&wires, cx) {
            let tg = &sc.traffic.sends[d.src].tg;
            let w = &wires[d.src];
            let key = sc.key(d.src);
            let right = sc.keys.get(d.src) == Some(&1) && tg.mode() != 0;
            cx.note(|| {
                format!(
                    "t={}us key={:?} bytes={} intact={}",
                    d.at,
                    key.map(|k| compact(&k)),
                    spaced(&d.bytes),
                    d.intact
                )
            });
            let direct = cx.call("annotate_frame", || {
                mbp::annotate::annotate_frame(&d.bytes)
                    .map(|s| serde_json::to_value(s).expect("segments serialise"))
                    .map_err(|e| e.to_string())
            })?;
            let ask = |key| Ask {
                key,
                enrich: false,
                width: None,
            };
            let js = ask(key).get(cx, &d.bytes, OutputFormat::Annotated)?;
            let tx = ask(None).get(cx, &d.bytes, OutputFormat::AnnotatedText)?;
            let old = ask(None).legacy(cx, &d.bytes, "annotated-legacy")?;
            let view = ask(key).legacy(cx, &d.bytes, "hexview-legacy")?;
            cx.evals += 1;
            cx.event(|| format!("{} {:?}", d.at, direct.as_ref().map(Value::to_string)));
            let dv = match direct {
                Err(_) => {
                    if d.intact {
                        return viol(
                            "intact-refused",
                            format!("{} not annotated", spaced(&d.bytes)),
                        );
                    }
                    if js.is_ok() || tx.is_ok() {
                        return viol("refusal-differs", format!("{js:?} {tx:?}"));
                    }
                    continue;
                }
                Ok(v) => v,
            };
            let Some(s) = segs(&dv) else {
                return viol("segments-shape", dv.to_string());
            };
            tiles("annotate_frame", &s, &d.bytes)?;
            match &tx {
                Ok(t) => text_form(t, &d.bytes, &s)?,
                Err(e) => return viol("refusal-differs", format!("text: {e:?}")),
            }
            let parse = |t: &str| serde_json::from_str::<Value>(t).unwrap_or(Value::Null);
            if parse(&old) != dv {
                return viol("older-form-differs", old);
            }
            let j = match &js {
                Ok(j) => parse(j),
                Err(e) => return viol("refusal-differs", format!("json: {e:?}")),
            };
            let bytes_of = |v: &Value| -> Vec<u8> {
                v.as_array()
                    .map(|a| {
                        a.iter()
                            .filter_map(|b| b.as_u64().map(|b| b as u8))
                            .collect()
                    })
                    .unwrap_or_default()
            };
            let shown = bytes_of(&j["bytes"]);
            let Some(js) = segs(&j["segments"]) else {
                return viol("segments-shape", j.to_string());
            };
            tiles("annotated", &js, &shown)?;
            let vv = parse(&view);
            if j["decrypted"] == json!(true) {
                if bytes_of(&j["original"]["bytes"]) != d.bytes || j["original"]["segments"] != dv {
                    return viol("original-differs", j["original"].to_string());
                }
                if vv["bytes"] != j["bytes"] || vv["segments"] != j["segments"] {
                    return viol("older-form-differs", view);
                }
            } else {
                if shown != d.bytes || j["segments"] != dv {
                    return viol("shown-bytes-differ", spaced(&shown));
                }
                if vv != dv {
                    return viol("older-form-differs", view);
                }
            }
            if d.intact && !w.ambiguous {
                let want = fields(tg, w, false);
                if want.len() != d.bytes.len() {
                    return viol("harness", format!("{} {}", want.len(), d.bytes.len()));
                }
                labelled("annotate_frame", &s, &want)?;
                if right && j["decrypted"] == json!(true) && !reads_as_crc(tg, &shown) {
                    labelled("annotated", &js, &fields(tg, w, true))?;
                }
            }
            // Record numbers, where the model knows them.
            if d.intact && !w.ambiguous && tg.carries_records() && !w.plain.is_empty() {
                let head = if tg.is_wired() { 6 } else { 10 } + w.start;
                let fa = matches!(
                    tg.link,
                    Link::Radio {
                        enc: Enc::FormatA,
                        ..
                    }
                );
                let first = matches!(
                    tg.link,
                    Link::Radio {
                        enc: Enc::First,
                        ..
                    }
                );
                let flat = |k: usize| head + k;
                let behind = |k: usize| head + k + 2;
                let blocks = |k: usize| {
                    let n = head + k;
                    12 + (n - 10) + 2 * ((n - 10) / 16)
                };
                if tg.mode() == 0 {
                    if fa {
                        numbered("annotate_frame", &s, &blocks, w)?;
                    } else if first {
                        numbered("annotate_frame", &s, &behind, w)?;
                    } else {
                        numbered("annotate_frame", &s, &flat, w)?;
                    }
                } else if right && j["decrypted"] == json!(true) && !reads_as_crc(tg, &shown) {
                    numbered("annotated", &js, &flat, w)?;
                    cx.probe("decrypted-annotated");
                }
            }
            cx.sig(&format!(
                "{:?}{:?}{:?}{}{}{}{}",
                std::mem::discriminant(&tg.link),
                std::mem::discriminant(&tg.app),
                d.intact,
                tg.mode(),
                right,
                d.bytes.len() / 8,
                w.exp.len()
            ));
            cx.sample(
                json!({"segments": s.len(), "length": d.bytes.len(), "decrypted": j["decrypted"]}),
            );
        }
        Ok(())
    }
}

// ---- C20 -------------------------------------------------------------------

pub struct C20;
impl Prop for C20 {
    type Sc = ViewSc;
    fn meta(&self) -> Meta {
        Meta {
            id: "C20",
            level: "exploration",
            rule: "documents parsed by strict readers; distinct = (hash of the text values sent, width class)",
            quick: 60_000,
            thorough: 1_500_000,
            components: REAL,
            stubs: STUBS,
            measure: ORDER,
        }
    }
    fn gen(&self, r: &mut Rng, _t: Tier, _i: u64) -> ViewSc {
        let n = r.range(1, 3);
        let mut v = gen_view(r, n, chan::ALL);
        for s in &mut v.traffic.sends {
            let msb = s.tg.msb();
            for rec in &mut s.tg.recs {
                // Mostly text, in values and in units.
                if r.chance(2, 3) && !msb {
                    rec.val = Val::Text(crate::util::Hex(gen_text(r)));
                }
            }
        }
        v
    }
    fn exec(&self, sc: &ViewSc, cx: &mut Cx) -> Res {
        let wires: Vec<Wire> = sc.traffic.sends.iter().map(|s| s.tg.encode()).collect();
        for d in sc.traffic.run(&wires, cx) {
            let tg = &sc.traffic.sends[d.src].tg;
            let w = &wires[d.src];
            let width = sc.width(d.src);
            let ask = Ask {
                key: sc.key(d.src),
                enrich: sc.enrich,
                width: Some(width),
            };
            cx.note(|| {
                format!(
                    "t={}us width={width} bytes={} intact={}",
                    d.at,
                    spaced(&d.bytes),
                    d.intact
                )
            });
            let mut out = Vec::new();
            for f in [
                OutputFormat::Json,
                OutputFormat::Yaml,
                OutputFormat::Csv,
                OutputFormat::Table,
                OutputFormat::Mermaid,
                OutputFormat::Xml,
                OutputFormat::Annotated,
            ] {
                out.push(ask.get(cx, &d.bytes, f)?);
            }
            cx.evals += 1;
            cx.event(|| {
                let h: Vec<_> = out
                    .iter()
                    .map(|o| {
                        o.as_ref()
                            .map(|s| crate::rng::hash_bytes(s.as_bytes()))
                            .unwrap_or(0)
                    })
                    .collect();
                format!("{} {h:?}", d.at)
            });
            let mut json_doc = Value::Null;
            let mut yaml_doc = Value::Null;
            let mut csv_doc = Vec::new();
            if let Ok(s) = &out[0] {
                match serde_json::from_str::<Value>(s) {
                    Ok(v) => json_doc = v,
                    Err(e) => return viol("json-malformed", format!("{e}: {s}")),
                }
            }
            if let Ok(s) = &out[1] {
                match serde_yaml::from_str::<Value>(s) {
                    Ok(v) => yaml_doc = v,
                    Err(e) => return viol("yaml-malformed", format!("{e}: {s}")),
                }
            }
            if let Ok(s) = &out[2] {
                let Some(t) = doc::csv(s) else {
                    return viol("csv-malformed", s.clone());
                };
                if t.len() != 2
                    || t[0].len() != t[1].len()
                    || t[0].len() < 18
                    || (t[0].len() - 18) % 11 != 0
                {
                    return viol("csv-shape", s.clone());
                }
                for (i, c) in t[0].iter().enumerate() {
                    let want = if i < 18 {
                        FRAME_COLUMNS[i].to_string()
                    } else {
                        format!("record_{}_{}", (i - 18) / 11, RECORD_COLUMNS[(i - 18) % 11])
                    };
                    if *c != want {
                        return viol(
                            "csv-header",
                            format!("column {i} is {c:?}, documented {want:?}"),
                        );
                    }
                }
                csv_doc = t;
            }
            match &out[3] {
                Ok(s) => {
                    if width < 32 {
                        return viol("width-ignored", format!("width {width} accepted"));
                    }
                    let mut inside = false;
                    for l in s.split('\n') {
                        if doc::width(l) > width {
                            return viol(
                                "line-too-wide",
                                format!("{} columns of {width}: {l}", doc::width(l)),
                            );
                        }
                        inside |= l.starts_with('┌');
                        let closed = match l.chars().next() {
                            Some('┌') => l.ends_with('┐'),
                            Some('├') => l.ends_with('┤'),
                            Some('└') => l.ends_with('┘'),
                            Some('│') => l.ends_with('│'),
                            _ => false,
                        };
                        if inside && !closed {
                            return viol("broken-box", format!("line without its border: {l:?}"));
                        }
                        inside &= !l.starts_with('└');
                    }
                }
                Err(e) if out[0].is_ok() && (width >= 32 || e.0 != "option.invalid") => {
                    return viol("table-refused", format!("width {width}: {e:?}"))
                }
                Err(_) => {}
            }
            if let Ok(s) = &out[4] {
                for l in s.split('\n') {
                    let q = l.matches('"').count();
                    if l.contains("[\"") && (q != 2 || !l.ends_with("\"]"))
                        || !l.contains("[\"") && q != 0
                    {
                        return viol("diagram-label", l.to_string());
                    }
                }
                if let Err(e) = doc::diagram(s, true, &[]) {
                    return viol("diagram-malformed", format!("{e}: {s}"));
                }
            }
            if let Ok(s) = &out[5] {
                if let Err(e) = doc::xml(s) {
                    return viol("xml-malformed", format!("{e}: {s}"));
                }
            }
            if let Ok(s) = &out[6] {
                if let Err(e) = serde_json::from_str::<Value>(s) {
                    return viol("annotated-malformed", format!("{e}: {s}"));
                }
            }
            // Older documents.
            let m = cx.call("parse_to_mermaid", || {
                mbp::mbus_data::parse_to_mermaid(&compact(&d.bytes), None)
            })?;
            if out[0].is_ok() {
                if let Err(e) = doc::diagram(&m, false, &[]) {
                    return viol("older-diagram-malformed", format!("{e}: {m}"));
                }
            }
            let j = ask.legacy(cx, &d.bytes, "json-legacy")?;
            if let Err(e) = serde_json::from_str::<Value>(&j) {
                return viol("legacy-json", format!("{e}: {j}"));
            }
            let y = ask.legacy(cx, &d.bytes, "yaml-legacy")?;
            if let Err(e) = serde_yaml::from_str::<serde_yaml::Value>(&y) {
                return viol("legacy-yaml", format!("{e}: {y}"));
            }
            let c = ask.legacy(cx, &d.bytes, "csv-wide")?;
            match doc::csv(&c) {
                Some(t) if t.iter().all(|r| r.len() == t[0].len()) => {}
                _ => return viol("legacy-csv", c),
            }
            for n in ["annotated-legacy", "hexview-legacy"] {
                let a = ask.legacy(cx, &d.bytes, n)?;
                if let Err(e) = serde_json::from_str::<Value>(&a) {
                    return viol("legacy-annotated", format!("{n}: {e}: {a}"));
                }
            }
            // Text survives.
            let readable = tg.mode() == 0
                || sc.keys.get(d.src) == Some(&1)
                    && matches!(tg.mode(), 5 | 7)
                    && tg.has_mode_field();
            if d.intact
                && !w.ambiguous
                && tg.carries_records()
                && readable
                && out[0].is_ok()
                && !tg.ell_encrypted()
            {
                let mut seen = String::new();
                for (i, e) in w.exp.iter().enumerate() {
                    let EVal::Text(t) = &e.val else { continue };
                    let a = &json_doc["records"][i]["value"]["value"];
                    let b = &yaml_doc["records"][i]["value"]["value"];
                    let c = csv_doc.get(1).and_then(|r| r.get(18 + 11 * i + 6));
                    if a != &json!(t) || b != &json!(t) || c != Some(t) {
                        return viol(
                            "text-changed",
                            format!("record {i}: sent {t:?}, JSON {a}, YAML {b}, CSV {c:?}"),
                        );
                    }
                    cx.probe("text-recovered");
                    seen.push_str(t);
                }
                cx.sig(&format!("{}{}", seen, width / 34));
            }
            cx.sample(json!({"bytes": d.bytes.len(), "width": width, "json": out[0].is_ok(), "xml": out[5].is_ok()}));
        }
        Ok(())
    }
}
