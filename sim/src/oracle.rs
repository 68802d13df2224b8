//! Comparisons between what a meter meant and what the receiver reported.

use crate::engine::{viol, Cx, Res, Viol};
use crate::model::{EVal, Exp};
use crate::util::spaced;
use m_bus_parser as mbp;
use serde_json::{json, Value};

/// High-level decode: canonical document or error code.
pub fn decode(
    cx: &mut Cx,
    bytes: &[u8],
    key: Option<[u8; 16]>,
) -> Result<Result<Value, String>, Viol> {
    cx.call("decode_bytes", || {
        mbp::decode_bytes(
            bytes,
            &mbp::DecodeOptions {
                key,
                include_enrichment: false,
            },
        )
        .map(|d| serde_json::to_value(d).expect("document serialises"))
        .map_err(|e| e.code().to_string())
    })
}

#[derive(Clone, Copy)]
pub struct Want {
    pub value: bool,
    pub attrs: bool,
    pub dates: bool,
    pub raw: bool,
}

pub const EVERYTHING: Want = Want {
    value: true,
    attrs: true,
    dates: true,
    raw: true,
};

pub fn value_json(e: &EVal) -> (&'static str, Option<Value>) {
    match e {
        EVal::Dec(s) => ("decimal", Some(json!(s))),
        EVal::Float(f) => ("float", Some(json!(f))),
        EVal::Special(s) => ("float", Some(json!(s))),
        EVal::Text(s) => ("text", Some(json!(s))),
        EVal::Date(v) => ("date", Some(v.clone())),
        EVal::DateTime(v) => ("datetime", Some(v.clone())),
        EVal::Mfr => ("manufacturer_specific", None),
        EVal::None => ("none", None),
    }
}

fn same_value(e: &Exp, got: &Value) -> bool {
    let (kind, val) = value_json(&e.val);
    if got["kind"] != json!(kind) {
        return false;
    }
    match &e.val {
        EVal::Float(f) => got["value"].as_f64().is_some_and(|g| {
            (g - f).abs() <= 2e-14 * e.mag.max(f.abs())
                && (*f == 0.0 || e.mag != f.abs() || g.is_sign_negative() == f.is_sign_negative())
        }),
        _ => got.get("value") == val.as_ref(),
    }
}

/// Compare one reported record with what the meter encoded.
pub fn record(i: usize, e: &Exp, g: &Value, w: Want) -> Res {
    let bad = |what: &str, want: Value, got: &Value| -> Res {
        viol(
            format!("record-{what}"),
            format!("record {i}: {what} must be {want}, reported {got}"),
        )
    };
    let date = matches!(e.val, EVal::Date(_) | EVal::DateTime(_));
    if (w.value && !date || w.dates && date) && !same_value(e, &g["value"]) {
        let (k, v) = value_json(&e.val);
        return bad("value", json!({"kind": k, "value": v}), &g["value"]);
    }
    if (w.attrs || w.dates && date || w.raw) && g["data_coding"] != json!(e.coding) {
        return bad("data_coding", json!(e.coding), &g["data_coding"]);
    }
    if w.attrs {
        if g["function"] != json!(e.function) {
            return bad("function", json!(e.function), &g["function"]);
        }
        if g["storage_number"] != json!(e.storage) {
            return bad("storage_number", json!(e.storage), &g["storage_number"]);
        }
        if g["tariff"] != json!(e.tariff) {
            return bad("tariff", json!(e.tariff), &g["tariff"]);
        }
        if g["subunit"] != json!(e.sub) {
            return bad("subunit", json!(e.sub), &g["subunit"]);
        }
        if g["quantities"] != json!(e.quantities) {
            return bad("quantities", json!(e.quantities), &g["quantities"]);
        }
        if g.get("unit") != e.unit.as_ref().map(|u| json!(u)).as_ref() {
            return bad("unit", json!(e.unit), &g["unit"]);
        }
    }
    if w.raw || w.dates && date {
        if g["header_hex"] != json!(spaced(&e.header)) {
            return bad("header_hex", json!(spaced(&e.header)), &g["header_hex"]);
        }
        if g["data_hex"] != json!(spaced(&e.data)) {
            return bad("data_hex", json!(spaced(&e.data)), &g["data_hex"]);
        }
        if g["index"] != json!(i) {
            return bad("index", json!(i), &g["index"]);
        }
    }
    if w.raw {
        if let EVal::Text(_) | EVal::Mfr = e.val {
            if !same_value(e, &g["value"]) {
                let (k, v) = value_json(&e.val);
                return bad("value", json!({"kind": k, "value": v}), &g["value"]);
            }
        }
    }
    Ok(())
}

pub fn records(exp: &[Exp], got: &Value, w: Want) -> Res {
    let empty = vec![];
    let g = got.as_array().unwrap_or(&empty);
    for (i, e) in exp.iter().enumerate() {
        match g.get(i) {
            Some(g) => record(i, e, g, w)?,
            None => {
                return viol(
                    "record-missing",
                    format!("{} records sent, {} reported", exp.len(), g.len()),
                )
            }
        }
    }
    if g.len() != exp.len() {
        return viol(
            "record-extra",
            format!("{} records sent, {} reported", exp.len(), g.len()),
        );
    }
    Ok(())
}

pub fn has_diag(doc: &Value, code: &str) -> Option<Value> {
    doc["diagnostics"]
        .as_array()?
        .iter()
        .find(|d| d["code"] == json!(code))
        .cloned()
}
