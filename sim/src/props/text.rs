//! C18: telegrams as hexadecimal text over a serial line.

use crate::engine::{viol, Cx, Meta, Prop, Res, Tier};
use crate::gen::*;
use crate::rng::Rng;
use crate::util::{unhex, upper, Hex};
use m_bus_parser as mbp;
use serde::{Deserialize, Serialize};
use serde_json::json;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Byte {
    pub b: Hex,
    /// 0 none, 1 "0x", 2 "0X".
    pub prefix: u8,
    /// Per digit: lower case if the bit is set.
    pub case: u8,
    pub sep: String,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Damage {
    Lose(usize),
    Double(usize),
    Replace(usize, String),
    Insert(usize, String),
    Swap(usize),
    /// Line torn: only the first or only the remaining characters arrive.
    Head(usize),
    Tail(usize),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Line {
    pub pre: String,
    pub bytes: Vec<Byte>,
    pub post: String,
    pub damage: Vec<Damage>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct TextSc {
    pub lines: Vec<Line>,
}

const ODD: &[&str] = &[
    "g", "G", "x", "0", "F", " ", ",", ";", "0x", "0X", ".", "+", "-", ":", "_", "é", "０", "Ａ",
    "\u{a0}", "\u{200b}", "\u{0}", "\u{b}", "\n", "h", "\\x", "#", "O", "l", "²", "+1", "-1", "\"",
];

impl Line {
    fn spelled(&self) -> String {
        let mut s = self.pre.clone();
        for b in &self.bytes {
            s.push_str(["", "0x", "0X"][usize::from(b.prefix % 3)]);
            let h = upper(&b.b.0);
            for (i, c) in h.chars().enumerate() {
                s.push(if b.case >> i & 1 == 1 {
                    c.to_ascii_lowercase()
                } else {
                    c
                });
            }
            s.push_str(&b.sep);
        }
        s.push_str(&self.post);
        s
    }
    fn received(&self, cx: &mut Cx) -> String {
        Damage::apply(&self.damage, &self.spelled(), cx)
    }
}

impl Damage {
    /// A text as it arrives over a faulty line.
    pub fn apply(damage: &[Damage], text: &str, cx: &mut Cx) -> String {
        let mut c: Vec<char> = text.chars().collect();
        for d in damage {
            let n = c.len().max(1);
            match d {
                Damage::Lose(i) if !c.is_empty() => {
                    c.remove(i % n);
                    cx.fault("character lost");
                }
                Damage::Double(i) if !c.is_empty() => {
                    c.insert(i % n, c[i % n]);
                    cx.fault("character doubled");
                }
                Damage::Replace(i, t) if !c.is_empty() => {
                    c.splice(i % n..i % n + 1, t.chars());
                    cx.fault("character replaced");
                }
                Damage::Insert(i, t) => {
                    let i = i % (c.len() + 1);
                    c.splice(i..i, t.chars());
                    cx.fault("character inserted");
                }
                Damage::Swap(i) if c.len() > 1 => {
                    let k = i % (c.len() - 1);
                    c.swap(k, k + 1);
                    cx.fault("characters swapped");
                }
                Damage::Head(i) => {
                    c.truncate(i % n);
                    cx.fault("line torn, head");
                }
                Damage::Tail(i) => {
                    c.drain(..(i % n).min(c.len()));
                    cx.fault("line torn, tail");
                }
                _ => {}
            }
        }
        c.into_iter().collect()
    }
}

/// Reference reading: whole bytes in one of the documented spellings, or the
/// error code and the place of the first offence.
fn read(t: &str) -> Result<Vec<u8>, (&'static str, usize)> {
    if t.is_empty() {
        return Err(("input.empty", 0));
    }
    if t.bytes().all(|c| c.is_ascii_hexdigit()) {
        return unhex(t).ok_or(("input.invalid_hex", t.len() - 1));
    }
    let sep = |c: u8| matches!(c, b' ' | b'\t' | b'\n' | b'\r' | 0x0C | b':' | b'-');
    let b = t.as_bytes();
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if sep(b[i]) {
            i += 1;
            continue;
        }
        let s = i;
        while i < b.len() && !sep(b[i]) {
            i += 1;
        }
        let tok = &b[s..i];
        let tok = tok
            .strip_prefix(b"0x")
            .or(tok.strip_prefix(b"0X"))
            .unwrap_or(tok);
        let digit = |c: u8| (c as char).to_digit(16).map(|d| d as u8);
        match tok {
            [h, l] => match (digit(*h), digit(*l)) {
                (Some(h), Some(l)) => out.push(h << 4 | l),
                _ => return Err(("input.invalid_hex", s)),
            },
            _ => return Err(("input.invalid_hex", s)),
        }
    }
    if out.is_empty() {
        return Err(("input.empty", 0));
    }
    Ok(out)
}

fn blanks(r: &mut Rng) -> String {
    (0..r.below(4))
        .map(|_| *r.pick(&[" ", "\t", "\n", "\r\n", " "]))
        .collect()
}

pub struct C18;
impl Prop for C18 {
    type Sc = TextSc;
    fn meta(&self) -> Meta {
        Meta {
            id: "C18",
            level: "exploration",
            rule: "lines of hexadecimal text, spelled and damaged at random, against a reference reader; distinct = (spelling class, damage kinds, outcome, length)",
            quick: 300_000,
            thorough: 10_000_000,
            components: &["m-bus-parser text entry points (decode_hex_bytes, decode_hex, decode_data_records_hex, render_hex, serialize_mbus_data)"],
            stubs: &["text writer", "serial line with fault injector", "simulated clock"],
            measure: "distinct damage sequences (hash of the damage kinds in order, per line)",
        }
    }
    fn gen(&self, r: &mut Rng, _t: Tier, _i: u64) -> TextSc {
        let n = r.range(1, 3);
        let lines = (0..n)
            .map(|_| {
                let raw = match r.below(6) {
                    // Longer than any telegram.
                    _ if r.chance(1, 200) => {
                        let n = r.range(300, 2500);
                        r.bytes(n)
                    }
                    0 => vec![],
                    1 => r.bytes(1),
                    2 | 3 => {
                        let n = r.range(1, 24);
                        r.bytes(n)
                    }
                    _ => gen_telegram(r, Medium::Both, Kind::Any).encode().bytes,
                };
                let style = r.below(6);
                let case = *r.pick(&[0u8, 3, 1, 2]);
                let len = raw.len();
                let bytes = raw
                    .into_iter()
                    .enumerate()
                    .map(|(i, b)| Byte {
                        b: Hex(vec![b]),
                        prefix: match style {
                            5 => *r.pick(&[1, 1, 2]),
                            4 => *r.pick(&[0, 0, 1, 2]),
                            _ => 0,
                        },
                        case: if style == 4 { r.u8() & 3 } else { case },
                        sep: if i + 1 == len {
                            String::new()
                        } else {
                            match style {
                                0 => String::new(),
                                2 => ":".into(),
                                3 => "-".into(),
                                4 => (0..r.range(1, 3))
                                    .map(|_| *r.pick(&[" ", ":", "-", "\t", "\n", "\r", "\u{c}"]))
                                    .collect(),
                                _ => " ".into(),
                            }
                        },
                    })
                    .collect();
                let chars = len * 3 + 2;
                let damage = (0..*r.pick(&[0usize, 0, 1, 1, 2, 3]))
                    .map(|_| {
                        let i = r.below(chars);
                        match r.below(8) {
                            0 => Damage::Lose(i),
                            1 => Damage::Double(i),
                            2 | 3 => Damage::Replace(i, r.pick(ODD).to_string()),
                            4 => Damage::Insert(i, r.pick(ODD).to_string()),
                            5 => Damage::Swap(i),
                            6 => Damage::Head(i),
                            _ => Damage::Tail(i),
                        }
                    })
                    .collect();
                Line {
                    pre: blanks(r),
                    bytes,
                    post: blanks(r),
                    damage,
                }
            })
            .collect();
        TextSc { lines }
    }
    fn exec(&self, sc: &TextSc, cx: &mut Cx) -> Res {
        let mut rest = String::new();
        for (k, l) in sc.lines.iter().enumerate() {
            let t = l.received(cx);
            cx.orders.insert(crate::rng::hash_bytes(
                format!(
                    "{:?}",
                    l.damage
                        .iter()
                        .map(std::mem::discriminant)
                        .collect::<Vec<_>>()
                )
                .as_bytes(),
            ));
            // 2400 baud, ten bits a character.
            cx.sim_us += t.len() as u64 * 4167;
            cx.note(|| format!("line {k}: {t:?}"));
            self.judge(cx, &t)?;
            // A slow reader sees the line torn at any place and glued to the
            // next one.
            let cut = t.len() / 2 + k;
            if t.is_char_boundary(cut) && cut <= t.len() {
                let glued = format!("{rest}{}", &t[..cut]);
                self.judge(cx, &glued)?;
                rest = t[cut..].to_string();
            }
            if l.damage.is_empty() {
                // Intact text means exactly the bytes that were spelled.
                let want: Vec<u8> = l.bytes.iter().flat_map(|b| b.b.0.clone()).collect();
                let got = cx.call("decode_hex_bytes", || mbp::decode_hex_bytes(&t).ok())?;
                if got != (!want.is_empty()).then_some(want.clone()) {
                    return viol(
                        "spelling-misread",
                        format!("{t:?}: {got:?} instead of {want:?}"),
                    );
                }
            }
            let class = (
                l.bytes.first().map(|b| (b.prefix, b.case, b.sep.clone())),
                l.damage
                    .iter()
                    .map(|d| format!("{:?}", std::mem::discriminant(d)))
                    .collect::<Vec<_>>(),
                read(t.trim()).map(|b| b.len()).map_err(|e| e.0),
                l.bytes.len() / 4,
            );
            cx.sig(&format!("{class:?}"));
            cx.sample(
                json!({"text": t.chars().take(40).collect::<String>(), "damage": l.damage.len()}),
            );
        }
        Ok(())
    }
}

impl C18 {
    fn judge(&self, cx: &mut Cx, t: &str) -> Res {
        let got = cx.call("decode_hex_bytes", || {
            mbp::decode_hex_bytes(t).map_err(|e| match e {
                mbp::OutputError::InvalidHex { index, .. } => (e.code().to_string(), index),
                e => (e.code().to_string(), 0),
            })
        })?;
        cx.evals += 1;
        cx.event(|| format!("{got:?}"));
        // Whether blanks outside ASCII may surround the text is not settled.
        let narrow = read(t.trim_matches(|c: char| c.is_ascii_whitespace()));
        let wide = read(t.trim());
        let same = |w: &Result<Vec<u8>, (&'static str, usize)>| match (w, &got) {
            (Ok(a), Ok(b)) => a == b,
            (Err(a), Err(b)) => a.0 == b.0 && a.1 == b.1,
            _ => false,
        };
        if !same(&narrow) && !same(&wide) {
            return viol(
                if got.is_ok() {
                    "garbage-accepted"
                } else {
                    "wrong-refusal"
                },
                format!("{t:?}: must be {wide:?}, is {got:?}"),
            );
        }
        // Every other entry point reads the same text the same way.
        let opt = mbp::DecodeOptions {
            key: None,
            include_enrichment: false,
        };
        let via = cx.call("decode_hex", || {
            mbp::decode_hex(t, &opt).map_err(|e| e.code().to_string())
        })?;
        match (&got, &via) {
            (Ok(b), Ok(d)) => {
                if d.raw.original_frame_hex != upper(b) || d.raw.input.as_deref() != Some(t) {
                    return viol(
                        "entry-points-differ",
                        format!("{t:?}: {}", d.raw.original_frame_hex),
                    );
                }
            }
            (Err(e), Err(v)) if e.0 == *v => {}
            (Ok(_), Err(v)) if !v.starts_with("input.") => {}
            (g, v) => {
                return viol(
                    "entry-points-differ",
                    format!("{t:?}: {g:?}, decode_hex {:?}", v.as_ref().map(|_| ())),
                )
            }
        }
        let recs = cx.call("decode_data_records_hex", || {
            mbp::decode_data_records_hex(t)
                .map(|v| format!("{v:?}"))
                .map_err(|e| e.to_string())
        })?;
        let want = match &got {
            Ok(b) => cx.call("decode_data_records", || {
                mbp::decode_data_records(b)
                    .map(|v| format!("{v:?}"))
                    .map_err(|e| e.to_string())
            })?,
            Err(_) => Err(mbp::decode_hex_bytes(t)
                .err()
                .map(|e| e.to_string())
                .unwrap_or_default()),
        };
        if recs != want {
            return viol(
                "entry-points-differ",
                format!("{t:?}: records {recs:?} instead of {want:?}"),
            );
        }
        let ren = cx.call("render_hex", || {
            mbp::render_hex(
                t,
                mbp::OutputFormat::Annotated,
                &mbp::RenderOptions::default(),
            )
            .map_err(|e| e.code().to_string())
        })?;
        let ser = cx.call("serialize_mbus_data", || {
            mbp::serialize_mbus_data(t, "annotated", None)
        })?;
        match (&got, &ren) {
            (Ok(b), Ok(x)) => {
                let v: serde_json::Value = serde_json::from_str(x).unwrap_or_default();
                if v["bytes"] != json!(b) || ser != *x {
                    return viol(
                        "entry-points-differ",
                        format!("{t:?}: rendered {}", v["bytes"]),
                    );
                }
            }
            (Ok(_), Err(c)) if !c.starts_with("input.") => {}
            (Err(e), Err(c)) if e.0 == *c && ser.starts_with(&format!("Error [{c}]")) => {}
            (g, r) => {
                return viol(
                    "entry-points-differ",
                    format!("{t:?}: {g:?}, render_hex {r:?}, {ser}"),
                )
            }
        }
        Ok(())
    }
}
