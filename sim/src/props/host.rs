//! C28 and C29: documents in a web page, and the library behind its bindings.

use super::text::Damage;
use crate::chan;
use crate::engine::{viol, Cx, Meta, Prop, Res, Tier, Viol};
use crate::gen::*;
use crate::model::Wire;
use crate::rng::Rng;
use crate::util::{compact, spaced, upper, Hex};
use m_bus_parser as mbp;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::str::FromStr;

#[cfg(feature = "web")]
use m_bus_parser_wasm_pack as web;
/// Built without the bindings: only for listing.
#[cfg(not(feature = "web"))]
mod web {
    pub fn m_bus_highlight(_: &str, _: &str) -> Result<String, ()> {
        Err(())
    }
    pub fn m_bus_render(
        _: &str,
        _: &str,
        _: Option<String>,
        _: Option<usize>,
        _: Option<bool>,
    ) -> Result<String, ()> {
        Err(())
    }
    pub fn m_bus_parse(_: &str, _: &str) -> String {
        String::new()
    }
    pub fn m_bus_parse_with_key(_: &str, _: &str, _: &str) -> String {
        String::new()
    }
}

fn harness<T>(e: impl std::fmt::Display) -> Result<T, Viol> {
    Err(Viol {
        class: "harness".into(),
        msg: e.to_string(),
    })
}

fn built() -> Res {
    if cfg!(feature = "web") {
        Ok(())
    } else {
        harness("built without the bindings")
    }
}

const FORMATS: &[&str] = &[
    "json", "yaml", "csv", "xml", "table", "mermaid", "hexview", "yml",
];

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Page {
    /// Rendering of a delivery.
    Doc {
        heard: usize,
        format: u8,
    },
    Text(String),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Show {
    pub page: Page,
    pub language: String,
    pub damage: Vec<Damage>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct PageSc {
    pub traffic: Traffic,
    pub shows: Vec<Show>,
}

fn gen_damage(r: &mut Rng) -> Vec<Damage> {
    const BITS: &[&str] = &[
        "<", ">", "&", "\"", "'", "</span>", "<span>", "&amp;", "&#39;", "\n", "\r", "\r\n", "\t",
        ",", "{", "}", ":", "- ", "#", "<!--", "]]>", "\u{0}", "é", "\u{2028}", "😀", "\\", "%",
    ];
    (0..r.range(1, 5))
        .map(|_| {
            let i = r.below(6000);
            let t = (*r.pick(BITS)).to_string();
            match r.below(9) {
                0 => Damage::Lose(i),
                1 => Damage::Double(i),
                2 | 3 => Damage::Replace(i, t),
                4..=6 => Damage::Insert(i, t),
                7 => Damage::Head(i),
                _ => Damage::Tail(i),
            }
        })
        .collect()
}

/// The text a highlighted page shows, or what is wrong with the markup.
fn shown(html: &str) -> Result<String, String> {
    let mut out = String::new();
    let mut open = 0usize;
    let mut rest = html;
    while let Some(c) = rest.chars().next() {
        let here = || rest.chars().take(30).collect::<String>();
        if let Some(r) = rest.strip_prefix("</span>") {
            if open == 0 {
                return Err(format!("unmatched end tag at {:?}", here()));
            }
            open -= 1;
            rest = r;
        } else if let Some(r) = rest.strip_prefix("<span class=\"") {
            let Some((names, r)) = r.split_once("\">") else {
                return Err(format!("open tag at {:?}", here()));
            };
            if names.contains(['<', '>', '&', '"', '\n']) {
                return Err(format!("tag {names:?}"));
            }
            open += 1;
            rest = r;
        } else if c == '<' {
            return Err(format!("markup at {:?}", here()));
        } else if c == '&' {
            let Some((name, r)) = rest[1..].split_once(';') else {
                return Err(format!("bare ampersand at {:?}", here()));
            };
            let num = |t: &str, base| u32::from_str_radix(t, base).ok().and_then(char::from_u32);
            let ch = match name {
                "amp" => Some('&'),
                "lt" => Some('<'),
                "gt" => Some('>'),
                "quot" => Some('"'),
                "apos" => Some('\''),
                _ => match (name.strip_prefix("#x"), name.strip_prefix('#')) {
                    (Some(h), _) => num(h, 16),
                    (_, Some(d)) => num(d, 10),
                    _ => None,
                },
            };
            let Some(ch) = ch else {
                return Err(format!("unknown reference at {:?}", here()));
            };
            out.push(ch);
            rest = r;
        } else {
            out.push(c);
            rest = &rest[c.len_utf8()..];
        }
    }
    if open != 0 {
        return Err(format!("{open} tags left open"));
    }
    Ok(out)
}

pub struct C28;
impl Prop for C28 {
    type Sc = PageSc;
    fn meta(&self) -> Meta {
        Meta {
            id: "C28",
            level: "exploration",
            rule: "documents rendered from faulty traffic, then cut, garbled or spliced on their way to the page, highlighted in every language; the page's text content compared with the document; distinct = (language, source, damage kinds, length class)",
            quick: 36_000,
            thorough: 300_000,
            components: &["m-bus-parser-wasm-pack highlighter", "syntect", "m-bus-parser renderers"],
            stubs: &["browser (markup reader)", "meters (encoder model)", "text channel"],
            measure: "distinct sequences of (language, source, damage kinds) per page",
        }
    }
    fn gen(&self, r: &mut Rng, _t: Tier, _i: u64) -> PageSc {
        let n = r.range(1, 3);
        let traffic = gen_mixed(r, Medium::Both, chan::DAMAGE, n);
        let shows = (0..r.range(1, 4))
            .map(|_| {
                let page = if r.chance(2, 3) {
                    Page::Doc {
                        heard: r.below(4),
                        format: r.below(FORMATS.len()) as u8,
                    }
                } else {
                    Page::Text(String::from_utf8_lossy(&gen_text(r)).into_owned())
                };
                let language = match &page {
                    Page::Doc { format, .. } if r.chance(3, 4) => {
                        FORMATS[usize::from(*format)].to_string()
                    }
                    _ => (*r.pick(&[
                        "json",
                        "yaml",
                        "yml",
                        "xml",
                        "csv",
                        "CSV",
                        " Json ",
                        "XML",
                        "plaintext",
                        "",
                        "table",
                    ]))
                    .to_string(),
                };
                Show {
                    page,
                    language,
                    damage: if r.bool() { gen_damage(r) } else { vec![] },
                }
            })
            .collect();
        PageSc { traffic, shows }
    }
    fn exec(&self, sc: &PageSc, cx: &mut Cx) -> Res {
        built()?;
        let wires: Vec<Wire> = sc.traffic.sends.iter().map(|s| s.tg.encode()).collect();
        let heard = sc.traffic.run(&wires, cx);
        let mut first = None;
        let mut order = String::new();
        for s in &sc.shows {
            let text = match &s.page {
                Page::Text(t) => t.clone(),
                Page::Doc { heard: n, format } => {
                    let Some(d) = heard.get(n % heard.len().max(1)) else {
                        continue;
                    };
                    let f = FORMATS[usize::from(*format) % FORMATS.len()];
                    let f = mbp::OutputFormat::from_str(f).unwrap_or(mbp::OutputFormat::Json);
                    match super::security::render(cx, &d.bytes, f, None, Some(80))? {
                        Ok(t) => t,
                        Err(e) => format!("error: {e}\n"),
                    }
                }
            };
            let text = Damage::apply(&s.damage, &text, cx);
            let html = cx.call("m_bus_highlight", || {
                web::m_bus_highlight(&text, &s.language)
            })?;
            let Ok(html) = html else {
                return viol("highlight-refused", format!("{text:?} as {:?}", s.language));
            };
            cx.evals += 1;
            cx.event(|| {
                format!(
                    "{} {} {:016x}",
                    s.language,
                    text.len(),
                    crate::rng::hash_bytes(html.as_bytes())
                )
            });
            match shown(&html) {
                Err(e) => {
                    return viol(
                        "markup",
                        format!("{e}: {text:?} as {:?} gives {html}", s.language),
                    )
                }
                Ok(t) if t != text => {
                    return viol(
                        "text-changed",
                        format!("{text:?} as {:?} shows {t:?}", s.language),
                    )
                }
                Ok(_) => {}
            }
            let kinds: Vec<_> = s.damage.iter().map(std::mem::discriminant).collect();
            let what = format!(
                "{}{:?}{kinds:?}",
                s.language,
                matches!(s.page, Page::Text(_))
            );
            cx.sig(&format!("{what}{}", text.len().ilog2_or_zero()));
            order.push_str(&what);
            cx.sample(json!({"language": s.language, "text": text, "html": html}));
            first.get_or_insert((text, s.language.clone(), html));
        }
        cx.orders.insert(crate::rng::hash_bytes(order.as_bytes()));
        if let Some((text, language, html)) = first {
            let again = cx.call("m_bus_highlight", || web::m_bus_highlight(&text, &language))?;
            if again.as_ref().ok() != Some(&html) {
                return viol("highlight-history", format!("{text:?} as {language:?}"));
            }
        }
        Ok(())
    }
}

trait Log2 {
    fn ilog2_or_zero(self) -> u32;
}
impl Log2 for usize {
    fn ilog2_or_zero(self) -> u32 {
        self.checked_ilog2().unwrap_or(0)
    }
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum Op {
    Parse,
    Render,
    Records,
    Application,
    Compat,
    Web,
    WebParse,
}

/// An argument handed to a binding.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Arg {
    Text(String),
    Bytes(Hex),
    ByteArray(Hex),
    View(Hex),
    List(Hex),
    Tuple(Hex),
    /// A sequence that fails at the given element.
    Breaks(Hex, usize),
    /// Something that is no telegram and no key at all.
    Odd(u8),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Ask {
    pub op: Op,
    /// Delivery the data is taken from, unless `data` is given.
    pub heard: usize,
    /// How it is handed over: spelling of text, or kind of object.
    pub how: u8,
    pub damage: Vec<Damage>,
    pub data: Option<Arg>,
    pub key: Option<Arg>,
    pub format: Option<String>,
    pub width: Option<i64>,
    pub enrich: Option<bool>,
    pub thread: bool,
    pub fault: Option<String>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct HostSc {
    pub traffic: Traffic,
    pub asks: Vec<Ask>,
}

/// A refusal: exception type and, for the library's own errors, code and text.
#[derive(Clone, Debug, PartialEq)]
enum No {
    Lib(String, String),
    Type,
    /// Any exception.
    Any,
}

fn lib(e: mbp::OutputError) -> No {
    No::Lib(e.code().to_string(), e.to_string())
}

/// The bytes an argument stands for.
fn bytes_of(a: &Arg) -> Result<Vec<u8>, No> {
    match a {
        Arg::Text(t) => mbp::decode_hex_bytes(t).map_err(lib),
        Arg::Bytes(b)
        | Arg::ByteArray(b)
        | Arg::View(b)
        | Arg::List(b)
        | Arg::Tuple(b)
        | Arg::Breaks(b, _) => {
            if b.0.is_empty() {
                Err(lib(mbp::OutputError::EmptyInput))
            } else {
                Ok(b.0.clone())
            }
        }
        Arg::Odd(_) => Err(No::Type),
    }
}

fn key_of(a: &Arg) -> Result<[u8; 16], No> {
    bytes_of(a)?
        .try_into()
        .map_err(|_| No::Lib("option.invalid".into(), "16 bytes".into()))
}

impl Ask {
    fn python(&self) -> bool {
        !matches!(self.op, Op::Web | Op::WebParse)
    }
    fn text_only(&self) -> bool {
        matches!(self.op, Op::Application | Op::Compat) || !self.python()
    }

    /// What the library says: the result, or every reason to refuse.
    fn expected(&self, data: &Arg) -> Result<Value, Vec<No>> {
        let mut no = Vec::new();
        let text_only = self.text_only();
        let mut take = |r: Result<Vec<u8>, No>| r.map_err(|e| no.push(e)).ok();
        let bytes = match data {
            Arg::Text(_) => take(bytes_of(data)),
            _ if text_only => take(Err(No::Type)),
            _ => take(bytes_of(data)),
        };
        let key = match &self.key {
            None => None,
            _ if matches!(self.op, Op::Records | Op::Application) => None,
            // A blank key means none to the web functions.
            Some(Arg::Text(t)) if !self.python() && t.trim().is_empty() => None,
            Some(k) => {
                let r = match k {
                    Arg::Text(_) => key_of(k),
                    _ if text_only => Err(No::Type),
                    _ => key_of(k),
                };
                r.map_err(|e| no.push(e)).ok()
            }
        };
        let width = match self.width {
            Some(w) if self.op == Op::Web => usize::try_from(w).ok(),
            Some(w) if self.op == Op::Render => usize::try_from(w).map(Some).unwrap_or_else(|_| {
                no.push(No::Any);
                None
            }),
            _ => None,
        };
        let format = match self.op {
            Op::Parse | Op::Records | Op::Application => None,
            _ => {
                let f = self.format.as_deref().unwrap_or("json");
                mbp::OutputFormat::from_str(f)
                    .map_err(|e| no.push(lib(e)))
                    .ok()
            }
        };
        let decode = mbp::DecodeOptions {
            key,
            include_enrichment: match self.op {
                Op::Parse | Op::Render | Op::Web => self.enrich.unwrap_or(true),
                _ => true,
            },
        };
        let value = bytes.and_then(|b| {
            let r = match self.op {
                Op::Parse => {
                    mbp::decode_bytes(&b, &decode).map(|d| serde_json::to_value(d).unwrap())
                }
                Op::Records => {
                    mbp::decode_data_records(&b).map(|d| serde_json::to_value(d).unwrap())
                }
                Op::Application => {
                    mbp::decode_data_records(&b).map(|d| json!(serde_json::to_string(&d).unwrap()))
                }
                _ => {
                    let o = mbp::RenderOptions {
                        decode,
                        table_width: width,
                    };
                    mbp::render_bytes(&b, format?, &o).map(|s| json!(s))
                }
            };
            r.map_err(|e| no.push(lib(e))).ok()
        });
        match value {
            Some(v) if no.is_empty() => Ok(v),
            _ => Err(no),
        }
    }
}

struct Host {
    pid: u32,
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}

thread_local! {
    static HOST: RefCell<Option<Host>> = const { RefCell::new(None) };
}

impl Host {
    fn start() -> std::io::Result<Host> {
        let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
        let mut child = Command::new("python3")
            .args(["-I", "-S", "-B"])
            .arg(format!("{root}/pyhost/host.py"))
            .arg(format!("{root}/pyhost/target/debug/libpymbusparser.so"))
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()?;
        let to = child.stdin.take().expect("piped");
        let from = BufReader::new(child.stdout.take().expect("piped"));
        Ok(Host {
            pid: std::process::id(),
            child,
            to,
            from,
        })
    }
    /// One request to this process's own interpreter.
    fn ask(line: &str) -> Result<Value, String> {
        HOST.with(|h| {
            let mut h = h.borrow_mut();
            // After a fork the parent's interpreter is not ours.
            if h.as_ref().is_some_and(|x| x.pid != std::process::id()) {
                std::mem::forget(h.take());
            }
            if h.is_none() {
                *h = Some(Host::start().map_err(|e| e.to_string())?);
            }
            let x = h.as_mut().expect("started");
            let mut answer = String::new();
            let r =
                x.to.write_all(line.as_bytes())
                    .and_then(|()| x.to.write_all(b"\n"))
                    .and_then(|()| x.to.flush())
                    .and_then(|()| x.from.read_line(&mut answer));
            if !matches!(r, Ok(n) if n > 0) {
                let _ = x.child.kill();
                let _ = x.child.wait();
                *h = None;
                return Err(format!("no answer from the interpreter: {r:?}"));
            }
            serde_json::from_str(&answer).map_err(|e| format!("{e}: {answer}"))
        })
    }
}

pub struct C29;
impl Prop for C29 {
    type Sc = HostSc;
    fn meta(&self) -> Meta {
        Meta {
            id: "C29",
            level: "exploration",
            rule: "calls into the real Python module in a real interpreter and into the JavaScript wrapper, with telegrams from faulty traffic handed over in every form, compared with the library; distinct = (call, kind of argument, key, format, fault, outcome)",
            quick: 40_000,
            thorough: 1_000_000,
            components: &["Python module (python/src/lib.rs, real interpreter)", "JavaScript wrapper (wasm/src/lib.rs, called natively)", "m-bus-parser"],
            stubs: &["calling program (argument and module faults)", "meters (encoder model)", "channel with fault injector"],
            measure: "distinct sequences of (call, thread, fault) per run",
        }
    }
    fn gen(&self, r: &mut Rng, _t: Tier, _i: u64) -> HostSc {
        let n = r.range(1, 3);
        let mut traffic = gen_mixed(r, Medium::Both, chan::DAMAGE, n);
        for s in &mut traffic.sends {
            if r.chance(2, 3) {
                s.faults.clear();
            }
        }
        let odd_key = |r: &mut Rng| match r.below(7) {
            0 => Arg::Odd(r.below(10) as u8),
            1 => {
                let n = *r.pick(&[1, 8, 15, 17, 24, 32]);
                Arg::Bytes(Hex(r.bytes(n)))
            }
            2 => {
                let n = *r.pick(&[8, 15, 17, 24, 32]);
                Arg::Text(compact(&r.bytes(n)))
            }
            3 => Arg::Text(format!("{}z", compact(&r.bytes(15)))),
            4 => Arg::Text((*r.pick(&["", " ", "0", "0a", "\n"])).to_string()),
            5 => Arg::Breaks(Hex(r.bytes(16)), r.below(18)),
            _ => Arg::Bytes(Hex(vec![])),
        };
        let asks = (0..r.range(1, 6))
            .map(|_| {
                let heard = r.below(4);
                let sec = traffic.sends[heard % traffic.sends.len()].tg.sec.as_ref();
                let good = match sec {
                    Some(s) => s.key16().to_vec(),
                    None => r.bytes(16),
                };
                // A pass phrase is a key, too.
                let good = if r.chance(1, 10) {
                    let set: &[u8] =
                        r.pick(&[&b"0123456789abcdefABCDEF"[..], b"0123456789", b" az09:-"]);
                    (0..16).map(|_| *r.pick(set)).collect()
                } else {
                    good
                };
                let key = match r.below(8) {
                    0..=3 => None,
                    4 => Some(Arg::Bytes(Hex(good))),
                    5 => Some(Arg::Text(if r.bool() {
                        upper(&good)
                    } else {
                        spaced(&good)
                    })),
                    6 => Some(match r.below(4) {
                        0 => Arg::ByteArray(Hex(good)),
                        1 => Arg::View(Hex(good)),
                        2 => Arg::List(Hex(good)),
                        _ => Arg::Tuple(Hex(good)),
                    }),
                    _ => Some(odd_key(r)),
                };
                let width = match r.below(4) {
                    0 if r.chance(1, 2) => {
                        Some(*r.pick(&[0i64, 1, 39, 40, 41, 59, 60, 71, 72, 99, 100, 101, 1000]))
                    }
                    0 => Some(r.range(0, 200) as i64),
                    1 if r.chance(1, 10) => Some(-1),
                    _ => None,
                };
                let table = width.is_some() && r.chance(3, 4);
                Ask {
                    op: *r.pick(&[
                        Op::Parse,
                        Op::Parse,
                        Op::Render,
                        Op::Render,
                        Op::Records,
                        Op::Application,
                        Op::Compat,
                        Op::Web,
                        Op::WebParse,
                    ]),
                    heard,
                    how: r.u8(),
                    damage: if r.chance(1, 8) {
                        gen_damage(r)
                    } else {
                        vec![]
                    },
                    data: r.chance(1, 10).then(|| match r.below(3) {
                        0 => Arg::Odd(r.below(10) as u8),
                        1 => {
                            let n = r.below(20);
                            Arg::Breaks(Hex(r.bytes(n)), r.below(20))
                        }
                        _ => {
                            let n = r.below(3);
                            Arg::Bytes(Hex(r.bytes(n)))
                        }
                    }),
                    key,
                    format: r.chance(5, 6).then(|| {
                        if table {
                            "table".to_string()
                        } else if r.chance(1, 12) {
                            (*r.pick(&["", "bogus", "JSON ", "Table"])).to_string()
                        } else {
                            (*r.pick(FORMATS)).to_string()
                        }
                    }),
                    width,
                    enrich: match r.below(3) {
                        0 => Some(false),
                        1 => Some(true),
                        _ => None,
                    },
                    thread: r.chance(1, 3),
                    fault: r.chance(1, 12).then(|| {
                        (*r.pick(&["json module missing", "json module fails"])).to_string()
                    }),
                }
            })
            .collect();
        HostSc { traffic, asks }
    }
    fn exec(&self, sc: &HostSc, cx: &mut Cx) -> Res {
        built()?;
        let wires: Vec<Wire> = sc.traffic.sends.iter().map(|s| s.tg.encode()).collect();
        let heard = sc.traffic.run(&wires, cx);
        let mut asked = Vec::new();
        let mut calls = Vec::new();
        for a in &sc.asks {
            let data = match &a.data {
                Some(d) => d.clone(),
                None => {
                    let Some(d) = heard.get(a.heard % heard.len().max(1)) else {
                        continue;
                    };
                    let mut b = d.bytes.clone();
                    if matches!(a.op, Op::Records | Op::Application) {
                        // These take the records alone.
                        b = wires[d.src].plain.clone();
                    }
                    let h = Hex(b.clone());
                    match a.how % 9 {
                        0 if !a.text_only() => Arg::Bytes(h),
                        1 if !a.text_only() => Arg::ByteArray(h),
                        2 if !a.text_only() => Arg::View(h),
                        3 if !a.text_only() => Arg::List(h),
                        4 if !a.text_only() => Arg::Tuple(h),
                        n => {
                            let t = match n {
                                5 => compact(&b),
                                6 => spaced(&b),
                                7 => spaced(&b).replace(' ', ":").to_lowercase(),
                                _ => upper(&b),
                            };
                            Arg::Text(Damage::apply(&a.damage, &t, cx))
                        }
                    }
                }
            };
            if !a.python() && !matches!(data, Arg::Text(_)) {
                continue;
            }
            if !a.python() && a.key.as_ref().is_some_and(|k| !matches!(k, Arg::Text(_))) {
                continue;
            }
            match (&data, &a.fault) {
                (Arg::Odd(_), _) => cx.fault("argument of a wrong type"),
                (Arg::Breaks(..), _) => cx.fault("argument fails while read"),
                (_, Some(f)) if a.python() => cx.fault(f),
                _ => {}
            }
            let want = cx.call("library", || a.expected(&data))?;
            if a.python() {
                calls.push(
                    json!({"op": a.op, "data": data, "key": a.key, "format": a.format,
                    "width": a.width, "enrich": a.enrich, "thread": a.thread, "fault": a.fault}),
                );
            }
            asked.push((a, data, want));
        }
        let mut answers = Vec::new();
        if !calls.is_empty() {
            let v = match Host::ask(&json!({ "calls": calls }).to_string()) {
                Ok(v) => v,
                Err(e) => return harness(e),
            };
            match v {
                Value::Array(v) => answers = v,
                v => {
                    let ops: Vec<Op> = sc.asks.iter().map(|a| a.op).collect();
                    return viol("interpreter-died", format!("{v} after {ops:?}"));
                }
            }
        }
        let mut answers = answers.into_iter();
        let mut order = String::new();
        for (a, data, want) in asked {
            cx.evals += 1;
            let got = if a.python() {
                answers.next().unwrap_or(Value::Null)
            } else {
                self.web(a, &data)
            };
            cx.event(|| {
                format!(
                    "{:?} {:016x}",
                    a.op,
                    crate::rng::hash_bytes(got.to_string().as_bytes())
                )
            });
            let tell = || {
                format!(
                    "{:?} of {data:?}, key {:?}, format {:?}, width {:?}, fault {:?}",
                    a.op, a.key, a.format, a.width, a.fault
                )
            };
            let (kind, text) = (
                got["err"][0].as_str().unwrap_or(""),
                got["err"][1].as_str().unwrap_or(""),
            );
            if kind == "PanicException" || kind == "panic" {
                return viol("binding-panic", format!("{}: {text}", tell()));
            }
            // A source that breaks off may be refused, but not be misread.
            let breaks = |x: &Arg| matches!(x, Arg::Breaks(b, at) if *at < b.0.len());
            let faulty = a.python()
                && (a.fault.is_some() || breaks(&data) || a.key.as_ref().is_some_and(breaks));
            match &want {
                _ if faulty && !kind.is_empty() => {}
                Ok(v) => {
                    if got.get("ok") != Some(v) {
                        return viol("binding-differs", format!("{}: {got} not {v}", tell()));
                    }
                }
                Err(no) => {
                    let fits = |n: &No| match n {
                        No::Any => !kind.is_empty(),
                        // Which of several complaints comes first is open.
                        No::Type => kind == "TypeError" || kind == "UnicodeEncodeError",
                        No::Lib(code, t) => {
                            kind == "refused"
                                || kind == "MbusParserError"
                                    && text.starts_with(&format!("[{code}]"))
                                    && text.contains(t.as_str())
                        }
                    };
                    if !no.iter().any(fits) {
                        return viol(
                            "binding-error",
                            format!("{}: {got}, must be one of {no:?}", tell()),
                        );
                    }
                }
            }
            cx.probe(if want.is_ok() { "answered" } else { "refused" });
            let what = format!("{:?}{}{:?}", a.op, a.thread, a.fault);
            order.push_str(&what);
            cx.sig(&format!(
                "{what}{:?}{:?}{:?}{:?}",
                std::mem::discriminant(&data),
                a.key.as_ref().map(std::mem::discriminant),
                a.format,
                want.as_ref().err().map(|n| n
                    .iter()
                    .map(|n| match n {
                        No::Lib(c, _) => c.clone(),
                        n => format!("{n:?}"),
                    })
                    .collect::<Vec<_>>())
            ));
            cx.sample(json!({"call": a.op, "data": data, "answer": got}));
        }
        cx.orders.insert(crate::rng::hash_bytes(order.as_bytes()));
        Ok(())
    }
}

impl C29 {
    /// The JavaScript wrapper, called natively. Its errors are JavaScript
    /// objects, which cannot be made outside a browser: building one stops
    /// with a message of the glue code and counts as a refusal.
    fn web(&self, a: &Ask, data: &Arg) -> Value {
        let Arg::Text(text) = data else {
            return Value::Null;
        };
        let key = match &a.key {
            Some(Arg::Text(k)) => Some(k.clone()),
            _ => None,
        };
        let format = a.format.as_deref().unwrap_or("json");
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            if a.op == Op::WebParse {
                return Ok(match &key {
                    Some(k) => web::m_bus_parse_with_key(text, format, k),
                    None => web::m_bus_parse(text, format),
                });
            }
            let width = a.width.and_then(|w| usize::try_from(w).ok());
            web::m_bus_render(text, format, key, width, a.enrich).map_err(|_| ())
        }));
        match r {
            Ok(Ok(s)) => json!({ "ok": s }),
            Ok(Err(())) => json!({"err": ["refused", ""]}),
            Err(_) => {
                let t = crate::engine::take_panic();
                if t.contains("wasm-bindgen") || t.contains("non-wasm") {
                    json!({"err": ["refused", ""]})
                } else {
                    json!({"err": ["panic", t]})
                }
            }
        }
    }
}
