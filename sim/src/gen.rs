//! Random traffic: meters, what they send, and how the channel treats it.

use crate::chan::{Fault, Swarm};
use crate::model::*;
use crate::rng::Rng;
use crate::tables;
use crate::util::Hex;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Send {
    /// Simulated time in microseconds.
    pub at: u64,
    pub tg: Telegram,
    pub faults: Vec<Fault>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Traffic {
    pub sends: Vec<Send>,
}

pub struct Delivery {
    pub at: u64,
    pub src: usize,
    pub bytes: Vec<u8>,
    /// The bytes are exactly what the meter sent.
    pub intact: bool,
}

impl Traffic {
    /// Put the sends through the channel; deliveries in arrival order.
    pub fn run(&self, wires: &[Wire], cx: &mut crate::engine::Cx) -> Vec<Delivery> {
        let mut plan: Vec<(u64, usize, usize)> = Vec::new();
        for (i, s) in self.sends.iter().enumerate() {
            let mut at = s.at;
            let mut copies = vec![];
            let mut lost = false;
            for f in &s.faults {
                match f {
                    Fault::Drop => lost = true,
                    Fault::Delay(d) => at += u64::from(*d),
                    Fault::Dup(d) => copies.push(u64::from(*d)),
                    _ => {}
                }
            }
            if !lost {
                plan.push((at, i, 0));
            }
            for (k, d) in copies.iter().enumerate() {
                plan.push((at + d, i, k + 1));
            }
            for f in &s.faults {
                cx.fault(f.kind());
            }
        }
        plan.sort();
        let order: Vec<u8> = plan.iter().map(|p| p.1 as u8).collect();
        cx.orders.insert(crate::rng::hash_bytes(&order));
        let mut out: Vec<Delivery> = Vec::new();
        let mut prev: Vec<u8> = Vec::new();
        for (at, i, copy) in plan {
            let clean = &wires[i].bytes;
            let mut b = clean.clone();
            if copy == 0 {
                for f in &self.sends[i].faults {
                    f.apply(&mut b, &prev);
                }
            }
            b.truncate(600);
            let intact = b == *clean;
            prev = b.clone();
            cx.sim_us = cx.sim_us.max(at);
            out.push(Delivery {
                at,
                src: i,
                bytes: b,
                intact,
            });
        }
        out
    }
}

pub fn gen_ident(r: &mut Rng) -> Ident {
    let mfr = match r.below(5) {
        0 => r
            .pick(&[
                "KAM", "ELS", "TCH", "LSE", "QDS", "ZRI", "AAA", "ZZZ", "EMH",
            ])
            .to_string(),
        _ => (0..3)
            .map(|_| char::from(b'A' + r.below(26) as u8))
            .collect(),
    };
    Ident {
        mfr,
        id: match r.below(6) {
            0 => 0,
            1 => 99_999_999,
            2 => r.below(100) as u32,
            _ => r.below(100_000_000) as u32,
        },
        ver: r.edge_u8(),
        dev: if r.bool() {
            r.below(0x40) as u8
        } else {
            r.edge_u8()
        },
        hexed: 0,
    }
}

fn usable(t: &'static [Option<tables::Vi>; 128], r: &mut Rng) -> u8 {
    loop {
        let c = r.below(128);
        if let Some(v) = &t[c] {
            if !v.labels.first().is_none_or(|l| l.starts_with("Reserved")) {
                return c as u8;
            }
        }
    }
}

pub fn gen_base(r: &mut Rng) -> Base {
    // A build for the other layout is about plain text units.
    let kinds = if TEXT_FIRST { 30 } else { 20 };
    match r.below(kinds) {
        0..=9 => Base::P(loop {
            let c = r.below(0x7B) as u8;
            if c != 0x6F {
                break c;
            }
        }),
        10..=13 => Base::FD(usable(&tables::FD, r)),
        14 => Base::FDFD(usable(&tables::FDFD, r)),
        15..=17 => Base::FB(usable(&tables::FB, r)),
        18 | 20.. => {
            let n = r.range(0, 9);
            Base::Text(Hex(r.bytes(n)))
        }
        _ => Base::Mfr(r.below(2) as u8),
    }
}

pub fn gen_vifes(r: &mut Rng) -> Vec<u16> {
    let n = match r.below(10) {
        0..=4 => 0,
        5 | 6 => 1,
        7 => 2,
        8 => 3,
        _ => r.range(1, 8),
    };
    (0..n)
        .map(|_| match r.below(8) {
            0 => 0x100 | r.below(0x18) as u16,
            1 => 0x70 + r.below(14) as u16,
            2 => 0x20 + r.below(0x19) as u16,
            _ => r.below(128) as u16,
        })
        .collect()
}

pub fn gen_val(r: &mut Rng, msb: bool) -> Val {
    if msb {
        return match r.below(4) {
            0 => Val::None,
            1 => Val::Int(Hex(r.edge_bytes(1))),
            _ => {
                let n = *r.pick(&[1, 2, 3, 4, 6]);
                Val::Bcd(Hex(r.bytes(n)))
            }
        };
    }
    match r.below(20) {
        0 => Val::None,
        1 => {
            if r.chance(1, 4) {
                Val::Readout
            } else {
                Val::None
            }
        }
        2..=9 => {
            let n = *r.pick(&[1, 2, 3, 4, 6, 8]);
            Val::Int(Hex(r.edge_bytes(n)))
        }
        10 | 11 => Val::F32(match r.below(5) {
            0 => *r.pick(&[
                0x7F80_0000,
                0xFF80_0000,
                0x7FC0_0000,
                0,
                0x8000_0000,
                1,
                0x7F7F_FFFF,
                0x3F80_0000,
            ]),
            1 => (r.below(2_000_000) as f32 / 64.0).to_bits(),
            2 => (-(r.below(100_000) as f32) / 10.0).to_bits(),
            _ => r.u64() as u32,
        }),
        12..=15 => {
            let n = *r.pick(&[1, 2, 3, 4, 6]);
            Val::Bcd(Hex(match r.below(4) {
                0 => vec![0x99; n],
                1 => vec![0; n],
                _ => r.bytes(n),
            }))
        }
        16 => Val::Text(Hex(gen_text(r))),
        17 => {
            let n = r.range(0, 9);
            let b = match r.below(4) {
                0 => vec![0x99; n],
                1 => {
                    let mut v = vec![0; n];
                    if n > 0 {
                        v[0] = r.u8();
                    }
                    v
                }
                _ => r.bytes(n),
            };
            if r.bool() {
                Val::PosBcd(Hex(b))
            } else {
                Val::NegBcd(Hex(b))
            }
        }
        18 => {
            let n = r.range(1, 15);
            Val::VInt(Hex(r.edge_bytes(n)))
        }
        _ => {
            let n = *r.pick(&[16, 20, 24, 28, 32, 48, 64]);
            Val::VLong(Hex(r.edge_bytes(n)))
        }
    }
}

/// Texts that mean something to one of the output formats.
pub const TRICKY: &[&str] = &[
    "yes",
    "no",
    "null",
    "~",
    "0x1F",
    "1e3",
    "1.0",
    "-",
    "---",
    "...",
    ": ",
    "a: b",
    "# x",
    " lead",
    "trail ",
    "{a: b}",
    "[1]",
    "- x",
    "? y",
    "!tag",
    "*a",
    "&a",
    "|",
    ">",
    "%x",
    "@",
    "`",
    "true",
    "NaN",
    ".inf",
    "2001-01-01",
    "12:30:45",
    "=1+1",
    "<<",
    "\u{85}",
    "\u{2028}x",
    "\u{feff}x",
    "a\r\nb",
    "\n",
    "\"",
    "\"\"",
    "a,\"b\",c",
    "'",
    "''",
    "]]>",
    "<!--",
    "</Value>",
    "&amp;",
    "&",
    "&#0;",
    "a;b",
    "a|b",
    "x=y, z=w",
    "\t",
    "\u{1b}[31m",
    "R0[\"x\"]",
    "end",
    "%%",
    "日本語メーター",
    "\u{fffd}",
    "🙂",
    "e\u{301}",
    "\\",
    "\\n",
    "\u{0}",
    "No data",
    "0",
    "-0",
    "012",
];

pub fn gen_text(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(12) {
        0 => 0,
        1 => r.range(20, 191),
        _ => r.range(1, 20),
    };
    match r.below(7) {
        0 => r.bytes(n),
        6 => r.pick(TRICKY).as_bytes().to_vec(),
        1 => "Zähler €°³ ✓"
            .chars()
            .cycle()
            .take(n.min(30))
            .collect::<String>()
            .into_bytes(),
        2 => (0..n)
            .map(|_| *r.pick(b",;\"'<>&|\n\r\t\\:-#{}[]%@`!*? =\x00\x1b\x7f"))
            .collect(),
        _ => (0..n).map(|_| 0x20 + r.below(0x5F) as u8).collect(),
    }
}

pub fn gen_date(r: &mut Rng) -> (Base, Val) {
    let n = *r.pick(&[2usize, 4, 6]);
    let base = Base::P(if n == 2 { 0x6C } else { 0x6D });
    let mut b = r.bytes(n);
    if r.chance(3, 4) {
        // A plausible date with optional wildcards.
        let day = r.range(1, 31) as u8;
        let month = r.range(1, 12) as u8;
        let year = r.below(127) as u8;
        let (mut lo, mut hi) = (day | (year & 7) << 5, month | (year >> 3) << 4);
        if r.chance(1, 6) {
            lo &= 0xE0;
        }
        if r.chance(1, 6) {
            hi |= 15;
        }
        if r.chance(1, 6) {
            lo |= 0xE0;
            hi |= 0xF0;
        }
        let i = match n {
            2 => 0,
            4 => 2,
            _ => 3,
        };
        b[i] = lo;
        b[i + 1] = hi;
        let t = |r: &mut Rng, m: usize, w: u8| {
            if r.chance(1, 8) {
                w
            } else {
                r.below(m) as u8
            }
        };
        match n {
            4 => {
                b[0] = t(r, 60, 0x3F);
                b[1] = t(r, 24, 0x1F);
            }
            6 => {
                b[0] = t(r, 60, 0x3F);
                b[1] = t(r, 60, 0x3F);
                b[2] = t(r, 24, 0x1F);
                b[5] = r.edge_u8();
            }
            _ => {}
        }
    }
    (base, Val::Int(Hex(b)))
}

pub fn gen_rec(r: &mut Rng, msb: bool) -> Rec {
    let (base, val) = if !msb && r.chance(1, 8) {
        gen_date(r)
    } else if r.chance(1, 60) {
        (Base::Global, Val::None)
    } else {
        (gen_base(r), gen_val(r, msb))
    };
    let wide = r.chance(1, 5);
    Rec {
        fill: if r.chance(1, 10) {
            let which = if r.chance(1, 4) { r.below(5) as u8 } else { 0 };
            which << 4 | r.range(1, 4) as u8
        } else {
            0
        },
        func: if r.bool() { 0 } else { r.below(4) as u8 },
        storage: if wide {
            r.u64() >> r.range(23, 63)
        } else if r.chance(1, 3) {
            r.below(64) as u64
        } else {
            0
        },
        tariff: if wide {
            (r.u64() >> r.range(44, 63)) as u32
        } else if r.chance(1, 4) {
            r.below(4) as u32
        } else {
            0
        },
        sub: if wide {
            (r.u64() >> r.range(54, 63)) as u32
        } else if r.chance(1, 5) {
            r.below(2) as u32
        } else {
            0
        },
        xdife: if r.chance(1, 12) {
            r.range(1, 3) as u8
        } else {
            0
        },
        base,
        vifes: gen_vifes(r),
        val,
    }
}

pub fn gen_recs(r: &mut Rng, msb: bool, max: usize) -> Vec<Rec> {
    let n = match r.below(6) {
        0 => r.below(2),
        1 => max,
        _ => r.range(1, max.min(6)),
    };
    (0..n).map(|_| gen_rec(r, msb)).collect()
}

/// As many records as the link can carry, hardly any with a value.
fn gen_tiny(r: &mut Rng, msb: bool) -> Vec<Rec> {
    (0..r.range(90, 126))
        .map(|_| {
            let mut x = gen_rec(r, msb);
            x.fill = 0;
            (x.storage, x.tariff, x.sub, x.xdife) = (r.below(2) as u64, 0, 0, 0);
            x.base = Base::P(r.below(0x60) as u8);
            x.vifes.clear();
            x.val = if r.chance(1, 16) {
                Val::Int(Hex(r.bytes(1)))
            } else {
                Val::None
            };
            x
        })
        .collect()
}

pub fn gen_tail(r: &mut Rng) -> Tail {
    match r.below(8) {
        0 => {
            let n = if r.chance(1, 6) { 250 } else { r.range(0, 30) };
            Tail::Mfr(Hex(r.bytes(n)))
        }
        1 => {
            let n = r.range(0, 10);
            Tail::More(Hex(r.bytes(n)))
        }
        _ => Tail::None,
    }
}

fn gen_fill(r: &mut Rng) -> u8 {
    if r.chance(1, 8) {
        r.range(1, 4) as u8
    } else {
        0
    }
}

pub const WIRED_C: &[u8] = &[
    0x08, 0x18, 0x28, 0x38, 0x40, 0x44, 0x53, 0x73, 0x5B, 0x7B, 0x5A, 0x7A,
];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Medium {
    Wired,
    Radio,
    Both,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    /// Anything the medium knows, including link-only telegrams.
    Any,
    /// Readable record carriers.
    Records,
    /// Encrypted record carriers.
    Encrypted,
}

pub fn gen_app(r: &mut Rng, radio: bool, kind: Kind) -> App {
    let acc = r.u8();
    let status = r.edge_u8();
    let n = match kind {
        Kind::Any => 16,
        Kind::Records => 10,
        Kind::Encrypted => {
            if radio {
                8
            } else {
                4
            }
        }
    };
    let mut k = r.below(n);
    // A short header never carries an identity on the wire bus.
    if kind == Kind::Encrypted && radio && k >= 7 {
        k = 8;
    }
    match k {
        0..=4 => App::Long {
            msb: kind != Kind::Encrypted && r.chance(1, 6),
            id: gen_ident(r),
            acc,
            status,
        },
        5 | 6 => App::Short {
            ci: if kind != Kind::Encrypted && r.chance(1, 5) {
                r.u8()
            } else {
                0
            },
            acc,
            status,
        },
        7 => App::NoHdr,
        8 => App::Ell1Short {
            cc: r.u8(),
            ell_acc: r.u8(),
            acc,
            status,
        },
        9 => App::Ell1None {
            cc: r.u8(),
            ell_acc: r.u8(),
        },
        10 => App::Ell2 {
            cc: r.u8(),
            ell_acc: r.u8(),
            sn: r.u64() as u32,
            crc: r.u64() as u16,
        },
        11 => App::Ell3 {
            cc: r.u8(),
            ell_acc: r.u8(),
            mfr: r.u64() as u16,
            addr: Hex(r.bytes(6)),
            sn: r.u64() as u32,
            crc: r.u64() as u16,
        },
        12 | 13 => App::Fixed {
            id: r.below(100_000_000) as u32,
            acc,
            status,
            unit: r.u64() as u16,
            c1: r.below(100_000_000) as u32,
            c2: r.below(100_000_000) as u32,
        },
        14 => {
            let n = r.range(0, 10);
            App::Reset {
                sub: Hex(r.bytes(n)),
            }
        }
        _ => {
            let n = match r.below(3) {
                0 => r.range(1, 12),
                1 => r.range(200, 240),
                _ => r.range(1, 240),
            };
            App::Raw {
                bytes: Hex(r.bytes(n)),
            }
        }
    }
}

pub fn gen_telegram(r: &mut Rng, medium: Medium, kind: Kind) -> Telegram {
    let radio = match medium {
        Medium::Wired => false,
        Medium::Radio => true,
        Medium::Both => r.bool(),
    };
    let app = gen_app(r, radio, kind);
    let link = if radio {
        Link::Radio {
            c: if r.chance(3, 4) {
                *r.pick(&[0x44, 0x46, 0x08, 0x47, 0x48, 0x40, 0x53])
            } else {
                r.u8()
            },
            id: gen_ident(r),
            enc: r
                .pick(&[
                    Enc::Plain,
                    Enc::Plain,
                    Enc::Trailing,
                    Enc::Trailing,
                    Enc::FormatA,
                    Enc::FormatA,
                    Enc::FormatA,
                    Enc::First,
                ])
                .clone(),
        }
    } else if kind == Kind::Any && r.chance(1, 3) {
        match r.below(4) {
            0 => Link::Ack,
            1 | 2 => Link::Short {
                c: *r.pick(WIRED_C),
                a: r.edge_u8(),
            },
            _ => Link::Control { a: r.edge_u8() },
        }
    } else {
        Link::Long {
            c: if kind == Kind::Any {
                *r.pick(WIRED_C)
            } else {
                *r.pick(&[0x08, 0x18, 0x28, 0x38])
            },
            a: r.edge_u8(),
        }
    };
    let msb = matches!(app, App::Long { msb: true, .. });
    let sec = (kind == Kind::Encrypted).then(|| Sec {
        mode: *r.pick(&[5, 5, 7]),
        key: Hex(r.bytes(16)),
        marker: r.chance(3, 4),
        pad: r.chance(3, 4),
    });
    let max = if r.chance(1, 8) { 60 } else { 8 };
    Telegram {
        link,
        app,
        cfg: r.u64() as u16,
        sec,
        recs: if r.chance(1, 120) {
            gen_tiny(r, msb)
        } else {
            gen_recs(r, msb, max)
        },
        tail: gen_tail(r),
        fill: gen_fill(r),
    }
}

/// Telegrams of a small population of meters over time.
pub fn gen_traffic(r: &mut Rng, medium: Medium, kind: Kind, allowed: &[u8], n: usize) -> Traffic {
    let meters: Vec<Telegram> = (0..r.range(1, 4))
        .map(|_| gen_telegram(r, medium, kind))
        .collect();
    let swarm = Swarm::new(r, allowed);
    let mut t = 0u64;
    let period = *r.pick(&[2_000u64, 50_000, 1_000_000, 900_000_000]);
    let sends = (0..n)
        .map(|_| {
            // Each send is a fresh reading of one of the meters: same
            // identity and link, new access number and records.
            let mut tg = r.pick(&meters).clone();
            if r.chance(2, 3) {
                let msb = tg.msb();
                // Now and then as much as the link can carry.
                tg.recs = if r.chance(1, 60) {
                    gen_tiny(r, msb)
                } else if r.chance(1, 20) {
                    (0..r.range(10, 60)).map(|_| gen_rec(r, msb)).collect()
                } else {
                    gen_recs(r, msb, 8)
                };
                tg.tail = gen_tail(r);
                tg.fill = gen_fill(r);
            }
            let fresh = r.u8();
            if let App::Long { acc, .. } | App::Short { acc, .. } | App::Ell1Short { acc, .. } =
                &mut tg.app
            {
                *acc = fresh;
            }
            t += period / 2 + r.below(period as usize) as u64;
            let len = tg.encode().bytes.len();
            Send {
                at: t,
                faults: swarm.faults(r, len),
                tg,
            }
        })
        .collect();
    Traffic { sends }
}

/// Traffic of clear, encrypted and other telegrams side by side.
pub fn gen_mixed(r: &mut Rng, medium: Medium, allowed: &[u8], n: usize) -> Traffic {
    let mut t = gen_traffic(r, medium, Kind::Any, allowed, n);
    let swarm = Swarm::new(r, allowed);
    for s in &mut t.sends {
        let kind = match r.below(4) {
            0 => continue,
            1 | 2 => Kind::Records,
            _ => Kind::Encrypted,
        };
        s.tg = gen_telegram(r, medium, kind);
        if r.chance(1, 12) {
            if let Some(sec) = &mut s.tg.sec {
                sec.mode = r.below(32) as u8;
            }
        }
        let len = s.tg.encode().bytes.len();
        s.faults = swarm.faults(r, len);
    }
    t
}
