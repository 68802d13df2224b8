//! Channel and receiver-buffer faults acting on the bytes of one delivery.

use crate::acc;
use crate::rng::Rng;
use crate::util::Hex;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Fault {
    /// The telegram is lost.
    Drop,
    /// A second copy arrives later.
    Dup(u32),
    /// The telegram is delayed (and thereby reordered).
    Delay(u32),
    /// One bit is inverted.
    Flip(u16, u8),
    /// One byte is replaced.
    Set(u16, u8),
    /// A run of bytes is XORed.
    Burst(u16, Hex),
    /// Only the first part is received.
    Cut(u16),
    /// The first bytes are missed.
    Head(u16),
    /// Stray bytes appear inside.
    Ins(u16, Hex),
    /// Bytes inside are lost.
    Del(u16, u8),
    /// Two bytes trade places.
    Swap(u16, u16),
    /// The rest reads as one value (line stuck).
    Stuck(u16, u8),
    /// The tail of the previous telegram overwrites this one's tail.
    Splice(u16),
    /// The next telegram's bytes (or noise) follow directly.
    Append(Hex),
    /// The receiver's buffer still holds the previous telegram's tail.
    Stale(u16),
    /// Nothing of the telegram survives.
    Noise(Hex),
    /// A repeater forwards the damaged bytes with a fresh wired checksum.
    Reseal,
    /// A repeater forwards the damaged bytes with fresh radio CRCs.
    Recrc,
    /// A repeater states the received length in the length field(s) and
    /// recomputes the wired checksum.
    Refit,
}

impl Fault {
    pub fn kind(&self) -> &'static str {
        match self {
            Fault::Drop => "drop",
            Fault::Dup(_) => "duplicate",
            Fault::Delay(_) => "delay",
            Fault::Flip(..) => "bit_flip",
            Fault::Set(..) => "byte_replaced",
            Fault::Burst(..) => "burst",
            Fault::Cut(_) => "truncated",
            Fault::Head(_) => "head_lost",
            Fault::Ins(..) => "bytes_inserted",
            Fault::Del(..) => "bytes_lost",
            Fault::Swap(..) => "bytes_swapped",
            Fault::Stuck(..) => "stuck_line",
            Fault::Splice(_) => "spliced",
            Fault::Append(_) => "stray_bytes_after",
            Fault::Stale(_) => "stale_tail",
            Fault::Noise(_) => "noise",
            Fault::Reseal => "resealed_checksum",
            Fault::Recrc => "resealed_crc",
            Fault::Refit => "refitted_length",
        }
    }

    /// Apply to bytes; `prev` is what the receiver saw before.
    pub fn apply(&self, b: &mut Vec<u8>, prev: &[u8]) {
        let n = b.len();
        let at = |p: u16| if n == 0 { 0 } else { usize::from(p) % n };
        match self {
            Fault::Drop | Fault::Dup(_) | Fault::Delay(_) => {}
            Fault::Flip(p, bit) => {
                if n > 0 {
                    b[at(*p)] ^= 1 << (bit % 8);
                }
            }
            Fault::Set(p, v) => {
                if n > 0 {
                    b[at(*p)] = *v;
                }
            }
            Fault::Burst(p, x) => {
                if n > 0 {
                    let s = at(*p);
                    for (i, v) in x.0.iter().enumerate() {
                        if let Some(t) = b.get_mut(s + i) {
                            *t ^= v;
                        }
                    }
                }
            }
            Fault::Cut(p) => b.truncate(at(*p)),
            Fault::Head(p) => {
                b.drain(..at(*p));
            }
            Fault::Ins(p, x) => {
                let s = usize::from(*p) % (n + 1);
                b.splice(s..s, x.0.iter().copied());
            }
            Fault::Del(p, k) => {
                let s = at(*p);
                let e = (s + usize::from(*k)).min(n);
                b.drain(s..e);
            }
            Fault::Swap(p, q) => {
                if n > 0 {
                    b.swap(at(*p), at(*q));
                }
            }
            Fault::Stuck(p, v) => {
                let s = at(*p);
                b[s..].fill(*v);
            }
            Fault::Splice(p) => {
                let s = at(*p);
                b.truncate(s);
                b.extend_from_slice(prev.get(s..).unwrap_or_default());
            }
            Fault::Append(x) => b.extend_from_slice(&x.0),
            Fault::Stale(k) => {
                let tail = prev.get(n..).unwrap_or_default();
                let k = usize::from(*k).min(tail.len());
                b.extend_from_slice(&tail[..k]);
            }
            Fault::Noise(x) => *b = x.0.clone(),
            Fault::Reseal => {
                if n >= 6 && b[0] == 0x68 {
                    let s = b[4..n - 2].iter().fold(0u8, |a, x| a.wrapping_add(*x));
                    b[n - 2] = s;
                } else if n == 5 && b[0] == 0x10 {
                    b[3] = b[1].wrapping_add(b[2]);
                }
            }
            Fault::Recrc => {
                // Recompute the CRC of each block in the fixed layout.
                let mut pos = 0;
                let mut size = 10;
                while pos + 3 <= n {
                    let k = size.min(n - pos - 2);
                    let c = acc::crc16(&b[pos..pos + k]).to_be_bytes();
                    b[pos + k..pos + k + 2].copy_from_slice(&c);
                    pos += k + 2;
                    size = 16;
                }
            }
            Fault::Refit => {
                if n >= 6 && b[0] == 0x68 {
                    b[1] = (n - 6) as u8;
                    b[2] = b[1];
                    Fault::Reseal.apply(b, prev);
                } else if n >= 1 {
                    b[0] = (n - 1) as u8;
                }
            }
        }
    }
}

/// Which fault kinds one run may use, and how often (swarm testing).
#[derive(Clone, Debug)]
pub struct Swarm {
    pub per_mille: u32,
    pub kinds: Vec<u8>,
}

impl Swarm {
    pub fn new(r: &mut Rng, allowed: &[u8]) -> Self {
        let mut kinds: Vec<u8> = allowed.iter().copied().filter(|_| r.bool()).collect();
        if kinds.is_empty() {
            kinds.push(*r.pick(allowed));
        }
        Self {
            per_mille: *r.pick(&[50, 200, 500, 800, 950]),
            kinds,
        }
    }
    pub fn faults(&self, r: &mut Rng, len: usize) -> Vec<Fault> {
        let mut v = Vec::new();
        if !r.chance(self.per_mille, 1000) {
            return v;
        }
        for _ in 0..r.range(1, 3) {
            let k = *r.pick(&self.kinds);
            v.push(gen_fault(r, k, len));
            if r.chance(1, 2) {
                break;
            }
        }
        v
    }
}

pub const DAMAGE: &[u8] = &[3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15];
pub const ALL: &[u8] = &[
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18,
];

fn pos(r: &mut Rng, len: usize) -> u16 {
    let n = len.max(1);
    (match r.below(6) {
        0 => r.below(n.min(12)),
        1 => n - 1 - r.below(n.min(6)),
        _ => r.below(n),
    }) as u16
}

pub fn gen_fault(r: &mut Rng, kind: u8, len: usize) -> Fault {
    match kind {
        0 => Fault::Drop,
        1 => Fault::Dup(r.below(3_000_000) as u32),
        2 => Fault::Delay(r.below(5_000_000) as u32),
        3 => Fault::Flip(pos(r, len), r.below(8) as u8),
        4 => Fault::Set(pos(r, len), r.edge_u8()),
        5 => {
            let n = r.range(2, 8);
            Fault::Burst(pos(r, len), Hex(r.bytes(n)))
        }
        6 => Fault::Cut(pos(r, len)),
        7 => Fault::Head(pos(r, len)),
        8 => {
            let n = r.range(1, 4);
            Fault::Ins(pos(r, len), Hex(r.edge_bytes(n)))
        }
        9 => Fault::Del(pos(r, len), r.range(1, 4) as u8),
        10 => Fault::Swap(pos(r, len), pos(r, len)),
        11 => Fault::Stuck(pos(r, len), *r.pick(&[0, 0xFF, 0x16, 0x55])),
        12 => Fault::Splice(pos(r, len)),
        13 => {
            let n = r.range(1, 20);
            Fault::Append(Hex(r.edge_bytes(n)))
        }
        14 => Fault::Stale(r.range(1, 255) as u16),
        15 => {
            let n = r.range(0, 60);
            let mut v = r.bytes(n);
            if let Some(f) = v.first_mut() {
                *f = *r.pick(&[0x68, 0x10, 0xE5, 0x2C, 0x1E, *f]);
            }
            Fault::Noise(Hex(v))
        }
        16 => Fault::Reseal,
        17 => Fault::Recrc,
        _ => Fault::Refit,
    }
}
