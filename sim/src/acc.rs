//! Reference acceptors: which byte strings are telegrams.

/// CRC-16/EN-13757, bit by bit.
pub fn crc16(data: &[u8]) -> u16 {
    let mut c = 0u16;
    for &b in data {
        c ^= u16::from(b) << 8;
        for _ in 0..8 {
            c = if c & 0x8000 != 0 {
                (c << 1) ^ 0x3D65
            } else {
                c << 1
            };
        }
    }
    !c
}

pub fn with_crc(data: &[u8], out: &mut Vec<u8>) {
    out.extend_from_slice(data);
    out.extend_from_slice(&crc16(data).to_be_bytes());
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Wired<'a> {
    Ack,
    Short { c: u8, a: u8 },
    Long { c: u8, a: u8, data: &'a [u8] },
}

pub fn known_c(c: u8) -> bool {
    matches!(
        c,
        0x40 | 0x44 | 0x53 | 0x73 | 0x5B | 0x7B | 0x5A | 0x7A | 0x08 | 0x18 | 0x28 | 0x38
    )
}

/// Exactly one complete wired telegram, or nothing.
pub fn wired(b: &[u8]) -> Option<Wired<'_>> {
    match *b {
        [0xE5] => Some(Wired::Ack),
        [0x10, c, a, s, 0x16] if c.wrapping_add(a) == s && known_c(c) => {
            Some(Wired::Short { c, a })
        }
        [0x68, l1, l2, 0x68, ref rest @ ..] => {
            if l1 != l2 || rest.len() != usize::from(l1) + 2 || l1 < 2 {
                return None;
            }
            let (body, end) = rest.split_at(usize::from(l1));
            let sum = body.iter().fold(0u8, |a, x| a.wrapping_add(*x));
            (end == [sum, 0x16] && known_c(body[0])).then(|| Wired::Long {
                c: body[0],
                a: body[1],
                data: &body[2..],
            })
        }
        _ => None,
    }
}

/// Remove the CRCs of frame format A in its fixed layout: a first block of
/// ten bytes, then blocks of sixteen, the last one shorter.
pub fn format_a(b: &[u8]) -> Option<Vec<u8>> {
    let l = usize::from(*b.first()?) + 1;
    if l < 10 {
        return None;
    }
    let mut out = Vec::new();
    let mut pos = 0;
    let mut size = 10;
    while out.len() < l {
        let n = size.min(l - out.len());
        let blk = b.get(pos..pos + n)?;
        let crc = b.get(pos + n..pos + n + 2)?;
        if crc != crc16(blk).to_be_bytes() {
            return None;
        }
        out.extend_from_slice(blk);
        pos += n + 2;
        size = 16;
    }
    (pos == b.len()).then_some(out)
}

/// The most permissive reading of "every block is CRC checked": any split of
/// the bytes after the first block into blocks of 1..=16 data bytes, each
/// followed by its CRC, that yields the length the first byte states.
pub fn any_split(b: &[u8], want: &[u8]) -> bool {
    let Some(&l0) = b.first() else { return false };
    let l = usize::from(l0) + 1;
    if l < 10 || b.len() < 12 || crc16(&b[..10]).to_be_bytes() != b[10..12] || want.len() != l {
        return false;
    }
    if want[..10] != b[..10] {
        return false;
    }
    // reach[pos] = set of output lengths whose prefix equals `want`.
    let n = b.len();
    let mut reach = vec![std::collections::BTreeSet::new(); n + 1];
    reach[12].insert(10usize);
    for pos in 12..n {
        let outs: Vec<usize> = reach[pos].iter().copied().collect();
        for o in outs {
            for k in 1..=16 {
                if pos + k + 2 > n || o + k > l {
                    break;
                }
                if crc16(&b[pos..pos + k]).to_be_bytes() == b[pos + k..pos + k + 2]
                    && want[o..o + k] == b[pos..pos + k]
                {
                    reach[pos + k + 2].insert(o + k);
                }
            }
        }
    }
    reach[n].contains(&l)
}
