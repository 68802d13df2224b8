//! C23 (no heap) and C24 (reused buffers).

use super::ORDER;
use crate::alloc::denied;
use crate::chan;
use crate::engine::{viol, Cx, Meta, Prop, Res, Tier};
use crate::gen::*;
use crate::model::*;
use crate::rng::Rng;
use crate::util::{spaced, Hex};
use m_bus_core::decryption::{
    DecryptionError, EncryptedPayload, KeyContext, KeyProvider, StaticKeyProvider,
};
use m_bus_core::{DeviceType, IdentificationNumber, ManufacturerCode, SecurityMode};
use m_bus_parser as mbp;
use m_bus_parser::user_data::{self, DataRecords, UserDataBlock};
use mbp::mbus_data::MbusData;
use mbp::{WiredFrame, WirelessFrame};
use serde::{Deserialize, Serialize};
use serde_json::json;
use wireless_mbus_link_layer::{strip_format_a_crcs, trailing_frame_crc_start};

const REAL: &[&str] = &[
    "wired-mbus-link-layer",
    "wireless-mbus-link-layer",
    "m-bus-core incl. decryption",
    "m-bus-application-layer",
    "m-bus-parser frame types",
    "aes/cbc crates",
];

fn context(tg: &Telegram) -> Option<KeyContext> {
    let id = tg.key_ident()?;
    Some(KeyContext {
        manufacturer: ManufacturerCode::from_id(id.code()).ok()?,
        identification_number: id.number(),
        version: id.ver,
        device_type: DeviceType::from(id.dev),
        security_mode: SecurityMode::from_bits(tg.mode()),
        access_number: tg.acc(),
    })
}

fn decrypt<K: KeyProvider>(
    block: &UserDataBlock<'_>,
    who: Option<&Ident>,
    src: &K,
    out: &mut [u8],
) -> Result<usize, DecryptionError> {
    match (block, who) {
        (UserDataBlock::VariableDataStructureWithShortTplHeader { .. }, Some(id)) => {
            let Ok(m) = ManufacturerCode::from_id(id.code()) else {
                return Err(DecryptionError::UnknownEncryptionState);
            };
            block.decrypt_variable_data_with_context(
                src,
                m,
                id.number(),
                id.ver,
                DeviceType::from(id.dev),
                out,
            )
        }
        _ => block.decrypt_variable_data(src, out),
    }
}

fn with_heap<R>(yes: bool, f: impl FnOnce() -> R) -> (R, u64) {
    if yes {
        (f(), 0)
    } else {
        denied(f)
    }
}

pub struct C23;

impl C23 {
    /// The whole low-level receive path. Everything it needs is on the stack
    /// or in `recs`, which has room already. Returns a description of all
    /// results (made after the heap is allowed again) and the number of
    /// allocation requests seen while it was denied.
    fn path(b: &[u8], tg: &Telegram, deny: bool) -> (String, u64) {
        let mut strip = [0u8; 640];
        let mut plain = [0u8; 640];
        let mut plain2 = [0u8; 640];
        let key = tg.sec.as_ref().map(|s| s.key16()).unwrap_or([7; 16]);
        let who = tg.key_ident();
        let ctx = context(tg);
        let mut clear: Vec<_> = Vec::with_capacity(700);
        let mut secret: Vec<_> = Vec::with_capacity(700);
        let mut copies: Vec<_> = Vec::with_capacity(700);
        let mut text = String::new();
        let sref = &mut strip[..];
        let (r, mut hits) = with_heap(!deny, || {
            let room = { sref };
            let wired = WiredFrame::try_from(b);
            let trailing = trailing_frame_crc_start(b);
            let stripped = strip_format_a_crcs(b, room);
            let radio = WirelessFrame::try_from(stripped.unwrap_or(b));
            let md = MbusData::<WiredFrame>::try_from(b).map(|m| (m.user_data, m.data_records));
            let mr = MbusData::<WirelessFrame>::try_from(stripped.unwrap_or(b))
                .map(|m| (m.user_data, m.data_records));
            let data: Option<&[u8]> = match (&wired, &radio) {
                (
                    Ok(WiredFrame::LongFrame { data, .. } | WiredFrame::ControlFrame { data, .. }),
                    _,
                ) => Some(data),
                (_, Ok(f)) => Some(f.data),
                _ => None,
            };
            let mut keys = StaticKeyProvider::<4>::new();
            let mut added = Ok(());
            if let Some(id) = &who {
                let _ = keys.add_key(1, 2, [9; 16]);
                added = keys.add_key(id.code(), id.number(), key);
            }
            let block = data.map(user_data::parse_application_layer);
            let mut dec = None;
            let mut flags = (None, 0);
            if let Some(Ok(bl)) = &block {
                flags = (bl.is_encrypted(), bl.variable_data_len());
                dec = Some(decrypt(bl, who.as_ref(), &keys, &mut plain));
            }
            let ids = (
                ManufacturerCode::from_id(u16::from_le_bytes([
                    b.first().copied().unwrap_or(0),
                    b.get(1).copied().unwrap_or(0),
                ])),
                IdentificationNumber::from_bcd_hex_digits([
                    b.first().copied().unwrap_or(0),
                    b.get(1).copied().unwrap_or(0),
                    b.get(2).copied().unwrap_or(0),
                    b.get(3).copied().unwrap_or(0),
                ]),
            );
            (
                wired, trailing, radio, md, mr, added, block, dec, flags, ids,
            )
        });
        let (wired, trailing, radio, md, mr, added, block, dec, flags, ids) = r;
        // Records, from the block and from the decrypted bytes.
        let n = match dec {
            Some(Ok(n)) => n.min(640),
            _ => 0,
        };
        let (ends, h2) = with_heap(!deny, || {
            let mut end = 0;
            if let Some(Ok(bl)) = &block {
                if let Some(it) = bl.data_records() {
                    let twin = it.clone();
                    let mut it = it;
                    while let Some(x) = it.next() {
                        if let Ok(x) = &x {
                            let _ = (x.value(), x.data_information(), x.raw_bytes().len());
                        }
                        if clear.len() < 700 {
                            clear.push(x);
                        }
                    }
                    end = it.offset();
                    for x in twin.take(700) {
                        copies.push(x.is_ok());
                    }
                }
            }
            let mut e2 = 0;
            if n > 0 {
                let mut it: DataRecords<'_> = user_data::parse_data_records(&plain[..n]);
                while let Some(x) = it.next() {
                    if secret.len() < 700 {
                        secret.push(x);
                    }
                }
                e2 = it.offset();
            }
            let direct = ctx.map(|c| {
                let mut keys = StaticKeyProvider::<2>::default();
                let _ = keys.add_key(c.manufacturer.to_id(), c.identification_number, key);
                let found = keys.get_key(&c).is_ok();
                let e = EncryptedPayload::new(b, c);
                (found, e.decrypt_into(&keys, &mut plain2))
            });
            (end, e2, direct)
        });
        hits += h2;
        use std::fmt::Write;
        let _ = write!(
            text,
            "{wired:?} {trailing:?} {radio:?} {added:?} {block:?} {dec:?} {flags:?} {ids:?} {ends:?} {clear:?} {secret:?} {copies:?} {:?} {:?} {}",
            md.map(|m| format!("{m:?}")).map_err(|e| format!("{e:?}")),
            mr.map(|m| format!("{m:?}")).map_err(|e| format!("{e:?}")),
            spaced(&plain2),
        );
        (text, hits)
    }
}

impl Prop for C23 {
    type Sc = Traffic;
    fn meta(&self) -> Meta {
        Meta {
            id: "C23",
            level: "exploration",
            rule: "deliveries (intact and damaged) put through the whole low-level path with the heap denied; distinct = (link, header, mode, intact, length)",
            quick: 250_000,
            thorough: 2_000_000,
            components: REAL,
            stubs: &[
                "meters (encoder model)",
                "bus and radio channel with fault injector",
                "simulated clock",
                "heap (allocator that records every request while denied)",
            ],
            measure: ORDER,
        }
    }
    fn gen(&self, r: &mut Rng, _t: Tier, _i: u64) -> Traffic {
        let n = r.range(1, 4);
        gen_mixed(r, Medium::Both, chan::ALL, n)
    }
    fn exec(&self, sc: &Traffic, cx: &mut Cx) -> Res {
        let wires: Vec<Wire> = sc.sends.iter().map(|s| s.tg.encode()).collect();
        for d in sc.run(&wires, cx) {
            let tg = &sc.sends[d.src].tg;
            cx.note(|| {
                format!(
                    "t={}us bytes={} intact={}",
                    d.at,
                    spaced(&d.bytes),
                    d.intact
                )
            });
            cx.fault("heap_denied");
            let (a, hits) = cx.call("low-level path without heap", || {
                Self::path(&d.bytes, tg, true)
            })?;
            let (b, _) = cx.call("low-level path", || Self::path(&d.bytes, tg, false))?;
            cx.event(|| format!("{} {hits} {}", d.at, crate::rng::hash_bytes(a.as_bytes())));
            cx.evals += 1;
            if hits != 0 {
                return viol(
                    "heap-used",
                    format!("{hits} allocations for {}", spaced(&d.bytes)),
                );
            }
            if a != b {
                return viol("different-result", format!("{a}\nwith heap: {b}"));
            }
            cx.sig(&format!(
                "{:?}{:?}{}{}{}",
                std::mem::discriminant(&tg.link),
                std::mem::discriminant(&tg.app),
                tg.mode(),
                d.intact,
                d.bytes.len()
            ));
            cx.sample(json!({"bytes": spaced(&d.bytes), "allocations": hits}));
        }
        Ok(())
    }
}

// ----------------------------------------------------------------------- C24

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct BufSc {
    pub traffic: Traffic,
    /// What the caller's buffers hold before each delivery is handled:
    /// None = whatever the previous one left, else this byte.
    pub fill: Vec<Option<u8>>,
    /// Spare room after the telegram per delivery.
    pub spare: Vec<u16>,
    pub junk: Hex,
}

pub struct C24;

struct One([u8; 16]);
impl KeyProvider for One {
    fn get_key(&self, _: &KeyContext) -> Result<&[u8], DecryptionError> {
        Ok(&self.0)
    }
}

impl Prop for C24 {
    type Sc = BufSc;
    fn meta(&self) -> Meta {
        Meta {
            id: "C24",
            level: "exploration",
            rule: "results in reused, dirty, exact and oversized buffers compared with a fresh buffer; distinct = (operation, header, data length, spare room class, buffer state)",
            quick: 250_000,
            thorough: 2_000_000,
            components: REAL,
            stubs: &[
                "meters (encoder model)",
                "bus and radio channel with fault injector",
                "simulated clock",
                "caller's buffers (kept, dirtied or shortened between telegrams)",
            ],
            measure: ORDER,
        }
    }
    fn gen(&self, r: &mut Rng, _t: Tier, _i: u64) -> BufSc {
        let n = r.range(2, 6);
        let mut traffic = gen_mixed(r, Medium::Radio, chan::ALL, n);
        for s in &mut traffic.sends {
            if let Link::Radio { enc, .. } = &mut s.tg.link {
                if r.bool() {
                    *enc = Enc::FormatA;
                }
            }
            // Undamaged most of the time.
            if r.chance(3, 4) {
                s.faults.clear();
            }
            if r.chance(1, 6) {
                // A wired meter in between.
                s.tg = gen_telegram(r, Medium::Wired, Kind::Encrypted);
                s.faults.clear();
            }
        }
        BufSc {
            traffic,
            fill: (0..6)
                .map(|_| {
                    if r.bool() {
                        None
                    } else {
                        Some(*r.pick(&[0, 0xFF, 0x2F, 0x68, 0x7A, 0xA5]))
                    }
                })
                .collect(),
            spare: (0..6)
                .map(|_| *r.pick(&[0u16, 1, 2, 15, 16, 17, 31, 32, 100, 300]))
                .collect(),
            junk: Hex(r.bytes(64)),
        }
    }
    fn exec(&self, sc: &BufSc, cx: &mut Cx) -> Res {
        let wires: Vec<Wire> = sc.traffic.sends.iter().map(|s| s.tg.encode()).collect();
        // The receiver keeps these for its whole life.
        let mut sbuf = vec![0u8; 700];
        let mut dbuf = vec![0u8; 700];
        for (b, j) in sbuf.iter_mut().chain(dbuf.iter_mut()).zip(
            sc.junk
                .0
                .iter()
                .cycle()
                .chain(std::iter::repeat(&0x5A))
                .take(1400),
        ) {
            *b = *j;
        }
        for (k, d) in sc.traffic.run(&wires, cx).into_iter().enumerate() {
            let tg = &sc.traffic.sends[d.src].tg;
            let w = &wires[d.src];
            let fill = sc.fill.get(k % 6).copied().flatten();
            let spare = usize::from(sc.spare.get(k % 6).copied().unwrap_or(0)).min(300);
            match fill {
                Some(f) => {
                    cx.fault("buffer_overwritten");
                    sbuf.fill(f);
                    dbuf.fill(f);
                }
                None => cx.fault("buffer_left_dirty"),
            }
            cx.note(|| {
                format!(
                    "t={}us bytes={} intact={}",
                    d.at,
                    spaced(&d.bytes),
                    d.intact
                )
            });
            // CRC removal.
            let n = d.bytes.len().min(380);
            let bytes = &d.bytes[..n];
            let mut fresh = vec![0u8; n];
            let want = cx.call("strip_format_a_crcs", || {
                strip_format_a_crcs(bytes, &mut fresh).map(<[u8]>::to_vec)
            })?;
            if d.intact
                && matches!(
                    &tg.link,
                    Link::Radio {
                        enc: Enc::FormatA,
                        ..
                    }
                )
                && !w.ambiguous
                && want.as_ref() != Some(&w.normal)
            {
                return viol(
                    "strip-fresh",
                    format!("{want:?} instead of {}", spaced(&w.normal)),
                );
            }
            for room in [n + spare, n, 700] {
                let before = sbuf.clone();
                let got = cx.call("strip_format_a_crcs", || {
                    strip_format_a_crcs(bytes, &mut sbuf[..room]).map(<[u8]>::to_vec)
                })?;
                cx.evals += 1;
                if got != want {
                    return viol(
                        "strip-depends-on-buffer",
                        format!(
                            "room {room}: {:?}, fresh buffer {:?}",
                            got.as_deref().map(spaced),
                            want.as_deref().map(spaced)
                        ),
                    );
                }
                if let Some(g) = &got {
                    if sbuf[..g.len()] != g[..] {
                        return viol("strip-result-elsewhere", spaced(g));
                    }
                    if sbuf[g.len()..] != before[g.len()..] {
                        return viol(
                            "strip-touches-beyond",
                            format!("result has {} bytes of room {room}", g.len()),
                        );
                    }
                } else if sbuf[room..] != before[room..] {
                    return viol("strip-touches-beyond", format!("room {room}"));
                }
                cx.sig(&format!("s{}{}{:?}{:?}", n, spare, fill, got.is_some()));
            }
            if let Some(wn) = &want {
                cx.fault("buffer_too_small");
                for room in [0, wn.len() / 2, wn.len() - 1] {
                    let got = cx.call("strip_format_a_crcs", || {
                        strip_format_a_crcs(bytes, &mut sbuf[..room]).map(<[u8]>::to_vec)
                    })?;
                    cx.evals += 1;
                    if let Some(g) = got {
                        return viol(
                            "strip-into-too-small",
                            format!("room {room}: {}", spaced(&g)),
                        );
                    }
                }
                // Between result and telegram length refusing is fine, but
                // nothing else than the right result.
                for room in wn.len()..n {
                    let got = cx.call("strip_format_a_crcs", || {
                        strip_format_a_crcs(bytes, &mut sbuf[..room]).map(<[u8]>::to_vec)
                    })?;
                    if got.is_some() && got != want {
                        return viol("strip-depends-on-buffer", format!("room {room}"));
                    }
                }
            }
            // Decryption.
            let Some(sec) = &tg.sec else { continue };
            if !tg.has_mode_field() {
                continue;
            }
            let payload = w.payload.clone().unwrap_or_default();
            let who = tg.key_ident();
            let key = One(sec.key16());
            let Ok(block) = user_data::parse_application_layer(&payload) else {
                continue;
            };
            let len = w.plain.len();
            let mut fresh = vec![0u8; len];
            let want = cx.call("decrypt_variable_data", || {
                decrypt(&block, who.as_ref(), &key, &mut fresh)
            })?;
            if want.is_ok() && (want != Ok(len) || fresh != w.plain) && matches!(tg.mode(), 5 | 7) {
                return viol("decrypt-fresh", format!("{want:?} {}", spaced(&fresh)));
            }
            if matches!(tg.mode(), 5 | 7) && len > 0 && who.is_some() && want.is_err() {
                return viol("decrypt-fresh", format!("{want:?}"));
            }
            let ctx = context(tg);
            for (what, room) in [
                (0, len + spare),
                (0, len),
                (0, 700),
                (1, len + spare),
                (1, 700),
            ] {
                let before = dbuf.clone();
                let got = match (what, &ctx) {
                    (0, _) => cx.call("decrypt_variable_data", || {
                        decrypt(&block, who.as_ref(), &key, &mut dbuf[..room])
                    })?,
                    (_, Some(c)) => cx.call("decrypt_into", || {
                        EncryptedPayload::new(&payload[w.start..], c.clone())
                            .decrypt_into(&key, &mut dbuf[..room])
                    })?,
                    _ => continue,
                };
                cx.evals += 1;
                if got.is_ok() != want.is_ok() && what == 0 {
                    return viol(
                        "decrypt-depends-on-buffer",
                        format!("{got:?}, fresh {want:?}"),
                    );
                }
                if let (Ok(g), Ok(n)) = (got, want) {
                    if g != n || dbuf[..n] != fresh[..] {
                        return viol(
                            "decrypt-depends-on-buffer",
                            format!(
                                "room {room}: {g} bytes {}, fresh buffer {n} bytes {}",
                                spaced(&dbuf[..g.min(room)]),
                                spaced(&fresh)
                            ),
                        );
                    }
                    if dbuf[n..] != before[n..] {
                        return viol("decrypt-touches-beyond", format!("room {room}, result {n}"));
                    }
                    cx.sig(&format!(
                        "d{n}{spare}{fill:?}{what}{:?}",
                        std::mem::discriminant(&tg.app)
                    ));
                } else if got.is_err() && dbuf[room..] != before[room..] {
                    return viol("decrypt-touches-beyond", format!("room {room}"));
                }
            }
            if want.is_ok() && len > 0 {
                cx.fault("buffer_too_small");
                for room in [0, len / 2, len & !15, len - 1] {
                    if room >= len {
                        continue;
                    }
                    let before = dbuf.clone();
                    let got = cx.call("decrypt_variable_data", || {
                        decrypt(&block, who.as_ref(), &key, &mut dbuf[..room])
                    })?;
                    cx.evals += 1;
                    if got.is_ok() {
                        return viol(
                            "decrypt-into-too-small",
                            format!("room {room} of {len}: {got:?}"),
                        );
                    }
                    if dbuf[room..] != before[room..] {
                        return viol("decrypt-touches-beyond", format!("room {room}"));
                    }
                    if let Some(c) = &ctx {
                        let got = cx.call("decrypt_into", || {
                            EncryptedPayload::new(&payload[w.start..], c.clone())
                                .decrypt_into(&key, &mut dbuf[..room])
                        })?;
                        if got.is_ok() {
                            return viol(
                                "decrypt-into-too-small",
                                format!("room {room} of {len}: {got:?}"),
                            );
                        }
                    }
                }
                // A copy through the unencrypted mode obeys the same rules.
                if let Some(mut c) = ctx.clone() {
                    c.security_mode = SecurityMode::NoEncryption;
                    let e = EncryptedPayload::new(&payload[w.start..], c);
                    let before = dbuf.clone();
                    let r = cx.call("decrypt_into", || {
                        e.decrypt_into(&key, &mut dbuf[..len + spare])
                    })?;
                    if r != Ok(len)
                        || dbuf[..len] != payload[w.start..]
                        || dbuf[len..] != before[len..]
                    {
                        return viol("copy-depends-on-buffer", format!("{r:?}"));
                    }
                    let r = cx.call("decrypt_into", || {
                        e.decrypt_into(&key, &mut dbuf[..len - 1])
                    })?;
                    if r.is_ok() {
                        return viol("decrypt-into-too-small", format!("{r:?}"));
                    }
                }
            }
            cx.event(|| format!("{} {want:?}", d.at));
            cx.sample(json!({"length": len, "spare": spare, "fill": fill}));
        }
        Ok(())
    }
}
