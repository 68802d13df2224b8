//! C22: formatting and serialising into sinks that fail.

use super::ORDER;
use crate::chan;
use crate::engine::{viol, Cx, Meta, Prop, Res, Tier};
use crate::gen::*;
use crate::model::*;
use crate::rng::Rng;
use crate::util::spaced;
use m_bus_application_layer as app;
use m_bus_parser as mbp;
use mbp::mbus_data::MbusData;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::fmt::{self, Debug, Display};
use std::io;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct SinkSc {
    pub traffic: Traffic,
    pub keyed: bool,
    /// Decides which failure positions of long outputs are tried.
    pub plan: u64,
}

/// Text sink that fails at one call, for good or just once. The failing
/// call may have taken part of its text.
struct TextSink {
    got: String,
    calls: usize,
    fail_at: usize,
    once: bool,
    part: bool,
}

impl fmt::Write for TextSink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let n = self.calls;
        self.calls += 1;
        if n == self.fail_at || n > self.fail_at && !self.once {
            if self.part && n == self.fail_at {
                let mut h = s.len() / 2;
                while !s.is_char_boundary(h) {
                    h -= 1;
                }
                self.got.push_str(&s[..h]);
            }
            return Err(fmt::Error);
        }
        self.got.push_str(s);
        Ok(())
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Io {
    Error,
    Once,
    Zero,
    Short,
    Interrupt,
}

struct ByteSink {
    got: Vec<u8>,
    calls: usize,
    at: usize,
    how: Io,
    tail: bool,
}

impl io::Write for ByteSink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = self.calls;
        self.calls += 1;
        let hit = n == self.at;
        match self.how {
            Io::Error if n >= self.at => return Err(io::Error::other("sink failed")),
            Io::Once if hit => return Err(io::Error::other("sink failed once")),
            Io::Zero if n >= self.at && !b.is_empty() => return Ok(0),
            Io::Interrupt if n % (self.at + 2) == 0 && !self.tail => {
                self.tail = true;
                return Err(io::ErrorKind::Interrupted.into());
            }
            Io::Short => {
                let k = b.len().min(1 + (n + self.at) % 3);
                self.got.extend(&b[..k]);
                return Ok(k);
            }
            _ => {}
        }
        self.tail = false;
        self.got.extend(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn positions(n: usize, plan: u64, cap: usize) -> Vec<usize> {
    if n <= cap {
        return (0..n).collect();
    }
    let mut r = Rng::new(plan);
    let mut v: Vec<usize> = (0..cap - 4).map(|_| r.below(n)).collect();
    v.extend([0, 1, n - 2, n - 1]);
    v.sort_unstable();
    v.dedup();
    v
}

struct Bench<'c> {
    cx: &'c mut Cx,
    plan: u64,
    sum: u64,
    items: u64,
}

impl Bench<'_> {
    fn text(&mut self, what: &str, write: &dyn Fn(&mut dyn fmt::Write) -> fmt::Result) -> Res {
        let mut full = TextSink {
            got: String::new(),
            calls: 0,
            fail_at: usize::MAX,
            once: false,
            part: false,
        };
        let ok = self.cx.call("format", || write(&mut full))?;
        if ok.is_err() {
            return viol("healthy-sink-refused", what.to_string());
        }
        self.sum = crate::rng::mix(self.sum ^ crate::rng::hash_bytes(full.got.as_bytes()));
        self.items += 1;
        for at in positions(full.calls, self.plan, 40) {
            for (once, part) in [(false, false), (true, false), (false, true)] {
                let mut s = TextSink {
                    got: String::new(),
                    calls: 0,
                    fail_at: at,
                    once,
                    part,
                };
                let r = self.cx.call("format", || write(&mut s))?;
                self.cx.fault(match (once, part) {
                    (true, _) => "text sink fails once",
                    (_, true) => "text sink fails inside a write",
                    _ => "text sink fails for good",
                });
                self.cx.evals += 1;
                if r.is_ok() {
                    return viol(
                        "failure-swallowed",
                        format!(
                            "{what}: write {at} of {} failed, result is success; got {:?} of {:?}",
                            full.calls, s.got, full.got
                        ),
                    );
                }
                if !full.got.starts_with(&s.got) {
                    return viol(
                        "not-a-prefix",
                        format!(
                            "{what}: write {at} failed; got {:?} of {:?}",
                            s.got, full.got
                        ),
                    );
                }
            }
        }
        let mut again = String::new();
        let ok = self.cx.call("format", || write(&mut again))?;
        if ok.is_err() || again != full.got {
            return viol(
                "later-attempt-differs",
                format!("{what}: {again:?} after {:?}", full.got),
            );
        }
        Ok(())
    }

    fn show<T: Display + Debug + ?Sized>(&mut self, what: &str, v: &T) -> Res {
        self.text(what, &|w| write!(w, "{v}"))?;
        self.text(what, &|w| write!(w, "{v:?}"))
    }
    fn debug<T: Debug + ?Sized>(&mut self, what: &str, v: &T) -> Res {
        self.text(what, &|w| write!(w, "{v:?}"))?;
        self.text(what, &|w| write!(w, "{v:#?}"))
    }

    fn bytes(&mut self, what: &str, write: &dyn Fn(&mut ByteSink) -> Result<(), String>) -> Res {
        let sink = |at, how| ByteSink {
            got: Vec::new(),
            calls: 0,
            at,
            how,
            tail: false,
        };
        let mut full = sink(usize::MAX, Io::Error);
        let ok = self.cx.call("serialize", || write(&mut full))?;
        if let Err(e) = ok {
            // A limitation of the YAML library.
            if e.contains("nested enums") {
                return Ok(());
            }
            return viol("healthy-sink-refused", format!("{what}: {e}"));
        }
        self.sum = crate::rng::mix(self.sum ^ crate::rng::hash_bytes(&full.got));
        self.items += 1;
        for at in positions(full.calls, self.plan, 12) {
            for how in [Io::Error, Io::Once, Io::Zero, Io::Short, Io::Interrupt] {
                let mut s = sink(at, how);
                let r = self.cx.call("serialize", || write(&mut s))?;
                self.cx.fault(match how {
                    Io::Error => "byte sink fails for good",
                    Io::Once => "byte sink fails once",
                    Io::Zero => "byte sink takes nothing",
                    Io::Short => "byte sink takes few bytes",
                    Io::Interrupt => "byte sink interrupted",
                });
                self.cx.evals += 1;
                let harmless = matches!(how, Io::Short | Io::Interrupt);
                if harmless {
                    if r.is_err() || s.got != full.got {
                        return viol(
                            "harmless-fault-changed-output",
                            format!(
                                "{what}: {how:?}: {r:?}, {} bytes of {}",
                                s.got.len(),
                                full.got.len()
                            ),
                        );
                    }
                } else if r.is_ok() {
                    return viol(
                        "failure-swallowed",
                        format!("{what}: {how:?} at write {at} of {}", full.calls),
                    );
                } else if !full.got.starts_with(&s.got) {
                    return viol("not-a-prefix", format!("{what}: {how:?} at write {at}"));
                }
            }
        }
        let mut again = sink(usize::MAX, Io::Error);
        let ok = self.cx.call("serialize", || write(&mut again))?;
        if ok.is_err() || again.got != full.got {
            return viol("later-attempt-differs", what.to_string());
        }
        Ok(())
    }

    fn serial<T: Serialize + ?Sized>(&mut self, what: &str, v: &T) -> Res {
        self.bytes(what, &|w| {
            serde_json::to_writer(w, v).map_err(|e| e.to_string())
        })?;
        self.bytes(what, &|w| {
            serde_json::to_writer_pretty(w, v).map_err(|e| e.to_string())
        })?;
        self.bytes(what, &|w| {
            serde_yaml::to_writer(w, v).map_err(|e| e.to_string())
        })
    }

    fn record(&mut self, r: &app::DataRecord<'_>) -> Res {
        self.debug("record", r)?;
        self.serial("record", r)?;
        self.show("record data", &r.data)?;
        let p = &r.data_record_header.processed_data_record_header;
        if let Some(i) = &p.data_information {
            self.show("data information", i)?;
            self.show("function field", &i.function_field)?;
            self.show("data coding", &i.data_field_coding)?;
        }
        if let Some(v) = &p.value_information {
            self.show("value information", v)?;
            for u in &v.units {
                self.show("unit", u)?;
                self.show("unit name", &u.name)?;
            }
        }
        if let Some(app::data_information::DataType::Text(t)) = &r.data.value {
            self.show("text", t)?;
        }
        Ok(())
    }

    fn block(&mut self, u: &app::UserDataBlock<'_>) -> Res {
        self.debug("user data", u)?;
        self.serial("user data", u)?;
        match u {
            app::UserDataBlock::ResetAtApplicationLevel { subcode } => {
                self.show("reset sub-code", subcode)?
            }
            app::UserDataBlock::FixedDataStructure {
                identification_number,
                status,
                counter1,
                counter2,
                ..
            } => {
                self.show("identification", identification_number)?;
                self.show("status", status)?;
                self.show("counter", counter1)?;
                self.show("counter", counter2)?;
            }
            app::UserDataBlock::VariableDataStructureWithLongTplHeader {
                long_tpl_header: h,
                ..
            } => {
                self.show("identification", &h.identification_number)?;
                match &h.manufacturer {
                    Ok(m) => self.show("manufacturer", m)?,
                    Err(e) => self.show("manufacturer error", e)?,
                }
                self.show("device type", &h.device_type)?;
                self.show("status", &h.short_tpl_header.status)?;
                self.config(&h.short_tpl_header)?;
            }
            app::UserDataBlock::VariableDataStructureWithShortTplHeader {
                short_tpl_header: h,
                ..
            } => {
                self.show("status", &h.status)?;
                self.config(h)?;
            }
            _ => {}
        }
        Ok(())
    }

    fn config(&mut self, h: &app::ShortTplHeader) -> Res {
        self.show("configuration", &h.configuration_field)?;
        self.show("security mode", &h.configuration_field.security_mode())
    }
}

pub struct C22;
impl Prop for C22 {
    type Sc = SinkSc;
    fn meta(&self) -> Meta {
        Meta {
            id: "C22",
            level: "exploration",
            rule: "values reached from deliveries formatted and serialised into failing sinks, every write call (sampled above 40 text or 12 byte writes); distinct = hash of all full outputs of one delivery",
            quick: 6_000,
            thorough: 200_000,
            components: &[
                "Display, Debug and Serialize implementations of all crates of the repository",
                "serde_json, serde_yaml (as used by the repository)",
            ],
            stubs: &[
                "meters (encoder model)",
                "bus and radio channel with fault injector",
                "simulated clock",
                "text and byte sinks with fault injector",
            ],
            measure: ORDER,
        }
    }
    fn gen(&self, r: &mut Rng, _t: Tier, _i: u64) -> SinkSc {
        let n = r.range(1, 3);
        let mut traffic = gen_mixed(r, Medium::Both, chan::ALL, n);
        for s in &mut traffic.sends {
            if r.chance(2, 3) {
                s.faults.clear();
            }
            s.tg.recs.truncate(4);
        }
        SinkSc {
            traffic,
            keyed: r.bool(),
            plan: r.u64(),
        }
    }
    fn exec(&self, sc: &SinkSc, cx: &mut Cx) -> Res {
        let wires: Vec<Wire> = sc.traffic.sends.iter().map(|s| s.tg.encode()).collect();
        for d in sc.traffic.run(&wires, cx) {
            let tg = &sc.traffic.sends[d.src].tg;
            cx.note(|| {
                format!(
                    "t={}us bytes={} intact={}",
                    d.at,
                    spaced(&d.bytes),
                    d.intact
                )
            });
            let mut b = Bench {
                cx: &mut *cx,
                plan: sc.plan,
                sum: 0,
                items: 0,
            };
            match MbusData::<mbp::WiredFrame>::try_from(d.bytes.as_slice()) {
                Ok(m) => {
                    b.debug("wired telegram", &m)?;
                    b.serial("wired telegram", &m)?;
                    match &m.frame {
                        mbp::WiredFrame::ShortFrame { function, address }
                        | mbp::WiredFrame::LongFrame {
                            function, address, ..
                        }
                        | mbp::WiredFrame::ControlFrame {
                            function, address, ..
                        } => {
                            b.show("function", function)?;
                            b.show("address", address)?;
                        }
                        _ => {}
                    }
                    if let Some(u) = &m.user_data {
                        b.block(u)?;
                    }
                    if let Some(rs) = &m.data_records {
                        b.serial("records", rs)?;
                        for r in rs.clone() {
                            match r {
                                Ok(r) => b.record(&r)?,
                                Err(e) => b.show("record error", &e)?,
                            }
                        }
                    }
                }
                Err(e) => {
                    b.show("wired error", &e)?;
                    b.serial("wired error", &e)?;
                }
            }
            let mut buf = [0u8; 512];
            let plain = wireless_mbus_link_layer::strip_format_a_crcs(&d.bytes, &mut buf)
                .unwrap_or(&d.bytes);
            match MbusData::<mbp::WirelessFrame>::try_from(plain) {
                Ok(m) => {
                    b.debug("radio telegram", &m)?;
                    b.serial("radio telegram", &m)?;
                    if let Some(f) = &m.frame.function {
                        b.show("function", f)?;
                    }
                    let id = &m.frame.manufacturer_id;
                    b.show("manufacturer", &id.manufacturer_code)?;
                    b.show("identification", &id.identification_number)?;
                    b.show("device type", &id.device_type)?;
                    if let Some(u) = &m.user_data {
                        b.block(u)?;
                    }
                    if let Some(rs) = &m.data_records {
                        b.serial("records", rs)?;
                        for r in rs.clone() {
                            match r {
                                Ok(r) => b.record(&r)?,
                                Err(e) => b.show("record error", &e)?,
                            }
                        }
                    }
                }
                Err(e) => {
                    b.show("radio error", &e)?;
                    b.serial("radio error", &e)?;
                }
            }
            let opt = mbp::DecodeOptions {
                key: sc
                    .keyed
                    .then(|| tg.sec.as_ref().map_or([1; 16], |s| s.key16())),
                include_enrichment: sc.plan & 1 == 0,
            };
            match mbp::decode_bytes(&d.bytes, &opt) {
                Ok(o) => {
                    b.debug("document", &o)?;
                    b.serial("document", &o)?;
                    for r in &o.records {
                        b.serial("document record", r)?;
                    }
                }
                Err(e) => b.show("decode error", &e)?,
            }
            match mbp::annotate::annotate_frame(&d.bytes) {
                Ok(s) => {
                    b.serial("segments", &s)?;
                    for x in &s {
                        b.show("segment kind", &x.kind)?;
                    }
                    if let Some(x) = s.first() {
                        b.debug("segment", x)?;
                    }
                }
                Err(e) => b.show("annotation error", &e)?,
            }
            if let Err(e) = mbp::decode_hex("6", &opt) {
                b.show("hex error", &e)?;
            }
            for n in [
                "table",
                "json",
                "yaml",
                "csv",
                "mermaid",
                "xml",
                "annotated",
                "annotated-text",
                "none",
            ] {
                match n.parse::<mbp::OutputFormat>() {
                    Ok(f) => b.show("format name", &f)?,
                    Err(e) => b.show("format error", &e)?,
                }
            }
            let (sum, items) = (b.sum, b.items);
            cx.event(|| format!("{} {sum:x}", d.at));
            cx.sig(&format!("{sum:x}"));
            cx.sample(json!({"length": d.bytes.len(), "outputs": items}));
        }
        if sc.traffic.sends.len() == 1 {
            self.errors(cx, sc.plan)?;
        }
        Ok(())
    }
}

impl C22 {
    /// Values that telegrams rarely or never lead to.
    fn errors(&self, cx: &mut Cx, plan: u64) -> Res {
        use m_bus_core::decryption::DecryptionError as D;
        let mut b = Bench {
            cx,
            plan,
            sum: 0,
            items: 0,
        };
        for e in [
            D::UnsupportedMode(m_bus_core::SecurityMode::AesCtr128Cmac),
            D::KeyNotFound,
            D::DecryptionFailed,
            D::InvalidKeyLength,
            D::InvalidDataLength,
            D::NotEncrypted,
            D::UnknownEncryptionState,
        ] {
            b.show("decryption error", &e)?;
        }
        for k in 0..32u8 {
            let c = m_bus_core::ConfigurationField::from_bytes(plan as u8, k);
            b.show("configuration", &c)?;
            b.show("security mode", &c.security_mode())?;
        }
        for k in 0..=255u8 {
            b.show("device type", &m_bus_core::DeviceType::from(k))?;
        }
        Ok(())
    }
}
