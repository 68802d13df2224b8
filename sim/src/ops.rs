//! Every public operation of the parser as a function from one request to a
//! complete textual description of its result.

use crate::sched::point;
use crate::util::{spaced, upper};
use m_bus_application_layer as app;
use m_bus_core as core_;
use m_bus_parser as mbp;
use mbp::mbus_data::MbusData;
use mbp::{WiredFrame, WirelessFrame};
use std::cell::Cell;
use std::fmt::{Debug, Display, Write};

#[derive(Clone, Debug)]
pub struct Req {
    pub bytes: Vec<u8>,
    /// What the text entry points get.
    pub text: String,
    pub key: Option<[u8; 16]>,
    pub width: usize,
    pub enrich: bool,
}

thread_local! {
    static ENDLESS: Cell<u32> = const { Cell::new(0) };
}

/// Number of record iterations since the last call that took more steps than
/// there were bytes.
pub fn endless() -> u32 {
    ENDLESS.with(|e| e.replace(0))
}

pub type Op = (&'static str, fn(&Req) -> String);

pub const OPS: &[Op] = &[
    ("decode_bytes", decode_bytes),
    ("decode_hex", decode_hex),
    ("decode_hex_bytes", |q| {
        format!("{:?}", mbp::decode_hex_bytes(&q.text))
    }),
    ("decode_data_records", |q| {
        json(mbp::decode_data_records(&q.bytes))
    }),
    ("decode_data_records_hex", |q| {
        json(mbp::decode_data_records_hex(&q.text))
    }),
    ("render_bytes table", |q| render(q, "table")),
    ("render_bytes json", |q| render(q, "json")),
    ("render_bytes yaml", |q| render(q, "yaml")),
    ("render_bytes csv", |q| render(q, "csv")),
    ("render_bytes mermaid", |q| render(q, "mermaid")),
    ("render_bytes xml", |q| render(q, "xml")),
    ("render_bytes annotated", |q| render(q, "annotated")),
    ("render_bytes annotated-text", |q| {
        render(q, "annotated-text")
    }),
    ("serialize table", |q| legacy(q, "table")),
    ("serialize xml", |q| legacy(q, "xml")),
    ("serialize json-legacy", |q| legacy(q, "json-legacy")),
    ("serialize yaml-legacy", |q| legacy(q, "yaml-legacy")),
    ("serialize csv-wide", |q| legacy(q, "csv-wide")),
    ("serialize annotated-legacy", |q| {
        legacy(q, "annotated-legacy")
    }),
    ("serialize hexview-legacy", |q| legacy(q, "hexview-legacy")),
    ("serialize annotated-text", |q| legacy(q, "annotated-text")),
    ("serialize table_format", |q| legacy(q, "table_format")),
    ("serialize unknown", |q| legacy(q, &q.text)),
    ("parse_to_json", |q| {
        mbp::mbus_data::parse_to_json(&q.text, q.key.as_ref())
    }),
    ("parse_to_csv", |q| {
        mbp::mbus_data::parse_to_csv(&q.text, q.key.as_ref())
    }),
    ("parse_to_mermaid", |q| {
        mbp::mbus_data::parse_to_mermaid(&q.text, q.key.as_ref())
    }),
    ("annotate", annotate),
    ("lookup_manufacturer", lookup),
    ("wired frame", wired),
    ("wireless frame", wireless),
    ("format A blocks", strip),
    ("MbusData wired", |q| {
        md(
            MbusData::<WiredFrame>::try_from(q.bytes.as_slice()),
            &q.bytes,
        )
    }),
    ("MbusData wireless", |q| {
        md(
            MbusData::<WirelessFrame>::try_from(q.bytes.as_slice()),
            &q.bytes,
        )
    }),
    ("application layer", |q| application(q, &q.bytes)),
    ("application layer, wired payload", |q| {
        application(
            q,
            q.bytes
                .get(6..q.bytes.len().saturating_sub(2))
                .unwrap_or(&[]),
        )
    }),
    ("application layer, radio payload", |q| {
        application(q, q.bytes.get(10..).unwrap_or(&[]))
    }),
    ("data records", |q| records(&q.bytes)),
    ("data records after header", |q| {
        records(q.bytes.get(19..).unwrap_or(&[]))
    }),
    ("record headers", |q| headers(&q.bytes)),
    ("small fields", small),
];

fn json<T: serde::Serialize>(r: Result<T, mbp::OutputError>) -> String {
    match r {
        Ok(v) => serde_json::to_string(&v).unwrap_or_else(|e| format!("unserialisable: {e}")),
        Err(e) => fail(&e),
    }
}

fn fail(e: &mbp::OutputError) -> String {
    format!(
        "error {} {} {:?} {e} {e:?}",
        e.code(),
        e.layer(),
        e.byte_offset()
    )
}

fn options(q: &Req) -> mbp::DecodeOptions {
    mbp::DecodeOptions {
        key: q.key,
        include_enrichment: q.enrich,
    }
}

fn decode_bytes(q: &Req) -> String {
    json(mbp::decode_bytes(&q.bytes, &options(q)))
}

fn decode_hex(q: &Req) -> String {
    json(mbp::decode_hex(&q.text, &options(q)))
}

fn render(q: &Req, name: &str) -> String {
    let format: mbp::OutputFormat = match name.parse() {
        Ok(f) => f,
        Err(e) => return fail(&e),
    };
    let opt = mbp::RenderOptions {
        decode: options(q),
        table_width: (q.width > 0).then_some(q.width),
    };
    let a = mbp::render_bytes(&q.bytes, format, &opt).unwrap_or_else(|e| fail(&e));
    point();
    let b = mbp::render_hex(&q.text, format, &opt).unwrap_or_else(|e| fail(&e));
    format!("{format}\n{a}\n{b}")
}

fn legacy(q: &Req, name: &str) -> String {
    mbp::serialize_mbus_data(&q.text, name, q.key.as_ref())
}

fn annotate(q: &Req) -> String {
    let mut s = String::new();
    match mbp::annotate::annotate_frame(&q.bytes) {
        Ok(seg) => {
            point();
            let _ = write!(s, "{seg:?}");
            for x in &seg {
                let _ = write!(s, " {}", x.kind);
            }
            s += &serde_json::to_string(&seg).unwrap_or_default();
            s += &mbp::annotate::render_annotations(&seg, &q.bytes);
            // The segments of one frame with the bytes of a shorter one.
            s += &mbp::annotate::render_annotations(&seg, &q.bytes[..q.bytes.len() / 2]);
        }
        Err(e) => {
            let _ = write!(s, "{e} {e:?}");
        }
    }
    point();
    let _ = write!(
        s,
        "{}",
        mbp::annotate::annotate_and_render(&q.bytes).unwrap_or_else(|e| e.to_string())
    );
    s
}

fn lookup(q: &Req) -> String {
    let mut s = String::new();
    let mut ask = |c: &str| {
        if let Some(m) = mbp::manufacturers::lookup_manufacturer(c) {
            let _ = write!(s, "{c} {:?} {:?} {:?};", m.name, m.website, m.description);
        }
    };
    ask(&q.text);
    for w in q.bytes.windows(2).take(40) {
        if let Ok(m) = core_::ManufacturerCode::from_id(u16::from_le_bytes([w[0], w[1]])) {
            ask(&m.to_string());
        }
    }
    for c in ["KAM", "ELS", "kam", "", "ZZZ", "LSE", "K\u{c4}M"] {
        ask(c);
    }
    s
}

fn show<T: Debug, E: Debug + Display>(r: &Result<T, E>) -> String {
    match r {
        Ok(v) => format!("{v:?}"),
        Err(e) => format!("error {e} {e:?}"),
    }
}

fn wired(q: &Req) -> String {
    let mut s = String::new();
    for b in [&q.bytes[..], q.bytes.get(1..).unwrap_or(&[])] {
        let r = WiredFrame::try_from(b);
        if let Ok(f) = &r {
            s += &serde_json::to_string(f).unwrap_or_default();
            if let WiredFrame::LongFrame {
                function, address, ..
            } = f
            {
                let _ = write!(s, "{function} {address}");
            }
        }
        point();
        s += &show(&r);
    }
    s
}

fn wireless(q: &Req) -> String {
    let mut s = String::new();
    for b in [&q.bytes[..], q.bytes.get(1..).unwrap_or(&[])] {
        let r = WirelessFrame::try_from(b);
        let _ = match &r {
            Ok(f) => write!(s, "{} {f:?}", serde_json::to_string(f).unwrap_or_default()),
            Err(e) => write!(s, "error {e:?}"),
        };
        point();
    }
    let _ = write!(
        s,
        "{:?} {:?}",
        mbp::ManufacturerId::try_from(&q.bytes[..]),
        mbp::ManufacturerId::try_from(q.bytes.get(2..).unwrap_or(&[]))
    );
    s
}

fn strip(q: &Req) -> String {
    use wireless_mbus_link_layer::{strip_format_a_crcs, trailing_frame_crc_start};
    let mut s = format!("{:?}", trailing_frame_crc_start(&q.bytes));
    let mut room = [0x5Au8; 700];
    let n = q.bytes.len().min(700);
    for k in [700, n, n.saturating_sub(1), n / 2, 12, 0] {
        let r = strip_format_a_crcs(&q.bytes, &mut room[..k]).map(spaced);
        point();
        let _ = write!(s, " {r:?}");
    }
    s
}

fn md<F: Debug + serde::Serialize>(
    r: Result<MbusData<'_, F>, mbp::MbusError>,
    bytes: &[u8],
) -> String {
    match r {
        Ok(m) => {
            let mut s = format!("{m:?}");
            s += &serde_json::to_string(&m).unwrap_or_else(|e| e.to_string());
            s += &serde_yaml::to_string(&m).unwrap_or_else(|e| e.to_string());
            point();
            if let Some(it) = m.data_records {
                s += &iterate(it, bytes.len());
            }
            s
        }
        Err(e) => format!("error {e} {e:?}"),
    }
}

fn value(x: &app::data_record::DataRecord<'_>) -> String {
    let mut s = format!(
        "{x:?} {} {} {} {} {:?} {:?} {:?} ",
        x.data,
        x.data_record_header_hex(),
        x.data_hex(),
        x.get_size(),
        x.value(),
        x.raw_bytes(),
        x.data_record_header.get_size(),
    );
    if let Some(d) = x.data_information() {
        let _ = write!(s, "{d} {} {}", d.function_field, d.data_field_coding);
    }
    if let Some(v) = x.value_information() {
        let _ = write!(s, "{v}");
        for u in &v.units {
            let _ = write!(s, "{u} {}", u.name);
        }
    }
    s += &serde_json::to_string(x).unwrap_or_else(|e| e.to_string());
    s
}

/// Step through an iterator, watching that it ends.
fn iterate(mut it: app::DataRecords<'_>, len: usize) -> String {
    let mut s = String::new();
    let mut steps = 0usize;
    let twin = it.clone();
    loop {
        point();
        let Some(x) = it.next() else { break };
        steps += 1;
        if steps > len || it.offset() > len {
            ENDLESS.with(|e| e.set(e.get() + 1));
            break;
        }
        match &x {
            Ok(x) => s += &value(x),
            Err(e) => {
                let _ = write!(s, "error {e} {e:?}");
            }
        }
        let _ = write!(s, " @{};", it.offset());
    }
    if steps <= len {
        // Once over, it stays over.
        if it.next().is_some() {
            s += "AGAIN";
        }
        let all: Vec<_> = twin.clone().collect();
        let vec: Vec<app::DataRecord<'_>> = twin.into();
        let _ = write!(s, " {} {}", all.len(), vec.len());
    }
    s
}

/// Key source with one key (or none) for everybody.
struct One(Option<[u8; 16]>);
impl core_::decryption::KeyProvider for One {
    fn get_key(
        &self,
        c: &core_::decryption::KeyContext,
    ) -> Result<&[u8], core_::decryption::DecryptionError> {
        point();
        match &self.0 {
            // Some sources hold keys of the wrong size.
            Some(k) if c.access_number == 0xEE => Ok(&k[..15]),
            Some(k) => Ok(k),
            None => Err(core_::decryption::DecryptionError::KeyNotFound),
        }
    }
}

fn application(q: &Req, b: &[u8]) -> String {
    let r = app::parse_application_layer(b);
    let Ok(block) = &r else {
        return show(&r);
    };
    let mut s = format!(
        "{block:?} {:?} {}",
        block.is_encrypted(),
        block.variable_data_len()
    );
    s += &serde_json::to_string(block).unwrap_or_else(|e| e.to_string());
    if let app::UserDataBlock::FixedDataStructure {
        counter1, counter2, ..
    } = block
    {
        let _ = write!(s, "{counter1} {counter2}");
    }
    if let app::UserDataBlock::ResetAtApplicationLevel { subcode } = block {
        let _ = write!(s, "{subcode}");
    }
    if let app::UserDataBlock::VariableDataStructureWithLongTplHeader {
        long_tpl_header: h,
        variable_data_block,
        ..
    } = block
    {
        let t = &h.short_tpl_header;
        let _ = write!(
            s,
            "{} {} {} {} {:?}",
            h.identification_number, h.device_type, t.status, t.configuration_field, h.manufacturer
        );
        s += &iterate(
            app::parse_data_records_with_header(variable_data_block, h),
            variable_data_block.len(),
        );
        let _ = app::DataRecord::try_from((*variable_data_block, h)).map(|x| s += &value(&x));
    }
    if let Some(it) = block.data_records() {
        s += &iterate(it, b.len());
    }
    point();
    let mut room = [0xA5u8; 700];
    let n = block.variable_data_len();
    for k in [700, n, n.saturating_sub(1), n.saturating_sub(16), 0] {
        let room = room.get_mut(..k).unwrap_or_default();
        for key in [q.key, None] {
            let src = One(key);
            let x = block.decrypt_variable_data(&src, room);
            s += &match x {
                Ok(n) => spaced(room.get(..n).unwrap_or_default()),
                Err(e) => format!("{e} {e:?}"),
            };
            point();
            if let Ok(m) = core_::ManufacturerCode::from_id(0x2C2D) {
                let dev = core_::DeviceType::from(b.len() as u8);
                let x = block.decrypt_variable_data_with_context(&src, m, 12_345_678, 3, dev, room);
                if let Ok(n) = x {
                    s += &iterate(
                        app::parse_data_records(room.get(..n).unwrap_or_default()),
                        n,
                    );
                }
                let _ = write!(s, "{x:?}");
            }
        }
    }
    s
}

fn records(b: &[u8]) -> String {
    let mut s = iterate(app::parse_data_records(b), b.len());
    s += &iterate(app::DataRecords::from(b), b.len());
    let header = app::LongTplHeader {
        identification_number: core_::IdentificationNumber { number: 1 },
        manufacturer: core_::ManufacturerCode::from_id(0x2C2D),
        version: 1,
        device_type: core_::DeviceType::from(7),
        short_tpl_header: app::ShortTplHeader {
            access_number: 0,
            status: app::StatusField::from_bits_truncate(0),
            configuration_field: core_::ConfigurationField::from(0),
        },
        lsb_order: true,
    };
    s += &iterate(app::parse_data_records_with_header(b, &header), b.len());
    match app::DataRecord::try_from(b) {
        Ok(x) => s += &value(&x),
        Err(e) => {
            let _ = write!(s, "{e}");
        }
    }
    s
}

fn headers(b: &[u8]) -> String {
    use app::data_information::*;
    use app::data_record::*;
    use app::value_information::*;
    let mut s = String::new();
    for i in [0, 1, 2] {
        let b = b.get(i..).unwrap_or(&[]);
        if let Ok(d) = DataInformationBlock::try_from(b) {
            let _ = write!(
                s,
                "{d:?} {} {} {:?}",
                d.get_size(),
                d.data_information_field.is_special_function(),
                d.data_information_field.special_function()
            );
            if let Some(x) = &d.data_information_field_extension {
                let mut x = x.clone();
                let _ = write!(s, "{} {:?} {:?}", x.len(), x.next(), x.next_back());
                let _ = write!(s, "{:?}", x.rev().collect::<Vec<_>>());
            }
            if let Ok(i) = DataInformation::try_from(&d) {
                let _ = write!(s, "{i:?} {i} {} {}", i.data_field_coding, i.function_field);
                for n in [0, 1, 2, 3, 5, 9, b.len()] {
                    let r = i.data_field_coding.parse(b.get(..n).unwrap_or(b), None);
                    point();
                    let _ = match r {
                        Ok(d) => write!(s, "{d:?} {d} {}", d.get_size()),
                        Err(e) => write!(s, "{e}"),
                    };
                }
            }
        }
        if let Ok(v) = ValueInformationBlock::try_from(b) {
            let _ = write!(
                s,
                "{v:?} {} {:?}",
                v.get_size(),
                ValueInformationCoding::from(&v.value_information)
            );
            let _ = match ValueInformation::try_from(&v) {
                Ok(i) => write!(s, "{i:?} {i}"),
                Err(e) => write!(s, "{e}"),
            };
        }
        point();
        if let Ok(r) = RawDataRecordHeader::try_from(b) {
            let _ = write!(s, "{r:?} {:?}", ProcessedDataRecordHeader::try_from(&r));
        }
        let _ = match DataRecordHeader::try_from(b) {
            Ok(h) => write!(s, "{h:?} {}", h.get_size()),
            Err(e) => write!(s, "{e}"),
        };
        let t = TextUnit::new(b);
        let _ = write!(s, "{t} {t:?} {}", String::from(t));
        for c in [
            DataFieldCoding::VariableLength,
            DataFieldCoding::DateTypeG,
            DataFieldCoding::DateTimeTypeF,
            DataFieldCoding::DateTimeTypeJ,
            DataFieldCoding::DateTimeTypeI,
            DataFieldCoding::Real32Bit,
            DataFieldCoding::BCDDigit12,
            DataFieldCoding::Integer64Bit,
            DataFieldCoding::SpecialFunctions(SpecialFunctions::ManufacturerSpecific),
        ] {
            let _ = match c.parse(b, None) {
                Ok(d) => write!(s, "{c} {d:?} {d} {}", d.get_size()),
                Err(e) => write!(s, "{c} {e}"),
            };
        }
    }
    s
}

fn small(q: &Req) -> String {
    use app::extended_link_layer::{EllFormat, ExtendedLinkLayer};
    let b = &q.bytes;
    let mut s = String::new();
    for f in [
        EllFormat::FormatI,
        EllFormat::FormatII,
        EllFormat::FormatIII,
    ] {
        let r = ExtendedLinkLayer::parse(b, f);
        let _ = write!(s, "{r:?}");
    }
    for w in b.windows(4).take(60) {
        let d = [w[0], w[1], w[2], w[3]];
        let _ = write!(
            s,
            "{:?} {:?} {:?} {:?}",
            core_::bcd_hex_digits_to_u32(d),
            core_::IdentificationNumber::from_bcd_hex_digits(d).map(|i| i.to_string()),
            app::Counter::from_bcd_hex_digits(d).map(|i| i.to_string()),
            core_::ManufacturerCode::from_id(u16::from_le_bytes([w[0], w[1]]))
                .map(|m| (m.to_string(), m.to_id())),
        );
        point();
    }
    for &x in b.iter().take(60) {
        let dev = core_::DeviceType::from(x);
        let mode = core_::SecurityMode::from_bits(x);
        let cfg = core_::ConfigurationField::from_bytes(x, x.rotate_left(3));
        let _ = write!(
            s,
            "{dev} {} {:?} {} {} {cfg} {:?} {} {} {}",
            u8::from(dev),
            core_::Function::try_from(x)
                .map(|f| f.to_string())
                .map_err(|e| e.to_string()),
            mode,
            mode.to_bits(),
            cfg.security_mode(),
            cfg.raw(),
            cfg.mode_specific_lower(),
            cfg.mode_specific_upper(),
        );
        let _ = write!(
            s,
            "{} {}",
            app::ApplicationResetSubcode::from(x),
            app::StatusField::from_bits_truncate(x)
        );
    }
    let _ = write!(
        s,
        "{:?}",
        upper(b).parse::<mbp::OutputFormat>().map_err(|e| fail(&e))
    );
    let _ = write!(
        s,
        "{:?}",
        q.text.parse::<mbp::OutputFormat>().map_err(|e| fail(&e))
    );
    s
}
