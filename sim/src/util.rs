//! Small helpers: byte strings that serialise as hex, hex formatting.

use serde::{de::Error, Deserialize, Deserializer, Serialize, Serializer};

#[derive(Clone, PartialEq, Eq, Debug, Default, Hash, PartialOrd, Ord)]
pub struct Hex(pub Vec<u8>);

impl Serialize for Hex {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&compact(&self.0))
    }
}
impl<'de> Deserialize<'de> for Hex {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        unhex(&s)
            .map(Hex)
            .ok_or_else(|| D::Error::custom("not hex"))
    }
}

pub fn compact(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// The spelling of the canonical documents: upper case, spaced.
pub fn spaced(b: &[u8]) -> String {
    b.iter()
        .map(|x| format!("{x:02X}"))
        .collect::<Vec<_>>()
        .join(" ")
}

pub fn unhex(s: &str) -> Option<Vec<u8>> {
    if s.len() % 2 != 0 || !s.is_ascii() {
        return None;
    }
    (0..s.len())
        .step_by(2)
        .map(|i| u8::from_str_radix(&s[i..i + 2], 16).ok())
        .collect()
}

pub fn unspaced(s: &str) -> Option<Vec<u8>> {
    unhex(&s.replace(' ', ""))
}

/// The spelling of whole frames in the canonical documents.
pub fn upper(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02X}")).collect()
}
