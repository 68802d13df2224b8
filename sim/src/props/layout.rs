//! C30: the other layout of plain text units, in a build of its own.

use super::records::{CutSc, DamageSc, C06, C07, C09, C10, C11};
use super::render::{ViewSc, C17, C19};
use super::STUBS;
use crate::engine::{Cx, Meta, Prop, Res, Tier, Viol};
use crate::gen::Traffic;
use crate::model::TEXT_FIRST;
use crate::rng::Rng;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone)]
pub enum LayoutSc {
    Values(Traffic),
    Registers(Traffic),
    Bytes(Traffic),
    Cut(CutSc),
    Alone(DamageSc),
    Formats(ViewSc),
    Tiles(ViewSc),
}

pub struct C30;
impl Prop for C30 {
    type Sc = LayoutSc;
    fn meta(&self) -> Meta {
        Meta {
            id: "C30",
            level: "exploration",
            rule: "telegrams with plain text units in front of their extensions, read by a build for that layout and judged like any other telegram for values, registers, bytes, cuts, isolation, formats and annotations; distinct = (judgement, its own signature)",
            quick: 150_000,
            thorough: 5_000_000,
            components: &["m-bus-parser and its layer crates, built with plaintext-before-extension"],
            stubs: STUBS,
            measure: "distinct arrival orders and cuts of the judgements used",
        }
    }
    fn gen(&self, r: &mut Rng, t: Tier, i: u64) -> LayoutSc {
        match r.below(32) {
            0..=7 => LayoutSc::Registers(C07.gen(r, t, i)),
            8..=13 => LayoutSc::Values(C06.gen(r, t, i)),
            14..=21 => LayoutSc::Bytes(C09.gen(r, t, i)),
            22 => LayoutSc::Cut(C10.gen(r, t, i)),
            23..=27 => LayoutSc::Alone(C11.gen(r, t, i)),
            28 | 29 => LayoutSc::Formats(C17.gen(r, t, i)),
            _ => LayoutSc::Tiles(C19.gen(r, t, i)),
        }
    }
    fn directed(&self) -> Vec<LayoutSc> {
        C07.directed()
            .into_iter()
            .map(LayoutSc::Registers)
            .collect()
    }
    fn exec(&self, sc: &LayoutSc, cx: &mut Cx) -> Res {
        if !TEXT_FIRST {
            return Err(Viol {
                class: "harness".into(),
                msg: "built for the other layout".into(),
            });
        }
        match sc {
            LayoutSc::Values(s) => C06.exec(s, cx),
            LayoutSc::Registers(s) => C07.exec(s, cx),
            LayoutSc::Bytes(s) => C09.exec(s, cx),
            LayoutSc::Cut(s) => C10.exec(s, cx),
            LayoutSc::Alone(s) => C11.exec(s, cx),
            LayoutSc::Formats(s) => C17.exec(s, cx),
            LayoutSc::Tiles(s) => C19.exec(s, cx),
        }
    }
}
