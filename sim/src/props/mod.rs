//! One module per property.

use crate::engine::DynProp;

pub mod cli;
pub mod host;
pub mod layout;
pub mod link;
pub mod memory;
pub mod meter;
pub mod records;
pub mod render;
pub mod robust;
pub mod security;
pub mod sink;
pub mod text;

pub const STUBS: &[&str] = &[
    "meters (encoder model)",
    "bus and radio channel with fault injector",
    "simulated clock",
];
pub const ORDER: &str =
    "distinct arrival orders of sends (hash of the delivery sequence of send numbers, per run)";

pub fn all() -> Vec<Box<dyn DynProp>> {
    vec![
        Box::new(link::C01),
        Box::new(link::C02),
        Box::new(link::C03),
        Box::new(link::C04),
        Box::new(robust::C05),
        Box::new(records::C06),
        Box::new(records::C07),
        Box::new(records::C08),
        Box::new(records::C09),
        Box::new(records::C10),
        Box::new(records::C11),
        Box::new(records::C12),
        Box::new(security::C13),
        Box::new(security::C14),
        Box::new(security::C15),
        Box::new(robust::C16),
        Box::new(render::C17),
        Box::new(text::C18),
        Box::new(render::C19),
        Box::new(render::C20),
        Box::new(cli::C21),
        Box::new(sink::C22),
        Box::new(memory::C23),
        Box::new(memory::C24),
        Box::new(meter::C25),
        Box::new(meter::C26),
        Box::new(host::C28),
        Box::new(host::C29),
        Box::new(layout::C30),
    ]
}

pub fn get(id: &str) -> Option<Box<dyn DynProp>> {
    all().into_iter().find(|p| p.meta().id == id)
}
