//! The monitored properties.

use crate::report::{Ctx, Res};

mod cost;
mod defs;
mod eq;
mod err;
mod files;
mod par;
mod reader;
mod writer;

pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// Events without which a run decides nothing
    pub required: &'static [&'static str],
    pub run: fn(&mut Ctx) -> Res,
}

pub const ALL: &[&Prop] = &[
    &files::C01,
    &files::C02,
    &files::C03,
    &reader::C04,
    &files::C05,
    &files::C06,
    &writer::C07,
    &reader::C08,
    &reader::C09,
    &reader::C10,
    &reader::C11,
    &defs::C12,
    &defs::C13,
    &defs::C14,
    &defs::C15,
    &writer::C16,
    &reader::C17,
    &writer::C18,
    &writer::C19,
    &files::C20,
    &files::C21,
    &defs::C22,
    &par::C23,
    &par::C24,
    &writer::C25,
    &cost::C26,
    &eq::C27,
    &err::C28,
];

pub fn find(id: &str) -> Option<&'static Prop> {
    ALL.iter().copied().find(|p| p.id == id)
}
