//! One monitor per property.

use crate::sup::{CaseResult, Ctx};

mod consistency;
mod cost;
mod join;
mod ktx;
mod lists;
mod meta;
mod readers;
mod robust;
mod scalar;

pub struct Check {
    pub id: &'static str,
    pub case: fn(&mut Ctx) -> CaseResult,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub must_observe: &'static [&'static str],
    pub cross_process: bool,
}

pub fn all() -> Vec<Check> {
    let mut v = vec![];
    v.extend(robust::checks());
    v.extend(meta::checks());
    v.extend(readers::checks());
    v.extend(lists::checks());
    v.extend(scalar::checks());
    v.extend(ktx::checks());
    v.extend(consistency::checks());
    v.extend(cost::checks());
    v.extend(join::checks());
    v
}

pub fn get(id: &str) -> Check {
    all()
        .into_iter()
        .find(|c| c.id == id)
        .unwrap_or_else(|| panic!("unknown property {id}"))
}

pub use robust::{c04_small as small_input, observe_all};
