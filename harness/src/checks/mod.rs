//! The checks, one module per area. Every case is a pure function of its tape.
use crate::runner::{Check, Sub};

pub mod api;
pub mod code;
pub mod err;
pub mod loss;
pub mod mem;
pub mod meta;
pub mod pix;
pub mod robust;

pub fn none() -> Vec<(&'static str, bool)> {
    vec![]
}

pub fn sub(name: &'static str, f: crate::runner::CaseFn, quick: usize, tape: usize) -> Sub {
    Sub { name, f, quick, tape }
}

pub fn all() -> Vec<Check> {
    let mut v = vec![];
    v.extend(pix::checks());
    v.extend(code::checks());
    v.extend(loss::checks());
    v.extend(api::checks());
    v.extend(meta::checks());
    v.extend(err::checks());
    v.extend(robust::checks());
    v.extend(mem::checks());
    v.sort_by_key(|c| c.id);
    v
}
