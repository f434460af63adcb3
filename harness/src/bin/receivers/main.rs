//! C10, C14.
#![allow(deprecated)]
extern crate alloc;
mod accept;
mod meta;

fn main() {
    engine::cli(vec![accept::PROP, meta::PROP], Some(ozverif::host::reset));
}
