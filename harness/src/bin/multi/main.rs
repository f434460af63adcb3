//! C20, C35, C37: invariants over histories of several real contracts.
#![allow(deprecated)]
extern crate alloc;
mod authority;
mod reentry;
mod replay;
mod world;

fn main() {
    engine::cli(vec![authority::PROP, replay::PROP, reentry::PROP], Some(ozverif::host::reset));
}
