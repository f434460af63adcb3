#![allow(deprecated)]
//! ERC-721 family.
extern crate alloc;
mod consecutive;
mod enumerable;
mod ledger;
mod wrapper;

fn main() {
    engine::cli(vec![ledger::PROP, enumerable::PROP, consecutive::PROP, wrapper::PROP], Some(ozverif::host::reset));
}
