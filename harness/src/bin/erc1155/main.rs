//! C15, C16.
#![allow(deprecated)]
extern crate alloc;
mod ledger;

fn main() {
    engine::cli(vec![ledger::LEDGER, ledger::SUPPLY], Some(ozverif::host::reset));
}
