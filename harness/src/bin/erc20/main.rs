//! ERC-20 family.
extern crate alloc;
mod flash;
mod ledger;
mod permit;
mod safe;
mod vault;
mod wrapper;

fn main() {
    engine::cli(
        vec![
            ledger::PROP,
            permit::PROP,
            flash::PROP,
            vault::PROP,
            wrapper::PROP,
            safe::PROP,
        ],
        Some(ozverif::host::reset),
    );
}
