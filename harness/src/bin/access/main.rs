//! Access control, utilities, finance.
extern crate alloc;
mod control;
mod nonces;
mod ownable;
mod pausable;
mod royalty;
mod sig;
mod structs;
mod vesting;

fn main() {
    engine::cli(
        vec![
            pausable::PROP,
            nonces::PROP,
            royalty::PROP,
            ownable::PROP,
            control::PROP,
            structs::MATH,
            structs::BITMAP,
            structs::CHECKPOINTS,
            vesting::PROP,
            sig::ECDSA,
            sig::EIP712,
        ],
        Some(ozverif::host::reset),
    );
}
