//! Cryptography library checks, as a library: also compiled to WebAssembly.
pub mod curve;
pub mod field;
pub mod gen;
pub mod hashes;
pub mod hashing;
pub mod merkle;
pub mod poseidon;
pub mod uint;

pub const PROPS: [engine::Prop; 7] = [
    uint::PROP,
    field::PROP,
    curve::PROP,
    poseidon::PROP,
    merkle::PROP_SINGLE,
    merkle::PROP_MULTI,
    hashing::PROP,
];
