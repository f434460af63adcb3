//! Cryptography library.
fn main() {
    engine::cli(ozcrypto::PROPS.into_iter().collect(), None);
}
