//! Hash builders for C31-C33: the library's Keccak and ones of our own.
use openzeppelin_crypto::hash::{BuildHasher, Hasher};
use tiny_keccak::{Hasher as _, Keccak};

pub type B32 = [u8; 32];

pub fn keccak(x: &[u8]) -> B32 {
    let mut k = Keccak::v256();
    let mut o = [0; 32];
    k.update(x);
    k.finalize(&mut o);
    o
}

/// Keccak over a prefix and the data: a builder with state of its own.
#[derive(Clone)]
pub struct Salted(pub Vec<u8>);
pub struct SaltedHasher(Vec<u8>);
impl BuildHasher for Salted {
    type Hasher = SaltedHasher;
    fn build_hasher(&self) -> SaltedHasher {
        SaltedHasher(self.0.clone())
    }
}
impl Hasher for SaltedHasher {
    type Output = B32;
    fn update(&mut self, input: impl AsRef<[u8]>) {
        self.0.extend_from_slice(input.as_ref());
    }
    fn finalize(self) -> B32 {
        keccak(&self.0)
    }
}

/// A deliberately weak hash (the byte-wise sum of the rotated inputs): many
/// different pairs collide, so acceptance is decided by the fold alone.
#[derive(Clone)]
pub struct Weak;
pub struct WeakHasher(Vec<u8>);
impl BuildHasher for Weak {
    type Hasher = WeakHasher;
    fn build_hasher(&self) -> WeakHasher {
        WeakHasher(vec![])
    }
}
pub fn weak(x: &[u8]) -> B32 {
    let mut o = [0u8; 32];
    for (i, v) in x.iter().enumerate() {
        let k = (i + i / 32) % 32;
        o[k] = o[k].wrapping_add(*v).wrapping_add((i / 32) as u8);
    }
    o
}
impl Hasher for WeakHasher {
    type Output = B32;
    fn update(&mut self, input: impl AsRef<[u8]>) {
        self.0.extend_from_slice(input.as_ref());
    }
    fn finalize(self) -> B32 {
        weak(&self.0)
    }
}
