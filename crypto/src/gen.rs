//! Operand generators shared by the arithmetic checks.
use engine::Src;
use num_bigint::BigUint;
use num_traits::Zero;

pub fn limb(s: &mut Src) -> u64 {
    match s.weighted(&[4, 4, 2, 2, 2, 2, 2, 2, 6, 2]) {
        0 => 0,
        1 => u64::MAX,
        2 => 1,
        3 => 1 << 63,
        4 => u64::MAX - 1,
        5 => {
            let d = s.range(0, 2);
            (1u64 << 32) - 1 + d
        }
        6 => {
            let k = s.below(64);
            1u64 << k
        }
        7 => {
            let k = s.below(64);
            (1u64 << k).wrapping_sub(1)
        }
        8 => s.u64(),
        _ => {
            let hi = s.pick(&[0u64, u32::MAX as u64, 1, 1 << 31]);
            let lo = s.pick(&[0u64, u32::MAX as u64, 1, 1 << 31]);
            hi << 32 | lo
        }
    }
}

pub fn limbs<const N: usize>(s: &mut Src) -> [u64; N] {
    let mut l = [0u64; N];
    match s.weighted(&[8, 2, 2, 1]) {
        0 => l.iter_mut().for_each(|x| *x = limb(s)),
        // Only some low limbs are used.
        1 => {
            let k = s.idx(N) + 1;
            l.iter_mut().take(k).for_each(|x| *x = limb(s));
        }
        // A run of ones or a power of two.
        2 => {
            let hi = s.idx(64 * N + 1);
            let lo = s.idx(hi + 1);
            for i in lo..hi {
                l[i / 64] |= 1 << (i % 64);
            }
        }
        _ => {
            let k = s.idx(64 * N);
            l[k / 64] |= 1 << (k % 64);
        }
    }
    l
}

pub fn big(l: &[u64]) -> BigUint {
    let mut v = BigUint::zero();
    for x in l.iter().rev() {
        v = (v << 64) + BigUint::from(*x);
    }
    v
}

pub fn to_limbs<const N: usize>(b: &BigUint) -> [u64; N] {
    let mut l = [0u64; N];
    for (i, d) in b.iter_u64_digits().enumerate() {
        l[i] = d;
    }
    l
}

/// A second operand related to the first (equal, ±1, complement, shifted).
pub fn related<const N: usize>(s: &mut Src, a: &[u64; N]) -> [u64; N] {
    match s.weighted(&[6, 1, 1, 1, 1, 1]) {
        0 => limbs(s),
        1 => *a,
        2 => a.map(|x| !x),
        3 => {
            let m = BigUint::from(1u8) << (64 * N);
            to_limbs(&((big(a) + 1u8) % m))
        }
        4 => {
            // The negation: a + b wraps to exactly zero.
            let m = BigUint::from(1u8) << (64 * N);
            to_limbs(&((&m - big(a)) % &m))
        }
        _ => {
            let mut b = *a;
            let i = s.idx(N);
            b[i] = limb(s);
            b
        }
    }
}
