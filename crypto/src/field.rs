//! C28: prime-field arithmetic against exact integers modulo the prime.
use std::{
    collections::hash_map::DefaultHasher,
    hash::{Hash, Hasher},
};

use engine::{ensure, ensure_eq, quietly, Check, Prop, Src};
use num_bigint::{BigInt, BigUint, Sign};
use num_traits::{One, Zero};
use openzeppelin_crypto::{
    arithmetic::{
        uint::{from_str_hex, Uint},
        BigInteger,
    },
    field::{
        fp::{Fp, FpParams},
        group::AdditiveGroup,
        instance::*,
        prime::PrimeField,
        Field,
    },
};

use crate::gen::{big, limb, limbs, to_limbs};

macro_rules! fields {
    ($($name:ident, $n:literal, $hex:literal;)*) => {
        $(
            pub struct $name;
            impl FpParams<$n> for $name {
                const GENERATOR: Fp<Self, $n> = Fp::new(Uint::ONE);
                const MODULUS: Uint<$n> = from_str_hex($hex);
            }
        )*
        fn own(s: &mut Src) -> Check {
            let fs: &[(&'static str, &'static str, fn(&mut Src, &'static str, &BigUint) -> Check)] =
                &[$((stringify!($name), $hex, ops::<$name, $n>)),*];
            let (n, h, f) = s.pick(fs);
            f(s, n, &BigUint::parse_bytes(h.as_bytes(), 16).unwrap())
        }
    };
}
fields! {
    S30, 1, "3";
    S51, 1, "5";
    S72, 1, "7";
    S973, 1, "61";
    S655374, 1, "10001";
    S230585, 1, "1fffffffffffffff";
    S429496, 1, "fffffffb";
    T64, 1, "ffffffffffffffc5";
    H64, 1, "7fffffffffffffe7";
    J64, 1, "800000000000001d";
    W2x7, 2, "7";
    M127, 2, "7fffffffffffffffffffffffffffffff";
    T128, 2, "ffffffffffffffffffffffffffffff61";
    J128, 2, "8000000000000000000000000000001d";
    L128, 2, "1000000000000000d";
    T192, 3, "ffffffffffffffffffffffffffffffffffffffffffffff13";
    J192, 3, "800000000000000000000000000000000000000000000005";
    H192, 3, "7fffffffffffffffffffffffffffffffffffffffffffffed";
    W4x97, 4, "61";
    Ed25519, 4, "7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed";
    K256, 4, "fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f";
    J256, 4, "800000000000000000000000000000000000000000000000000000000000005f";
    T256, 4, "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff43";
    Bls381, 6, "1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab";
    T384, 6, "fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffec3";
    Ed448, 7, "fffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffffffffffffffffffffffffffffffffffffffffffffffffffff";
    H448, 7, "7ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffebb";
    T512, 8, "fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffdc7";
    T832, 13, "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff71";
    H832, 13, "7ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff8b3";
}

/// The published moduli of the provided fields.
const VESTA: &str = "28948022309329048855892746252171976963363056481941647379679742748393362948097";
const PALLAS: &str = "28948022309329048855892746252171976963363056481941560715954676764349967630337";
const BLS: &str = "52435875175126190479447740508185965837690552500527637822603658699938581184513";
const BN: &str = "21888242871839275222246405745257275088548364400416034343698204186575808495617";
const GOLDI: &str = "18446744069414584321";
const BABY: &str = "2013265921";

fn dec(s: &str) -> BigUint {
    BigUint::parse_bytes(s.as_bytes(), 10).unwrap()
}

fn provided(s: &mut Src) -> Check {
    match s.below(6) {
        0 => ops::<VestaParam, 4>(s, "Vesta", &dec(VESTA)),
        1 => ops::<PallasParam, 4>(s, "Pallas", &dec(PALLAS)),
        2 => ops::<BLS12Param, 4>(s, "BLS12", &dec(BLS)),
        3 => ops::<BN256Param, 4>(s, "BN256", &dec(BN)),
        4 => ops::<GoldiLocksParam, 1>(s, "GoldiLocks", &dec(GOLDI)),
        _ => ops::<BabyBearParam, 1>(s, "BabyBear", &dec(BABY)),
    }
}

/// An integer below `p`, biased in value and in Montgomery form.
pub fn elem<const N: usize>(s: &mut Src, p: &BigUint) -> BigUint {
    let v = match s.weighted(&[3, 3, 3, 6, 8]) {
        0 => BigUint::from(s.below(4)),
        1 => p - BigUint::from(s.below(3).min(2) + 1) % p,
        2 => {
            let d = s.below(3);
            (p >> 1) + d
        }
        3 => big(&limbs::<N>(s)),
        _ => {
            // The Montgomery form is a chosen pattern.
            let m = big(&limbs::<N>(s)) % p;
            let r = (BigUint::one() << (64 * N)) % p;
            m * r.modpow(&(p - 2u8), p)
        }
    };
    v % p
}

fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn ops<P: FpParams<N>, const N: usize>(s: &mut Src, name: &'static str, p: &BigUint) -> Check {
    type U<const N: usize> = Uint<N>;
    let fp = |v: &BigUint| Fp::<P, N>::from_bigint(Uint::new(to_limbs::<N>(v)));
    let val = |f: Fp<P, N>| big(f.into_bigint().as_limbs());
    let va = elem::<N>(s, p);
    let vb = match s.weighted(&[6, 1, 1, 1]) {
        0 => elem::<N>(s, p),
        1 => va.clone(),
        2 => (p - &va) % p,
        _ => (&va + 1u8) % p,
    };
    let (a, b) = (fp(&va), fp(&vb));
    s.note(|| format!("{name}: a={va} b={vb}"));
    // Conversion.
    ensure_eq!(big(P::MODULUS.as_limbs()), p.clone(), "modulus", "{name} modulus");
    ensure_eq!(big(Fp::<P, N>::characteristic().as_limbs()), p.clone(), "modulus", "{name} characteristic");
    ensure_eq!(Fp::<P, N>::MODULUS_BIT_SIZE as u64, p.bits(), "modulus-bits", "{name} modulus bit size");
    ensure_eq!(Fp::<P, N>::extension_degree(), 1, "modulus", "{name} extension degree");
    ensure_eq!(val(a), va, "round-trip", "{name}: from_bigint then into_bigint");
    let ua = U::<N>::new(to_limbs(&va));
    ensure!(Fp::<P, N>::new(ua) == a && Fp::<P, N>::from(ua) == a, "round-trip", "{name}: constructors disagree for {va}");
    ensure_eq!(big(Uint::<N>::from(a).as_limbs()), va, "round-trip", "{name}: into Uint");
    ensure_eq!((format!("{a}"), format!("{a:?}")), (format!("{ua}"), format!("{ua}")), "text", "{name}: text");
    // Canonical representation.
    ensure_eq!((a == b, a.cmp(&b), a.partial_cmp(&b)), (va == vb, va.cmp(&vb), Some(va.cmp(&vb))), "order", "{name}: equality/order of {va} {vb}");
    let (zero, one) = (Fp::<P, N>::ZERO, Fp::<P, N>::ONE);
    ensure_eq!((val(zero), val(Fp::<P, N>::zero()), val(Fp::<P, N>::default())), (BigUint::zero(), BigUint::zero(), BigUint::zero()), "const", "{name}: zero");
    ensure_eq!((val(one), val(Fp::<P, N>::one())), (BigUint::one(), BigUint::one()), "const", "{name}: one");
    ensure_eq!((a.is_zero(), a.is_one()), (va.is_zero(), va.is_one()), "const", "{name}: is_zero/is_one {va}");
    // An element reached by computation equals and hashes like the same
    // element made directly.
    macro_rules! is {
        ($sig:literal, $what:expr, $got:expr, $want:expr) => {{
            let (g, w): (Fp<P, N>, BigUint) = ($got, $want);
            ensure_eq!(val(g), w, $sig, "{name}: {} a={va} b={vb}", $what);
            let d = fp(&w);
            ensure!(g == d && hash(&g) == hash(&d), $sig, "{name}: {} is not canonical, a={va} b={vb}", $what);
        }};
    }
    is!("add", "a+b", a + b, (&va + &vb) % p);
    is!("add", "a+&b", a + &b, (&va + &vb) % p);
    is!("add", "&a+&b", &a + &b, (&va + &vb) % p);
    is!("sub", "a-b", a - b, (&va + p - &vb) % p);
    is!("sub", "a-&b", a - &b, (&va + p - &vb) % p);
    is!("sub", "&a-&b", &a - &b, (&va + p - &vb) % p);
    is!("mul", "a*b", a * b, (&va * &vb) % p);
    is!("mul", "a*&b", a * &b, (&va * &vb) % p);
    is!("mul", "&a*&b", &a * &b, (&va * &vb) % p);
    let mut bm = b;
    is!("add", "a+&mut b", a + &mut bm, (&va + &vb) % p);
    is!("sub", "a-&mut b", a - &mut bm, (&va + p - &vb) % p);
    is!("mul", "a*&mut b", a * &mut bm, (&va * &vb) % p);
    macro_rules! assign {
        ($sig:literal, $op:tt, $want:expr) => {{
            let w: BigUint = $want;
            let (mut x, mut y, mut z) = (a, a, a);
            x $op b;
            y $op &b;
            z $op &mut bm;
            is!($sig, stringify!($op), x, w.clone());
            is!($sig, stringify!($op &), y, w.clone());
            is!($sig, stringify!($op &mut), z, w);
        }};
    }
    assign!("add", +=, (&va + &vb) % p);
    assign!("sub", -=, (&va + p - &vb) % p);
    assign!("mul", *=, (&va * &vb) % p);
    is!("neg", "-a", -a, (p - &va) % p);
    let mut x = a;
    x.neg_in_place();
    is!("neg", "neg_in_place", x, (p - &va) % p);
    is!("double", "double", a.double(), (&va * 2u8) % p);
    let mut x = a;
    x.double_in_place();
    is!("double", "double_in_place", x, (&va * 2u8) % p);
    is!("square", "square", a.square(), (&va * &va) % p);
    let mut x = a;
    x.square_in_place();
    is!("square", "square_in_place", x, (&va * &va) % p);
    // Inverse and division.
    let inv = a.inverse();
    ensure_eq!(inv.is_none(), va.is_zero(), "inverse", "{name}: inverse exists for {va}");
    if let Some(i) = inv {
        is!("inverse", "inverse", i, va.modpow(&(p - 2u8), p));
    }
    let mut x = a;
    let r = x.inverse_in_place().is_some();
    ensure_eq!(r, !va.is_zero(), "inverse", "{name}: inverse_in_place of {va}");
    if r {
        is!("inverse", "inverse_in_place", x, va.modpow(&(p - 2u8), p));
    } else {
        ensure_eq!(val(x), va, "inverse", "{name}: a failed inverse_in_place changed the value");
    }
    if vb.is_zero() {
        ensure!(quietly(|| a / b).is_err(), "div-zero", "{name}: division by zero gave a value");
    } else {
        let q = (&va * vb.modpow(&(p - 2u8), p)) % p;
        is!("div", "a/b", a / b, q.clone());
        is!("div", "&a/&b", &a / &b, q.clone());
        is!("div", "a/&b", a / &b, q.clone());
        is!("div", "a/&mut b", a / &mut bm, q.clone());
        assign!("div", /=, q.clone());
    }
    // Powers.
    let e = match s.below(3) {
        0 => vec![s.below(70)],
        1 => {
            let n = s.idx(4) + 1;
            (0..n).map(|_| limb(s)).collect()
        }
        _ => {
            let d = s.below(3);
            to_limbs::<13>(&(p - 2u8 + d)).to_vec()
        }
    };
    let be = big(&e);
    is!("pow", format!("pow {be}"), a.pow(&e[..]), va.modpow(&be, p));
    let e1 = e[0];
    is!("pow", format!("pow u64 {e1}"), a.pow(e1), va.modpow(&BigUint::from(e1), p));
    is!("pow", format!("pow Uint {e1}"), a.pow(Uint::<2>::from(e1)), va.modpow(&BigUint::from(e1), p));
    // Sums and products of lists.
    let n = s.idx(5);
    let vs: Vec<BigUint> = (0..n).map(|_| elem::<N>(s, p)).collect();
    let fs: Vec<Fp<P, N>> = vs.iter().map(&fp).collect();
    let sum = vs.iter().fold(BigUint::zero(), |x, y| (x + y) % p);
    let prod = vs.iter().fold(BigUint::one(), |x, y| (x * y) % p);
    is!("sum", "sum", fs.iter().sum(), sum.clone());
    is!("sum", "sum by value", fs.iter().copied().sum(), sum);
    is!("product", "product", fs.iter().product(), prod.clone());
    is!("product", "product by value", fs.iter().copied().product(), prod);
    let v3: Vec<BigUint> = (0..4).map(|_| elem::<N>(s, p)).collect();
    let l = [fp(&v3[0]), fp(&v3[1]), a];
    let r = [fp(&v3[2]), fp(&v3[3]), b];
    is!("sop", format!("sum_of_products {v3:?}"), Fp::<P, N>::sum_of_products(&l, &r), (&v3[0] * &v3[2] + &v3[1] * &v3[3] + &va * &vb) % p);
    // Primitive integers that fit the width.
    let raw = (limb(s) as u128) << 64 | limb(s) as u128;
    let w = 64 * N as u64;
    let modp = |x: BigInt| -> BigUint {
        let m = BigInt::from_biguint(Sign::Plus, p.clone());
        (((x % &m) + &m) % &m).to_biguint().unwrap()
    };
    macro_rules! prim {
        ($($t:ty),*) => {$({
            let x = raw as $t;
            let bx = BigInt::from(x);
            if bx.bits() <= w {
                is!("from-int", format!("from {} {x}", stringify!($t)), Fp::<P, N>::from(x), modp(bx));
            }
        })*};
    }
    prim!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128);
    is!("from-int", "from bool", Fp::<P, N>::from(raw & 1 == 1), BigUint::from((raw & 1) as u8) % p);
    // An integer at or above the modulus is reduced.
    let wide = big(&limbs::<N>(s));
    is!("from-int", format!("from integer {wide}"), fp(&wide), &wide % p);
    let mut wiped = a;
    zeroize::Zeroize::zeroize(&mut wiped);
    ensure!(wiped == fp(&BigUint::zero()), "zeroize", "{name}: {va} survives zeroize as {wiped:?}");
    if &va + &vb >= *p && &va * &vb >= *p {
        s.nontrivial = true;
    }
    Ok(())
}

/// Integers from one-limb elements.
fn narrow<P: FpParams<1>>(s: &mut Src, p: &BigUint) -> Check {
    let v = match s.below(3) {
        0 => elem::<1>(s, p),
        1 => {
            let k = s.pick(&[7u32, 8, 15, 16, 31, 32, 63]);
            let d = s.below(3);
            ((BigUint::one() << k) + d - 1u8) % p
        }
        _ => BigUint::from(s.u64()) % p,
    };
    let a = Fp::<P, 1>::from_bigint(Uint::new(to_limbs(&v)));
    s.note(|| format!("{v}"));
    macro_rules! prim {
        ($($t:ty),*) => {$({
            let want = <$t>::try_from(v.clone()).ok();
            ensure_eq!(quietly(|| <$t>::from(a)).ok(), want, "into-int", "{v} into {}", stringify!($t));
        })*};
    }
    prim!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128);
    if v > BigUint::from(u8::MAX) {
        s.nontrivial = true;
    }
    Ok(())
}
fn narrow_any(s: &mut Src) -> Check {
    match s.below(3) {
        0 => narrow::<GoldiLocksParam>(s, &dec(GOLDI)),
        1 => narrow::<BabyBearParam>(s, &dec(BABY)),
        _ => narrow::<T64>(s, &BigUint::from(18446744073709551557u64)),
    }
}

/// The multiplicative generator of each provided field.
fn generators(s: &mut Src) -> Check {
    fn one<P: FpParams<N>, const N: usize>(s: &mut Src, name: &str, p: &str) -> Check {
        let p = dec(p);
        let g = big(Fp::<P, N>::GENERATOR.into_bigint().as_limbs());
        ensure_eq!(g, big(P::GENERATOR.into_bigint().as_limbs()), "generator", "{name}");
        let q = s.range(2, 3000);
        let m = &p - 1u8;
        if (&m % q).is_zero() {
            s.nontrivial = true;
            let r = g.modpow(&(&m / q), &p);
            ensure!(!r.is_one(), "generator", "{name}: generator {g} has order dividing (p-1)/{q}");
        }
        ensure!(!g.is_zero() && g < p, "generator", "{name}: {g} is not a unit");
        Ok(())
    }
    match s.below(6) {
        0 => one::<VestaParam, 4>(s, "Vesta", VESTA),
        1 => one::<PallasParam, 4>(s, "Pallas", PALLAS),
        2 => one::<BLS12Param, 4>(s, "BLS12", BLS),
        3 => one::<BN256Param, 4>(s, "BN256", BN),
        4 => one::<GoldiLocksParam, 1>(s, "GoldiLocks", GOLDI),
        _ => one::<BabyBearParam, 1>(s, "BabyBear", BABY),
    }
}

pub const PROP: Prop = Prop {
    id: "C28",
    name: "prime fields",
    parts: &[
        ("provided fields", provided, 12),
        ("other moduli", own, 12),
        ("to primitive integers", narrow_any, 2),
        ("generators", generators, 2),
    ],
    rule: "both the sum and the product of the operands exceed the modulus (a reduction is needed), a value does not fit the smallest integer, or the tested exponent divides the group order",
    quick_cases: 500_000,
    thorough_cases: 8_000_000,
    size: (1, 1),
};
