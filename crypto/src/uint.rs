//! C27: multi-limb integers against exact integers.
use std::{
    collections::hash_map::DefaultHasher,
    hash::{Hash, Hasher},
};

use engine::{ensure, ensure_eq, quietly, Check, Prop, Src};
use num_bigint::BigUint;
use num_traits::{One, Zero};
use openzeppelin_crypto::{
    arithmetic::{
        limb,
        uint::{from_str_hex, from_str_radix, Uint, WideUint},
        BigInteger,
    },
    bits::BitIteratorBE,
};

use crate::gen::{big, limb as glimb, limbs, related};

fn b<const N: usize>(u: &Uint<N>) -> BigUint {
    big(u.as_limbs())
}

fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn bits_be(v: &BigUint, w: usize) -> Vec<bool> {
    (0..w as u64).rev().map(|i| v.bit(i)).collect()
}

fn single(s: &mut Src) -> Check {
    let (a, c, d, e) = (glimb(s), glimb(s), glimb(s), glimb(s));
    let (ba, bc, bd, be) =
        (a as u128, BigUint::from(c), BigUint::from(d), BigUint::from(e));
    s.note(|| format!("limbs {a:#x} {c:#x} {d:#x} {e:#x}"));
    let ba_ = BigUint::from(ba);
    let m = BigUint::one() << 64;
    let split = |v: BigUint| -> (BigUint, BigUint) { (&v % &m, v >> 64) };
    let two = |(l, h): (u64, u64)| (BigUint::from(l), BigUint::from(h));
    ensure_eq!(BigUint::from(limb::widening_mul(a, c)), &ba_ * &bc, "limb-mul", "widening_mul({a:#x},{c:#x})");
    ensure_eq!(two(limb::mac(a, c, d)), split(&ba_ + &bc * &bd), "limb-mac", "mac");
    ensure_eq!(two(limb::carrying_mac(a, c, d, e)), split(&ba_ + &bc * &bd + &be), "limb-cmac", "carrying_mac");
    ensure_eq!(two(limb::adc(a, c, d)), split(&ba_ + &bc + &bd), "limb-adc", "adc");
    for bit in [false, true] {
        let mut x = a;
        let carry = limb::adc_assign(&mut x, c, bit);
        ensure_eq!((BigUint::from(x), BigUint::from(carry as u8)), split(&ba_ + &bc + bit as u8), "limb-adc", "adc_assign");
        let want = a as i128 - c as i128 - bit as i128;
        let w = (want.rem_euclid(1 << 64) as u64, (want < 0) as u64);
        ensure_eq!(limb::sbb(a, c, bit as u64), w, "limb-sbb", "sbb({a:#x},{c:#x},{bit})");
        let mut x = a;
        let borrow = limb::sbb_assign(&mut x, c, bit);
        ensure_eq!((x, borrow as u64), w, "limb-sbb", "sbb_assign({a:#x},{c:#x},{bit})");
    }
    // Bits of primitive integers.
    macro_rules! prim {
        ($($t:ty),*) => {$({
            let v = ((a as u128) << 64 | c as u128) as $t;
            let want: Vec<bool> = bits_be(&BigUint::from(v), <$t>::BITS as usize);
            ensure_eq!(v.bit_be_iter().collect::<Vec<_>>(), want, "bits", "bits of {} {v}", stringify!($t));
            let t: Vec<bool> = want.iter().copied().skip_while(|x| !x).collect();
            ensure_eq!(v.bit_be_trimmed_iter().collect::<Vec<_>>(), t, "bits", "trimmed bits of {} {v}", stringify!($t));
        })*};
    }
    prim!(u8, u16, u32, u64, u128, usize);
    if a > u32::MAX as u64 && c > u32::MAX as u64 {
        s.nontrivial = true;
    }
    Ok(())
}

fn ops<const N: usize>(s: &mut Src) -> Check {
    let w = 64 * N;
    let la = limbs::<N>(s);
    let lc = related::<N>(s, &la);
    let (a, c) = (Uint::<N>::new(la), Uint::<N>::new(lc));
    let (ba, bc) = (big(&la), big(&lc));
    let m = BigUint::one() << w;
    let max = &m - 1u8;
    s.note(|| format!("N={N} a={ba:x} b={bc:x}"));
    // Construction and representation.
    ensure_eq!(a.into_limbs(), la, "limbs", "into_limbs");
    ensure_eq!(a.as_ref().to_vec(), la.to_vec(), "limbs", "as_ref");
    let mut am = a;
    ensure_eq!(am.as_mut().to_vec(), la.to_vec(), "limbs", "as_mut");
    ensure_eq!(b(&Uint::<N>::ZERO), BigUint::zero(), "const", "ZERO");
    ensure_eq!(b(&Uint::<N>::default()), BigUint::zero(), "const", "default");
    ensure_eq!(b(&Uint::<N>::ONE), BigUint::one(), "const", "ONE");
    ensure_eq!(b(&Uint::<N>::MAX), max.clone(), "const", "MAX");
    ensure_eq!((Uint::<N>::BITS, Uint::<N>::NUM_LIMBS, Uint::<N>::LIMB_BITS), (w, N, 64), "const", "sizes");
    // Comparison.
    ensure_eq!(
        (a.ct_ge(&c), a.ct_gt(&c), a.ct_le(&c), a.ct_lt(&c), a.ct_eq(&c), a.ct_ne(&c)),
        (ba >= bc, ba > bc, ba <= bc, ba < bc, ba == bc, ba != bc),
        "cmp", "ct comparisons N={N} {ba:x} {bc:x}"
    );
    ensure_eq!((a.cmp(&c), a.partial_cmp(&c), a == c), (ba.cmp(&bc), Some(ba.cmp(&bc)), ba == bc), "cmp", "Ord/Eq {ba:x} {bc:x}");
    ensure_eq!((a >= c, a > c, a <= c, a < c), (ba >= bc, ba > bc, ba <= bc, ba < bc), "cmp", "operators {ba:x} {bc:x}");
    if ba == bc {
        ensure_eq!(hash(&a), hash(&c), "hash", "hash of equal values");
    }
    // Parity, bits.
    let odd = ba.bit(0);
    ensure_eq!((a.ct_is_odd(), a.is_odd(), a.ct_is_even(), a.is_even()), (odd, odd, !odd, !odd), "parity", "parity {ba:x}");
    ensure_eq!((a.ct_is_zero(), a.is_zero()), (ba.is_zero(), ba.is_zero()), "zero", "is_zero {ba:x}");
    ensure_eq!((a.ct_num_bits(), a.num_bits()), (ba.bits() as usize, ba.bits() as usize), "num-bits", "num_bits {ba:x}");
    for _ in 0..4 {
        let i = match s.below(4) {
            0 => s.idx(w),
            1 => (s.idx(N + 2) * 64 + s.idx(3)).saturating_sub(1),
            2 => w + s.idx(200),
            _ => s.u64() as usize,
        };
        let want = i < w && ba.bit(i as u64);
        ensure_eq!((a.ct_get_bit(i), a.get_bit(i)), (want, want), "get-bit", "get_bit({i}) of {ba:x} N={N}");
    }
    let want = bits_be(&ba, w);
    let trimmed: Vec<bool> = want.iter().copied().skip_while(|x| !x).collect();
    ensure_eq!(a.bit_be_iter().collect::<Vec<_>>(), want, "bits", "bits {ba:x}");
    ensure_eq!(a.bit_be_trimmed_iter().collect::<Vec<_>>(), trimmed, "bits", "trimmed bits {ba:x}");
    ensure_eq!((&la[..]).bit_be_iter().collect::<Vec<_>>(), want, "bits", "slice bits {ba:x}");
    ensure_eq!((&la[..]).bit_be_trimmed_iter().collect::<Vec<_>>(), trimmed, "bits", "trimmed slice bits {ba:x}");
    // Doubling and halving.
    let mut x = a;
    let carry = x.checked_mul2_assign();
    ensure_eq!((b(&x), carry), ((&ba << 1) % &m, (&ba << 1) >= m), "mul2", "mul2 {ba:x} N={N}");
    let mut x = a;
    x.div2_assign();
    ensure_eq!(b(&x), &ba >> 1, "div2", "div2 {ba:x} N={N}");
    // Addition and subtraction.
    let sum = &ba + &bc;
    let (sw, sc) = (&sum % &m, sum >= m);
    let (dw, db) = ((&ba + &m - &bc) % &m, ba < bc);
    let (r, k) = a.ct_checked_add(&c);
    ensure_eq!((b(&r), k), (sw.clone(), sc), "add", "ct_checked_add {ba:x} {bc:x}");
    ensure_eq!(b(&a.ct_wrapping_add(&c)), sw, "add", "ct_wrapping_add {ba:x} {bc:x}");
    let mut x = a;
    let k = x.checked_add_assign(&c);
    ensure_eq!((b(&x), k), (sw.clone(), sc), "add", "checked_add_assign {ba:x} {bc:x}");
    let (r, k) = a.ct_checked_sub(&c);
    ensure_eq!((b(&r), k), (dw.clone(), db), "sub", "ct_checked_sub {ba:x} {bc:x}");
    ensure_eq!(b(&a.ct_wrapping_sub(&c)), dw, "sub", "ct_wrapping_sub {ba:x} {bc:x}");
    let mut x = a;
    let k = x.checked_sub_assign(&c);
    ensure_eq!((b(&x), k), (dw.clone(), db), "sub", "checked_sub_assign {ba:x} {bc:x}");
    let cin = glimb(s);
    let (r, cout) = a.ct_adc(&c, cin);
    ensure_eq!(b(&r) + (BigUint::from(cout) << w), &sum + cin, "add", "ct_adc {ba:x} {bc:x} {cin:x}");
    let r = quietly(|| b(&a.ct_add(&c))).ok();
    ensure_eq!(r, (!sc).then(|| sum.clone()), "add", "ct_add {ba:x} {bc:x}");
    // Multiplication.
    let p = &ba * &bc;
    let (lo, hi) = a.ct_widening_mul(&c);
    ensure_eq!(b(&lo) + (b(&hi) << w), p.clone(), "mul", "ct_widening_mul {ba:x} {bc:x}");
    let r = quietly(|| b(&a.ct_mul(&c))).ok();
    ensure_eq!(r, (p < m).then(|| p.clone()), "mul", "ct_mul {ba:x} {bc:x}");
    // Bit operations.
    ensure_eq!((b(&(a & c)), b(&(a & &c))), (&ba & &bc, &ba & &bc), "bitops", "and");
    ensure_eq!((b(&(a | c)), b(&(a | &c))), (&ba | &bc, &ba | &bc), "bitops", "or");
    ensure_eq!((b(&(a ^ c)), b(&(a ^ &c))), (&ba ^ &bc, &ba ^ &bc), "bitops", "xor");
    ensure_eq!(b(&!a), &max - &ba, "bitops", "not");
    let (mut x, mut y, mut z) = (a, a, a);
    x &= c;
    y |= c;
    z ^= c;
    ensure_eq!((b(&x), b(&y), b(&z)), (&ba & &bc, &ba | &bc, &ba ^ &bc), "bitops", "assigning");
    let (mut x, mut y, mut z) = (a, a, a);
    x &= &c;
    y |= &c;
    z ^= &c;
    ensure_eq!((b(&x), b(&y), b(&z)), (&ba & &bc, &ba | &bc, &ba ^ &bc), "bitops", "assigning by reference");
    // Bytes.
    let mut bytes = ba.to_bytes_le();
    bytes.resize(8 * N, 0);
    ensure_eq!(a.into_bytes_le(), bytes, "bytes", "into_bytes_le {ba:x}");
    ensure_eq!((b(&Uint::<N>::from_bytes_le(&bytes)), b(&Uint::<N>::ct_from_le_slice(&bytes))), (ba.clone(), ba.clone()), "bytes", "from_bytes_le {ba:x}");
    // Text.
    let hex = format!("{:0>1$}", format!("{ba:X}"), 16 * N);
    ensure_eq!((format!("{a}"), format!("{a:X}"), format!("{a:?}")), (hex.clone(), hex.clone(), hex.clone()), "text", "text {ba:x}");
    if sc || db || p >= m {
        s.nontrivial = true;
    }
    if sc {
        s.tag("carry out of the top limb");
    }
    if db {
        s.tag("borrow out of the top limb");
    }
    if p >= m {
        s.tag("product wider than the operand");
    }
    Ok(())
}

fn rem<const N: usize>(s: &mut Src) -> Check {
    let (lo, hi) = (limbs::<N>(s), if s.chance(1, 4) { [0; N] } else { limbs::<N>(s) });
    let mut d = limbs::<N>(s);
    if d == [0; N] {
        d[s.idx(N)] = 1;
    }
    let v = big(&lo) + (big(&hi) << (64 * N));
    let bd = big(&d);
    s.note(|| format!("N={N} {v:x} mod {bd:x}"));
    let wide = WideUint::new(Uint::<N>::new(lo), Uint::<N>::new(hi));
    ensure_eq!(wide.ct_num_bits(), v.bits() as usize, "wide-bits", "WideUint bits {v:x}");
    for _ in 0..4 {
        let i = match s.below(3) {
            0 => s.idx(128 * N),
            1 => 64 * N + s.idx(3) - 1,
            _ => 128 * N + s.idx(100),
        };
        ensure_eq!(wide.ct_get_bit(i), v.bit(i as u64), "wide-bits", "WideUint bit {i} of {v:x}");
    }
    ensure_eq!(b(&wide.ct_rem(&Uint::<N>::new(d))), &v % &bd, "rem", "ct_rem {v:x} % {bd:x} N={N}");
    ensure!(quietly(|| wide.ct_rem(&Uint::<N>::ZERO)).is_err(), "rem-zero", "remainder by zero gave a value");
    if v >= bd {
        s.nontrivial = true;
    }
    if v.is_zero() {
        s.tag("zero dividend");
    }
    if bd.bits() as usize == 64 * N {
        s.tag("divisor with the top bit set");
    }
    Ok(())
}

fn conv<const N: usize>(s: &mut Src) -> Check {
    let w = 64 * N;
    let m = BigUint::one() << w;
    // Primitive integers.
    let v = (glimb(s) as u128) << 64 | glimb(s) as u128;
    macro_rules! prim {
        ($($t:ty, $f:ident);*) => {$({
            let x = v as $t;
            let want = BigUint::from(x);
            let got = quietly(|| (b(&Uint::<N>::$f(x)), b(&Uint::<N>::from(x)))).ok();
            let want = (want < m).then(|| (want.clone(), want));
            ensure_eq!(got, want, "from-int", "from {} {x} N={N}", stringify!($t));
        })*};
    }
    prim!(u8, from_u8; u16, from_u16; u32, from_u32; u64, from_u64; usize, from_usize; u128, from_u128);
    // Digit strings.
    let a = big(&limbs::<N>(s));
    let radix = s.range(2, 36) as u32;
    let radix = if s.chance(1, 3) { 10 } else { radix };
    let mut txt = a.to_str_radix(radix);
    match s.below(3) {
        0 => txt = txt.to_uppercase(),
        1 => {
            txt = txt.chars().map(|c| if s.bool() { c.to_ascii_uppercase() } else { c }).collect();
        }
        _ => {}
    }
    s.note(|| format!("N={N} from_str_radix({txt}, {radix})"));
    ensure_eq!(quietly(|| b(&from_str_radix::<N>(&txt, radix))).ok(), Some(a.clone()), "from-str", "from_str_radix({txt}, {radix}) N={N}");
    let mut hex = format!("{a:x}");
    if s.bool() {
        hex = hex.to_uppercase();
    }
    if s.chance(1, 3) {
        hex = format!("{:0>1$}", hex, 16 * N);
    }
    ensure_eq!(quietly(|| b(&from_str_hex::<N>(&hex))).ok(), Some(a.clone()), "from-hex", "from_str_hex({hex}) N={N}");
    // Too large: no value is returned.
    let over = &m + big(&limbs::<N>(s));
    let t = over.to_str_radix(radix);
    ensure!(quietly(|| from_str_radix::<N>(&t, radix)).is_err(), "from-str-large", "from_str_radix({t}, {radix}) accepted for N={N}");
    let t = format!("{over:x}");
    ensure!(quietly(|| from_str_hex::<N>(&t)).is_err(), "from-str-large", "from_str_hex({t}) accepted for N={N}");
    // A character that is not a digit of the radix.
    let bad: Vec<char> = (0u8..128).map(char::from).filter(|c| !c.is_digit(radix)).chain(['é', '\u{0661}']).collect();
    let c = s.pick(&bad);
    let mut t: Vec<char> = txt.chars().collect();
    let i = s.idx(t.len());
    t[i] = c;
    let t: String = t.into_iter().collect();
    ensure!(quietly(|| from_str_radix::<N>(&t, radix)).is_err(), "from-str-bad", "from_str_radix({t:?}, {radix}) accepted");
    let bad: Vec<char> = (0u8..128).map(char::from).filter(|c| !c.is_ascii_hexdigit()).chain(['é', '\u{0661}']).collect();
    let c = s.pick(&bad);
    let mut t: Vec<char> = hex.chars().collect();
    let i = s.idx(t.len());
    t[i] = c;
    let t: String = t.into_iter().collect();
    ensure!(quietly(|| from_str_hex::<N>(&t)).is_err(), "from-str-bad", "from_str_hex({t:?}) accepted");
    ensure!(quietly(|| from_str_radix::<N>("", radix)).is_err(), "from-str-bad", "empty string accepted");
    ensure!(quietly(|| from_str_hex::<N>("")).is_err(), "from-str-bad", "empty string accepted");
    // Bytes of the wrong length.
    let n = s.idx(16 * N + 9);
    if n != 8 * N {
        let by = s.bytes(n);
        ensure!(quietly(|| Uint::<N>::from_bytes_le(&by)).is_err(), "bytes-len", "from_bytes_le accepted {n} bytes for N={N}");
    }
    if a.bits() > 64 || N == 1 {
        s.nontrivial = true;
    }
    Ok(())
}

macro_rules! widths {
    ($name:ident, $f:ident, [$($n:literal),*]) => {
        fn $name(s: &mut Src) -> Check {
            let ns = [$($n),*];
            let n: usize = s.pick(&ns);
            match n {
                $($n => $f::<$n>(s),)*
                _ => unreachable!(),
            }
        }
    };
}
widths!(ops_any, ops, [4, 1, 2, 3, 5, 6, 7, 8, 9, 12, 13]);
widths!(rem_any, rem, [4, 1, 2, 3, 6, 7, 8, 13]);
widths!(conv_any, conv, [4, 1, 2, 3, 6, 7, 8, 13]);

pub const PROP: Prop = Prop {
    id: "C27",
    name: "multi-limb integers",
    parts: &[
        ("limbs", single, 4),
        ("operations", ops_any, 10),
        ("remainder", rem_any, 4),
        ("conversions", conv_any, 3),
    ],
    rule: "an operation carries or borrows out of the width, the product is wider than the operand, the dividend reaches the divisor, or the digit string spans more than one limb",
    quick_cases: 3_000_000,
    thorough_cases: 60_000_000,
    size: (1, 1),
};
