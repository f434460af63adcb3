//! C30: Poseidon2 against a plain-integer model of its specification.
use std::{collections::HashMap, sync::OnceLock};

use engine::{ensure, ensure_eq, quietly, Check, Prop, Src};
use num_bigint::BigUint;
use num_traits::Zero;
use openzeppelin_crypto::{
    arithmetic::{uint::Uint, BigInteger},
    field::{
        fp::{Fp, FpParams},
        instance::*,
        prime::PrimeField,
    },
    poseidon2::{
        instance::{
            babybear::BabyBear24Params,
            bls12::{BLS2Params, BLS3Params, BLS4Params},
            bn256::BN256Params,
            goldilocks::Goldilocks12Params,
            pallas::PallasParams,
            vesta::VestaParams,
        },
        params::PoseidonParams,
        Poseidon2,
    },
};

use crate::{
    field::elem,
    gen::{big, to_limbs},
};

#[derive(Clone)]
struct Spec {
    p: BigUint,
    t: usize,
    d: u32,
    cap: usize,
    rf: usize,
    rp: usize,
    ext: Vec<Vec<BigUint>>,
    int: Vec<Vec<BigUint>>,
    rc: Vec<Vec<BigUint>>,
}

/// The published matrices.
fn external(t: usize) -> Vec<Vec<BigUint>> {
    let n = |x: u8| BigUint::from(x);
    if t < 4 {
        return (0..t).map(|i| (0..t).map(|j| n(1 + (i == j) as u8)).collect()).collect();
    }
    const M4: [[u8; 4]; 4] = [[5, 7, 1, 3], [4, 6, 1, 1], [1, 3, 5, 7], [1, 1, 4, 6]];
    (0..t)
        .map(|i| {
            (0..t)
                .map(|j| {
                    let k = if t > 4 && i / 4 == j / 4 { 2 } else { 1 };
                    n(k * M4[i % 4][j % 4])
                })
                .collect()
        })
        .collect()
}
fn internal(t: usize, diag: &[BigUint]) -> Vec<Vec<BigUint>> {
    (0..t)
        .map(|i| {
            (0..t)
                .map(|j| {
                    let one = BigUint::from(1u8);
                    if i == j { one + &diag[i] } else { one }
                })
                .collect()
        })
        .collect()
}

impl Spec {
    fn mul(&self, m: &[Vec<BigUint>], st: &[BigUint]) -> Vec<BigUint> {
        m.iter()
            .map(|row| row.iter().zip(st).fold(BigUint::zero(), |a, (x, y)| a + x * y) % &self.p)
            .collect()
    }
    fn permute(&self, st: &mut Vec<BigUint>) {
        *st = self.mul(&self.ext, st);
        for r in 0..self.rf + self.rp {
            let full = r < self.rf / 2 || r >= self.rf / 2 + self.rp;
            let n = if full { self.t } else { 1 };
            for (i, x) in st.iter_mut().enumerate().take(n) {
                *x = ((&*x + &self.rc[r][i]) % &self.p).pow(self.d) % &self.p;
            }
            *st = self.mul(if full { &self.ext } else { &self.int }, st);
        }
    }
}

/// The constants of the provided instances, as published.
fn pinned() -> &'static HashMap<String, Spec> {
    static P: OnceLock<HashMap<String, Spec>> = OnceLock::new();
    P.get_or_init(|| {
        let hx = |l: &str| -> Vec<BigUint> {
            l.split(' ').map(|h| BigUint::parse_bytes(h.as_bytes(), 16).unwrap()).collect()
        };
        include_str!("poseidon.txt")
            .split("\n\n")
            .map(|b| {
                let mut ls = b.trim().lines();
                let h: Vec<&str> = ls.next().unwrap().split(' ').collect();
                let n = |i: usize| h[i].parse::<usize>().unwrap();
                let diag = hx(ls.next().unwrap());
                let t = n(1);
                (
                    h[0].to_string(),
                    Spec {
                        p: BigUint::zero(),
                        t,
                        d: n(2) as u32,
                        cap: n(3),
                        rf: n(4),
                        rp: n(5),
                        ext: external(t),
                        int: internal(t, &diag),
                        rc: ls.map(hx).collect(),
                    },
                )
            })
            .collect()
    })
}

fn provided(s: &mut Src) -> Check {
    macro_rules! run {
        ($params:ident, $fp:ident, $n:literal, $p:literal) => {{
            let mut sp = pinned()[stringify!($params)].clone();
            sp.p = BigUint::parse_bytes($p.as_bytes(), 10).unwrap();
            sponge::<$params, $fp, $n>(s, stringify!($params), &sp)
        }};
    }
    match s.below(8) {
        0 => run!(BLS2Params, BLS12Param, 4, "52435875175126190479447740508185965837690552500527637822603658699938581184513"),
        1 => run!(BLS3Params, BLS12Param, 4, "52435875175126190479447740508185965837690552500527637822603658699938581184513"),
        2 => run!(BLS4Params, BLS12Param, 4, "52435875175126190479447740508185965837690552500527637822603658699938581184513"),
        3 => run!(BN256Params, BN256Param, 4, "21888242871839275222246405745257275088548364400416034343698204186575808495617"),
        4 => run!(PallasParams, PallasParam, 4, "28948022309329048855892746252171976963363056481941560715954676764349967630337"),
        5 => run!(VestaParams, VestaParam, 4, "28948022309329048855892746252171976963363056481941647379679742748393362948097"),
        6 => run!(Goldilocks12Params, GoldiLocksParam, 1, "18446744069414584321"),
        _ => run!(BabyBear24Params, BabyBearParam, 1, "2013265921"),
    }
}

fn sponge<P, B, const N: usize>(s: &mut Src, name: &str, sp: &Spec) -> Check
where
    B: FpParams<N>,
    P: PoseidonParams<Fp<B, N>>,
{
    let fp = |v: &BigUint| Fp::<B, N>::from_bigint(Uint::new(to_limbs::<N>(v)));
    let fv = |f: &Fp<B, N>| big(f.into_bigint().as_limbs());
    ensure_eq!(Poseidon2::<P, Fp<B, N>>::state_size(), sp.t, "state-size", "{name}");
    ensure_eq!((P::T, P::D as u32, P::CAPACITY, P::ROUNDS_F, P::ROUNDS_P), (sp.t, sp.d, sp.cap, sp.rf, sp.rp), "params", "{name}: parameters");
    let rate = sp.t - sp.cap;
    // Inputs: lengths around multiples of the rate.
    let n = match s.below(3) {
        0 => s.idx(rate + 2),
        1 => (rate * (s.idx(3) + 1) + s.idx(3)).saturating_sub(1),
        _ => s.idx(3 * rate + 2),
    };
    let xs: Vec<BigUint> = (0..n).map(|_| elem::<N>(s, &sp.p)).collect();
    let fs: Vec<Fp<B, N>> = xs.iter().map(&fp).collect();
    s.note(|| format!("{name}: absorb {xs:?}"));

    // The model: (state, position), absorbing then squeezing.
    let mut st = vec![BigUint::zero(); sp.t];
    let mut pos = sp.cap;
    let mut h = if s.bool() { Poseidon2::<P, Fp<B, N>>::new() } else { Poseidon2::default() };
    let extra = s.chance(1, 6);
    let mut i = 0;
    while i < n {
        // Any split into calls.
        let k = match s.below(3) {
            0 => 1,
            1 => n - i,
            _ => s.idx(n - i + 1),
        };
        if k == 1 && s.bool() {
            h.absorb(&fs[i]);
        } else {
            h.absorb_batch(&fs[i..i + k]);
        }
        for x in &xs[i..i + k] {
            if pos == sp.t {
                sp.permute(&mut st);
                pos = sp.cap;
            }
            st[pos] = (&st[pos] + x) % &sp.p;
            pos += 1;
        }
        i += k;
        if extra && s.chance(1, 4) {
            s.tag("explicit permutation");
            s.note(|| format!("permute after {i}"));
            h.permute();
            sp.permute(&mut st);
        }
    }
    // Squeeze.
    let m = s.idx(2 * rate + 3);
    let mut want = vec![];
    let mut squeezing = false;
    for _ in 0..m {
        if !squeezing || pos == sp.t {
            sp.permute(&mut st);
            pos = sp.cap;
            squeezing = true;
        }
        want.push(st[pos].clone());
        pos += 1;
    }
    let mut got = vec![];
    while got.len() < m {
        let k = s.idx(m - got.len() + 1);
        if k == 0 {
            got.push(fv(&h.squeeze()));
        } else {
            got.extend(h.squeeze_batch(k).iter().map(fv));
        }
    }
    ensure_eq!(got, want, "sponge", "{name}: squeeze {m} after absorbing {xs:?}");
    if m > 0 {
        let r = quietly(|| {
            h.absorb(&fp(&BigUint::from(1u8)));
        });
        ensure!(r.is_err(), "absorb-late", "{name}: absorbing after squeezing is accepted");
    }
    // More outputs extend fewer.
    if m > 0 && !s.has("explicit permutation") {
        let mut f = Poseidon2::<P, Fp<B, N>>::new();
        f.absorb_batch(&fs);
        let more: Vec<BigUint> = f.squeeze_batch(m + 1).iter().map(fv).collect();
        ensure_eq!(more[..m].to_vec(), want, "extend", "{name}: a longer output does not extend the shorter one");
    }
    // A different input of the same length.
    if n > 0 && m > 0 {
        let j = s.idx(n);
        let mut ys = fs.clone();
        ys[j] += Fp::<B, N>::from(s.range(1, 2) as u8);
        let mut h2 = Poseidon2::<P, Fp<B, N>>::new();
        h2.absorb_batch(&ys);
        let mut h1 = Poseidon2::<P, Fp<B, N>>::new();
        h1.absorb_batch(&fs);
        let k = rate.max(2);
        ensure!(h1.squeeze_batch(k) != h2.squeeze_batch(k), "collision", "{name}: element {j} does not influence the output of {xs:?}");
    }
    if n > rate && m > 0 {
        s.nontrivial = true;
    }
    if n > 0 && n % rate == 0 {
        s.tag("input fills the rate exactly");
    }
    if m > rate {
        s.tag("output spans several permutations");
    }
    Ok(())
}

/// Other supported state sizes, with constants of our own.
mod own {
    use super::*;
    pub const fn row<B: FpParams<N>, const N: usize, const T: usize>(r: u64) -> [Fp<B, N>; T] {
        let mut v = [Fp::new(Uint::ONE); T];
        let mut i = 0;
        while i < T {
            let x = (r * 1000 + i as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 2;
            v[i] = Fp::new(Uint::from_u64(x));
            i += 1;
        }
        v
    }
    pub fn mat<B: FpParams<N>, const N: usize>(p: &str, t: usize, d: u8, cap: usize, rf: usize, rp: usize, diag: &[Fp<B, N>], rc: &[&[Fp<B, N>]]) -> Spec {
        let fv = |f: &Fp<B, N>| big(f.into_bigint().as_limbs());
        let diag: Vec<BigUint> = diag.iter().map(fv).collect();
        Spec {
            p: BigUint::parse_bytes(p.as_bytes(), 10).unwrap(),
            t,
            d: d as u32,
            cap,
            rf,
            rp,
            ext: external(t),
            int: internal(t, &diag),
            rc: rc.iter().map(|r| r.iter().map(fv).collect()).collect(),
        }
    }
    macro_rules! own {
        ($($name:ident, $b:ident, $n:literal, $t:literal, $d:literal, $cap:literal, $rf:literal, $rp:literal, $diag:expr, $p:literal, [$($r:literal),*];)*) => {
            $(
                pub struct $name;
                impl PoseidonParams<Fp<$b, $n>> for $name {
                    const T: usize = $t;
                    const D: u8 = $d;
                    const CAPACITY: usize = $cap;
                    const ROUNDS_F: usize = $rf;
                    const ROUNDS_P: usize = $rp;
                    const MAT_INTERNAL_DIAG_M_1: &'static [Fp<$b, $n>] = &$diag;
                    const ROUND_CONSTANTS: &'static [&'static [Fp<$b, $n>]] =
                        &[$(&const { row::<$b, $n, $t>($r) }),*];
                }
            )*
            pub fn any(s: &mut Src) -> Check {
                let fs: &[fn(&mut Src) -> Check] = &[$(|s| {
                    let sp = mat::<$b, $n>($p, $t, $d, $cap, $rf, $rp, $name::MAT_INTERNAL_DIAG_M_1, $name::ROUND_CONSTANTS);
                    sponge::<$name, $b, $n>(s, stringify!($name), &sp)
                }),*];
                let f = s.pick(fs);
                f(s)
            }
        };
    }
    const fn small<B: FpParams<N>, const N: usize, const T: usize>(v: [u64; T]) -> [Fp<B, N>; T] {
        let mut r = [Fp::new(Uint::ONE); T];
        let mut i = 0;
        while i < T {
            r[i] = Fp::new(Uint::from_u64(v[i]));
            i += 1;
        }
        r
    }
    own! {
        T2, BabyBearParam, 1, 2, 7, 1, 4, 3, small([1, 2]), "2013265921", [1, 2, 3, 4, 5, 6, 7];
        T3c2, GoldiLocksParam, 1, 3, 7, 2, 2, 5, small([1, 1, 2]), "18446744069414584321", [1, 2, 3, 4, 5, 6, 7];
        T4c2, GoldiLocksParam, 1, 4, 3, 2, 6, 1, row::<GoldiLocksParam, 1, 4>(99), "18446744069414584321", [1, 2, 3, 4, 5, 6, 7];
        T8, BabyBearParam, 1, 8, 7, 4, 4, 3, row::<BabyBearParam, 1, 8>(98), "2013265921", [1, 2, 3, 4, 5, 6, 7];
        T8b, BN256Param, 4, 8, 5, 1, 4, 3, row::<BN256Param, 4, 8>(98), "21888242871839275222246405745257275088548364400416034343698204186575808495617", [1, 2, 3, 4, 5, 6, 7];
        T12c, VestaParam, 4, 12, 5, 3, 4, 3, row::<VestaParam, 4, 12>(97), "28948022309329048855892746252171976963363056481941647379679742748393362948097", [1, 2, 3, 4, 5, 6, 7];
        T16, BabyBearParam, 1, 16, 7, 8, 4, 3, row::<BabyBearParam, 1, 16>(96), "2013265921", [1, 2, 3, 4, 5, 6, 7];
        T20, GoldiLocksParam, 1, 20, 7, 19, 4, 3, row::<GoldiLocksParam, 1, 20>(95), "18446744069414584321", [1, 2, 3, 4, 5, 6, 7];
        T24, GoldiLocksParam, 1, 24, 7, 5, 2, 5, row::<GoldiLocksParam, 1, 24>(94), "18446744069414584321", [1, 2, 3, 4, 5, 6, 7];
    }
}

pub const PROP: Prop = Prop {
    id: "C30",
    name: "Poseidon2",
    parts: &[("provided instances", provided, 5), ("other state sizes", own::any, 3)],
    rule: "the input is longer than the rate (the permutation runs while absorbing) and at least one element is squeezed",
    quick_cases: 150_000,
    thorough_cases: 4_000_000,
    size: (1, 1),
};
