//! C29: short-Weierstrass groups against the textbook affine law.
use std::{
    collections::hash_map::DefaultHasher,
    hash::{Hash, Hasher},
};

use engine::{ensure, ensure_eq, quietly, Check, Prop, Src};
use num_bigint::BigUint;
use num_traits::{One, Zero};
use openzeppelin_crypto::{
    arithmetic::uint::Uint,
    curve::{
        batch_inversion,
        sw::{Affine, Projective, SWCurveConfig},
        AffineRepr, CurveGroup, PrimeGroup,
    },
    field::{
        fp::{Fp, FpParams},
        group::AdditiveGroup,
        prime::PrimeField,
    },
};

use crate::gen::{big, limb, to_limbs};

/// A curve in plain integers.
pub struct Info {
    name: &'static str,
    p: BigUint,
    a: BigUint,
    b: BigUint,
    r: BigUint,
    h: BigUint,
}
type Pt = Option<(BigUint, BigUint)>;

impl Info {
    fn inv(&self, x: &BigUint) -> BigUint {
        x.modpow(&(&self.p - 2u8), &self.p)
    }
    fn sub(&self, x: &BigUint, y: &BigUint) -> BigUint {
        (x + &self.p - (y % &self.p)) % &self.p
    }
    fn on(&self, q: &Pt) -> bool {
        match q {
            None => true,
            Some((x, y)) => (y * y) % &self.p == self.rhs(x),
        }
    }
    fn rhs(&self, x: &BigUint) -> BigUint {
        (x * x * x + &self.a * x + &self.b) % &self.p
    }
    fn neg(&self, q: &Pt) -> Pt {
        q.as_ref().map(|(x, y)| (x.clone(), (&self.p - y) % &self.p))
    }
    fn add(&self, q: &Pt, w: &Pt) -> Pt {
        let (Some((x1, y1)), Some((x2, y2))) = (q, w) else {
            return if q.is_none() { w.clone() } else { q.clone() };
        };
        let l = if x1 == x2 {
            if ((y1 + y2) % &self.p).is_zero() {
                return None;
            }
            (x1 * x1 * 3u8 + &self.a) * self.inv(&((y1 * 2u8) % &self.p))
        } else {
            self.sub(y2, y1) * self.inv(&self.sub(x2, x1))
        } % &self.p;
        let x = self.sub(&self.sub(&((&l * &l) % &self.p), x1), x2);
        let y = self.sub(&((l * self.sub(x1, &x)) % &self.p), y1);
        Some((x, y))
    }
    fn mul(&self, k: &BigUint, q: &Pt) -> Pt {
        let mut r = None;
        for i in (0..k.bits()).rev() {
            r = self.add(&r, &r);
            if k.bit(i) {
                r = self.add(&r, q);
            }
        }
        r
    }
    fn sqrt(&self, z: &BigUint) -> Option<BigUint> {
        let p = &self.p;
        let one = BigUint::one();
        if z.is_zero() {
            return Some(z.clone());
        }
        if z.modpow(&((p - 1u8) >> 1), p) != one {
            return None;
        }
        // Tonelli-Shanks.
        let s = (p - 1u8).trailing_zeros().unwrap();
        let q = (p - 1u8) >> s;
        let mut n = BigUint::from(2u8);
        while n.modpow(&((p - 1u8) >> 1), p) == one {
            n += 1u8;
        }
        let (mut m, mut c) = (s, n.modpow(&q, p));
        let mut t = z.modpow(&q, p);
        let mut r = z.modpow(&((&q + 1u8) >> 1), p);
        while t != one {
            let mut i = 0;
            let mut x = t.clone();
            while x != one {
                x = (&x * &x) % p;
                i += 1;
            }
            let b = c.modpow(&(BigUint::one() << (m - i - 1)), p);
            m = i;
            c = (&b * &b) % p;
            t = (t * &c) % p;
            r = (r * b) % p;
        }
        Some(r)
    }
    fn small(&self) -> bool {
        self.p.bits() <= 17
    }
    /// A point of the curve (not necessarily of the prime-order subgroup).
    fn point(&self, s: &mut Src) -> Pt {
        if s.chance(1, 12) {
            return None;
        }
        let mut x = if self.small() {
            BigUint::from(s.u64()) % &self.p
        } else if s.chance(1, 4) {
            BigUint::from(s.below(64))
        } else {
            let n = s.bytes(self.p.bits() as usize / 8 + 1);
            BigUint::from_bytes_le(&n) % &self.p
        };
        loop {
            if let Some(y) = self.sqrt(&self.rhs(&x)) {
                let y = if s.bool() { (&self.p - y) % &self.p } else { y };
                return Some((x, y));
            }
            x = (x + 1u8) % &self.p;
        }
    }
}

fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn group<C, B, S, const N: usize, const M: usize>(s: &mut Src, i: &Info) -> Check
where
    B: FpParams<N>,
    S: FpParams<M>,
    C: SWCurveConfig<BaseField = Fp<B, N>, ScalarField = Fp<S, M>>,
{
    let name = i.name;
    let fp = |v: &BigUint| Fp::<B, N>::from_bigint(Uint::new(to_limbs::<N>(v)));
    let fv = |f: Fp<B, N>| big(f.into_bigint().as_limbs());
    let aff = |q: &Pt| -> Affine<C> {
        match q {
            None => Affine::identity(),
            Some((x, y)) => Affine::new_unchecked(fp(x), fp(y)),
        }
    };
    let unaff = |q: Affine<C>| -> Pt { q.xy().map(|(x, y)| (fv(x), fv(y))) };
    // Own conversion from projective coordinates.
    let unproj = |q: Projective<C>| -> Pt {
        let z = fv(q.z);
        if z.is_zero() {
            return None;
        }
        let zi = i.inv(&z);
        let z2 = (&zi * &zi) % &i.p;
        Some(((fv(q.x) * &z2) % &i.p, ((fv(q.y) * z2) % &i.p * zi) % &i.p))
    };
    let z_of = |s: &mut Src| -> BigUint {
        match s.below(3) {
            0 => BigUint::one(),
            1 => &i.p - 1u8 - BigUint::from(s.below(3)),
            _ => BigUint::from(s.u64()) % (&i.p - 1u8) + 1u8,
        }
    };
    let proj = |q: &Pt, z: &BigUint| -> Projective<C> {
        let z2 = (z * z) % &i.p;
        let z3 = (&z2 * z) % &i.p;
        match q {
            // The identity as doublings produce it: z = 0 and y^2 = x^3.
            None if z.is_one() => Projective::zero(),
            None => Projective::new_unchecked(fp(&z2), fp(&z3), fp(&BigUint::zero())),
            Some((x, y)) => Projective::new_unchecked(fp(&((x * z2) % &i.p)), fp(&((y * z3) % &i.p)), fp(z)),
        }
    };

    let q = i.point(s);
    let w = match s.weighted(&[6, 3, 3, 1]) {
        0 => i.point(s),
        1 => q.clone(),
        2 => i.neg(&q),
        _ => i.add(&q, &q),
    };
    let (z1, z2) = (z_of(s), z_of(s));
    s.note(|| format!("{name}: P={q:?} Q={w:?} z1={z1} z2={z2}"));
    {
        let (mut pa, mut pp) = (aff(&q), proj(&q, &z1));
        zeroize::Zeroize::zeroize(&mut pa);
        zeroize::Zeroize::zeroize(&mut pp);
        ensure!(
            [pa.x, pa.y, pp.x, pp.y, pp.z].iter().all(|c| fv(*c).is_zero()),
            "zeroize",
            "{name}: coordinates of P survive zeroize"
        );
    }
    let (qa, wa) = (aff(&q), aff(&w));
    let (qp, wp) = (proj(&q, &z1), proj(&w, &z2));
    let sum = i.add(&q, &w);
    let diff = i.add(&q, &i.neg(&w));
    let dbl = i.add(&q, &q);
    if q.is_some() && q == w {
        s.tag("equal points");
    }
    if q.is_some() && sum.is_none() {
        s.tag("opposite points");
    }
    if q.is_none() || w.is_none() {
        s.tag("identity operand");
    }
    if q.as_ref().is_some_and(|(_, y)| y.is_zero()) {
        s.tag("point of order two");
    }
    if q.is_some() && w.is_some() && !z1.is_one() {
        s.nontrivial = true;
    }

    macro_rules! is {
        ($sig:literal, $what:expr, $got:expr, $want:expr) => {{
            let (g, want): (Projective<C>, &Pt) = ($got, $want);
            ensure_eq!(unproj(g), want.clone(), $sig, "{name}: {}, P={q:?} Q={w:?}", $what);
            ensure_eq!(g.is_zero(), want.is_none(), $sig, "{name}: {} is_zero", $what);
        }};
    }
    // Representation.
    let on = C::COEFF_A;
    ensure_eq!((fv(on), fv(C::COEFF_B)), (i.a.clone(), i.b.clone()), "config", "{name}");
    let off = fp(&limb(s).into());
    ensure_eq!((fv(C::mul_by_a(off)), fv(C::add_b(off))), ((fv(off) * &i.a) % &i.p, (fv(off) + &i.b) % &i.p), "coeff", "{name}: mul_by_a/add_b");
    ensure!(qa.is_on_curve(), "on-curve", "{name}: {q:?} is on the curve");
    if let Some((x, y)) = &q {
        let bad = Some((x.clone(), (y + 1u8) % &i.p));
        ensure_eq!(aff(&bad).is_on_curve(), i.on(&bad), "on-curve", "{name}: {bad:?}");
        let bad = Some(((x + 1u8) % &i.p, y.clone()));
        ensure_eq!(aff(&bad).is_on_curve(), i.on(&bad), "on-curve", "{name}: {bad:?}");
    }
    ensure_eq!(unaff(qp.into_affine()), q, "convert", "{name}: into_affine of {q:?} z={z1}");
    ensure_eq!(unaff(Affine::from(qp)), q, "convert", "{name}: Affine::from of {q:?} z={z1}");
    is!("convert", "into_group", qa.into_group(), &q);
    is!("convert", "Projective::from", Projective::from(qa), &q);
    ensure_eq!((fv2(qa.x(), &fv), fv2(qa.y(), &fv)), (q.as_ref().map(|t| t.0.clone()), q.as_ref().map(|t| t.1.clone())), "convert", "{name}: x, y");
    ensure_eq!(AffineRepr::is_zero(&qa), q.is_none(), "convert", "{name}: affine is_zero");
    ensure_eq!(Zero::is_zero(&qp), q.is_none(), "convert", "{name}: projective is_zero");
    ensure!(Zero::is_zero(&Projective::<C>::zero()) && Zero::is_zero(&<Projective<C> as AdditiveGroup>::ZERO) && Projective::<C>::default().is_zero(), "convert", "{name}: zero");
    ensure!(AffineRepr::is_zero(&<Affine<C> as AffineRepr>::zero()) && AffineRepr::is_zero(&Affine::<C>::default()), "convert", "{name}: affine zero");
    // Equality does not depend on the representation.
    let eq = q == w;
    ensure_eq!((qa == wa, qp == wp, qp == wa, qa == wp), (eq, eq, eq, eq), "eq", "{name}: equality P={q:?} Q={w:?} z={z1},{z2}");
    ensure!(qp == proj(&q, &z2) && hash(&qp) == hash(&proj(&q, &z2)) && hash(&qp) == hash(&qa), "eq", "{name}: rescaled point equals and hashes alike: {q:?} z={z1},{z2}");
    ensure_eq!((format!("{qp}"), format!("{qa:?}")), (format!("{qa}"), format!("{qa}")), "text", "{name}: text");
    // Negation.
    let nq = i.neg(&q);
    ensure_eq!(unaff(-qa), nq, "neg", "{name}: affine negation of {q:?}");
    is!("neg", "-P", -qp, &nq);
    let mut x = qp;
    x.neg_in_place();
    is!("neg", "neg_in_place", x, &nq);
    // Addition in every mixture.
    let (mut wam, mut wpm) = (wa, wp);
    is!("add", "proj+proj", qp + wp, &sum);
    is!("add", "proj+&proj", qp + &wp, &sum);
    is!("add", "&proj+proj", &qp + wp, &sum);
    is!("add", "&proj+&proj", &qp + &wp, &sum);
    is!("add", "proj+&mut proj", qp + &mut wpm, &sum);
    is!("add", "&proj+&mut proj", &qp + &mut wpm, &sum);
    is!("add", "proj+aff", qp + wa, &sum);
    is!("add", "proj+&aff", qp + &wa, &sum);
    is!("add", "aff+proj", qa + wp, &sum);
    is!("add", "aff+&proj", qa + &wp, &sum);
    is!("add", "aff+aff", qa + wa, &sum);
    is!("add", "aff+&aff", qa + &wa, &sum);
    is!("sub", "proj-proj", qp - wp, &diff);
    is!("sub", "proj-&proj", qp - &wp, &diff);
    is!("sub", "&proj-proj", &qp - wp, &diff);
    is!("sub", "&proj-&proj", &qp - &wp, &diff);
    is!("sub", "proj-&mut proj", qp - &mut wpm, &diff);
    is!("sub", "&proj-&mut proj", &qp - &mut wpm, &diff);
    is!("sub", "proj-aff", qp - wa, &diff);
    is!("sub", "proj-&aff", qp - &wa, &diff);
    is!("sub", "aff-proj", qa - wp, &diff);
    is!("sub", "aff-&proj", qa - &wp, &diff);
    is!("sub", "aff-aff", qa - wa, &diff);
    is!("sub", "aff-&aff", qa - &wa, &diff);
    macro_rules! assign {
        ($sig:literal, $op:tt, $rhs:expr, $want:expr) => {{
            let mut x = qp;
            x $op $rhs;
            is!($sig, concat!("proj ", stringify!($op), " ", stringify!($rhs)), x, $want);
        }};
    }
    assign!("add", +=, wp, &sum);
    assign!("add", +=, &wp, &sum);
    assign!("add", +=, &mut wpm, &sum);
    assign!("add", +=, wa, &sum);
    assign!("add", +=, &wa, &sum);
    assign!("sub", -=, wp, &diff);
    assign!("sub", -=, &wp, &diff);
    assign!("sub", -=, &mut wpm, &diff);
    assign!("sub", -=, wa, &diff);
    assign!("sub", -=, &wa, &diff);
    let _ = &mut wam;
    is!("double", "double", qp.double(), &dbl);
    let mut x = qp;
    x.double_in_place();
    is!("double", "double_in_place", x, &dbl);
    // Lists.
    let n = s.idx(5);
    let pts: Vec<Pt> = (0..n)
        .map(|_| match s.below(4) {
            0 => q.clone(),
            1 => nq.clone(),
            2 => w.clone(),
            _ => None,
        })
        .collect();
    let ps: Vec<Projective<C>> = pts
        .iter()
        .map(|t| {
            let z = z_of(s);
            proj(t, &z)
        })
        .collect();
    let total = pts.iter().fold(None, |x, y| i.add(&x, y));
    is!("sum", "sum", ps.iter().sum(), &total);
    is!("sum", "sum by value", ps.iter().copied().sum(), &total);
    let affs: Vec<Affine<C>> = pts.iter().map(aff).collect();
    is!("sum", "affine sum", affs.iter().sum(), &total);
    is!("sum", "affine sum by value", affs.iter().copied().sum(), &total);
    let norm: Vec<Pt> = Projective::normalize_batch(&ps).into_iter().map(unaff).collect();
    ensure_eq!(norm, pts, "normalize", "{name}: normalize_batch");
    // Batch inversion (zeros stay).
    let n = s.idx(6);
    let mut vs: Vec<Fp<B, N>> = (0..n).map(|_| if s.chance(1, 3) { fp(&BigUint::zero()) } else { fp(&(BigUint::from(limb(s)) % &i.p)) }).collect();
    let want: Vec<BigUint> = vs.iter().map(|v| if v.is_zero() { BigUint::zero() } else { i.inv(&fv(*v)) }).collect();
    batch_inversion(&mut vs);
    ensure_eq!(vs.into_iter().map(fv).collect::<Vec<_>>(), want, "batch-inv", "{name}: batch_inversion");
    // Scalar multiplication.
    let k = match s.weighted(&[4, 3, 1]) {
        0 => BigUint::from(s.below(20)),
        1 => BigUint::from(s.u64() & 0xffff),
        _ => {
            if i.small() || s.chance(1, 4) {
                let d = s.below(4);
                if s.bool() { &i.r * (d + 1) - 1u8 + s.below(3) } else { big(&[limb(s), limb(s), d]) }
            } else {
                BigUint::from(s.below(1 << 20))
            }
        }
    };
    let kq = i.mul(&k, &q);
    let l = to_limbs::<16>(&k);
    s.note(|| format!("k={k}"));
    is!("mul", format!("proj.mul_bigint {k}"), qp.mul_bigint(&l[..]), &kq);
    is!("mul", format!("aff.mul_bigint {k}"), qa.mul_bigint(&l[..]), &kq);
    let bits: Vec<bool> = (0..k.bits() + s.below(3)).rev().map(|j| k.bit(j)).collect();
    is!("mul", format!("mul_bits_be {k}"), qp.mul_bits_be(bits.into_iter()), &kq);
    if k.bits() <= 64 {
        is!("mul", format!("mul_bigint u64 {k}"), qp.mul_bigint(l[0]), &kq);
        is!("mul", format!("aff mul_bigint u64 {k}"), qa.mul_bigint(Uint::<3>::from(l[0])), &kq);
    }
    if k < i.r {
        let f = Fp::<S, M>::from_bigint(Uint::new(to_limbs::<M>(&k)));
        is!("mul", format!("proj*{k}"), qp * f, &kq);
        is!("mul", format!("proj*&{k}"), qp * &f, &kq);
        is!("mul", format!("aff*{k}"), qa * f, &kq);
        is!("mul", format!("aff*&{k}"), qa * &f, &kq);
        let mut x = qp;
        x *= f;
        is!("mul", format!("*= {k}"), x, &kq);
        let mut x = qp;
        x *= &f;
        is!("mul", format!("*= &{k}"), x, &kq);
    }
    // Generator, order, cofactor, subgroup.
    if i.small() || s.chance(1, 12) {
        s.tag("order and cofactor");
        let g = Affine::<C>::generator();
        ensure!(unaff(g).is_some() && i.on(&unaff(g)), "generator", "{name}: generator on the curve");
        is!("generator", "generator", Projective::<C>::generator(), &unaff(g));
        ensure!(g.mul_bigint(S::MODULUS).is_zero(), "generator", "{name}: order of the generator");
        let hq = i.mul(&i.h, &q);
        ensure!(qp.mul_bigint(C::COFACTOR).mul_bigint(S::MODULUS).is_zero(), "order", "{name}: the group order kills {q:?}");
        is!("cofactor", "mul_by_cofactor_to_group", qa.mul_by_cofactor_to_group(), &hq);
        ensure_eq!(unaff(qa.mul_by_cofactor()), hq, "cofactor", "{name}: mul_by_cofactor {q:?}");
        ensure_eq!(unaff(qa.clear_cofactor()), hq, "cofactor", "{name}: clear_cofactor {q:?}");
        ensure_eq!(C::cofactor_is_one(), i.h.is_one(), "cofactor", "{name}: cofactor_is_one");
        let sub = i.mul(&i.r, &q).is_none();
        ensure_eq!(qa.is_in_correct_subgroup_assuming_on_curve(), sub, "subgroup", "{name}: {q:?}");
        ensure_eq!(unaff(aff(&hq).mul_by_cofactor_inv()), i.mul(&inv_mod(&i.h, &i.r), &hq), "cofactor", "{name}: mul_by_cofactor_inv {q:?}");
        // Checked constructors.
        if let Some((x, y)) = &q {
            let made = quietly(|| Affine::<C>::new(fp(x), fp(y))).ok().map(unaff);
            ensure_eq!(made, sub.then(|| q.clone()), "checked-new", "{name}: Affine::new {q:?}");
            let t = qp;
            let made = quietly(|| Projective::<C>::new(t.x, t.y, t.z)).ok().map(unproj);
            ensure_eq!(made, sub.then(|| q.clone()), "checked-new", "{name}: Projective::new {q:?} z={z1}");
            let bad = Some((x.clone(), (y + 1u8) % &i.p));
            if !i.on(&bad) {
                ensure!(quietly(|| Affine::<C>::new(fp(x), fp(&((y + 1u8) % &i.p)))).is_err(), "checked-new", "{name}: Affine::new accepts {bad:?}");
            }
        }
    }
    Ok(())
}

fn fv2<F>(x: Option<F>, f: &impl Fn(F) -> BigUint) -> Option<BigUint> {
    x.map(f)
}
fn inv_mod(x: &BigUint, r: &BigUint) -> BigUint {
    x.modpow(&(r - 2u8), r)
}

macro_rules! curves {
    ($($name:ident, $n:literal, $m:literal, $p:literal, $a:literal, $b:literal, $r:literal, [$($h:literal),*], $hi:literal, $gx:literal, $gy:literal;)*) => {
        $(
            #[allow(non_snake_case)]
            mod $name {
                use openzeppelin_crypto::{
                    arithmetic::{uint::{from_str_hex, Uint}, BigInteger},
                    curve::{sw::{Affine, SWCurveConfig}, CurveConfig},
                    field::fp::{Fp, FpParams},
                };
                pub struct B;
                impl FpParams<$n> for B {
                    const GENERATOR: Fp<Self, $n> = Fp::new(Uint::ONE);
                    const MODULUS: Uint<$n> = from_str_hex($p);
                }
                pub struct S;
                impl FpParams<$m> for S {
                    const GENERATOR: Fp<Self, $m> = Fp::new(Uint::ONE);
                    const MODULUS: Uint<$m> = from_str_hex($r);
                }
                pub struct C;
                impl CurveConfig for C {
                    type BaseField = Fp<B, $n>;
                    type ScalarField = Fp<S, $m>;
                    const COFACTOR: &'static [u64] = &[$($h),*];
                    const COFACTOR_INV: Fp<S, $m> = Fp::new(from_str_hex($hi));
                }
                impl SWCurveConfig for C {
                    const COEFF_A: Fp<B, $n> = Fp::new(from_str_hex($a));
                    const COEFF_B: Fp<B, $n> = Fp::new(from_str_hex($b));
                    const GENERATOR: Affine<Self> = Affine::new_unchecked(
                        Fp::new(from_str_hex($gx)),
                        Fp::new(from_str_hex($gy)),
                    );
                }
            }
        )*
        const CURVES: &[(fn() -> Info, fn(&mut Src, &Info) -> Check)] = &[$((
            || {
                let hx = |s: &str| BigUint::parse_bytes(s.as_bytes(), 16).unwrap();
                Info { name: stringify!($name), p: hx($p), a: hx($a), b: hx($b), r: hx($r), h: big(&[$($h),*]) }
            },
            group::<$name::C, $name::B, $name::S, $n, $m>,
        )),*];
    };
}
curves! {
    C97, 1, 1, "61", "12", "50", "6b", [0x1], "1", "4f", "24";
    C97h, 1, 1, "61", "29", "1a", "b", [0x8], "7", "53", "36";
    C103z, 1, 1, "67", "0", "2f", "61", [0x1], "1", "15", "30";
    C103zh, 1, 1, "67", "0", "22", "7", [0xc], "3", "45", "49";
    C89b0, 1, 1, "59", "4e", "0", "5", [0x10], "1", "20", "33";
    C31, 1, 1, "1f", "1b", "a", "25", [0x1], "1", "f", "f";
    C65537, 1, 1, "10001", "ffa8", "ad4e", "10123", [0x1], "1", "204f", "78cd";
    CGold, 1, 1, "ffffffff00000001", "fffffffefffffffe", "ab", "155555552e632a7b", [0xc], "8e38e38d353fc5e", "85cae11766a50c69", "7f319dad074c3ee4";
    CT64, 1, 2, "ffffffffffffffc5", "9d1f33f5ee37deb0", "59428d12b4903028", "100000000e3bb891d", [0x1], "1", "d4c300e7b90457d5", "6c6a5263be819cd7";
    Secp, 4, 4, "fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", "0", "7", "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", [0x1], "1", "79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798", "483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8";
    P256, 4, 4, "ffffffff00000001000000000000000000000000ffffffffffffffffffffffff", "ffffffff00000001000000000000000000000000fffffffffffffffffffffffc", "5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b", "ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551", [0x1], "1", "6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296", "4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5";
    CPallas, 4, 4, "40000000000000000000000000000000224698fc094cf91b992d30ed00000001", "0", "5", "40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001", [0x1], "1", "40000000000000000000000000000000224698fc094cf91b992d30ed00000000", "2";
    CVesta, 4, 4, "40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001", "0", "5", "40000000000000000000000000000000224698fc094cf91b992d30ed00000001", [0x1], "1", "40000000000000000000000000000000224698fc0994a8dd8c46eb2100000000", "2";
    G381, 6, 4, "1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab", "0", "4", "73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001", [0x8c00aaab0000aaab, 0x396c8c005555e156], "73eda753299d7d44e34f0b31458fbb21d07c8ff73bf14809ec0000020005fffb", "17f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb", "8b3f481e3aaa0f1a09e30ed741d8ae4fcf5e095d5d00af600db18cb2c04b3edd03cc744a2888ae40caa232946c5e7e1";
}

fn any(s: &mut Src) -> Check {
    // Small curves are enumerated almost completely, large ones sampled.
    let ws: Vec<u64> = CURVES.iter().map(|(f, _)| if f().small() { 12 } else { 2 }).collect();
    let j = s.weighted(&ws);
    let i = CURVES[j].0();
    CURVES[j].1(s, &i)
}

pub const PROP: Prop = Prop {
    id: "C29",
    name: "curve groups",
    parts: &[("group law", any, 1)],
    rule: "both operands are points other than the identity and the first has rescaled coordinates (z is not 1)",
    quick_cases: 150_000,
    thorough_cases: 2_000_000,
    size: (1, 1),
};
