//! C23 math, C24 bitmap, C25 checkpoints.

use std::collections::BTreeMap;

use alloy_primitives::{U256, U32, U512};
use alloy_sol_types::sol;
use engine::{ensure, ensure_eq, quietly, Check, Prop, Src};
use openzeppelin_stylus::utils::{
    math::alloy::{Math, Rounding},
    structs::{
        bitmap::BitMap,
        checkpoints::{Trace, S160, S208, S224},
    },
};
use ozverif::util::*;
use stylus_sdk::{alloy_primitives::Uint, prelude::*};

// ---------------------------------------------------------------- math

fn wide(s: &mut Src) -> U256 {
    match s.weighted(&[3, 3, 2, 2, 1]) {
        0 => amount(s, &[]),
        1 => {
            // A value with runs of equal bits.
            let mut v = U256::ZERO;
            for _ in 0..s.range(1, 4) {
                let (a, b) = (s.idx(256), s.idx(256));
                let (lo, hi) = (a.min(b), a.max(b));
                v ^= (MAX >> (255 - hi)) & !((U256::from(1) << lo) - u(1));
            }
            v
        }
        2 => {
            // Perfect square neighbourhood.
            let k = s.idx(128);
            let r = U256::from_limbs([s.u64(), s.u64(), 0, 0]) >> k;
            let q = r.wrapping_mul(r);
            match s.idx(3) {
                0 => q,
                1 => q.wrapping_sub(u(1)),
                _ => q.wrapping_add(r),
            }
        }
        3 => rand_u256(s),
        _ => MAX - u(s.below(4)),
    }
}

fn sqrt_avg(s: &mut Src) -> Check {
    let (a, b) = (wide(s), wide(s));
    s.note(|| format!("a = {a}, b = {b}"));
    let r = quietly(|| Math::sqrt(a)).map_err(|e| engine::Fail { sig: "sqrt".into(), msg: e })?;
    let (rw, aw) = (U512::from(r), U512::from(a));
    let next = rw + U512::from(1);
    ensure!(
        rw * rw <= aw && next * next > aw,
        "sqrt",
        "sqrt({a}) = {r} is not the floor of the square root"
    );
    let want: U512 = (U512::from(a) + U512::from(b)) >> 1;
    ensure_eq!(Math::average(a, b), U256::from(want), "average", "average({a}, {b})");
    ensure_eq!(Math::average(b, a), U256::from(want), "average", "average({b}, {a})");
    s.nontrivial = a > u(3) && b > u(3) && a != b;
    Ok(())
}

fn mul_div(s: &mut Src) -> Check {
    let x = wide(s);
    let y = wide(s);
    let p: U512 = U512::from(x) * U512::from(y);
    let d = match s.weighted(&[4, 3, 2, 1]) {
        0 => wide(s),
        // Around the overflow boundary: floor(p / d) near 2^256 - 1.
        1 => {
            let q: U512 = p / U512::from(MAX);
            U256::from(q).wrapping_add(u(s.below(3))).max(u(1))
        }
        // A divisor that makes exact or off-by-one quotients likely.
        2 => {
            if s.bool() {
                x
            } else {
                y
            }
        }
        _ => u(s.below(3)),
    };
    let ceil = s.bool();
    s.note(|| format!("mul_div({x}, {y}, {d}, {})", if ceil { "ceil" } else { "floor" }));
    let got = quietly(|| {
        Math::mul_div(x, y, d, if ceil { Rounding::Ceil } else { Rounding::Floor })
    });
    if d.is_zero() {
        ensure!(got.is_err(), "zero-div", "mul_div by zero answered {got:?}");
        s.tag("zero-denominator");
        return Ok(());
    }
    let dw = U512::from(d);
    let (mut q, r) = (p / dw, p % dw);
    if ceil && !r.is_zero() {
        q += U512::from(1);
    }
    s.nontrivial = !r.is_zero() && !q.is_zero();
    if q > U512::from(MAX) {
        ensure!(got.is_err(), "overflow", "mul_div({x}, {y}, {d}) overflows but answered {got:?}");
        s.tag("overflow");
    } else {
        ensure_eq!(got, Ok(U256::from(q)), "mul-div", "mul_div({x}, {y}, {d}, ceil = {ceil})");
        s.tag(if r.is_zero() { "exact" } else { "inexact" });
    }
    Ok(())
}

pub const MATH: Prop = Prop {
    id: "C23",
    name: "Math",
    parts: &[("sqrt-average", sqrt_avg, 1), ("mul-div", mul_div, 2)],
    rule: "square root and average: both operands above 3 and different; multiply-divide: non-zero quotient and non-zero remainder",
    quick_cases: 15_000_000,
    thorough_cases: 60_000_000,
    size: (1, 1),
};

// ---------------------------------------------------------------- bitmap

sol! {
    interface IB {
        function get(uint256 i) external view returns (bool);
        function set(uint256 i) external;
        function unset(uint256 i) external;
        function setTo(uint256 i, bool v) external;
        function push(uint256 key, uint256 value) external returns (uint256, uint256);
        function pushRead(uint256 key, uint256 value, uint256 look) external returns (uint256, uint256);
        function lower(uint256 key) external view returns (uint256);
        function upper(uint256 key) external view returns (uint256);
        function recent(uint256 key) external view returns (uint256);
        function latest() external view returns (uint256);
        function latestCheckpoint() external view returns (bool, uint256, uint256);
        function length() external view returns (uint256);
        function at(uint32 pos) external view returns (uint256, uint256);
    }
    error CheckpointUnorderedInsertion();
}
use IB::*;

#[storage]
pub struct BM {
    map: BitMap,
}
unsafe impl TopLevelStorage for BM {}
#[public]
impl BM {
    fn get(&self, i: U256) -> bool {
        self.map.get(i)
    }
    fn set(&mut self, i: U256) {
        self.map.set(i);
    }
    fn unset(&mut self, i: U256) {
        self.map.unset(i);
    }
    fn set_to(&mut self, i: U256, v: bool) {
        self.map.set_to(i, v);
    }
}

fn bitmap(s: &mut Src) -> Check {
    let c = ca(1);
    deploy::<BM>(c);
    // A pool of indices with the relations that could alias.
    let mut pool: Vec<U256> = vec![];
    let base = match s.idx(4) {
        0 => U256::ZERO,
        1 => amount(s, &[]),
        2 => MAX - u(s.below(600)),
        _ => rand_u256(s),
    };
    for d in [0u64, 1, 2, 7, 8, 63, 64, 127, 128, 255, 256, 257, 511, 512, 65536] {
        pool.push(base.wrapping_add(u(d)));
        if s.chance(1, 3) {
            pool.push(base.wrapping_sub(u(d)));
        }
    }
    for k in [9u32, 63, 64, 128, 200, 255] {
        pool.push(base ^ (U256::from(1) << k));
    }
    pool.push(base >> 8);
    pool.push(base << 8);
    pool.sort();
    pool.dedup();
    let mut m: BTreeMap<U256, bool> = BTreeMap::new();
    let max = s.size;
    s.steps(max, |s| {
        let i = s.pick(&pool);
        let v = match s.idx(4) {
            0 => {
                s.note(|| format!("set({i:#x})"));
                judge(&send(eoa(1), c, setCall { i }), &Exp::Ok(vec![]), "set")?;
                true
            }
            1 => {
                s.note(|| format!("unset({i:#x})"));
                judge(&send(eoa(1), c, unsetCall { i }), &Exp::Ok(vec![]), "unset")?;
                false
            }
            _ => {
                let v = s.bool();
                s.note(|| format!("set_to({i:#x}, {v})"));
                judge(&send(eoa(1), c, setToCall { i, v }), &Exp::Ok(vec![]), "set_to")?;
                v
            }
        };
        if m.get(&i) == Some(&true) && !v {
            s.tag("cleared");
        }
        m.insert(i, v);
        for j in &pool {
            ensure_eq!(
                view(c, getCall { i: *j })?._0,
                m.get(j).copied().unwrap_or(false),
                "bit",
                "get({j:#x}) after writing {i:#x} := {v}"
            );
        }
        Ok(())
    })?;
    s.nontrivial = s.has("cleared") && m.values().filter(|v| **v).count() >= 2;
    Ok(())
}

pub const BITMAP: Prop = Prop {
    id: "C24",
    name: "BitMap",
    parts: &[("histories", bitmap, 1)],
    rule: "a set bit was cleared and at least two bits are set in the end",
    quick_cases: 100_000,
    thorough_cases: 2_000_000,
    size: (30, 120),
};

// ---------------------------------------------------------------- checkpoints

fn cut<const B: usize, const L: usize>(x: U256) -> Uint<B, L> {
    let mut l = [0u64; L];
    l.copy_from_slice(&x.as_limbs()[..L]);
    Uint::from_limbs(l)
}
fn widen<const B: usize, const L: usize>(x: Uint<B, L>) -> U256 {
    let mut l = [0u64; 4];
    l[..L].copy_from_slice(x.as_limbs());
    U256::from_limbs(l)
}

macro_rules! trace_contract {
    ($name:ident, $s:ty) => {
        #[storage]
        pub struct $name {
            trace: Trace<$s>,
        }
        unsafe impl TopLevelStorage for $name {}
        #[public]
        impl $name {
            fn push(&mut self, key: U256, value: U256) -> Result<(U256, U256), Vec<u8>> {
                let (a, b) = self.trace.push(cut(key), cut(value))?;
                Ok((widen(a), widen(b)))
            }
            /// Push and look up within one call.
            fn push_read(
                &mut self,
                key: U256,
                value: U256,
                look: U256,
            ) -> Result<(U256, U256), Vec<u8>> {
                let (a, _) = self.trace.push(cut(key), cut(value)).map_err(nested)?;
                Ok((widen(a), widen(self.trace.upper_lookup(cut(look)))))
            }
            fn lower(&self, key: U256) -> U256 {
                widen(self.trace.lower_lookup(cut(key)))
            }
            fn upper(&self, key: U256) -> U256 {
                widen(self.trace.upper_lookup(cut(key)))
            }
            fn recent(&self, key: U256) -> U256 {
                widen(self.trace.upper_lookup_recent(cut(key)))
            }
            fn latest(&self) -> U256 {
                widen(self.trace.latest())
            }
            fn latest_checkpoint(&self) -> (bool, U256, U256) {
                match self.trace.latest_checkpoint() {
                    Some((k, v)) => (true, widen(k), widen(v)),
                    None => (false, U256::ZERO, U256::ZERO),
                }
            }
            fn length(&self) -> U256 {
                self.trace.length()
            }
            fn at(&self, pos: U32) -> (U256, U256) {
                let (k, v) = self.trace.at(pos);
                (widen(k), widen(v))
            }
        }
    };
}
trace_contract!(Tr160, S160);
trace_contract!(Tr208, S208);
trace_contract!(Tr224, S224);

fn checkpoints(s: &mut Src) -> Check {
    let c = ca(1);
    let (kb, vb) = match s.idx(3) {
        0 => {
            deploy::<Tr160>(c);
            (96u32, 160u32)
        }
        1 => {
            deploy::<Tr208>(c);
            (48, 208)
        }
        _ => {
            deploy::<Tr224>(c);
            (32, 224)
        }
    };
    let kmax: U256 = (U256::from(1) << kb) - u(1);
    let vmax: U256 = (U256::from(1) << vb) - u(1);
    let mut m: BTreeMap<U256, U256> = BTreeMap::new();
    // Starting key: usually small, sometimes close to the top of the range.
    let mut next = match s.idx(5) {
        0 => U256::ZERO,
        1 => kmax - u(s.below(40)),
        2 => (U256::from(1) << s.idx(kb as usize)) - u(1),
        _ => u(s.below(20)),
    };
    s.note(|| format!("{kb}-bit keys, {vb}-bit values"));
    // Nothing was pushed yet.
    ensure_eq!(view(c, lengthCall {})?._0, u(0), "length", "length() of an empty trace");
    ensure_eq!(view(c, latestCall {})?._0, u(0), "latest", "latest() of an empty trace");
    let lc = view(c, latestCheckpointCall {})?;
    ensure_eq!((lc._0, lc._1, lc._2), (false, u(0), u(0)), "latest-checkpoint", "latest_checkpoint() of an empty trace");
    ensure!(view_raw(eoa(1), c, atCall { pos: 0 }).is_err(), "at-range", "at(0) answered in an empty trace");
    for k in [U256::ZERO, next.min(kmax), kmax] {
        ensure_eq!(view(c, lowerCall { key: k })?._0, u(0), "lower", "lower_lookup({k}) in an empty trace");
        ensure_eq!(view(c, upperCall { key: k })?._0, u(0), "upper", "upper_lookup({k}) in an empty trace");
        ensure_eq!(view(c, recentCall { key: k })?._0, u(0), "recent", "upper_lookup_recent({k}) in an empty trace");
    }
    if s.chance(1, 40) {
        // A long trace to begin with.
        let n = s.range(40, 400);
        let step = s.range(1, 9);
        s.note(|| format!("{n} pushes in steps of {step} from {next}"));
        for _ in 0..n {
            if next > kmax {
                break;
            }
            let value = u(s.range(1, 1 << 30));
            judge(&send(eoa(1), c, pushCall { key: next, value }), &Exp::Ok([ret_u256(m.values().next_back().copied().unwrap_or_default()), ret_u256(value)].concat()), "push")?;
            m.insert(next, value);
            next += u(step);
        }
    }
    let max = s.size;
    s.steps(max, |s| {
        let last = m.keys().next_back().copied();
        let key = match (last, s.weighted(&[10, 2, 2])) {
            (None, _) => next,
            (Some(l), 0) => {
                let step = match s.idx(16) {
                    0..=7 => u(1),
                    8..=11 => u(s.range(2, 5)),
                    12..=14 => u(s.range(2, 1 << 20)),
                    _ => U256::from(1) << s.idx(kb as usize),
                };
                (l + step).min(kmax)
            }
            (Some(l), 1) => l,
            (Some(l), _) => l.saturating_sub(u(s.range(1, 4))),
        };
        next = key;
        let value = (amount(s, &[vmax])) & vmax;
        s.note(|| format!("push({key}, {})", num(value)));
        let prev = last.map(|l| m[&l]).unwrap_or_default();
        let unordered = last.map(|l| l > key).unwrap_or(false);
        let together = s.chance(1, 6);
        let e = if unordered { vec![err(CheckpointUnorderedInsertion {})] } else { vec![] };
        let mut after = m.clone();
        if !unordered {
            after.insert(key, value);
        }
        let (out, ret) = if together {
            let look = if s.bool() { key } else { u(s.below(30)) & kmax };
            let found = after.range(..=look).next_back().map(|x| *x.1).unwrap_or_default();
            (
                send(eoa(1), c, pushReadCall { key, value, look }),
                [ret_u256(prev), ret_u256(found)].concat(),
            )
        } else {
            (send(eoa(1), c, pushCall { key, value }), [ret_u256(prev), ret_u256(value)].concat())
        };
        judge(&out, &Exp::from(e, false, ret), "push")?;
        if unordered {
            s.tag("unordered");
        } else if last == Some(key) {
            s.tag("overwrite");
        }
        m = after;
        let n = m.len();
        ensure_eq!(view(c, lengthCall {})?._0, u(n as u64), "length", "length()");
        let lastv = m.iter().next_back().map(|(k, v)| (*k, *v));
        ensure_eq!(view(c, latestCall {})?._0, lastv.map(|x| x.1).unwrap_or_default(), "latest", "latest()");
        let lc = view(c, latestCheckpointCall {})?;
        ensure_eq!(
            (lc._0, lc._1, lc._2),
            match lastv {
                Some((k, v)) => (true, k, v),
                None => (false, U256::ZERO, U256::ZERO),
            },
            "latest-checkpoint",
            "latest_checkpoint()"
        );
        // The new entry and a random one, through `at`.
        for pos in [n as u64 - 1, s.below(n as u64)] {
            let got = view(c, atCall { pos: pos as u32 })?;
            let (k, v) = m.iter().nth(pos as usize).unwrap();
            ensure_eq!((got._0, got._1), (*k, *v), "at", "at({pos})");
        }
        ensure!(
            view_raw(eoa(1), c, atCall { pos: n as u32 }).is_err(),
            "at-range",
            "at({n}) answered beyond the end"
        );
        // Lookups: around a random entry, at the extremes, and anywhere.
        let around = *m.keys().nth(s.idx(n)).unwrap();
        let mut keys = vec![around];
        keys.push(match s.idx(5) {
            0 => around.saturating_sub(u(1)),
            1 => (around + u(1)).min(kmax),
            2 => U256::ZERO,
            3 => kmax,
            _ => amount(s, &[around, kmax]) & kmax,
        });
        for k in keys {
            let low = m.range(k..).next().map(|x| *x.1).unwrap_or_default();
            let up = m.range(..=k).next_back().map(|x| *x.1).unwrap_or_default();
            ensure_eq!(view(c, lowerCall { key: k })?._0, low, "lower", "lower_lookup({k}) in {m:?}");
            ensure_eq!(view(c, upperCall { key: k })?._0, up, "upper", "upper_lookup({k}) in {m:?}");
            ensure_eq!(view(c, recentCall { key: k })?._0, up, "recent", "upper_lookup_recent({k}) in {m:?}");
        }
        Ok(())
    })?;
    // At the end: every position and every gap.
    let ks: Vec<U256> = m.keys().copied().collect();
    for (i, k) in ks.iter().enumerate() {
        let got = view(c, atCall { pos: i as u32 })?;
        ensure_eq!((got._0, got._1), (*k, m[k]), "at", "at({i})");
        for q in [k.saturating_sub(u(1)), *k, (*k + u(1)).min(kmax)] {
            let low = m.range(q..).next().map(|x| *x.1).unwrap_or_default();
            let up = m.range(..=q).next_back().map(|x| *x.1).unwrap_or_default();
            ensure_eq!(view(c, lowerCall { key: q })?._0, low, "lower", "lower_lookup({q}) in {m:?}");
            ensure_eq!(view(c, upperCall { key: q })?._0, up, "upper", "upper_lookup({q}) in {m:?}");
            ensure_eq!(view(c, recentCall { key: q })?._0, up, "recent", "upper_lookup_recent({q}) in {m:?}");
        }
    }
    s.nontrivial = m.len() > 6 && s.has("overwrite");
    Ok(())
}

pub const CHECKPOINTS: Prop = Prop {
    id: "C25",
    name: "Checkpoints",
    parts: &[("histories", checkpoints, 1)],
    rule: "more than six entries (past the recent-lookup threshold) and at least one overwrite",
    quick_cases: 120_000,
    thorough_cases: 1_000_000,
    size: (40, 160),
};
