//! C04: nonces.

use std::collections::{BTreeMap, BTreeSet};

use alloy_primitives::{Address, U256};
use alloy_sol_types::sol;
use engine::{ensure, ensure_eq, Check, Prop, Src};
use openzeppelin_stylus::utils::nonces::Nonces;
use ozverif::{host, util::*};
use stylus_sdk::prelude::*;

sol! {
    interface IN {
        function nonces(address owner) external view returns (uint256);
        function useNonce(address owner) external returns (uint256);
        function useChecked(address owner, uint256 nonce) external;
        function useTwo(address a, address b) external returns (uint256);
    }
    error InvalidAccountNonce(address account, uint256 currentNonce);
}
use IN::*;

#[storage]
pub struct N {
    #[borrow]
    nonces: Nonces,
}
unsafe impl TopLevelStorage for N {}
#[public]
#[inherit(Nonces)]
impl N {
    fn use_nonce(&mut self, owner: Address) -> U256 {
        self.nonces.use_nonce(owner)
    }
    fn use_checked(&mut self, owner: Address, nonce: U256) -> Result<(), Vec<u8>> {
        if nonce.bit(0) {
            return self.nonces.use_checked_nonce(owner, nonce).map_err(nested);
        }
        Ok(self.nonces.use_checked_nonce(owner, nonce)?)
    }
    /// Two uses in one call.
    fn use_two(&mut self, a: Address, b: Address) -> U256 {
        let x = self.nonces.use_nonce(a);
        let y = self.nonces.use_nonce(b);
        (x << 128) | y
    }
}

fn run(s: &mut Src) -> Check {
    let c = ca(1);
    deploy::<N>(c);
    let who = [Z, eoa(1), eoa(2), c, Address::from([0xff; 20])];
    let mut m: BTreeMap<Address, U256> = BTreeMap::new();
    let mut used: BTreeSet<(Address, U256)> = BTreeSet::new();
    if s.chance(1, 5) {
        // Start one account high: find where its counter is kept by using it.
        let v = match s.idx(3) {
            0 => MAX - u(s.below(3)),
            1 => (u(1) << s.pick(&[8usize, 16, 32, 64, 96, 128, 160, 248])) - u(1 + s.below(3)),
            _ => rand_u256(s),
        };
        let old = host::dump(c);
        judge(&send(eoa(3), c, useNonceCall { owner: who[1] }), &Exp::Ok(ret_u256(u(0))), "first use")?;
        let changed: Vec<U256> = host::dump(c).into_iter().filter(|(k, v)| old.get(k) != Some(v)).map(|x| x.0).collect();
        if let [slot] = changed[..] {
            host::sstore(c, slot, v);
            if view(c, noncesCall { owner: who[1] })?._0 != v {
                // Not a plain counter: cannot be seeded from outside.
                return Ok(());
            }
            s.note(|| format!("nonce of {} starts at {v}", short(who[1])));
            m.insert(who[1], v);
        } else {
            m.insert(who[1], u(1));
        }
    }
    let max = s.size;
    s.steps(max, |s| {
        let o = s.pick(&who);
        let sender = s.pick(&who[1..]);
        let cur = m.get(&o).copied().unwrap_or_default();
        let at_end = cur == MAX;
        match s.idx(4) {
            0 => {
                s.note(|| format!("use({})", short(o)));
                let exp = Exp::from(vec![], at_end, ret_u256(cur));
                let out = send(sender, c, useNonceCall { owner: o });
                judge(&out, &exp, "use_nonce")?;
                if exp.is_ok() {
                    ensure!(used.insert((o, cur)), "reuse", "nonce {cur} of {o} returned twice");
                    m.insert(o, cur + u(1));
                    s.tag("use");
                }
            }
            3 => {
                let o2 = if s.bool() { o } else { s.pick(&who) };
                s.note(|| format!("use({}) and use({})", short(o), short(o2)));
                let cur2 = if o == o2 {
                    cur.wrapping_add(u(1))
                } else {
                    m.get(&o2).copied().unwrap_or_default()
                };
                let exp = Exp::from(vec![], at_end || cur2 == MAX, ret_u256((cur << 128) | cur2));
                let out = send(sender, c, useTwoCall { a: o, b: o2 });
                judge(&out, &exp, "two uses")?;
                if exp.is_ok() {
                    ensure!(used.insert((o, cur)), "reuse", "nonce {cur} of {o} returned twice");
                    ensure!(used.insert((o2, cur2)), "reuse", "nonce {cur2} of {o2} returned twice");
                    m.insert(o, cur + u(1));
                    m.insert(o2, cur2 + u(1));
                    s.tag("use");
                }
            }
            _ => {
                let n = match s.idx(4) {
                    0 | 1 => cur,
                    2 => amount(s, &[cur]),
                    _ => {
                        let x = s.pick(&who);
                        m.get(&x).copied().unwrap_or_default()
                    }
                };
                s.note(|| format!("use_checked({}, {})", short(o), num(n)));
                let exp = if n != cur {
                    let e = err(InvalidAccountNonce { account: o, currentNonce: cur });
                    if at_end {
                        Exp::Fail
                    } else {
                        Exp::Rev(vec![e])
                    }
                } else {
                    Exp::from(vec![], at_end, vec![])
                };
                let out = send(sender, c, useCheckedCall { owner: o, nonce: n });
                judge(&out, &exp, "use_checked_nonce")?;
                if exp.is_ok() {
                    ensure!(used.insert((o, cur)), "reuse", "nonce {cur} of {o} accepted twice");
                    m.insert(o, cur + u(1));
                    s.tag("checked");
                } else {
                    s.tag("refused");
                }
            }
        }
        for w in &who {
            ensure_eq!(
                view(c, noncesCall { owner: *w })?._0,
                m.get(w).copied().unwrap_or_default(),
                "nonce",
                "nonces({})",
                short(*w)
            );
        }
        Ok(())
    })?;
    s.nontrivial = s.has("use") && s.has("checked") && s.has("refused");
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C04",
    name: "Nonces",
    parts: &[("histories", run, 1)],
    rule: "the history had an unchecked use, an accepted checked use and a refused one",
    quick_cases: 800_000,
    thorough_cases: 3_000_000,
    size: (30, 120),
};
