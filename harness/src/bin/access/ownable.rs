//! C18: ownership.

use alloy_primitives::{Address, U256};
use alloy_sol_types::sol;
use engine::{ensure_eq, Check, Prop, Src};
use openzeppelin_stylus::access::{ownable::Ownable, ownable_two_step::Ownable2Step};
use ozverif::util::*;
use stylus_sdk::{prelude::*, storage::StorageU256};

sol! {
    interface IO {
        function owner() external view returns (address);
        function pendingOwner() external view returns (address);
        function transferOwnership(address newOwner) external;
        function acceptOwnership() external;
        function renounceOwnership() external;
        function guarded(uint256 v) external;
        function force(address newOwner) external;
        function value() external view returns (uint256);
    }
    event OwnershipTransferred(address indexed previousOwner, address indexed newOwner);
    event OwnershipTransferStarted(address indexed previousOwner, address indexed newOwner);
    error OwnableUnauthorizedAccount(address account);
    error OwnableInvalidOwner(address owner);
}
use IO::*;

#[storage]
pub struct O1 {
    #[borrow]
    ownable: Ownable,
    value: StorageU256,
}
unsafe impl TopLevelStorage for O1 {}
#[public]
#[inherit(Ownable)]
impl O1 {
    fn guarded(&mut self, v: U256) -> Result<(), Vec<u8>> {
        self.ownable.only_owner()?;
        self.value.set(v);
        Ok(())
    }
    fn force(&mut self, new_owner: Address) {
        self.ownable._transfer_ownership(new_owner);
    }
    fn value(&self) -> U256 {
        self.value.get()
    }
}

#[storage]
pub struct O2 {
    #[borrow]
    ownable: Ownable2Step,
    value: StorageU256,
}
unsafe impl TopLevelStorage for O2 {}
#[public]
#[inherit(Ownable2Step)]
impl O2 {
    fn guarded(&mut self, v: U256) -> Result<(), Vec<u8>> {
        self.ownable.only_owner()?;
        self.value.set(v);
        Ok(())
    }
    fn force(&mut self, new_owner: Address) {
        self.ownable.ownable._transfer_ownership(new_owner);
    }
    fn value(&self) -> U256 {
        self.value.get()
    }
}

fn history(s: &mut Src, two: bool) -> Check {
    let c = ca(1);
    if two {
        deploy::<O2>(c);
    } else {
        deploy::<O1>(c);
    }
    let who = [eoa(1), eoa(2), eoa(3), c, Address::from([0xff; 20])];
    let mut owner = Z;
    let mut pending = Z;
    let mut value = U256::ZERO;
    let mut ever_renounced = false;
    // The first owner is set as a constructor would.
    let first = s.pick(&who);
    let out = send(eoa(9), c, forceCall { newOwner: first });
    judge(&out, &Exp::Ok(vec![]), "initial owner")?;
    judge_logs(
        &out.logs,
        &[ev(c, OwnershipTransferred { previousOwner: Z, newOwner: first })],
        "initial owner",
    )?;
    owner = if owner == Z { first } else { owner };
    s.note(|| format!("owner = {}", short(first)));
    let max = s.size;
    s.steps(max, |s| {
        let sender = match s.weighted(&[4, 3, 3]) {
            0 if owner != Z => owner,
            1 if pending != Z => pending,
            _ => s.pick(&who),
        };
        let unauth = err(OwnableUnauthorizedAccount { account: sender });
        match s.weighted(&[6, 2, 4, if two { 5 } else { 0 }]) {
            0 => {
                let n = match s.weighted(&[8, 1]) {
                    0 => s.pick(&who),
                    _ => Z,
                };
                s.note(|| format!("{}.transferOwnership({})", short(sender), short(n)));
                let mut e = vec![];
                if sender != owner {
                    e.push(unauth);
                }
                if n == Z && !two {
                    e.push(err(OwnableInvalidOwner { owner: Z }));
                }
                let exp = Exp::from(e, false, vec![]);
                let out = send(sender, c, transferOwnershipCall { newOwner: n });
                judge(&out, &exp, "transferOwnership")?;
                if exp.is_ok() {
                    let l = if two {
                        if pending != Z && pending != n {
                            s.tag("replaced");
                        }
                        pending = n;
                        ev(c, OwnershipTransferStarted { previousOwner: owner, newOwner: n })
                    } else {
                        let l = ev(c, OwnershipTransferred { previousOwner: owner, newOwner: n });
                        owner = n;
                        l
                    };
                    judge_logs(&out.logs, &[l], "transferOwnership")?;
                    s.tag("transfer");
                }
            }
            1 => {
                if !s.chance(1, 3) {
                    return Ok(());
                }
                s.note(|| format!("{}.renounceOwnership()", short(sender)));
                let mut e = vec![];
                if sender != owner {
                    e.push(unauth);
                }
                let exp = Exp::from(e, false, vec![]);
                let out = send(sender, c, renounceOwnershipCall {});
                judge(&out, &exp, "renounceOwnership")?;
                if exp.is_ok() {
                    judge_logs(
                        &out.logs,
                        &[ev(c, OwnershipTransferred { previousOwner: owner, newOwner: Z })],
                        "renounceOwnership",
                    )?;
                    owner = Z;
                    pending = Z;
                    ever_renounced = true;
                    s.tag("renounce");
                }
            }
            2 => {
                let v = u(s.below(1000));
                s.note(|| format!("{}.guarded({v})", short(sender)));
                let mut e = vec![];
                if sender != owner {
                    e.push(unauth);
                }
                let exp = Exp::from(e, false, vec![]);
                let out = send(sender, c, guardedCall { v });
                judge(&out, &exp, "owner-only operation")?;
                judge_logs(&out.logs, &[], "owner-only operation")?;
                if exp.is_ok() {
                    value = v;
                    s.tag("guard-passed");
                } else {
                    s.tag("guard-refused");
                }
            }
            _ => {
                s.note(|| format!("{}.acceptOwnership()", short(sender)));
                let mut e = vec![];
                if sender != pending {
                    e.push(unauth);
                }
                let exp = Exp::from(e, false, vec![]);
                let out = send(sender, c, acceptOwnershipCall {});
                judge(&out, &exp, "acceptOwnership")?;
                if exp.is_ok() {
                    judge_logs(
                        &out.logs,
                        &[ev(c, OwnershipTransferred { previousOwner: owner, newOwner: sender })],
                        "acceptOwnership",
                    )?;
                    owner = sender;
                    pending = Z;
                    s.tag("accept");
                } else {
                    s.tag("accept-refused");
                }
            }
        }
        if ever_renounced {
            ensure_eq!(owner, Z, "renounced", "model owner after renunciation");
        }
        ensure_eq!(view(c, ownerCall {})?._0, owner, "owner", "owner()");
        if two {
            ensure_eq!(view(c, pendingOwnerCall {})?._0, pending, "pending", "pendingOwner()");
        }
        ensure_eq!(view(c, valueCall {})?._0, value, "value", "guarded value");
        Ok(())
    })?;
    s.nontrivial = s.has("transfer")
        && s.has("guard-passed")
        && s.has("guard-refused")
        && (!two || (s.has("accept") && s.has("accept-refused")));
    Ok(())
}
fn one(s: &mut Src) -> Check {
    history(s, false)
}
fn two(s: &mut Src) -> Check {
    history(s, true)
}

pub const PROP: Prop = Prop {
    id: "C18",
    name: "Ownable",
    parts: &[("single-step", one, 1), ("two-step", two, 2)],
    rule: "ownership was transferred (two-step: accepted, and an acceptance refused) and an owner-only call both passed and was refused",
    quick_cases: 1_000_000,
    thorough_cases: 3_000_000,
    size: (30, 100),
};
