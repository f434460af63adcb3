//! C21: the vesting wallet.

use std::rc::Rc;

use alloy_primitives::{Address, U256, U512};
use alloy_sol_types::{sol, SolCall};
use engine::{ensure, ensure_eq, Check, Prop, Src};
use openzeppelin_stylus::finance::vesting_wallet::VestingWallet;
use ozverif::{
    host::{self, Code},
    tokens::{gen_ans, Ans, Moved, Tok},
    util::*,
};
use stylus_sdk::prelude::*;

sol! {
    interface IV {
        function owner() external view returns (address);
        function transferOwnership(address newOwner) external;
        function renounceOwnership() external;
        function start() external view returns (uint256);
        function duration() external view returns (uint256);
        function end() external view returns (uint256);
        function released() external view returns (uint256);
        function released(address token) external view returns (uint256);
        function releasable() external view returns (uint256);
        function releasable(address token) external returns (uint256);
        function release() external;
        function release(address token) external;
        function vestedAmount(uint64 timestamp) external view returns (uint256);
        function vestedAmount(address token, uint64 timestamp) external returns (uint256);
        function force(address newOwner) external;
    }
    event EtherReleased(uint256 amount);
    event ERC20Released(address indexed token, uint256 amount);
    event OwnershipTransferred(address indexed previousOwner, address indexed newOwner);
    error OwnableUnauthorizedAccount(address account);
    error OwnableInvalidOwner(address owner);
    error InvalidToken(address token);
}
use IV::*;

#[storage]
pub struct V {
    #[borrow]
    wallet: VestingWallet,
}
unsafe impl TopLevelStorage for V {}
#[public]
#[inherit(VestingWallet)]
impl V {
    fn force(&mut self, new_owner: Address) {
        self.wallet.ownable._transfer_ownership(new_owner);
    }
    #[receive]
    fn receive(&mut self) -> Result<(), Vec<u8>> {
        Ok(())
    }
}

/// `None`: the exact computation exceeds 256 bits on the way.
fn schedule(total: U256, start: u64, dur: u64, t: u64) -> Option<U256> {
    let end = start as u128 + dur as u128;
    if t < start {
        Some(U256::ZERO)
    } else if t as u128 >= end {
        Some(total)
    } else {
        let p: U512 = U512::from(total) * U512::from(t - start);
        if p > U512::from(MAX) {
            return None;
        }
        Some(U256::from(p / U512::from(dur)))
    }
}

fn moment(s: &mut Src, start: u64, dur: u64, now: u64) -> u64 {
    let end = start.saturating_add(dur);
    match s.weighted(&[4, 3, 2, 2, 2, 1]) {
        0 if dur > 1 => start.saturating_add(s.below(dur)),
        1 => now.saturating_add(s.below(dur / 4 + 2)),
        2 => start.saturating_sub(s.below(2)),
        3 => end.saturating_sub(s.below(2)),
        4 => end.saturating_add(s.below(3)),
        5 => s.u64(),
        _ => now,
    }
}

/// Answer of a read through an ordinary (non-static) call.
fn read<C: SolCall>(c: Address, call: C) -> host::CallResult {
    send(eoa(50), c, call).result
}

fn run(s: &mut Src) -> Check {
    let c = ca(1);
    deploy::<V>(c);
    let refuser = ca(5);
    let greedy = ca(6);
    let sink = ca(7);
    host::set_code(refuser, Code::Mock(Rc::new(|_| Err(b"no thanks".to_vec()))));
    host::set_code(sink, Code::Mock(Rc::new(|_| Ok(vec![1, 2, 3]))));
    // Tries to be paid again from within the payment.
    host::set_code(
        greedy,
        Code::Mock(Rc::new(move |_| {
            let (me, sender, _) = host::ctx();
            if sender == c {
                let _ = host::call(me, c, U256::ZERO, &release_0Call {}.abi_encode(), false);
            }
            Ok(vec![])
        })),
    );
    let toks = [Tok::deploy(ca(2)), Tok::deploy(ca(3))];
    let no_code = eoa(7);
    let (start, dur) = match s.weighted(&[5, 2, 1, 1, 1, 1]) {
        0 => (1_700_000_000 + s.below(1000), s.range(2, 5000)),
        1 => (1_700_000_000, [0, 1, 31_536_000][s.idx(3)]),
        2 => (0, s.range(0, 100)),
        3 => (u64::MAX - s.below(3), s.u64()),
        4 => (s.below(1000), u64::MAX - s.below(2)),
        _ => (s.u64() >> 1, s.u64() >> 2),
    };
    let one = |r: Result<U256, engine::Fail>| matches!(r, Ok(x) if x == u(1));
    let found = configure("start", c, || one(view(c, startCall {}).map(|r| r._0)), &start.to_be_bytes())
        && configure("duration", c, || one(view(c, durationCall {}).map(|r| r._0)), &dur.to_be_bytes());
    ensure!(found, "config", "start and duration cannot be configured");
    ensure_eq!(view(c, startCall {})?._0, u(start), "start", "start()");
    ensure_eq!(view(c, durationCall {})?._0, u(dur), "duration", "duration()");
    ensure_eq!(view(c, endCall {})?._0, u(start) + u(dur), "end", "end()");
    let reentrant = s.chance(1, 4);
    host::set_reentrancy(reentrant);
    s.note(|| format!("start {start} duration {dur} reentrancy allowed: {reentrant}"));
    let people = [eoa(1), eoa(2), refuser, greedy, sink];
    let mut owner = match s.weighted(&[6, 1, 1, 1]) {
        0 => people[0],
        n => people[n + 1],
    };
    judge(&send(eoa(9), c, forceCall { newOwner: owner }), &Exp::Ok(vec![]), "initial owner")?;
    // Model: received so far and released, per asset (0 = Ether).
    let mut got = [U256::ZERO; 3];
    let mut rel = [U256::ZERO; 3];
    let huge = s.chance(1, 6);
    host::set_balance(eoa(3), MAX);
    let mut paid: std::collections::BTreeMap<(usize, Address), U256> = Default::default();
    let max = s.size;
    s.steps(max, |s| {
        let now = host::time();
        match s.weighted(&[5, 4, 5, 5, 2, 2, 1]) {
            0 => {
                let a = s.idx(3);
                let mut v = if huge { amount(s, &[MAX >> 1]) } else { u(s.range(1, 1_000_000)) };
                if got[a].checked_add(v).is_none() {
                    v = U256::ZERO;
                }
                s.note(|| format!("deposit {} of asset {a}", num(v)));
                if a == 0 {
                    let out = host::tx(eoa(3), c, v, vec![]);
                    if v <= host::balance(eoa(3)) || out.ok() {
                        ensure!(out.ok(), "deposit", "Ether deposit refused");
                    } else {
                        return Ok(());
                    }
                } else {
                    let t = &toks[a - 1];
                    t.set_bal(c, t.bal(c) + v);
                }
                got[a] += v;
                s.tag("deposit");
            }
            1 => {
                let t = moment(s, start, dur, now).max(now);
                s.note(|| format!("clock := {t}"));
                host::set_time(t);
            }
            2 => {
                let sender = s.pick(&people[..2]);
                s.note(|| format!("{}.release() at {now}, owner {}", short(sender), short(owner)));
                let vested = schedule(got[0], start, dur, now);
                let exp = match vested {
                    None => Exp::Fail,
                    Some(_) if owner == refuser => Exp::Fail,
                    Some(_) => Exp::Ok(vec![]),
                };
                let before = host::balance(owner);
                let before_w = host::balance(c);
                let out = send(sender, c, release_0Call {});
                judge(&out, &exp, "release()")?;
                if exp.is_ok() {
                    let amt = vested.unwrap() - rel[0];
                    rel[0] += amt;
                    *paid.entry((0, owner)).or_default() += amt;
                    ensure_eq!(host::balance(owner), before + amt, "payment", "owner's Ether after release");
                    ensure_eq!(host::balance(c), before_w - amt, "payment", "wallet's Ether after release");
                    let mut want = vec![ev(c, EtherReleased { amount: amt })];
                    if owner == greedy && reentrant {
                        // The nested releases pay nothing more; how deep they
                        // nest is up to the host.
                        let zero = ev(c, EtherReleased { amount: U256::ZERO });
                        let extra = out.logs.len().saturating_sub(1);
                        want.extend(std::iter::repeat(zero).take(extra));
                        s.tag("reentered");
                    }
                    judge_logs(&out.logs, &want, "release()")?;
                    if !amt.is_zero() {
                        s.tag("released");
                        if amt < got[0] {
                            s.tag("partial");
                        }
                    }
                } else {
                    ensure!(
                        host::balance(owner) == before && host::balance(c) == before_w,
                        "payment",
                        "Ether moved by a failed release"
                    );
                    s.tag("refused");
                }
            }
            3 => {
                let a = 1 + s.idx(2);
                let t = &toks[a - 1];
                let sender = s.pick(&people[..2]);
                let ans = gen_ans(s, 7);
                t.beh.borrow_mut().transfer = ans.clone();
                s.note(|| {
                    format!("{}.release(token {a}) at {now}, token answers {ans:?}", short(sender))
                });
                let vested = schedule(got[a], start, dur, now);
                let (exp, either) = match (vested, ans.success()) {
                    (None, _) | (_, Some(false)) => (Exp::Fail, false),
                    (_, Some(true)) => (Exp::Ok(vec![]), false),
                    (_, None) => (Exp::Fail, true),
                };
                let before = t.bal(owner);
                let out = send(sender, c, release_1Call { token: t.addr });
                t.beh.borrow_mut().transfer = Ans::True;
                if either {
                    // Ambiguous answer: only atomicity is promised.
                    if !out.ok() {
                        return Ok(());
                    }
                } else {
                    judge(&out, &exp, "release(token)")?;
                }
                if out.ok() {
                    let amt = vested.unwrap() - rel[a];
                    rel[a] += amt;
                    *paid.entry((a, owner)).or_default() += amt;
                    let same = owner == c;
                    ensure!(!same, "harness", "owner is the wallet");
                    ensure_eq!(t.bal(owner), before + amt, "payment", "owner's tokens after release");
                    judge_logs(
                        &out.logs,
                        &[
                            ev(c, ERC20Released { token: t.addr, amount: amt }),
                            ev(t.addr, Moved { from: c, to: owner, value: amt }),
                        ],
                        "release(token)",
                    )?;
                    if !amt.is_zero() {
                        s.tag("released-token");
                    }
                } else {
                    ensure_eq!(t.bal(owner), before, "payment", "owner's tokens after failed release");
                    s.tag("refused");
                }
            }
            4 => {
                let sender = if s.chance(2, 3) { owner } else { s.pick(&people) };
                let n = if s.chance(1, 10) { Z } else { s.pick(&people) };
                s.note(|| format!("{}.transferOwnership({})", short(sender), short(n)));
                let mut e = vec![];
                if sender != owner {
                    e.push(err(OwnableUnauthorizedAccount { account: sender }));
                }
                if n == Z {
                    e.push(err(OwnableInvalidOwner { owner: Z }));
                }
                let exp = Exp::from(e, false, vec![]);
                let out = send(sender, c, transferOwnershipCall { newOwner: n });
                judge(&out, &exp, "transferOwnership")?;
                if exp.is_ok() {
                    owner = n;
                    s.tag("owner-changed");
                }
            }
            5 => {
                // A token that does not answer balance queries.
                let bad: Address = match s.idx(3) {
                    0 => no_code,
                    k => {
                        toks[0].beh.borrow_mut().balance_of = Some(match k {
                            1 => Err(b"paused".to_vec()),
                            _ => Ok(vec![]),
                        });
                        toks[0].addr
                    }
                };
                s.note(|| format!("release(broken token {})", short(bad)));
                let want = Exp::Rev(vec![err(InvalidToken { token: bad })]);
                judge(&send(eoa(1), c, release_1Call { token: bad }), &want, "release(broken token)")?;
                judge(
                    &send(eoa(1), c, releasable_1Call { token: bad }),
                    &want,
                    "releasable(broken token)",
                )?;
                toks[0].beh.borrow_mut().balance_of = None;
            }
            _ => {
                if s.chance(1, 4) {
                    let sender = s.pick(&people);
                    s.note(|| format!("{}.renounceOwnership()", short(sender)));
                    let e = if sender == owner {
                        vec![]
                    } else {
                        vec![err(OwnableUnauthorizedAccount { account: sender })]
                    };
                    let exp = Exp::from(e, false, vec![]);
                    judge(&send(sender, c, renounceOwnershipCall {}), &exp, "renounceOwnership")?;
                    if exp.is_ok() {
                        owner = Z;
                    }
                }
            }
        }
        // Observations at the clock and at another moment.
        let now = host::time();
        let other = moment(s, start, dur, now);
        ensure_eq!(view(c, ownerCall {})?._0, owner, "owner", "owner()");
        ensure_eq!(view(c, released_0Call {})?._0, rel[0], "released", "released()");
        let wants = |t: u64, a: usize| schedule(got[a], start, dur, t);
        let check = |what: &str, got: host::CallResult, want: Option<U256>| -> Check {
            let ok = match (&got, want) {
                (Ok(d), Some(w)) => *d == ret_u256(w),
                (Err(_), None) => true,
                _ => false,
            };
            ensure!(ok, what, "{what}: got {got:?}, expected {want:?}");
            Ok(())
        };
        check("vestedAmount(now)", view_raw(eoa(2), c, vestedAmount_0Call { timestamp: now }), wants(now, 0))?;
        check("vestedAmount(t)", view_raw(eoa(2), c, vestedAmount_0Call { timestamp: other }), wants(other, 0))?;
        check("releasable()", view_raw(eoa(2), c, releasable_0Call {}), wants(now, 0).map(|v| v - rel[0]))?;
        for a in 1..3 {
            let token = toks[a - 1].addr;
            ensure_eq!(view(c, released_1Call { token })?._0, rel[a], "released", "released(token {a})");
            check("vestedAmount(token)", read(c, vestedAmount_1Call { token, timestamp: other }), wants(other, a))?;
            check(
                "releasable(token)",
                read(c, releasable_1Call { token }),
                wants(now, a).map(|v| v - rel[a]),
            )?;
            ensure_eq!(toks[a - 1].bal(c), got[a] - rel[a], "conservation", "wallet's tokens");
        }
        ensure_eq!(host::balance(c), got[0] - rel[0], "conservation", "wallet's Ether");
        for a in 0..3 {
            if let Some(v) = wants(now, a) {
                ensure!(rel[a] <= v, "over-release", "released {} above vested {v}", rel[a]);
            }
        }
        Ok(())
    })?;
    s.nontrivial = s.has("released") && s.has("released-token") && s.has("partial");
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C21",
    name: "VestingWallet",
    parts: &[("histories", run, 1)],
    rule: "a positive amount of Ether (at least once less than everything received) and of a token was released",
    quick_cases: 120_000,
    thorough_cases: 2_000_000,
    size: (40, 120),
};
