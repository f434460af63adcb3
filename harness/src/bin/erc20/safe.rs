//! C08: SafeERC20.

use std::{cell::RefCell, rc::Rc};

use alloy_primitives::{Address, U256};
use alloy_sol_types::{sol, SolCall};
use engine::{ensure, ensure_eq, Check, Prop, Src};
use openzeppelin_stylus::token::erc20::utils::SafeErc20;
use ozverif::{
    host::{self, CallResult, Code},
    tokens::{gen_ans, Ans, IT},
    util::*,
};
use stylus_sdk::prelude::*;

sol! {
    interface IS {
        function safeTransfer(address token, address to, uint256 value) external;
        function safeTransferFrom(address token, address from, address to, uint256 value) external;
        function safeIncreaseAllowance(address token, address spender, uint256 value) external;
        function safeDecreaseAllowance(address token, address spender, uint256 requestedDecrease) external;
        function forceApprove(address token, address spender, uint256 value) external;
    }
    error SafeErc20FailedOperation(address token);
    error SafeErc20FailedDecreaseAllowance(address spender, uint256 current_allowance, uint256 requested_decrease);
}
use IS::*;

#[storage]
pub struct Caller {
    #[borrow]
    safe: SafeErc20,
}
unsafe impl TopLevelStorage for Caller {}
#[public]
#[inherit(SafeErc20)]
impl Caller {}

/// A token scripted call by call.
#[derive(Default)]
struct Script {
    /// Answers to the state-changing calls, in order.
    answers: Vec<Ans>,
    used: usize,
    calls: Vec<Vec<u8>>,
    allowance: Option<CallResult>,
    zero_reset: bool,
}

fn slot(spender: Address) -> U256 {
    U256::from_be_bytes(spender.into_word().0)
}

fn apply(a: &Ans) -> CallResult {
    match a {
        Ans::True => Ok(ret_bool(true)),
        Ans::Empty => Ok(vec![]),
        Ans::LongTrue => Ok([ret_bool(true), vec![0xab; 40]].concat()),
        Ans::False => Ok(ret_bool(false)),
        Ans::Word(w) => Ok(ret_u256(*w)),
        Ans::LongWord(w) => Ok([ret_u256(*w), ret_u256(u(1))].concat()),
        Ans::Short(d) => Ok(d.clone()),
        Ans::Revert => Err(vec![]),
        Ans::RevertData(d) => Err(d.clone()),
    }
}

fn token(sc: Rc<RefCell<Script>>, owner: Address) -> Code {
    Code::Mock(Rc::new(move |d: &[u8]| {
        let (me, sender, value) = host::ctx();
        if d.len() < 4 || !value.is_zero() || sender != owner {
            return Err(vec![]);
        }
        let sel: [u8; 4] = d[..4].try_into().unwrap();
        if sel == IT::allowanceCall::SELECTOR {
            let a = IT::allowanceCall::abi_decode(d, true).map_err(|_| vec![])?;
            if let Some(r) = &sc.borrow().allowance {
                return r.clone();
            }
            let v = if a.owner == owner { host::sload(me, slot(a.spender)) } else { u(777) };
            return Ok(ret_u256(v));
        }
        let ans = {
            let mut x = sc.borrow_mut();
            x.calls.push(d.to_vec());
            let i = x.used;
            x.used += 1;
            x.answers.get(i).cloned().unwrap_or(Ans::Revert)
        };
        if sel == IT::approveCall::SELECTOR {
            let a = IT::approveCall::abi_decode(d, true).map_err(|_| vec![])?;
            let cur = host::sload(me, slot(a.spender));
            if sc.borrow().zero_reset && !cur.is_zero() && !a.value.is_zero() {
                return Err(b"reset first".to_vec());
            }
            if ans.success() != Some(false) {
                host::sstore(me, slot(a.spender), a.value);
            }
        }
        apply(&ans)
    }))
}

/// Answer pool including short data that spells one.
fn answer(s: &mut Src) -> Ans {
    if s.chance(1, 25) {
        let n = s.range(1, 31) as usize;
        let mut d = vec![0u8; n];
        d[n - 1] = 1;
        return Ans::Short(d);
    }
    gen_ans(s, 5)
}

fn run(s: &mut Src) -> Check {
    let c = ca(1);
    deploy::<Caller>(c);
    let sc: Rc<RefCell<Script>> = Default::default();
    let t = ca(2);
    host::set_code(t, token(sc.clone(), c));
    let who = [Z, eoa(1), eoa(2), c, t];
    let max = s.size;
    s.steps(max, |s| {
        let tok = if s.chance(1, 12) { s.pick(&[eoa(5), Z, Address::with_last_byte(1)]) } else { t };
        let has = tok == t;
        let (from, to) = (s.pick(&who), s.pick(&who));
        let cur = host::sload(t, slot(to));
        let answers: Vec<Ans> = (0..3).map(|_| answer(s)).collect();
        let op = s.idx(5);
        let v = if op >= 2 { amount(s, &[cur, MAX - cur]) } else { amount(s, &[]) };
        let reset = op >= 2 && s.chance(1, 3);
        let query: Option<CallResult> = if (op == 2 || op == 3) && s.chance(1, 8) {
            Some(match s.idx(3) {
                0 => Err(vec![]),
                1 => Err(ret_u256(cur)),
                _ => Ok([ret_u256(cur), vec![7; 20]].concat()),
            })
        } else {
            None
        };
        *sc.borrow_mut() = Script {
            answers: answers.clone(),
            allowance: query.clone(),
            zero_reset: reset,
            ..Default::default()
        };
        s.note(|| {
            format!(
                "{} token {} from {} to {} value {}; allowance {} (query {query:?}), zero-reset {reset}, answers {answers:?}",
                ["safeTransfer", "safeTransferFrom", "safeIncreaseAllowance", "safeDecreaseAllowance", "forceApprove"][op],
                short(tok), short(from), short(to), num(v), num(cur)
            )
        });
        let sender = eoa(1 + s.below(2));
        let out = match op {
            0 => send(sender, c, safeTransferCall { token: tok, to, value: v }),
            1 => send(sender, c, safeTransferFromCall { token: tok, from, to, value: v }),
            2 => send(sender, c, safeIncreaseAllowanceCall { token: tok, spender: to, value: v }),
            3 => send(sender, c, safeDecreaseAllowanceCall { token: tok, spender: to, requestedDecrease: v }),
            _ => send(sender, c, forceApproveCall { token: tok, spender: to, value: v }),
        };
        let calls = sc.borrow().calls.clone();
        let failed = err(SafeErc20FailedOperation { token: tok });
        for k in &out.calls {
            ensure!(k.value.is_zero(), "value", "Ether sent along");
        }
        if op < 2 {
            let want = if op == 0 {
                IT::transferCall { to, value: v }.abi_encode()
            } else {
                IT::transferFromCall { from, to, value: v }.abi_encode()
            };
            let good = if has { answers[0].success() } else { Some(false) };
            match good {
                Some(g) => {
                    let exp = if g { Exp::Ok(vec![]) } else { Exp::Rev(vec![failed]) };
                    judge(&out, &exp, "safe transfer")?;
                }
                None => s.tag("lenient"),
            }
            if out.ok() {
                ensure_eq!(calls, vec![want], "calldata", "calls made to the token");
                s.tag("transferred");
            } else {
                s.tag("refused");
                for k in &calls {
                    ensure_eq!(k, &want, "calldata", "call made to the token");
                }
            }
            judge_logs(&out.logs, &[], "safe transfer")?;
            return Ok(());
        }
        // Approvals: the new allowance, or an error.
        let mut e = vec![];
        let mut over = false;
        if !has || matches!(query, Some(Err(_))) {
            e.push(failed.clone());
        }
        let new = match op {
            2 => {
                over = e.is_empty() && cur.checked_add(v).is_none();
                cur.checked_add(v)
            }
            3 => {
                if cur < v && e.is_empty() {
                    e.push(err(SafeErc20FailedDecreaseAllowance {
                        spender: to,
                        current_allowance: cur,
                        requested_decrease: v,
                    }));
                }
                cur.checked_sub(v)
            }
            _ => Some(v),
        };
        let mut unsure = false;
        if e.is_empty() && !over {
            let new = new.unwrap();
            // What the token does with approve(new), then approve(0), approve(new).
            let mut al = cur;
            let mut step = |i: usize, val: U256| -> Option<bool> {
                if reset && !al.is_zero() && !val.is_zero() {
                    return Some(false);
                }
                let r = answers[i].success();
                if r == Some(true) {
                    al = val;
                }
                r
            };
            let good = match step(0, new) {
                Some(true) => Some(true),
                None => None,
                Some(false) => match step(1, U256::ZERO) {
                    Some(false) => Some(false),
                    None => None,
                    Some(true) => step(2, new),
                },
            };
            match good {
                Some(true) => {}
                Some(false) => e.push(failed),
                None => unsure = true,
            }
        }
        if unsure {
            s.tag("lenient");
        } else {
            let exp = Exp::from(e, over, vec![]);
            judge(&out, &exp, "approval")?;
        }
        let now = host::sload(t, slot(to));
        if out.ok() {
            ensure_eq!(Some(now), new, "allowance", "allowance after the call");
            ensure_eq!(
                calls.last().cloned(),
                Some(IT::approveCall { spender: to, value: now }.abi_encode()),
                "calldata",
                "last approval made"
            );
            s.tag("approved");
            if calls.len() > 1 {
                s.tag("reset-first");
            }
        } else {
            ensure_eq!(now, cur, "allowance", "allowance after the failed call");
            s.tag("refused");
        }
        judge_logs(&out.logs, &[], "approval")
    })?;
    s.nontrivial = s.has("transferred") && s.has("refused") && s.has("approved");
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C08",
    name: "SafeERC20",
    parts: &[("safe", run, 1)],
    rule: "the history has a successful safe transfer, a successful allowance change and a refused operation",
    quick_cases: 600_000,
    thorough_cases: 20_000_000,
    size: (24, 60),
};
