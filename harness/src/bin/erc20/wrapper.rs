//! C07: the ERC-20 wrapper.

use alloy_primitives::{Address, U256, U8};
use alloy_sol_types::sol;
use engine::{ensure, ensure_eq, Check, Prop, Src};
use openzeppelin_stylus::token::erc20::{
    extensions::{wrapper, Erc20Wrapper, IErc20Wrapper},
    Erc20,
};
use ozverif::{
    host::{self, Log},
    tokens::{gen_ans, Ans, Moved, Tok},
    util::*,
};
use stylus_sdk::prelude::*;

use super::ledger::{core_op, tr, ERC20InvalidReceiver, ERC20InvalidSender, M20};

sol! {
    interface IW {
        function underlying() external view returns (address);
        function decimals() external view returns (uint8);
        function depositFor(address account, uint256 value) external returns (bool);
        function withdrawTo(address account, uint256 value) external returns (bool);
        function recover(address account) external returns (uint256);
    }
    error SafeErc20FailedOperation(address token);
    error ERC20InvalidUnderlying(address token);
}
use IW::*;

#[storage]
pub struct W {
    #[borrow]
    wrapper: Erc20Wrapper,
    #[borrow]
    erc20: Erc20,
}
unsafe impl TopLevelStorage for W {}
#[public]
#[inherit(Erc20)]
impl W {
    fn underlying(&self) -> Address {
        self.wrapper.underlying()
    }
    fn decimals(&self) -> U8 {
        self.wrapper.decimals()
    }
    fn deposit_for(&mut self, account: Address, value: U256) -> Result<bool, wrapper::Error> {
        self.wrapper.deposit_for(account, value, &mut self.erc20)
    }
    fn withdraw_to(&mut self, account: Address, value: U256) -> Result<bool, Vec<u8>> {
        self.wrapper.withdraw_to(account, value, &mut self.erc20).map_err(nested)
    }
    fn recover(&mut self, account: Address) -> Result<U256, wrapper::Error> {
        self.wrapper._recover(account, &mut self.erc20)
    }
}

pub fn moved(t: &Tok, from: Address, to: Address, value: U256) -> Log {
    ev(t.addr, Moved { from, to, value })
}

fn run(s: &mut Src) -> Check {
    let c = ca(1);
    deploy::<W>(c);
    let t = Tok::deploy(ca(2));
    let mut one = [0u8; 20];
    one[19] = 1;
    let ok = configure(
        "underlying",
        c,
        || view(c, underlyingCall {}).map(|r| r._0 == Address::from(one)).unwrap_or(false),
        t.addr.as_slice(),
    );
    ensure!(ok, "config", "underlying cannot be configured");
    let dec = s.below(256) as u8;
    let ok = configure("decimals", c, || view(c, decimalsCall {}).map(|r| r._0 == 1).unwrap_or(false), &[dec]);
    ensure!(ok, "config", "decimals cannot be configured");
    ensure_eq!(view(c, underlyingCall {})?._0, t.addr, "underlying", "underlying()");
    ensure_eq!(view(c, decimalsCall {})?._0, dec, "decimals", "decimals()");
    let who = [Z, eoa(1), eoa(2), eoa(3), c, t.addr];
    for w in &who[1..4] {
        let v = if s.chance(1, 8) { MAX >> 2 } else { u(s.range(0, 5000)) };
        t.set_bal(*w, v);
        t.set_allow(*w, c, if s.chance(2, 3) { MAX } else { v / u(2) });
    }
    let mut m = M20::default();
    // Underlying ledger: balances of `who`.
    let faulty = s.chance(1, 2);
    let max = s.size;
    s.steps(max, |s| {
        {
            let mut b = t.beh.borrow_mut();
            b.transfer = Ans::True;
            b.transfer_from = Ans::True;
            b.balance_of = None;
            if faulty && s.chance(1, 3) {
                b.transfer = gen_ans(s, 4);
                b.transfer_from = gen_ans(s, 4);
            }
        }
        let before: Vec<U256> = who.iter().map(|w| t.bal(*w)).collect();
        let mut after = before.clone();
        let ix = |a: Address| who.iter().position(|w| *w == a).unwrap();
        let caller = if s.chance(1, 15) { c } else { who[1 + s.idx(3)] };
        let account = if s.chance(1, 4) { s.pick(&who) } else { who[1 + s.idx(3)] };
        match s.weighted(&[6, 6, 2, 2, 3, 3]) {
            0 => {
                let al = t.allow(caller, c);
                let v = amount(s, &[t.bal(caller), al, al.min(t.bal(caller))]);
                let ans = t.beh.borrow().transfer_from.clone();
                s.note(|| format!("{}.depositFor({}, {}) balance {} allowance {} answer {ans:?}", short(caller), short(account), num(v), num(t.bal(caller)), num(al)));
                let mut e = vec![];
                if caller == c {
                    e.push(err(ERC20InvalidSender { sender: c }));
                }
                if account == c {
                    e.push(err(ERC20InvalidReceiver { receiver: c }));
                }
                if account == Z {
                    e.push(err(ERC20InvalidReceiver { receiver: Z }));
                }
                if t.bal(caller) < v || al < v || ans.success() == Some(false) {
                    e.push(err(SafeErc20FailedOperation { token: t.addr }));
                }
                let over = m.supply.checked_add(v).is_none();
                let exp = Exp::from(e, over, ret_bool(true));
                let out = send(caller, c, depositForCall { account, value: v });
                judge(&out, &exp, "depositFor")?;
                if exp.is_ok() {
                    m.mv(Z, account, v);
                    after[ix(caller)] -= v;
                    after[ix(c)] += v;
                    judge_logs(&out.logs, &[tr(c, Z, account, v), moved(&t, caller, c, v)], "depositFor")?;
                    if !v.is_zero() {
                        s.tag("deposit");
                    }
                } else {
                    s.tag("refused");
                }
            }
            1 => {
                let v = amount(s, &[m.b(caller), t.bal(c)]);
                let ans = t.beh.borrow().transfer.clone();
                s.note(|| format!("{}.withdrawTo({}, {}) wrapped {} held {} answer {ans:?}", short(caller), short(account), num(v), num(m.b(caller)), num(t.bal(c))));
                let mut e = vec![];
                if account == c {
                    e.push(err(ERC20InvalidReceiver { receiver: c }));
                }
                if m.b(caller) < v {
                    e.push(m.insufficient(caller, v));
                }
                if t.bal(c) < v || ans.success() == Some(false) || t.bal(account).checked_add(v).is_none() {
                    e.push(err(SafeErc20FailedOperation { token: t.addr }));
                }
                let exp = Exp::from(e, false, ret_bool(true));
                let out = send(caller, c, withdrawToCall { account, value: v });
                judge(&out, &exp, "withdrawTo")?;
                if exp.is_ok() {
                    m.mv(caller, Z, v);
                    after[ix(c)] -= v;
                    after[ix(account)] += v;
                    judge_logs(&out.logs, &[tr(c, caller, Z, v), moved(&t, c, account, v)], "withdrawTo")?;
                    if !v.is_zero() {
                        s.tag("withdraw");
                    }
                } else {
                    s.tag("refused");
                }
            }
            2 => {
                // Donation, or a rebase that takes underlying away.
                let v = if s.chance(1, 6) { t.bal(c) / u(2) } else { t.bal(c).saturating_add(u(s.range(1, 500))) };
                s.note(|| format!("underlying held by the wrapper becomes {}", num(v)));
                if v < t.bal(c) {
                    s.tag("rebase");
                }
                t.set_bal(c, v);
                after[ix(c)] = v;
            }
            3 => {
                let fault = faulty && s.chance(1, 2);
                if fault {
                    let r = match s.idx(3) {
                        0 => Err(b"broken".to_vec()),
                        1 => Ok(vec![]),
                        _ => Ok(vec![0; s.range(1, 31) as usize]),
                    };
                    t.beh.borrow_mut().balance_of = Some(r);
                }
                s.note(|| format!("recover({}) held {} supply {} fault {fault}", short(account), num(t.bal(c)), num(m.supply)));
                let out = send(caller, c, recoverCall { account });
                let held = t.bal(c);
                let exp = if fault {
                    // The standard names the error; whether it carries the
                    // underlying or the wrapper is not promised.
                    Exp::Rev(vec![
                        err(ERC20InvalidUnderlying { token: c }),
                        err(ERC20InvalidUnderlying { token: t.addr }),
                    ])
                } else if held < m.supply {
                    Exp::Fail
                } else {
                    let v = held - m.supply;
                    let mut e = vec![];
                    if !v.is_zero() && account == Z {
                        e.push(err(ERC20InvalidReceiver { receiver: Z }));
                    }
                    Exp::from(e, false, ret_u256(v))
                };
                judge(&out, &exp, "recover")?;
                if exp.is_ok() {
                    let v = held - m.supply;
                    if v.is_zero() {
                        judge_logs(&out.logs, &[], "recover")?;
                    } else {
                        m.mv(Z, account, v);
                        judge_logs(&out.logs, &[tr(c, Z, account, v)], "recover")?;
                        s.tag("recover");
                    }
                }
            }
            4 => {
                core_op(s, &mut m, c, &who[..5])?;
            }
            _ => {
                let w = who[1 + s.idx(3)];
                let v = match s.idx(3) {
                    0 => MAX,
                    1 => u(s.range(0, 4000)),
                    _ => t.bal(w),
                };
                s.note(|| format!("underlying: {} approves the wrapper for {}", short(w), num(v)));
                t.set_allow(w, c, v);
            }
        }
        t.beh.borrow_mut().balance_of = None;
        for (i, w) in who.iter().enumerate() {
            ensure_eq!(t.bal(*w), after[i], "underlying", "underlying balance of {}", short(*w));
        }
        if !s.has("rebase") {
            ensure!(t.bal(c) >= m.supply, "backing", "wrapped supply {} exceeds the underlying held {}", m.supply, t.bal(c));
        }
        m.compare(c, &who[..5])
    })?;
    s.nontrivial = s.has("deposit") && s.has("withdraw");
    let _ = host::time();
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C07",
    name: "ERC-20 wrapper",
    parts: &[("wrapper", run, 1)],
    rule: "the history has a non-zero deposit and a non-zero withdrawal",
    quick_cases: 50_000,
    thorough_cases: 1_000_000,
    size: (24, 60),
};
