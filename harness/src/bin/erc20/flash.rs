//! C05: flash loans.

use std::{cell::RefCell, rc::Rc};

use alloy_primitives::{Address, B256, U256};
use alloy_sol_types::{sol, SolCall};
use engine::{ensure, ensure_eq, Check, Prop, Src};
use openzeppelin_stylus::token::erc20::{
    extensions::{flash_mint, Erc20FlashMint, IErc3156FlashLender},
    Erc20,
};
use ozverif::{
    host::{self, CallResult, Code},
    util::*,
};
use stylus_sdk::{abi::Bytes, prelude::*};

use super::ledger::{core_op, tr, Approval, ERC20InsufficientBalance, M20, I20};

sol! {
    interface IF {
        function maxFlashLoan(address token) external view returns (uint256);
        function flashFee(address token, uint256 value) external view returns (uint256);
        function flashLoan(address receiver, address token, uint256 value, bytes data) external returns (bool);
        function hMint(address account, uint256 value) external;
    }
    function onFlashLoan(address initiator, address token, uint256 amount, uint256 fee, bytes data) external returns (bytes32);
    error ERC3156UnsupportedToken(address token);
    error ERC3156ExceededMaxLoan(uint256 max_loan);
    error ERC3156InvalidReceiver(address receiver);
}
use IF::*;

#[storage]
pub struct F {
    #[borrow]
    flash: Erc20FlashMint,
    #[borrow]
    erc20: Erc20,
}
unsafe impl TopLevelStorage for F {}
#[public]
#[inherit(Erc20)]
impl F {
    fn max_flash_loan(&self, token: Address) -> U256 {
        self.flash.max_flash_loan(token, &self.erc20)
    }
    fn flash_fee(&self, token: Address, value: U256) -> Result<U256, Vec<u8>> {
        self.flash.flash_fee(token, value).map_err(nested)
    }
    fn flash_loan(
        &mut self,
        receiver: Address,
        token: Address,
        value: U256,
        data: Bytes,
    ) -> Result<bool, flash_mint::Error> {
        self.flash.flash_loan(receiver, token, value, data, &mut self.erc20)
    }
    fn h_mint(&mut self, to: Address, value: U256) -> Result<(), flash_mint::Error> {
        Ok(self.erc20._mint(to, value)?)
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Reply {
    Magic,
    Word(B256),
    Short(usize),
    LongBad,
    Revert(Vec<u8>),
    NoBytes,
}

fn magic() -> B256 {
    host::keccak(b"ERC3156FlashBorrower.onFlashLoan")
}

#[derive(Default)]
struct Seen {
    reply: Option<Reply>,
    calls: Vec<(Address, Address, Vec<u8>)>,
    balance: Option<U256>,
    supply: Option<U256>,
}

fn run(s: &mut Src) -> Check {
    let c = ca(1);
    deploy::<F>(c);
    // The callback may read the token only where reentrancy is possible.
    let peek = s.chance(1, 3);
    host::set_reentrancy(peek);
    let seen: Rc<RefCell<Seen>> = Default::default();
    let borrowers = [ca(2), ca(3)];
    for b in borrowers {
        let seen = seen.clone();
        host::set_code(
            b,
            Code::Mock(Rc::new(move |d: &[u8]| -> CallResult {
                let (me, sender, _) = host::ctx();
                seen.borrow_mut().calls.push((me, sender, d.to_vec()));
                if peek {
                    let q = |x: Vec<u8>| {
                        host::call(me, c, U256::ZERO, &x, true).ok().map(|r| U256::from_be_slice(&r))
                    };
                    let b = q(I20::balanceOfCall { account: me }.abi_encode());
                    let t = q(I20::totalSupplyCall {}.abi_encode());
                    let mut x = seen.borrow_mut();
                    x.balance = b;
                    x.supply = t;
                }
                let reply = seen.borrow().reply.clone();
                match reply.unwrap_or(Reply::NoBytes) {
                    Reply::Magic => Ok(magic().to_vec()),
                    Reply::Word(w) => Ok(w.to_vec()),
                    Reply::Short(n) => Ok(magic()[..n].to_vec()),
                    Reply::LongBad => Ok([[0u8; 32], magic().0].concat()),
                    Reply::Revert(d) => Err(d),
                    Reply::NoBytes => Ok(vec![]),
                }
            })),
        );
    }
    let fee = match s.weighted(&[3, 5, 1, 1]) {
        0 => U256::ZERO,
        1 => u(s.range(1, 100)),
        2 => MAX - u(s.below(100)),
        _ => U256::from(1) << 128usize,
    };
    let receiver = s.pick(&[Z, eoa(3), borrowers[0], c]);
    let fee_hit = || view(c, flashFeeCall { token: c, value: u(5) }).ok().map(|r| r._0) == Some(u(1));
    seen.borrow_mut().reply = Some(Reply::Magic);
    ensure!(configure("fee", c, fee_hit, &u(7).to_be_bytes::<32>()), "config", "flash fee cannot be configured");
    // The fee receiver has no getter: its place is where a probing loan's fee
    // goes.
    ensure!(
        configure("receiver", c, || probe_loan(c, borrowers[0]), receiver.as_slice()),
        "config",
        "flash fee receiver cannot be configured"
    );
    ensure!(configure("fee", c, fee_hit, &fee.to_be_bytes::<32>()), "config", "flash fee cannot be configured");
    ensure_eq!(view(c, flashFeeCall { token: c, value: u(0) })?._0, fee, "fee", "flashFee()");
    s.note(|| format!("fee {} receiver {} peek {peek}", num(fee), short(receiver)));
    let who = [Z, eoa(1), eoa(3), borrowers[0], borrowers[1], c];
    let mut m = M20::default();
    m.compare(c, &who)?;
    let huge = s.chance(1, 4);
    let max = s.size;
    s.steps(max, |s| {
        match s.weighted(&[9, if m.supply.is_zero() { 8 } else { 2 }, 3, 4]) {
            0 => {
                let r = match s.weighted(&[8, 4, 1]) {
                    0 => borrowers[0],
                    1 => borrowers[1],
                    _ => s.pick(&[eoa(1), Z, c]),
                };
                let token = if s.chance(1, 8) { s.pick(&[Z, ca(9), borrowers[0], eoa(1)]) } else { c };
                let room = MAX - m.supply;
                let al = m.a(r, c);
                let v = if s.chance(1, 2) {
                    u(s.range(0, 60))
                } else {
                    amount(s, &[room, room - fee.min(room), al, al.wrapping_sub(fee), m.b(r), MAX - fee])
                };
                let reply = if s.chance(4, 5) {
                    Reply::Magic
                } else {
                    match s.idx(6) {
                        0 => {
                            let mut w = magic();
                            w[s.idx(32)] ^= 1 << s.idx(8);
                            Reply::Word(w)
                        }
                        1 => Reply::Word(B256::from(u(1))),
                        2 => Reply::Short(s.idx(32)),
                        3 => Reply::LongBad,
                        4 => Reply::Revert(vec![]),
                        _ => Reply::Revert(magic().to_vec()),
                    }
                };
                let data = blob(s);
                *seen.borrow_mut() = Seen { reply: Some(reply.clone()), ..Default::default() };
                let sender = s.pick(&[eoa(1), eoa(2), borrowers[0]]);
                s.note(|| {
                    format!(
                        "{}.flashLoan({}, {}, {}, {} bytes) reply {reply:?}; balance {} allowance {}",
                        short(sender), short(r), short(token), num(v), data.len(), num(m.b(r)), num(al)
                    )
                });
                let mut e = vec![];
                let mut over = false;
                let cap = if token == c { room } else { U256::ZERO };
                if v > cap {
                    e.push(err(ERC3156ExceededMaxLoan { max_loan: cap }));
                }
                if token != c {
                    e.push(err(ERC3156UnsupportedToken { token }));
                }
                let calls_back = borrowers.contains(&r);
                let reached = e.is_empty() && calls_back;
                if !calls_back || reply != Reply::Magic {
                    e.push(err(ERC3156InvalidReceiver { receiver: r }));
                }
                match v.checked_add(fee) {
                    None => over = e.is_empty(),
                    Some(t) => {
                        e.extend(m.spend_errs(r, c, t));
                        if let Some(b) = m.b(r).checked_add(v) {
                            if b < t {
                                e.push(err(ERC20InsufficientBalance { sender: r, balance: b, needed: t }));
                                e.push(err(ERC20InsufficientBalance { sender: r, balance: b - v, needed: fee }));
                            }
                        }
                    }
                }
                let exp = Exp::from(e, over, ret_bool(true));
                let out = send(
                    sender,
                    c,
                    flashLoanCall { receiver: r, token, value: v, data: data.clone().into() },
                );
                judge(&out, &exp, "flashLoan")?;
                let want = onFlashLoanCall { initiator: sender, token, amount: v, fee, data: data.into() }.abi_encode();
                {
                    let x = seen.borrow();
                    if exp.is_ok() {
                        ensure_eq!(
                            x.calls,
                            vec![(r, c, want)],
                            "callback",
                            "calls made to the borrower (borrower, caller, calldata)"
                        );
                        if peek {
                            ensure_eq!(x.balance, Some(m.b(r) + v), "callback-balance", "borrower's balance inside the callback");
                            ensure_eq!(x.supply, Some(m.supply + v), "callback-supply", "total supply inside the callback");
                        }
                    } else {
                        for k in &x.calls {
                            ensure!(reached, "callback", "borrower called although the loan is not admissible");
                            ensure_eq!(k, &(r, c, want.clone()), "callback", "call made to the borrower");
                        }
                    }
                }
                if exp.is_ok() {
                    m.spend(r, c, v + fee);
                    let mut logs = vec![tr(c, Z, r, v)];
                    m.mv(Z, r, v);
                    if fee.is_zero() || receiver == Z {
                        m.mv(r, Z, v + fee);
                        logs.push(tr(c, r, Z, v + fee));
                    } else {
                        m.mv(r, Z, v);
                        m.mv(r, receiver, fee);
                        logs.push(tr(c, r, Z, v));
                        logs.push(tr(c, r, receiver, fee));
                    }
                    judge_logs(&out.logs, &logs, "flashLoan")?;
                    s.tag("loan");
                    if !fee.is_zero() && !v.is_zero() {
                        s.tag("loan-with-fee");
                    }
                } else if reached {
                    s.tag("loan-undone");
                }
            }
            1 => {
                let to = s.pick(&who[1..]);
                let v = if huge { amount(s, &[MAX - m.supply, fee]) } else { u(s.range(1, 3000)) };
                s.note(|| format!("mint({}, {})", short(to), num(v)));
                let over = m.supply.checked_add(v).is_none();
                let exp = Exp::from(vec![], over, vec![]);
                let out = send(eoa(1), c, hMintCall { account: to, value: v });
                judge(&out, &exp, "mint")?;
                if exp.is_ok() {
                    m.mv(Z, to, v);
                }
            }
            2 => {
                core_op(s, &mut m, c, &who)?;
            }
            _ => {
                // The borrower approves the token contract for repayments.
                let b = s.pick(&borrowers);
                let v = match s.weighted(&[3, 3, 2]) {
                    0 => MAX,
                    1 => u(s.range(1, 120)),
                    _ => amount(s, &[fee, m.b(b)]),
                };
                s.note(|| format!("{}.approve(token, {})", short(b), num(v)));
                let out = send(b, c, I20::approveCall { spender: c, value: v });
                judge(&out, &Exp::Ok(ret_bool(true)), "approve")?;
                judge_logs(&out.logs, &[ev(c, Approval { owner: b, spender: c, value: v })], "approve")?;
                m.allow.insert((b, c), v);
            }
        }
        ensure_eq!(view(c, maxFlashLoanCall { token: c })?._0, MAX - m.supply, "max", "maxFlashLoan(token)");
        let t = s.pick(&[Z, ca(9), borrowers[0], eoa(1)]);
        ensure_eq!(view(c, maxFlashLoanCall { token: t })?._0, U256::ZERO, "max", "maxFlashLoan(foreign)");
        ensure_eq!(
            view_raw(eoa(1), c, flashFeeCall { token: t, value: u(1) }),
            Err(err(ERC3156UnsupportedToken { token: t })),
            "fee",
            "flashFee(foreign)"
        );
        let v = amount(s, &[]);
        ensure_eq!(view(c, flashFeeCall { token: c, value: v })?._0, fee, "fee", "flashFee(token)");
        m.compare(c, &who)
    })?;
    s.nontrivial = s.has("loan-with-fee") || (s.has("loan") && s.has("loan-undone"));
    Ok(())
}

/// Whether the fee of a loan goes to account 1; all effects are undone.
fn probe_loan(c: Address, borrower: Address) -> bool {
    let probe = ca(200);
    let hit: Rc<RefCell<bool>> = Default::default();
    let h2 = hit.clone();
    host::set_code(
        probe,
        Code::Mock(Rc::new(move |_| {
            let f = |from: Address, d: Vec<u8>| host::call(from, c, U256::ZERO, &d, false);
            f(probe, hMintCall { account: borrower, value: u(1000) }.abi_encode())?;
            f(borrower, I20::approveCall { spender: c, value: MAX }.abi_encode())?;
            let loan = flashLoanCall { receiver: borrower, token: c, value: U256::ZERO, data: vec![].into() };
            f(probe, loan.abi_encode())?;
            let b = f(probe, I20::balanceOfCall { account: Address::with_last_byte(1) }.abi_encode())?;
            *h2.borrow_mut() = U256::from_be_slice(&b) == u(7);
            Err(vec![])
        })),
    );
    let _ = host::tx(eoa(98), probe, U256::ZERO, vec![]);
    let r = *hit.borrow();
    r
}

pub const PROP: Prop = Prop {
    id: "C05",
    name: "ERC-3156 flash minting",
    parts: &[("flash", run, 1)],
    rule: "a loan of a non-zero amount with a non-zero fee was repaid, or the history has a repaid loan and one undone after its callback",
    quick_cases: 60_000,
    thorough_cases: 1_000_000,
    size: (20, 60),
};
