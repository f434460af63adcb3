//! C01: the ERC-20 ledger.

use std::collections::BTreeMap;

use alloy_primitives::{Address, U256};
use alloy_sol_types::sol;
use openzeppelin_stylus::token::erc20::{
    self, extensions::IErc20Burnable, Erc20,
};
use stylus_sdk::prelude::*;

use engine::{ensure_eq, Check, Prop, Src};
use ozverif::{host::Log, util::*};

sol! {
    interface I20 {
        function totalSupply() external view returns (uint256);
        function balanceOf(address account) external view returns (uint256);
        function allowance(address owner, address spender) external view returns (uint256);
        function transfer(address to, uint256 value) external returns (bool);
        function approve(address spender, uint256 value) external returns (bool);
        function transferFrom(address from, address to, uint256 value) external returns (bool);
        function burn(uint256 value) external;
        function burnFrom(address account, uint256 value) external;
        function hMint(address account, uint256 value) external;
        function hBurn(address account, uint256 value) external;
        function hUpdate(address from, address to, uint256 value) external;
        function hSpend(address owner, address spender, uint256 value) external;
    }
    #[derive(Debug)]
    event Transfer(address indexed from, address indexed to, uint256 value);
    #[derive(Debug)]
    event Approval(address indexed owner, address indexed spender, uint256 value);

    error ERC20InsufficientBalance(address sender, uint256 balance, uint256 needed);
    error ERC20InvalidSender(address sender);
    error ERC20InvalidReceiver(address receiver);
    error ERC20InsufficientAllowance(address spender, uint256 allowance, uint256 needed);
    error ERC20InvalidSpender(address spender);
    error ERC20InvalidApprover(address approver);
}
pub use I20::*;

#[storage]
pub struct T20 {
    #[borrow]
    erc20: Erc20,
}
unsafe impl TopLevelStorage for T20 {}

#[public]
#[inherit(Erc20)]
impl T20 {
    fn burn(&mut self, value: U256) -> Result<(), erc20::Error> {
        self.erc20.burn(value)
    }
    fn burn_from(
        &mut self,
        account: Address,
        value: U256,
    ) -> Result<(), erc20::Error> {
        self.erc20.burn_from(account, value)
    }
    fn h_mint(&mut self, to: Address, value: U256) -> Result<(), erc20::Error> {
        self.erc20._mint(to, value)
    }
    fn h_burn(&mut self, from: Address, value: U256) -> Result<(), erc20::Error> {
        self.erc20._burn(from, value)
    }
    fn h_update(
        &mut self,
        from: Address,
        to: Address,
        value: U256,
    ) -> Result<(), erc20::Error> {
        self.erc20._update(from, to, value)
    }
    fn h_spend(
        &mut self,
        owner: Address,
        spender: Address,
        value: U256,
    ) -> Result<(), erc20::Error> {
        self.erc20._spend_allowance(owner, spender, value)
    }
}

/// Reference ledger, also used by the extensions' properties.
#[derive(Clone, Default, Debug)]
pub struct M20 {
    pub supply: U256,
    pub bal: BTreeMap<Address, U256>,
    pub allow: BTreeMap<(Address, Address), U256>,
}

impl M20 {
    pub fn b(&self, a: Address) -> U256 {
        self.bal.get(&a).copied().unwrap_or_default()
    }
    pub fn a(&self, o: Address, s: Address) -> U256 {
        self.allow.get(&(o, s)).copied().unwrap_or_default()
    }
    /// Error conditions of spending `v` of `o`'s allowance to `s`.
    pub fn spend_errs(&self, o: Address, s: Address, v: U256) -> Vec<Vec<u8>> {
        let mut e = vec![];
        let a = self.a(o, s);
        if a != MAX {
            if a < v {
                e.push(err(ERC20InsufficientAllowance {
                    spender: s,
                    allowance: a,
                    needed: v,
                }));
            }
            if o == Z {
                e.push(err(ERC20InvalidApprover { approver: Z }));
            }
            if s == Z {
                e.push(err(ERC20InvalidSpender { spender: Z }));
            }
        }
        e
    }
    pub fn spend(&mut self, o: Address, s: Address, v: U256) {
        let a = self.a(o, s);
        if a != MAX {
            self.allow.insert((o, s), a - v);
        }
    }
    pub fn transfer_errs(&self, from: Address, to: Address, v: U256) -> Vec<Vec<u8>> {
        let mut e = vec![];
        if from == Z {
            e.push(err(ERC20InvalidSender { sender: Z }));
        }
        if to == Z {
            e.push(err(ERC20InvalidReceiver { receiver: Z }));
        }
        if self.b(from) < v {
            e.push(self.insufficient(from, v));
        }
        e
    }
    pub fn insufficient(&self, from: Address, v: U256) -> Vec<u8> {
        err(ERC20InsufficientBalance {
            sender: from,
            balance: self.b(from),
            needed: v,
        })
    }
    pub fn mv(&mut self, from: Address, to: Address, v: U256) {
        if from == Z {
            self.supply += v;
        } else {
            *self.bal.entry(from).or_default() -= v;
        }
        if to == Z {
            self.supply -= v;
        } else {
            *self.bal.entry(to).or_default() += v;
        }
    }
    pub fn compare(&self, c: Address, who: &[Address]) -> Check {
        ensure_eq!(
            view(c, totalSupplyCall {})?._0,
            self.supply,
            "supply",
            "totalSupply()"
        );
        for w in who {
            ensure_eq!(
                view(c, balanceOfCall { account: *w })?._0,
                self.b(*w),
                "balance",
                "balanceOf({})",
                short(*w)
            );
            for o in who {
                ensure_eq!(
                    view(c, allowanceCall { owner: *o, spender: *w })?._0,
                    self.a(*o, *w),
                    "allowance",
                    "allowance({}, {})",
                    short(*o),
                    short(*w)
                );
            }
        }
        Ok(())
    }
    /// A non-zero account, usually one that holds tokens.
    pub fn actor(&self, s: &mut Src, who: &[Address]) -> Address {
        let h: Vec<Address> = who
            .iter()
            .copied()
            .filter(|w| *w != Z && !self.b(*w).is_zero())
            .collect();
        if !h.is_empty() && s.chance(3, 5) {
            s.pick(&h)
        } else {
            who[1 + s.idx(who.len() - 1)]
        }
    }
}

pub fn tr(c: Address, from: Address, to: Address, value: U256) -> Log {
    ev(c, Transfer { from, to, value })
}

/// Runs one of the public ERC-20 operations against contract and model.
/// Returns whether it succeeded.
pub fn core_op(s: &mut Src, m: &mut M20, c: Address, who: &[Address]) -> Result<bool, engine::Fail> {
    let sender = if s.chance(1, 40) { Z } else { m.actor(s, who) };
    match s.weighted(&[5, 4, 6]) {
        0 => {
            let to = s.pick(who);
            let v = amount(s, &[m.b(sender), m.b(to), m.supply]);
            s.note(|| format!("{}.transfer({}, {})", short(sender), short(to), num(v)));
            let exp = Exp::from(m.transfer_errs(sender, to, v), false, ret_bool(true));
            let out = send(sender, c, transferCall { to, value: v });
            judge(&out, &exp, "transfer")?;
            if exp.is_ok() {
                m.mv(sender, to, v);
                judge_logs(&out.logs, &[tr(c, sender, to, v)], "transfer")?;
                s.tag("transfer");
                if sender == to {
                    s.tag("self-transfer");
                }
            }
            Ok(exp.is_ok())
        }
        1 => {
            let sp = s.pick(who);
            let v = if s.chance(1, 4) { MAX } else { amount(s, &[m.b(sender), m.a(sender, sp)]) };
            s.note(|| format!("{}.approve({}, {})", short(sender), short(sp), num(v)));
            let mut e = vec![];
            if sender == Z {
                e.push(err(ERC20InvalidApprover { approver: Z }));
            }
            if sp == Z {
                e.push(err(ERC20InvalidSpender { spender: Z }));
            }
            let exp = Exp::from(e, false, ret_bool(true));
            let out = send(sender, c, approveCall { spender: sp, value: v });
            judge(&out, &exp, "approve")?;
            if exp.is_ok() {
                m.allow.insert((sender, sp), v);
                judge_logs(
                    &out.logs,
                    &[ev(c, Approval { owner: sender, spender: sp, value: v })],
                    "approve",
                )?;
                s.tag("approve");
            }
            Ok(exp.is_ok())
        }
        _ => {
            // Prefer pairs that have an allowance.
            let live: Vec<(Address, Address)> = m
                .allow
                .iter()
                .filter(|(k, v)| !v.is_zero() && (!m.b(k.0).is_zero() || m.supply.is_zero()))
                .map(|(k, _)| *k)
                .collect();
            let (from, sender) = if !live.is_empty() && s.chance(3, 4) {
                s.pick(&live)
            } else {
                (if s.chance(1, 8) { Z } else { m.actor(s, who) }, sender)
            };
            let to = s.pick(who);
            let least = m.b(from).min(m.a(from, sender));
            let v = amount(s, &[least, least, m.b(from), m.a(from, sender), m.b(to)]);
            s.note(|| {
                format!("{}.transferFrom({}, {}, {})", short(sender), short(from), short(to), num(v))
            });
            let mut e = m.spend_errs(from, sender, v);
            e.extend(m.transfer_errs(from, to, v));
            let exp = Exp::from(e, false, ret_bool(true));
            let out = send(sender, c, transferFromCall { from, to, value: v });
            judge(&out, &exp, "transferFrom")?;
            if exp.is_ok() {
                let inf = m.a(from, sender) == MAX;
                m.spend(from, sender, v);
                m.mv(from, to, v);
                judge_logs(&out.logs, &[tr(c, from, to, v)], "transferFrom")?;
                s.tag(if inf { "transferFrom-infinite" } else { "transferFrom" });
                if !v.is_zero() {
                    s.tag("spent");
                }
            }
            Ok(exp.is_ok())
        }
    }
}

fn ledger(s: &mut Src) -> Check {
    let c = ca(1);
    deploy::<T20>(c);
    let mut who = vec![Z, eoa(1), eoa(2), eoa(3), c];
    if s.chance(1, 3) {
        who.push(Address::from([0xff; 20]));
        who.push(Address::with_last_byte(1));
    }
    let mut m = M20::default();
    let max = s.size;
    s.steps(max, |s| {
        let sender = m.actor(s, &who);
        match s.weighted(&[12, if m.supply.is_zero() { 12 } else { 3 }, 2, 3, 2, 2, 2]) {
            0 => {
                core_op(s, &mut m, c, &who)?;
            }
            1 => {
                let to = s.pick(&who);
                let v = if s.chance(1, 2) {
                    u(s.range(1, 5000))
                } else {
                    amount(s, &[MAX - m.supply, m.supply])
                };
                s.note(|| format!("_mint({}, {})", short(to), num(v)));
                let mut e = vec![];
                if to == Z {
                    e.push(err(ERC20InvalidReceiver { receiver: Z }));
                }
                let over = m.supply.checked_add(v).is_none();
                let exp = Exp::from(e, over, vec![]);
                let out = send(sender, c, hMintCall { account: to, value: v });
                judge(&out, &exp, "_mint")?;
                if exp.is_ok() {
                    m.mv(Z, to, v);
                    judge_logs(&out.logs, &[tr(c, Z, to, v)], "_mint")?;
                    s.tag("mint");
                } else if over {
                    s.tag("mint-overflow");
                }
            }
            2 => {
                let v = amount(s, &[m.b(sender), m.supply]);
                s.note(|| format!("{}.burn({})", short(sender), num(v)));
                let mut e = vec![];
                if m.b(sender) < v {
                    e.push(m.insufficient(sender, v));
                }
                let exp = Exp::from(e, false, vec![]);
                let out = send(sender, c, burnCall { value: v });
                judge(&out, &exp, "burn")?;
                if exp.is_ok() {
                    m.mv(sender, Z, v);
                    judge_logs(&out.logs, &[tr(c, sender, Z, v)], "burn")?;
                    s.tag("burn");
                }
            }
            3 => {
                let live: Vec<(Address, Address)> = m
                    .allow
                    .iter()
                    .filter(|(_, v)| !v.is_zero())
                    .map(|(k, _)| *k)
                    .collect();
                let (from, sender) = if !live.is_empty() && s.chance(3, 4) {
                    s.pick(&live)
                } else {
                    (s.pick(&who), sender)
                };
                let v = amount(s, &[m.b(from), m.a(from, sender)]);
                s.note(|| format!("{}.burnFrom({}, {})", short(sender), short(from), num(v)));
                let mut e = m.spend_errs(from, sender, v);
                if from == Z {
                    e.push(err(ERC20InvalidSender { sender: Z }));
                }
                if m.b(from) < v {
                    e.push(m.insufficient(from, v));
                }
                let exp = Exp::from(e, false, vec![]);
                let out = send(sender, c, burnFromCall { account: from, value: v });
                judge(&out, &exp, "burnFrom")?;
                if exp.is_ok() {
                    m.spend(from, sender, v);
                    m.mv(from, Z, v);
                    judge_logs(&out.logs, &[tr(c, from, Z, v)], "burnFrom")?;
                    s.tag("burnFrom");
                }
            }
            4 => {
                let from = s.pick(&who);
                let v = amount(s, &[m.b(from), m.supply]);
                s.note(|| format!("_burn({}, {})", short(from), num(v)));
                let mut e = vec![];
                if from == Z {
                    e.push(err(ERC20InvalidSender { sender: Z }));
                }
                if m.b(from) < v {
                    e.push(m.insufficient(from, v));
                }
                let exp = Exp::from(e, false, vec![]);
                let out = send(sender, c, hBurnCall { account: from, value: v });
                judge(&out, &exp, "_burn")?;
                if exp.is_ok() {
                    m.mv(from, Z, v);
                    judge_logs(&out.logs, &[tr(c, from, Z, v)], "_burn")?;
                    s.tag("_burn");
                }
            }
            5 => {
                let (from, to) = (s.pick(&who), s.pick(&who));
                let v = amount(s, &[m.b(from), m.supply, MAX - m.supply]);
                s.note(|| format!("_update({}, {}, {})", short(from), short(to), num(v)));
                let mut e = vec![];
                let mut over = false;
                if from == Z {
                    over = m.supply.checked_add(v).is_none();
                } else if m.b(from) < v {
                    e.push(m.insufficient(from, v));
                }
                let exp = Exp::from(e, over, vec![]);
                let out = send(sender, c, hUpdateCall { from, to, value: v });
                judge(&out, &exp, "_update")?;
                if exp.is_ok() {
                    m.mv(from, to, v);
                    judge_logs(&out.logs, &[tr(c, from, to, v)], "_update")?;
                    s.tag("_update");
                }
            }
            _ => {
                let (o, sp) = (s.pick(&who), s.pick(&who));
                let v = amount(s, &[m.a(o, sp)]);
                s.note(|| format!("_spend_allowance({}, {}, {})", short(o), short(sp), num(v)));
                let exp = Exp::from(m.spend_errs(o, sp, v), false, vec![]);
                let out = send(sender, c, hSpendCall { owner: o, spender: sp, value: v });
                judge(&out, &exp, "_spend_allowance")?;
                if exp.is_ok() {
                    m.spend(o, sp, v);
                    s.tag("_spend");
                }
            }
        }
        m.compare(c, &who)?;
        let sum = who.iter().try_fold(U256::ZERO, |a, w| a.checked_add(m.b(*w)));
        ensure_eq!(sum, Some(m.supply), "sum", "sum of balances");
        Ok(())
    })?;
    s.nontrivial = s.has("spent") && (s.has("mint") || s.has("_update"));
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C01",
    name: "ERC-20 ledger",
    parts: &[("ledger", ledger, 1)],
    rule: "the history minted tokens and moved a non-zero amount with transferFrom against an allowance",
    quick_cases: 120_000,
    thorough_cases: 1_000_000,
    size: (40, 120),
};
