//! Reference ERC-1155 ledger and the public operations on it.

use std::collections::{BTreeMap, BTreeSet};

use alloy_primitives::{Address, U256};
use alloy_sol_types::sol;
use engine::{ensure_eq, Check, Fail, Src};

use crate::{host, host::Log, util::*};

sol! {
    interface I1155 {
        function balanceOf(address account, uint256 id) external view returns (uint256);
        function balanceOfBatch(address[] accounts, uint256[] ids) external view returns (uint256[]);
        function isApprovedForAll(address account, address operator) external view returns (bool);
        function setApprovalForAll(address operator, bool approved) external;
        function safeTransferFrom(address from, address to, uint256 id, uint256 value, bytes data) external;
        function safeBatchTransferFrom(address from, address to, uint256[] ids, uint256[] values, bytes data) external;
        function burn(address account, uint256 id, uint256 value) external;
        function burnBatch(address account, uint256[] ids, uint256[] values) external;
        function hMint(address to, uint256 id, uint256 value, bytes data) external;
        function hMintBatch(address to, uint256[] ids, uint256[] values, bytes data) external;
        function hBurn(address from, uint256 id, uint256 value) external;
        function hBurnBatch(address from, uint256[] ids, uint256[] values) external;
    }
    event TransferSingle(address indexed operator, address indexed from, address indexed to, uint256 id, uint256 value);
    event TransferBatch(address indexed operator, address indexed from, address indexed to, uint256[] ids, uint256[] values);
    event ApprovalForAll(address indexed account, address indexed operator, bool approved);

    error ERC1155InsufficientBalance(address sender, uint256 balance, uint256 needed, uint256 token_id);
    error ERC1155InvalidSender(address sender);
    error ERC1155InvalidReceiver(address receiver);
    error ERC1155MissingApprovalForAll(address operator, address owner);
    error ERC1155InvalidApprover(address approver);
    error ERC1155InvalidOperator(address operator);
    error ERC1155InvalidArrayLength(uint256 ids_length, uint256 values_length);
}

#[derive(Default, Clone, Debug)]
pub struct M1155 {
    pub bal: BTreeMap<(U256, Address), U256>,
    pub ops: BTreeSet<(Address, Address)>,
    /// Contracts that accept tokens.
    pub accept: Vec<Address>,
    /// Whether supplies are bounded (the supply extension).
    pub bounded: bool,
}

/// A requested movement; `from` zero mints, `to` zero burns.
#[derive(Clone, Debug)]
pub struct Move {
    pub from: Address,
    pub to: Address,
    pub ids: Vec<U256>,
    pub values: Vec<U256>,
}
impl Move {
    pub fn log(&self, c: Address, operator: Address) -> Log {
        let (from, to) = (self.from, self.to);
        if self.ids.len() == 1 {
            ev(c, TransferSingle { operator, from, to, id: self.ids[0], value: self.values[0] })
        } else {
            ev(c, TransferBatch { operator, from, to, ids: self.ids.clone(), values: self.values.clone() })
        }
    }
    pub fn show(&self) -> String {
        format!(
            "{} -> {}, ids {:?}, values {:?}",
            short(self.from),
            short(self.to),
            self.ids.iter().map(|x| num(*x)).collect::<Vec<_>>(),
            self.values.iter().map(|x| num(*x)).collect::<Vec<_>>()
        )
    }
}

impl M1155 {
    pub fn b(&self, id: U256, a: Address) -> U256 {
        self.bal.get(&(id, a)).copied().unwrap_or_default()
    }
    pub fn op(&self, o: Address, p: Address) -> bool {
        self.ops.contains(&(o, p))
    }
    pub fn may(&self, o: Address, p: Address) -> bool {
        o == p || self.op(o, p)
    }
    /// Per-id supply; `None` if it exceeds the word.
    pub fn supply(&self, id: U256) -> Option<U256> {
        self.bal
            .iter()
            .filter(|x| x.0 .0 == id)
            .try_fold(U256::ZERO, |a, x| a.checked_add(*x.1))
    }
    pub fn supply_all(&self) -> Option<U256> {
        self.bal.values().try_fold(U256::ZERO, |a, x| a.checked_add(*x))
    }
    pub fn auth_errs(&self, o: Address, p: Address) -> Vec<Vec<u8>> {
        if self.may(o, p) {
            vec![]
        } else {
            vec![err(ERC1155MissingApprovalForAll { operator: p, owner: o })]
        }
    }
    /// The state after the movement, or the errors and whether it overflows.
    pub fn apply(&self, m: &Move) -> Result<M1155, (Vec<Vec<u8>>, bool)> {
        if m.ids.len() != m.values.len() {
            let e = ERC1155InvalidArrayLength {
                ids_length: u(m.ids.len() as u64),
                values_length: u(m.values.len() as u64),
            };
            return Err((vec![err(e)], false));
        }
        let mut w = self.clone();
        for (id, v) in m.ids.iter().zip(&m.values) {
            if m.from != Z {
                let b = w.b(*id, m.from);
                if b < *v {
                    let e = ERC1155InsufficientBalance {
                        sender: m.from,
                        balance: b,
                        needed: *v,
                        token_id: *id,
                    };
                    return Err((vec![err(e)], false));
                }
                w.bal.insert((*id, m.from), b - *v);
            }
            if m.to != Z {
                match w.b(*id, m.to).checked_add(*v) {
                    Some(x) => {
                        w.bal.insert((*id, m.to), x);
                    }
                    None => return Err((vec![], true)),
                }
            }
        }
        if w.bounded && w.supply_all().is_none() {
            return Err((vec![], true));
        }
        Ok(w)
    }
    /// Expectation for a movement by `sender`, with the errors of `pre`
    /// conditions; a receiver with code that does not accept refuses it.
    pub fn expect(&self, m: &Move, mut e: Vec<Vec<u8>>) -> (Exp, Option<M1155>) {
        match self.apply(m) {
            Ok(w) => {
                if m.to != Z && host::has_code(m.to) && !self.accept.contains(&m.to) {
                    e.push(err(ERC1155InvalidReceiver { receiver: m.to }));
                }
                let x = Exp::from(e, false, vec![]);
                let ok = x.is_ok();
                (x, ok.then_some(w))
            }
            Err((mut f, over)) => {
                // An overflow among other failed conditions: any failure will do.
                e.append(&mut f);
                (Exp::from(e, over, vec![]), None)
            }
        }
    }
    pub fn compare(&self, c: Address, who: &[Address], ids: &[U256]) -> Check {
        let mut acc = vec![];
        let mut idl = vec![];
        let mut want = vec![];
        for w in who {
            for id in ids {
                let x = self.b(*id, *w);
                ensure_eq!(
                    view(c, I1155::balanceOfCall { account: *w, id: *id })?._0,
                    x,
                    "balance",
                    "balanceOf({}, {})",
                    short(*w),
                    num(*id)
                );
                acc.push(*w);
                idl.push(*id);
                want.push(x);
            }
            for p in who {
                ensure_eq!(
                    view(c, I1155::isApprovedForAllCall { account: *w, operator: *p })?._0,
                    self.op(*w, *p),
                    "operator",
                    "isApprovedForAll({}, {})",
                    short(*w),
                    short(*p)
                );
            }
        }
        ensure_eq!(
            view(c, I1155::balanceOfBatchCall { accounts: acc, ids: idl })?._0,
            want,
            "batch-query",
            "balanceOfBatch over all accounts and ids"
        );
        Ok(())
    }
    /// A caller, often one with a right over `o`.
    pub fn caller(&self, s: &mut Src, who: &[Address], o: Address) -> Address {
        if o == Z && s.chance(1, 4) {
            return Z;
        }
        let c = match s.weighted(&[5, 3, 3]) {
            0 => o,
            1 => {
                let v: Vec<Address> =
                    self.ops.iter().filter(|x| x.0 == o).map(|x| x.1).collect();
                if v.is_empty() {
                    Z
                } else {
                    s.pick(&v)
                }
            }
            _ => Z,
        };
        if c == Z {
            who[1 + s.idx(who.len() - 1)]
        } else {
            c
        }
    }
    /// Ids and amounts of a movement out of `from` (zero: a mint).
    pub fn gen_lists(
        &self,
        s: &mut Src,
        from: Address,
        ids: &[U256],
        n: usize,
    ) -> (Vec<U256>, Vec<U256>) {
        let mut l = vec![];
        let mut v = vec![];
        let mut w = self.clone();
        for _ in 0..n {
            let held: Vec<U256> =
                ids.iter().copied().filter(|i| !w.b(*i, from).is_zero()).collect();
            let id = if !held.is_empty() && s.chance(4, 5) { s.pick(&held) } else { s.pick(ids) };
            let b = w.b(id, from);
            let x = if n > 8 {
                // A long batch of small amounts.
                if from == Z { u(s.range(0, 3)) } else { b.min(u(1)) }
            } else if from == Z {
                let room = MAX - self.supply_all().unwrap_or(MAX);
                amount(s, &[room, self.supply(id).unwrap_or(MAX)])
            } else if s.chance(5, 6) {
                // Something affordable.
                match s.idx(3) {
                    0 => b,
                    1 => b / u(2),
                    _ => b.min(u(s.range(0, 9))),
                }
            } else {
                amount(s, &[b])
            };
            if from != Z && x <= b {
                w.bal.insert((id, from), b - x);
            }
            l.push(id);
            v.push(x);
        }
        if n > 0 && s.chance(1, 25) {
            match s.idx(3) {
                0 => {
                    v.pop();
                }
                1 => v.push(u(1)),
                _ => {
                    l.pop();
                }
            }
        }
        (l, v)
    }
}

pub fn gen_len(s: &mut Src) -> usize {
    match s.weighted(&[20, 80, 120, 80, 40, 3]) {
        5 => s.pick(&[16, 32, 33, 64, 65, 128, 255, 256, 257, 300]),
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 3,
        _ => 4 + s.idx(4),
    }
}

/// One operation: transfers, operator grants, mints and burns. `who[0]` is zero.
pub fn op(
    s: &mut Src,
    m: &mut M1155,
    c: Address,
    who: &[Address],
    ids: &[U256],
) -> Result<(), Fail> {
    let holders: Vec<Address> = who[1..]
        .iter()
        .copied()
        .filter(|w| ids.iter().any(|i| !m.b(*i, *w).is_zero()))
        .collect();
    let holder = if holders.is_empty() || s.chance(1, 12) { s.pick(who) } else { s.pick(&holders) };
    let sender = m.caller(s, who, holder);
    match s.weighted(&[6, 5, 5, 4, 3, 2]) {
        // transfer
        0 => {
            let to = if s.chance(1, 6) { holder } else { s.pick(who) };
            let batch = s.chance(3, 5);
            let n = if batch { gen_len(s) } else { 1 };
            let (mut l, mut v) = m.gen_lists(s, holder, ids, n);
            if !batch && (l.len() != 1 || v.len() != 1) {
                (l, v) = (vec![ids[0]], vec![u(1)]);
            }
            let data = blob(s);
            let mv = Move { from: holder, to, ids: l, values: v };
            s.note(|| format!("{}.transfer{} {}", short(sender), if batch { "Batch" } else { "" }, mv.show()));
            let mut e = m.auth_errs(holder, sender);
            if to == Z {
                e.push(err(ERC1155InvalidReceiver { receiver: Z }));
            }
            if holder == Z {
                e.push(err(ERC1155InvalidSender { sender: Z }));
            }
            let (exp, next) = if to == Z || holder == Z {
                (Exp::from(e, false, vec![]), None)
            } else {
                m.expect(&mv, e)
            };
            let out = if batch {
                send(sender, c, I1155::safeBatchTransferFromCall { from: holder, to, ids: mv.ids.clone(), values: mv.values.clone(), data: data.into() })
            } else {
                send(sender, c, I1155::safeTransferFromCall { from: holder, to, id: mv.ids[0], value: mv.values[0], data: data.into() })
            };
            judge(&out, &exp, "transfer")?;
            if let Some(w) = next {
                if sender != holder {
                    s.tag("delegated");
                }
                if holder == to {
                    s.tag("self-transfer");
                }
                *m = w;
                judge_logs(&out.logs, &[mv.log(c, sender)], "transfer")?;
                s.tag("transfer");
                tag_batch(s, &mv);
            } else {
                s.tag("refused");
            }
        }
        // mint
        1 => {
            let to = if s.chance(1, 10) { Z } else { s.pick(who) };
            let batch = s.chance(3, 5);
            let n = if batch { gen_len(s) } else { 1 };
            let (mut l, mut v) = m.gen_lists(s, Z, ids, n);
            if !batch && (l.len() != 1 || v.len() != 1) {
                (l, v) = (vec![ids[0]], vec![u(1)]);
            }
            let data = blob(s);
            let mv = Move { from: Z, to, ids: l, values: v };
            s.note(|| format!("{}._mint{} {}", short(sender), if batch { "_batch" } else { "" }, mv.show()));
            let (exp, next) = if to == Z {
                (Exp::from(vec![err(ERC1155InvalidReceiver { receiver: Z })], false, vec![]), None)
            } else {
                m.expect(&mv, vec![])
            };
            let out = if batch {
                send(sender, c, I1155::hMintBatchCall { to, ids: mv.ids.clone(), values: mv.values.clone(), data: data.into() })
            } else {
                send(sender, c, I1155::hMintCall { to, id: mv.ids[0], value: mv.values[0], data: data.into() })
            };
            judge(&out, &exp, "mint")?;
            if matches!(exp, Exp::Fail) {
                s.tag("overflow");
            }
            if let Some(w) = next {
                *m = w;
                judge_logs(&out.logs, &[mv.log(c, sender)], "mint")?;
                s.tag("mint");
                tag_batch(s, &mv);
            }
        }
        // public burn
        2 => burn(s, m, c, holder, sender, ids, true)?,
        // internal burn
        3 => burn(s, m, c, holder, sender, ids, false)?,
        // operator
        4 => {
            let p = s.pick(who);
            let on = s.chance(2, 3);
            s.note(|| format!("{}.setApprovalForAll({}, {on})", short(sender), short(p)));
            let e = if p == Z { vec![err(ERC1155InvalidOperator { operator: Z })] } else { vec![] };
            let exp = Exp::from(e, false, vec![]);
            let out = send(sender, c, I1155::setApprovalForAllCall { operator: p, approved: on });
            judge(&out, &exp, "setApprovalForAll")?;
            if exp.is_ok() {
                if on {
                    m.ops.insert((sender, p));
                } else {
                    m.ops.remove(&(sender, p));
                }
                judge_logs(&out.logs, &[ev(c, ApprovalForAll { account: sender, operator: p, approved: on })], "setApprovalForAll")?;
            }
        }
        // batch query
        _ => {
            let (n, k) = (gen_len(s), gen_len(s));
            let k = if s.chance(1, 4) { k } else { n };
            let acc: Vec<Address> = (0..n).map(|_| s.pick(who)).collect();
            let idl: Vec<U256> = (0..k).map(|_| s.pick(ids)).collect();
            let got = view_raw(sender, c, I1155::balanceOfBatchCall { accounts: acc.clone(), ids: idl.clone() });
            if n != k {
                let e = ERC1155InvalidArrayLength { ids_length: u(k as u64), values_length: u(n as u64) };
                ensure_eq!(got, Err(err(e)), "batch-query", "balanceOfBatch with {n} accounts and {k} ids");
            } else {
                let want: Vec<U256> = acc.iter().zip(&idl).map(|(a, i)| m.b(*i, *a)).collect();
                ensure_eq!(
                    view(c, I1155::balanceOfBatchCall { accounts: acc, ids: idl })?._0,
                    want,
                    "batch-query",
                    "balanceOfBatch"
                );
            }
        }
    }
    Ok(())
}

fn tag_batch(s: &mut Src, mv: &Move) {
    if mv.ids.len() > 1 {
        s.tag("batch");
        let set: BTreeSet<_> = mv.ids.iter().collect();
        if set.len() < mv.ids.len() {
            s.tag("duplicate");
        }
    }
}

fn burn(
    s: &mut Src,
    m: &mut M1155,
    c: Address,
    holder: Address,
    sender: Address,
    ids: &[U256],
    public: bool,
) -> Check {
    let batch = s.chance(3, 5);
    let n = if batch { gen_len(s) } else { 1 };
    let (mut l, mut v) = m.gen_lists(s, holder, ids, n);
    if !batch && (l.len() != 1 || v.len() != 1) {
        (l, v) = (vec![ids[0]], vec![u(1)]);
    }
    let mv = Move { from: holder, to: Z, ids: l, values: v };
    s.note(|| format!("{}.{}burn{} {}", short(sender), if public { "" } else { "_" }, if batch { "Batch" } else { "" }, mv.show()));
    let mut e = if public { m.auth_errs(holder, sender) } else { vec![] };
    if holder == Z {
        e.push(err(ERC1155InvalidSender { sender: Z }));
    }
    let (exp, next) =
        if holder == Z { (Exp::from(e, false, vec![]), None) } else { m.expect(&mv, e) };
    let out = match (batch, public) {
        (false, true) => send(sender, c, I1155::burnCall { account: holder, id: mv.ids[0], value: mv.values[0] }),
        (true, true) => send(sender, c, I1155::burnBatchCall { account: holder, ids: mv.ids.clone(), values: mv.values.clone() }),
        (false, false) => send(sender, c, I1155::hBurnCall { from: holder, id: mv.ids[0], value: mv.values[0] }),
        (true, false) => send(sender, c, I1155::hBurnBatchCall { from: holder, ids: mv.ids.clone(), values: mv.values.clone() }),
    };
    judge(&out, &exp, "burn")?;
    if let Some(w) = next {
        *m = w;
        judge_logs(&out.logs, &[mv.log(c, sender)], "burn")?;
        s.tag("burn");
        if public && sender != holder {
            s.tag("delegated");
        }
        tag_batch(s, &mv);
    } else {
        s.tag("refused");
    }
    Ok(())
}
