//! Reference ERC-721 ledger and the public operations on it, for any contract
//! exposing the ERC-721 interface.

use std::collections::{BTreeMap, BTreeSet};

use alloy_primitives::{Address, U256};
use alloy_sol_types::sol;
use engine::{ensure_eq, Check, Fail, Src};

use crate::{host::Log, util::*};

sol! {
    interface I721 {
        function balanceOf(address owner) external view returns (uint256);
        function ownerOf(uint256 id) external view returns (address);
        function getApproved(uint256 id) external view returns (address);
        function isApprovedForAll(address owner, address operator) external view returns (bool);
        function transferFrom(address from, address to, uint256 id) external;
        function safeTransferFrom(address from, address to, uint256 id) external;
        function safeTransferFrom(address from, address to, uint256 id, bytes data) external;
        function approve(address to, uint256 id) external;
        function setApprovalForAll(address operator, bool approved) external;
    }
    event Transfer(address indexed from, address indexed to, uint256 indexed token_id);
    event Approval(address indexed owner, address indexed approved, uint256 indexed token_id);
    event ApprovalForAll(address indexed owner, address indexed operator, bool approved);

    error ERC721InvalidOwner(address owner);
    error ERC721NonexistentToken(uint256 token_id);
    error ERC721IncorrectOwner(address sender, uint256 token_id, address owner);
    error ERC721InvalidSender(address sender);
    error ERC721InvalidReceiver(address receiver);
    error ERC721InsufficientApproval(address operator, uint256 token_id);
    error ERC721InvalidApprover(address approver);
    error ERC721InvalidOperator(address operator);
}

#[derive(Default, Clone, Debug)]
pub struct M721 {
    /// Explicit owners (zero: does not exist), over the batches.
    pub own: BTreeMap<U256, Address>,
    /// Batches `(first, last, owner)`.
    pub batches: Vec<(U256, U256, Address)>,
    pub bal: BTreeMap<Address, U256>,
    pub appr: BTreeMap<U256, Address>,
    pub ops: BTreeSet<(Address, Address)>,
    /// Contracts that accept safe transfers.
    pub accept: Vec<Address>,
}

impl M721 {
    pub fn owner(&self, id: U256) -> Address {
        if let Some(o) = self.own.get(&id) {
            return *o;
        }
        self.batches
            .iter()
            .find(|(a, b, _)| *a <= id && id <= *b)
            .map(|x| x.2)
            .unwrap_or_default()
    }
    pub fn b(&self, a: Address) -> U256 {
        self.bal.get(&a).copied().unwrap_or_default()
    }
    pub fn approved(&self, id: U256) -> Address {
        self.appr.get(&id).copied().unwrap_or_default()
    }
    pub fn op(&self, o: Address, p: Address) -> bool {
        self.ops.contains(&(o, p))
    }
    pub fn authorized(&self, owner: Address, p: Address, id: U256) -> bool {
        p != Z && (owner == p || self.op(owner, p) || self.approved(id) == p)
    }
    pub fn mv(&mut self, to: Address, id: U256) -> Address {
        let from = self.owner(id);
        if from != Z {
            self.appr.remove(&id);
            *self.bal.entry(from).or_default() -= u(1);
        }
        if to != Z {
            *self.bal.entry(to).or_default() += u(1);
        }
        self.own.insert(id, to);
        from
    }
    pub fn auth_errs(&self, p: Address, id: U256) -> Vec<Vec<u8>> {
        let o = self.owner(id);
        if o == Z {
            vec![nonexistent(id)]
        } else if !self.authorized(o, p, id) {
            vec![err(ERC721InsufficientApproval { operator: p, token_id: id })]
        } else {
            vec![]
        }
    }
    pub fn transfer_errs(&self, from: Address, to: Address, id: U256) -> Vec<Vec<u8>> {
        let mut e = vec![];
        if to == Z {
            e.push(err(ERC721InvalidReceiver { receiver: Z }));
        }
        let o = self.owner(id);
        if o == Z {
            e.push(nonexistent(id));
        } else if o != from {
            e.push(err(ERC721IncorrectOwner { sender: from, token_id: id, owner: o }));
        }
        e
    }
    pub fn mint_errs(&self, to: Address, id: U256) -> Vec<Vec<u8>> {
        let mut e = vec![];
        if to == Z {
            e.push(err(ERC721InvalidReceiver { receiver: Z }));
        }
        if self.owner(id) != Z {
            e.push(err(ERC721InvalidSender { sender: Z }));
        }
        e
    }
    pub fn compare(&self, c: Address, who: &[Address], ids: &[U256]) -> Check {
        for id in ids {
            let got = view_raw(eoa(90), c, I721::ownerOfCall { id: *id });
            let o = self.owner(*id);
            let want =
                if o == Z { Err(nonexistent(*id)) } else { Ok(o.into_word().to_vec()) };
            ensure_eq!(got, want, "owner", "ownerOf({})", num(*id));
            let got = view_raw(eoa(90), c, I721::getApprovedCall { id: *id });
            let want = if o == Z {
                Err(nonexistent(*id))
            } else {
                Ok(self.approved(*id).into_word().to_vec())
            };
            ensure_eq!(got, want, "approved", "getApproved({})", num(*id));
        }
        for w in who {
            let got = view_raw(eoa(90), c, I721::balanceOfCall { owner: *w });
            let want = if *w == Z {
                Err(err(ERC721InvalidOwner { owner: Z }))
            } else {
                Ok(ret_u256(self.b(*w)))
            };
            ensure_eq!(got, want, "balance", "balanceOf({})", short(*w));
            for p in who {
                ensure_eq!(
                    view(c, I721::isApprovedForAllCall { owner: *w, operator: *p })?._0,
                    self.op(*w, *p),
                    "operator",
                    "isApprovedForAll({}, {})",
                    short(*w),
                    short(*p)
                );
            }
        }
        Ok(())
    }
    /// A token, usually an existing one.
    pub fn token(&self, s: &mut Src, ids: &[U256]) -> U256 {
        let live: Vec<U256> =
            ids.iter().copied().filter(|i| self.owner(*i) != Z).collect();
        if !live.is_empty() && s.chance(5, 6) {
            s.pick(&live)
        } else {
            s.pick(ids)
        }
    }
    /// A caller, often one with some right over `id`.
    pub fn caller(&self, s: &mut Src, who: &[Address], id: U256) -> Address {
        let o = self.owner(id);
        let c = match s.weighted(&[4, 2, 2, 3]) {
            0 => o,
            1 => self.approved(id),
            2 => {
                let v: Vec<Address> =
                    self.ops.iter().filter(|x| x.0 == o).map(|x| x.1).collect();
                if v.is_empty() {
                    Z
                } else {
                    s.pick(&v)
                }
            }
            _ => Z,
        };
        if c == Z {
            who[1 + s.idx(who.len() - 1)]
        } else {
            c
        }
    }
}

pub fn nonexistent(id: U256) -> Vec<u8> {
    err(ERC721NonexistentToken { token_id: id })
}
pub fn tr(c: Address, from: Address, to: Address, id: U256) -> Log {
    ev(c, Transfer { from, to, token_id: id })
}

/// One public ERC-721 operation by a random caller. `who[0]` is zero. Every
/// address of `who` with code that is not in `accept` refuses safe transfers. Returns the token moved.
pub fn core_op(
    s: &mut Src,
    m: &mut M721,
    c: Address,
    who: &[Address],
    ids: &[U256],
) -> Result<Option<U256>, Fail> {
    let id = m.token(s, ids);
    let sender = m.caller(s, who, id);
    match s.weighted(&[6, 3, 3]) {
        0 => {
            let from = if s.chance(1, 8) { s.pick(who) } else { m.owner(id) };
            let to = if s.chance(1, 5) { m.owner(id) } else { s.pick(who) };
            let kind = s.weighted(&[3, 1, 1]);
            let data = if kind == 2 { blob(s) } else { vec![] };
            s.note(|| {
                format!(
                    "{}.{}transferFrom({}, {}, {})",
                    short(sender),
                    if kind > 0 { "safe " } else { "" },
                    short(from),
                    short(to),
                    num(id)
                )
            });
            let mut e = m.transfer_errs(from, to, id);
            if m.owner(id) != Z {
                e.extend(m.auth_errs(sender, id));
            }
            if kind > 0 && crate::host::has_code(to) && !m.accept.contains(&to) {
                e.push(err(ERC721InvalidReceiver { receiver: to }));
            }
            let exp = Exp::from(e, false, vec![]);
            let out = match kind {
                0 => send(sender, c, I721::transferFromCall { from, to, id }),
                1 => send(sender, c, I721::safeTransferFrom_0Call { from, to, id }),
                _ => send(
                    sender,
                    c,
                    I721::safeTransferFrom_1Call { from, to, id, data: data.into() },
                ),
            };
            judge(&out, &exp, "transferFrom")?;
            if exp.is_ok() {
                if m.owner(id) != sender {
                    s.tag(if m.op(from, sender) { "operator-transfer" } else { "approved-transfer" });
                    s.tag("delegated");
                }
                if from == to {
                    s.tag("self-transfer");
                }
                m.mv(to, id);
                judge_logs(&out.logs, &[tr(c, from, to, id)], "transferFrom")?;
                s.tag("transfer");
                return Ok(Some(id));
            }
            s.tag("refused");
        }
        1 => {
            let to = s.pick(who);
            s.note(|| format!("{}.approve({}, {})", short(sender), short(to), num(id)));
            let o = m.owner(id);
            let mut e = vec![];
            if o == Z {
                e.push(nonexistent(id));
            } else if o != sender && !m.op(o, sender) {
                e.push(err(ERC721InvalidApprover { approver: sender }));
            }
            let exp = Exp::from(e, false, vec![]);
            let out = send(sender, c, I721::approveCall { to, id });
            judge(&out, &exp, "approve")?;
            if exp.is_ok() {
                m.appr.insert(id, to);
                judge_logs(
                    &out.logs,
                    &[ev(c, Approval { owner: o, approved: to, token_id: id })],
                    "approve",
                )?;
                s.tag("approve");
            } else {
                s.tag("refused");
            }
        }
        _ => {
            let p = s.pick(who);
            let on = s.chance(2, 3);
            s.note(|| format!("{}.setApprovalForAll({}, {on})", short(sender), short(p)));
            let mut e = vec![];
            if p == Z {
                e.push(err(ERC721InvalidOperator { operator: Z }));
            }
            let exp = Exp::from(e, false, vec![]);
            let out =
                send(sender, c, I721::setApprovalForAllCall { operator: p, approved: on });
            judge(&out, &exp, "setApprovalForAll")?;
            if exp.is_ok() {
                if on {
                    m.ops.insert((sender, p));
                } else {
                    m.ops.remove(&(sender, p));
                }
                judge_logs(
                    &out.logs,
                    &[ev(c, ApprovalForAll { owner: sender, operator: p, approved: on })],
                    "setApprovalForAll",
                )?;
            }
        }
    }
    Ok(None)
}

/// Token ids of a case: small ones, zero, word-boundary and huge ones.
pub fn gen_ids(s: &mut Src, n: usize) -> Vec<U256> {
    let mut v: Vec<U256> = vec![];
    while v.len() < n {
        let mut x = match s.weighted(&[6, 1, 1, 1, 1, if v.is_empty() { 0 } else { 1 }]) {
            0 => u(s.range(1, 30)),
            1 => U256::ZERO,
            2 => MAX - u(s.below(3)),
            3 => U256::from(1) << s.idx(256),
            4 => rand_u256(s),
            // Differs from an earlier id in one high bit.
            _ => v[s.idx(v.len())] ^ (U256::from(1) << s.pick(&[8usize, 16, 32, 64, 96, 128, 160, 192, 248, 255])),
        };
        while v.contains(&x) {
            x = x.wrapping_add(u(1));
        }
        v.push(x);
    }
    v
}
