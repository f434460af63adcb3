//! C13: the ERC-721 wrapper.

use std::{cell::RefCell, rc::Rc};

use alloy_primitives::{Address, FixedBytes, U256};
use alloy_sol_types::{sol, SolCall};
use engine::{ensure, ensure_eq, Check, Prop, Src};
use openzeppelin_stylus::token::erc721::{
    extensions::{wrapper, Erc721Wrapper},
    Erc721,
};
use ozverif::{
    host::{self, Code},
    m721::*,
    tokens::{onERC721ReceivedCall, INft, Nft},
    util::*,
};
use stylus_sdk::{abi::Bytes, prelude::*};

sol! {
    interface IWr {
        function underlying() external view returns (address);
        function depositFor(address account, uint256[] ids) external returns (bool);
        function withdrawTo(address account, uint256[] ids) external returns (bool);
        function recover(address account, uint256 id) external returns (uint256);
    }
    error ERC721UnsupportedToken(address token);
    error Erc721FailedOperation(address token);
}
use IWr::*;

#[storage]
pub struct Wr {
    #[borrow]
    erc721: Erc721,
    #[borrow]
    wrapper: Erc721Wrapper,
}
unsafe impl TopLevelStorage for Wr {}
#[public]
#[inherit(Erc721)]
impl Wr {
    fn underlying(&self) -> Address {
        self.wrapper.underlying()
    }
    fn deposit_for(&mut self, account: Address, ids: Vec<U256>) -> Result<bool, wrapper::Error> {
        self.wrapper.deposit_for(account, ids, &mut self.erc721)
    }
    fn withdraw_to(&mut self, account: Address, ids: Vec<U256>) -> Result<bool, Vec<u8>> {
        self.wrapper.withdraw_to(account, ids, &mut self.erc721).map_err(nested)
    }
    fn recover(&mut self, account: Address, id: U256) -> Result<U256, Vec<u8>> {
        self.wrapper.ozverif_recover(account, id, &mut self.erc721).map_err(nested)
    }
    #[selector(name = "onERC721Received")]
    fn on_erc721_received(
        &mut self,
        operator: Address,
        from: Address,
        token_id: U256,
        data: Bytes,
    ) -> Result<FixedBytes<4>, wrapper::Error> {
        self.wrapper.on_erc721_received(operator, from, token_id, data, &mut self.erc721)
    }
}

fn word4(x: [u8; 4]) -> Vec<u8> {
    let mut w = x.to_vec();
    w.resize(32, 0);
    w
}

fn run(s: &mut Src) -> Check {
    let c = ca(1);
    let nft = Nft::deploy(ca(2));
    deploy::<Wr>(c);
    let mut low = [0u8; 20];
    low[19] = 1;
    let hit = || view(c, underlyingCall {}).is_ok_and(|r| r._0 == Address::from(low));
    ensure!(configure("underlying721", c, hit, nft.addr.as_slice()), "config", "underlying() is not reported");
    ensure_eq!(view(c, underlyingCall {})?._0, nft.addr, "underlying", "underlying()");

    // A receiver contract that accepts (and logs) tokens, and one that does not.
    let yes = ca(3);
    let no = ca(4);
    let seen: Rc<RefCell<Vec<(Address, Address, Address, U256)>>> = Default::default();
    let log = seen.clone();
    host::set_code(
        yes,
        Code::Mock(Rc::new(move |d| {
            let (_, sender, _) = host::ctx();
            let k = onERC721ReceivedCall::abi_decode(d, true).map_err(|_| vec![])?;
            log.borrow_mut().push((sender, k.operator, k.from, k.tokenId));
            let mut r = onERC721ReceivedCall::SELECTOR.to_vec();
            r.resize(32, 0);
            Ok(r)
        })),
    );
    host::set_code(no, Code::Mock(Rc::new(|_| Err(b"no thanks".to_vec()))));

    let who = [Z, eoa(1), eoa(2), eoa(3), c, yes, no];
    let k = s.range(2, 6) as usize;
    let ids = gen_ids(s, k);
    let mut m = M721 { accept: vec![yes], ..Default::default() };
    for id in &ids {
        if s.chance(7, 8) {
            nft.set_owner(*id, eoa(s.range(1, 3)));
        }
    }
    for i in 1..4 {
        if s.chance(3, 4) {
            nft.set_approved(eoa(i), c, true);
        }
    }
    let max = s.size;
    s.steps(max, |s| {
        seen.borrow_mut().clear();
        let fault = match s.weighted(&[14, 1, 1]) {
            0 => None,
            1 => Some(vec![]),
            _ => Some(b"frozen!!".to_vec()),
        };
        let fault_err = |f: &Vec<u8>| {
            if f.is_empty() {
                err(Erc721FailedOperation { token: nft.addr })
            } else {
                f.clone()
            }
        };
        let account = match s.weighted(&[10, 2, 1, 1, 1]) {
            0 => eoa(s.range(1, 3)),
            1 => yes,
            2 => no,
            3 => Z,
            _ => c,
        };
        match s.weighted(&[7, 7, 4, 2, 2, 6, 1, 3]) {
            0 => {
                let sender = eoa(s.range(1, 3));
                let mine: Vec<U256> = ids.iter().copied().filter(|i| nft.owner(*i) == sender).collect();
                let n = s.weighted(&[1, 6, 4, 2]);
                let mut list = vec![];
                for _ in 0..n {
                    let fresh: Vec<U256> = mine.iter().copied().filter(|i| !list.contains(i)).collect();
                    list.push(if fresh.is_empty() || s.chance(1, 8) { s.pick(&ids) } else { s.pick(&fresh) });
                }
                s.note(|| format!("{}.depositFor({}, {list:?}) fault {fault:?}", short(sender), short(account)));
                let (mut w, mut own) = (m.clone(), std::collections::BTreeMap::new());
                let (mut e, mut vague, mut logs, mut calls) = (vec![], false, vec![], vec![]);
                for id in &list {
                    let o = own.get(id).copied().unwrap_or(nft.owner(*id));
                    if let Some(f) = &fault {
                        e.push(fault_err(f));
                    } else if o != sender || !nft.approved(sender, c) {
                        e.push(b"not allowed".to_vec());
                    }
                    e.extend(w.mint_errs(account, *id));
                    if account == no {
                        e.push(b"no thanks".to_vec());
                    }
                    vague |= account == c;
                    if !e.is_empty() || vague {
                        break;
                    }
                    own.insert(*id, c);
                    w.mv(account, *id);
                    logs.push(tr(c, Z, account, *id));
                    if account == yes {
                        calls.push((c, sender, Z, *id));
                    }
                }
                let exp = Exp::from(e, vague, ret_bool(true));
                *nft.fail_transfer.borrow_mut() = fault.clone();
                let out = send(sender, c, depositForCall { account, ids: list.clone() });
                *nft.fail_transfer.borrow_mut() = None;
                let before: Vec<Address> = ids.iter().map(|i| nft.owner(*i)).collect();
                judge(&out, &exp, "depositFor")?;
                if exp.is_ok() {
                    judge_logs(&out.logs, &logs, "depositFor")?;
                    ensure_eq!(*seen.borrow(), calls, "callback", "acceptance callbacks of depositFor");
                    m = w;
                    for id in &list {
                        ensure_eq!(nft.owner(*id), c, "pull", "owner of underlying {} after its deposit", num(*id));
                    }
                    if list.len() > 1 {
                        s.tag("multi-deposit");
                    }
                    if !list.is_empty() {
                        s.tag("deposit");
                    }
                } else {
                    let after: Vec<Address> = ids.iter().map(|i| nft.owner(*i)).collect();
                    ensure_eq!(after, before, "trace", "underlying owners after a refused deposit");
                    s.tag("refused");
                }
            }
            1 => {
                let id = m.token(s, &ids);
                let sender = m.caller(s, &who[..4], id);
                let mut list = vec![];
                let n = s.weighted(&[1, 8, 4, 2]);
                for _ in 0..n {
                    let can: Vec<U256> = ids
                        .iter()
                        .copied()
                        .filter(|i| !list.contains(i) && m.owner(*i) != Z && m.authorized(m.owner(*i), sender, *i))
                        .collect();
                    list.push(if can.is_empty() || s.chance(1, 8) { s.pick(&ids) } else { s.pick(&can) });
                }
                s.note(|| format!("{}.withdrawTo({}, {list:?}) fault {fault:?}", short(sender), short(account)));
                let mut w = m.clone();
                let (mut e, mut vague, mut logs, mut calls) = (vec![], false, vec![], vec![]);
                for id in &list {
                    e.extend(w.auth_errs(sender, *id));
                    if let Some(f) = &fault {
                        e.push(fault_err(f));
                    } else if account == Z || nft.owner(*id) != c {
                        e.push(b"not allowed".to_vec());
                    }
                    if account == no {
                        e.push(b"no thanks".to_vec());
                    }
                    vague |= account == c;
                    if !e.is_empty() || vague {
                        break;
                    }
                    let o = w.mv(Z, *id);
                    logs.push(tr(c, o, Z, *id));
                    if account == yes {
                        calls.push((nft.addr, c, c, *id));
                    }
                    if o != sender {
                        s.tag("delegated");
                    }
                }
                let exp = Exp::from(e, vague, ret_bool(true));
                let before: Vec<Address> = ids.iter().map(|i| nft.owner(*i)).collect();
                *nft.fail_transfer.borrow_mut() = fault.clone();
                let out = send(sender, c, withdrawToCall { account, ids: list.clone() });
                *nft.fail_transfer.borrow_mut() = None;
                judge(&out, &exp, "withdrawTo")?;
                if exp.is_ok() {
                    judge_logs(&out.logs, &logs, "withdrawTo")?;
                    ensure_eq!(*seen.borrow(), calls, "callback", "acceptance callbacks of withdrawTo");
                    m = w;
                    for id in &list {
                        ensure_eq!(nft.owner(*id), account, "push", "owner of underlying {} after withdrawal", num(*id));
                    }
                    if !list.is_empty() {
                        s.tag("withdraw");
                    }
                } else {
                    let after: Vec<Address> = ids.iter().map(|i| nft.owner(*i)).collect();
                    ensure_eq!(after, before, "trace", "underlying owners after a refused withdrawal");
                    s.tag("refused");
                }
            }
            2 => {
                // Direct safe transfer of the underlying to the wrapper.
                let id = s.pick(&ids);
                let from = nft.owner(id);
                if from == Z || from == c || from == no || from == yes {
                    return Ok(());
                }
                let op = if s.chance(1, 3) { eoa(s.range(1, 3)) } else { from };
                if op != from {
                    nft.set_approved(from, op, true);
                }
                s.note(|| format!("underlying: {}.safeTransferFrom({}, wrapper, {})", short(op), short(from), num(id)));
                let out = if s.bool() {
                    send(op, nft.addr, INft::safeTransferFrom_0Call { from, to: c, id })
                } else {
                    let data = blob(s);
                    send(op, nft.addr, INft::safeTransferFrom_1Call { from, to: c, id, data: data.into() })
                };
                judge(&out, &Exp::Ok(vec![]), "direct transfer")?;
                judge_logs(&out.logs, &[tr(c, Z, from, id)], "direct transfer")?;
                m.mv(from, id);
                ensure_eq!(nft.owner(id), c, "pull", "owner of underlying {}", num(id));
                s.tag("direct");
            }
            3 if s.chance(1, 3) => {
                // The underlying reports a token it put into the wrapper, for
                // any previous owner (zero: minted straight into it).
                let id = s.pick(&ids);
                let from = s.pick(&[Z, eoa(1), eoa(2), eoa(3)]);
                let had = nft.owner(id);
                if had != Z && had != c {
                    return Ok(());
                }
                nft.set_owner(id, c);
                s.note(|| format!("underlying.onERC721Received(from {}, {})", short(from), num(id)));
                let mut e = vec![];
                if from == Z {
                    e.push(err(ERC721InvalidReceiver { receiver: Z }));
                }
                if m.owner(id) != Z {
                    e.push(err(ERC721InvalidSender { sender: Z }));
                }
                let exp = Exp::from(e, false, word4(onERC721ReceivedCall::SELECTOR));
                let out = send(
                    nft.addr,
                    c,
                    onERC721ReceivedCall { operator: s.pick(&who), from, tokenId: id, data: blob(s).into() },
                );
                judge(&out, &exp, "onERC721Received")?;
                if exp.is_ok() {
                    judge_logs(&out.logs, &[tr(c, Z, from, id)], "onERC721Received")?;
                    m.mv(from, id);
                    s.tag("direct");
                } else {
                    nft.set_owner(id, had);
                }
            }
            3 => {
                // Anyone else posing as the underlying.
                let sender = who[1 + s.idx(who.len() - 1)];
                if sender == nft.addr {
                    return Ok(());
                }
                let (id, from) = (s.pick(&ids), s.pick(&who));
                s.note(|| format!("{}.onERC721Received(from {}, {})", short(sender), short(from), num(id)));
                let out = send(
                    sender,
                    c,
                    onERC721ReceivedCall { operator: s.pick(&who), from, tokenId: id, data: vec![].into() },
                );
                judge(&out, &Exp::Rev(vec![err(ERC721UnsupportedToken { token: sender })]), "onERC721Received")?;
                s.tag("posed");
            }
            4 => {
                // A plain transfer of the underlying to the wrapper mints nothing.
                let id = s.pick(&ids);
                let o = nft.owner(id);
                if o != Z && o != c && m.owner(id) == Z {
                    s.note(|| format!("underlying {} sent to the wrapper unsafely", num(id)));
                    judge(&send(o, nft.addr, INft::transferFromCall { from: o, to: c, id }), &Exp::Ok(vec![]), "donation")?;
                }
            }
            5 => {
                // The wrapped token in use.
                core_op(s, &mut m, c, &who[..4], &ids)?;
            }
            6 => {
                let i = s.range(1, 3);
                let on = s.chance(3, 4);
                nft.set_approved(eoa(i), c, on);
            }
            _ => {
                // Mint for a token that reached the wrapper unwrapped.
                let stray: Vec<U256> = ids.iter().copied().filter(|i| nft.owner(*i) == c && m.owner(*i) == Z).collect();
                let id = if stray.is_empty() || s.chance(1, 4) { s.pick(&ids) } else { s.pick(&stray) };
                let sender = s.pick(&who[1..4]);
                s.note(|| format!("{}: recover({}, {}) fault {fault:?}", short(sender), short(account), num(id)));
                let mut e = vec![];
                let o = nft.owner(id);
                let broken = match &fault {
                    Some(f) if f.is_empty() => Some(Ok(vec![])),
                    Some(f) => Some(Err(f.clone())),
                    None => None,
                };
                if broken.is_some() || o == Z {
                    e.push(err(Erc721FailedOperation { token: nft.addr }));
                } else if o != c {
                    e.push(err(ERC721IncorrectOwner { sender: c, token_id: id, owner: o }));
                }
                e.extend(m.mint_errs(account, id));
                if account == no {
                    e.push(b"no thanks".to_vec());
                }
                let exp = Exp::from(e, account == c, ret_u256(id));
                *nft.fail_owner_of.borrow_mut() = broken;
                let out = send(sender, c, recoverCall { account, id });
                *nft.fail_owner_of.borrow_mut() = None;
                judge(&out, &exp, "recover")?;
                ensure_eq!(nft.owner(id), o, "recover", "owner of underlying {} across recover", num(id));
                if exp.is_ok() {
                    judge_logs(&out.logs, &[tr(c, Z, account, id)], "recover")?;
                    let calls = if account == yes { vec![(c, sender, Z, id)] } else { vec![] };
                    ensure_eq!(*seen.borrow(), calls, "callback", "acceptance callbacks of recover");
                    m.mv(account, id);
                    s.tag("recovered");
                } else {
                    s.tag("refused");
                }
            }
        }
        m.compare(c, &who, &ids)?;
        for id in &ids {
            ensure!(
                m.owner(*id) == Z || nft.owner(*id) == c,
                "backing",
                "wrapped {} exists but the underlying belongs to {}",
                num(*id),
                short(nft.owner(*id))
            );
        }
        Ok(())
    })?;
    s.nontrivial = s.has("deposit") && s.has("withdraw") && s.has("refused") && s.has("direct");
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C13",
    name: "ERC-721 wrapper",
    parts: &[("wrapper", run, 1)],
    rule: "the history has a deposit, a withdrawal, a direct transfer into the wrapper and a refused deposit or withdrawal",
    quick_cases: 60_000,
    thorough_cases: 500_000,
    size: (40, 100),
};
