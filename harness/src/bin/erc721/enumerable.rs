//! C11: ERC-721 enumeration.

use std::collections::BTreeSet;

use alloy_primitives::{Address, U256};
use alloy_sol_types::sol;
use engine::{ensure, ensure_eq, Check, Fail, Prop, Src};
use openzeppelin_stylus::token::erc721::{
    self,
    extensions::{enumerable, Erc721Enumerable, IErc721Burnable},
    Erc721, IErc721,
};
use ozverif::{m721::*, util::*};
use stylus_sdk::{abi::Bytes, prelude::*};

sol! {
    interface IEn {
        function totalSupply() external view returns (uint256);
        function tokenByIndex(uint256 index) external view returns (uint256);
        function tokenOfOwnerByIndex(address owner, uint256 index) external view returns (uint256);
        function burn(uint256 id) external;
        function hMint(address to, uint256 id) external;
        function hGuarded(address from, address to, uint256 id) external;
        function hCheckIncrease(uint128 amount) external view;
    }
    error ERC721OutOfBoundsIndex(address owner, uint256 index);
    error ERC721EnumerableForbiddenBatchMint();
}
use IEn::*;

#[derive(SolidityError, Debug)]
enum Error {
    Enumerable(enumerable::Error),
    Erc721(erc721::Error),
}

#[storage]
pub struct En {
    #[borrow]
    erc721: Erc721,
    #[borrow]
    enumerable: Erc721Enumerable,
}
unsafe impl TopLevelStorage for En {}

/// The composition the documentation gives.
#[public]
#[inherit(Erc721, Erc721Enumerable)]
impl En {
    fn burn(&mut self, id: U256) -> Result<(), Error> {
        let owner = self.erc721.owner_of(id)?;
        self.erc721.burn(id)?;
        self.enumerable._remove_token_from_owner_enumeration(owner, id, &self.erc721)?;
        self.enumerable._remove_token_from_all_tokens_enumeration(id);
        Ok(())
    }
    fn h_mint(&mut self, to: Address, id: U256) -> Result<(), Error> {
        self.erc721._mint(to, id)?;
        self.enumerable._add_token_to_all_tokens_enumeration(id);
        self.enumerable._add_token_to_owner_enumeration(to, id, &self.erc721)?;
        Ok(())
    }
    fn transfer_from(&mut self, from: Address, to: Address, id: U256) -> Result<(), Error> {
        let previous = self.erc721.owner_of(id)?;
        self.erc721.transfer_from(from, to, id)?;
        self.moved(previous, to, id)
    }
    fn safe_transfer_from(&mut self, from: Address, to: Address, id: U256) -> Result<(), Error> {
        let previous = self.erc721.owner_of(id)?;
        self.erc721.safe_transfer_from(from, to, id)?;
        self.moved(previous, to, id)
    }
    #[selector(name = "safeTransferFrom")]
    fn safe_transfer_from_with_data(
        &mut self,
        from: Address,
        to: Address,
        id: U256,
        data: Bytes,
    ) -> Result<(), Error> {
        let previous = self.erc721.owner_of(id)?;
        self.erc721.safe_transfer_from_with_data(from, to, id, data)?;
        self.moved(previous, to, id)
    }
    /// The composition of the Solidity original: nothing to do when the token
    /// stays with its owner.
    fn h_guarded(&mut self, from: Address, to: Address, id: U256) -> Result<(), Error> {
        let previous = self.erc721.owner_of(id)?;
        self.erc721.transfer_from(from, to, id)?;
        if previous != to {
            self.moved(previous, to, id)?;
        }
        Ok(())
    }
    fn h_check_increase(&self, amount: u128) -> Result<(), Error> {
        Ok(Erc721Enumerable::_check_increase_balance(amount)?)
    }
}
impl En {
    fn moved(&mut self, from: Address, to: Address, id: U256) -> Result<(), Error> {
        self.enumerable._remove_token_from_owner_enumeration(from, id, &self.erc721)?;
        self.enumerable._add_token_to_owner_enumeration(to, id, &self.erc721)?;
        Ok(())
    }
}

/// The ids listed by `get` for indices below `n`; `None` where it reports the
/// out-of-bounds error `oob`.
fn list(
    n: usize,
    get: impl Fn(U256) -> Result<Vec<u8>, Vec<u8>>,
    oob: impl Fn(U256) -> Vec<u8>,
    what: &str,
) -> Result<Vec<Option<U256>>, Fail> {
    let mut v = vec![];
    for i in 0..n {
        match get(u(i as u64)) {
            Ok(d) => {
                ensure!(d.len() == 32, "answer", "{what} index {i}: answer of {} bytes", d.len());
                v.push(Some(U256::from_be_slice(&d)));
            }
            Err(e) => {
                ensure_eq!(e, oob(u(i as u64)), "error", "{what} index {i}");
                v.push(None);
            }
        }
    }
    Ok(v)
}

fn check(s: &mut Src, c: Address, m: &M721, who: &[Address], ids: &[U256]) -> Check {
    let live: BTreeSet<U256> = ids.iter().copied().filter(|i| m.owner(*i) != Z).collect();
    ensure_eq!(view(c, totalSupplyCall {})?._0, u(live.len() as u64), "total", "totalSupply()");
    let by = |i: U256| view_raw(eoa(90), c, tokenByIndexCall { index: i });
    let oob = |i: U256| err(ERC721OutOfBoundsIndex { owner: Z, index: i });
    let all = list(live.len(), by, oob, "tokenByIndex")?;
    let set: BTreeSet<U256> = all.iter().filter_map(|x| *x).collect();
    ensure!(
        all.iter().all(|x| x.is_some()) && set == live && all.len() == set.len(),
        "all",
        "tokenByIndex lists {all:?}, existing tokens are {live:?}"
    );
    let beyond = [u(live.len() as u64), u(live.len() as u64 + 1), u(u32::MAX as u64), u(u64::MAX), U256::from(1) << 64usize, U256::from(1) << 32usize, MAX];
    let i = s.pick(&beyond);
    ensure_eq!(by(i), Err(oob(i)), "beyond", "tokenByIndex({})", num(i));
    for w in who {
        let mine: BTreeSet<U256> = live.iter().copied().filter(|i| m.owner(*i) == *w).collect();
        let get = |i: U256| view_raw(eoa(90), c, tokenOfOwnerByIndexCall { owner: *w, index: i });
        let oob = |i: U256| err(ERC721OutOfBoundsIndex { owner: *w, index: i });
        let l = list(mine.len(), get, oob, "tokenOfOwnerByIndex")?;
        let missing = l.iter().filter(|x| x.is_none()).count();
        let set: BTreeSet<U256> = l.iter().filter_map(|x| *x).collect();
        if missing == 1 && mine.contains(&U256::ZERO) && !set.contains(&U256::ZERO) {
            // Known finding: id zero reads as an empty slot.
            s.known.push("id-zero".into());
            let mut rest = mine.clone();
            rest.remove(&U256::ZERO);
            ensure!(set == rest, "owned", "tokenOfOwnerByIndex({}) lists {l:?}, owned are {mine:?}", short(*w));
        } else {
            ensure!(
                missing == 0 && set == mine && l.len() == set.len(),
                "owned",
                "tokenOfOwnerByIndex({}) lists {l:?}, owned are {mine:?}",
                short(*w)
            );
        }
        let n = mine.len() as u64;
        let i = s.pick(&[u(n), u(n + 1), u(n + 2), MAX]);
        ensure_eq!(get(i), Err(oob(i)), "beyond", "tokenOfOwnerByIndex({}, {})", short(*w), num(i));
    }
    Ok(())
}

fn run(s: &mut Src) -> Check {
    let c = ca(1);
    deploy::<En>(c);
    let who = [Z, eoa(1), eoa(2), eoa(3), c];
    let k = s.range(2, 9) as usize;
    let ids = gen_ids(s, k);
    let mut m = M721::default();
    let a = if s.chance(1, 20) { s.u64() as u128 } else { s.below(2) as u128 };
    ensure_eq!(
        view_raw(eoa(1), c, hCheckIncreaseCall { amount: a }),
        if a == 0 { Ok(vec![]) } else { Err(err(ERC721EnumerableForbiddenBatchMint {})) },
        "batch",
        "_check_increase_balance({a})"
    );
    let max = s.size;
    s.steps(max, |s| {
        let id = m.token(s, &ids);
        let sender = m.caller(s, &who, id);
        match s.weighted(&[8, 8, 4, 3]) {
            0 => {
                core_op(s, &mut m, c, &who, &ids)?;
            }
            1 => {
                let fresh: Vec<U256> = ids.iter().copied().filter(|i| m.owner(*i) == Z).collect();
                let id = if fresh.is_empty() || s.chance(1, 8) { s.pick(&ids) } else { s.pick(&fresh) };
                let to = if s.chance(1, 12) { Z } else { who[1 + s.weighted(&[5, 3, 2, 1])] };
                s.note(|| format!("mint({}, {})", short(to), num(id)));
                let exp = Exp::from(m.mint_errs(to, id), false, vec![]);
                let out = send(sender, c, hMintCall { to, id });
                judge(&out, &exp, "mint")?;
                if exp.is_ok() {
                    m.mv(to, id);
                    judge_logs(&out.logs, &[tr(c, Z, to, id)], "mint")?;
                }
            }
            2 => {
                s.note(|| format!("{}.burn({})", short(sender), num(id)));
                let exp = Exp::from(m.auth_errs(sender, id), false, vec![]);
                let out = send(sender, c, burnCall { id });
                judge(&out, &exp, "burn")?;
                if exp.is_ok() {
                    if m.b(m.owner(id)) > u(1) {
                        s.tag("burn-among-several");
                    }
                    let o = m.mv(Z, id);
                    judge_logs(&out.logs, &[tr(c, o, Z, id)], "burn")?;
                }
            }
            _ => {
                let from = m.owner(id);
                let to = if s.chance(1, 4) { from } else { s.pick(&who) };
                s.note(|| format!("{}.guarded transfer({}, {}, {})", short(sender), short(from), short(to), num(id)));
                let mut e = m.transfer_errs(from, to, id);
                if from != Z {
                    e.extend(m.auth_errs(sender, id));
                }
                let exp = Exp::from(e, false, vec![]);
                let out = send(sender, c, hGuardedCall { from, to, id });
                judge(&out, &exp, "guarded transfer")?;
                if exp.is_ok() {
                    m.mv(to, id);
                    s.tag("transfer");
                }
            }
        }
        check(s, c, &m, &who, &ids)?;
        m.compare(c, &who, &ids)
    })?;
    s.nontrivial = s.has("burn-among-several") && s.has("transfer");
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C11",
    name: "ERC-721 enumeration",
    parts: &[("enumerable", run, 1)],
    rule: "the history transfers a token and burns a token of an owner who held several",
    quick_cases: 60_000,
    thorough_cases: 600_000,
    size: (40, 100),
};
