//! C37: re-entrant calls. Attacker contracts run a drawn plan of further calls
//! in every callback they get (token receivers, flash-loan borrowers, ERC-777
//! style hooks of an underlying token, Ether payments); the bookkeeping
//! invariants are checked inside every callback and after every transaction.

use std::{
    cell::RefCell,
    collections::{BTreeMap, VecDeque},
    rc::Rc,
};

use alloy_primitives::{Address, U256};
use alloy_sol_types::{sol, SolCall};
use engine::{ensure, ensure_eq, Check, Fail, Prop, Src};
use openzeppelin_stylus::{
    finance::vesting_wallet::VestingWallet,
    token::erc20::{
        extensions::{flash_mint, Erc20FlashMint, IErc3156FlashLender},
        Erc20,
    },
};
use ozverif::{
    host::{self, CallResult, Code},
    m1155::I1155,
    m721::I721,
    tokens::{Tok, IT},
    util::*,
};
use stylus_sdk::{abi::Bytes, prelude::*};

use super::world::*;

sol! {
    interface IFl {
        function flashFee(address token, uint256 value) external view returns (uint256);
        function flashLoan(address receiver, address token, uint256 value, bytes data) external returns (bool);
        function hMint(address account, uint256 value) external;
    }
    interface IVe {
        function start() external view returns (uint256);
        function duration() external view returns (uint256);
        function released() external view returns (uint256);
        function released(address token) external view returns (uint256);
        function release() external;
        function release(address token) external;
        function force(address newOwner) external;
    }
}

#[storage]
pub struct Flash {
    #[borrow]
    flash: Erc20FlashMint,
    #[borrow]
    erc20: Erc20,
}
unsafe impl TopLevelStorage for Flash {}
#[public]
#[inherit(Erc20)]
impl Flash {
    fn flash_fee(&self, token: Address, value: U256) -> Result<U256, flash_mint::Error> {
        self.flash.flash_fee(token, value)
    }
    fn flash_loan(&mut self, receiver: Address, token: Address, value: U256, data: Bytes) -> Result<bool, flash_mint::Error> {
        self.flash.flash_loan(receiver, token, value, data, &mut self.erc20)
    }
    fn h_mint(&mut self, to: Address, value: U256) -> Result<(), flash_mint::Error> {
        Ok(self.erc20._mint(to, value)?)
    }
}

#[storage]
pub struct Vest {
    #[borrow]
    wallet: VestingWallet,
}
unsafe impl TopLevelStorage for Vest {}
#[public]
#[inherit(VestingWallet)]
impl Vest {
    fn force(&mut self, new_owner: Address) {
        self.wallet.ownable._transfer_ownership(new_owner);
    }
}

/// One call, whose arguments are resolved against the state at the time it is
/// made.
#[derive(Clone, Debug, Default)]
struct Inner {
    op: u64,
    x: [u64; 4],
    /// The callback returns after this call.
    stop: bool,
}
fn inner(s: &mut Src) -> Inner {
    Inner { op: s.below(64), x: [s.below(16), s.below(16), s.below(16), s.below(200)], stop: s.bool() }
}

type Made = (String, Address, Vec<u8>);
struct Stage {
    /// The call `me` makes for a drawn step.
    make: Box<dyn Fn(Address, &Inner) -> Made>,
    /// The invariants of the state visible now; `true`: between transactions.
    inv: Box<dyn Fn(bool) -> Check>,
    plan: RefCell<VecDeque<Inner>>,
    log: RefCell<Vec<String>>,
    fail: RefCell<Option<Fail>>,
    callbacks: RefCell<usize>,
    /// Successful state-changing calls made from callbacks.
    inside: RefCell<usize>,
    open: bool,
}

fn bot(i: u64) -> Address {
    ca(10 + i)
}
const BYSTANDER: u64 = 9;

fn attack(st: &Rc<Stage>, d: &[u8]) -> CallResult {
    let (me, _, _) = host::ctx();
    *st.callbacks.borrow_mut() += 1;
    let n = *st.callbacks.borrow();
    let check = || {
        if st.open && st.fail.borrow().is_none() {
            if let Err(mut f) = (st.inv)(false) {
                f.msg = format!("inside a callback: {}", f.msg);
                *st.fail.borrow_mut() = Some(f);
            }
        }
    };
    check();
    if n < 12 {
        loop {
            let next = st.plan.borrow_mut().pop_front();
            let Some(i) = next else { break };
            let (what, to, data) = (st.make)(me, &i);
            st.log.borrow_mut().push(format!("in callback {n} of {}: {what}", short(me)));
            let at = st.log.borrow().len() - 1;
            let ok = host::call(me, to, U256::ZERO, &data, false).is_ok();
            if let Some(l) = st.log.borrow_mut().get_mut(at) {
                l.push_str(if ok { " ok" } else { " reverted" });
            }
            if ok {
                *st.inside.borrow_mut() += 1;
                check();
            }
            if i.stop {
                break;
            }
        }
    }
    let sel: [u8; 4] = d.get(..4).and_then(|x| x.try_into().ok()).unwrap_or_default();
    Ok(match sel {
        // onERC721Received, onERC1155Received, onERC1155BatchReceived
        [0x15, 0x0b, 0x7a, 0x02] | [0xf2, 0x3a, 0x6e, 0x61] | [0xbc, 0x19, 0x7c, 0x81] => {
            let mut w = [0u8; 32];
            w[..4].copy_from_slice(&sel);
            w.to_vec()
        }
        // onFlashLoan
        [0x23, 0xe3, 0x0c, 0x8b] => host::keccak(b"ERC3156FlashBorrower.onFlashLoan").to_vec(),
        _ => vec![],
    })
}

/// Runs a history of transactions over the stage.
fn play(
    s: &mut Src,
    make: impl Fn(Address, &Inner) -> Made + 'static,
    inv: impl Fn(bool) -> Check + 'static,
    begin: impl Fn(),
    between: impl Fn(&mut Src),
) -> Check {
    let open = !s.chance(1, 8);
    host::set_reentrancy(open);
    s.note(|| format!("reentrancy allowed: {open}"));
    let st = Rc::new(Stage {
        make: Box::new(make),
        inv: Box::new(inv),
        plan: Default::default(),
        log: Default::default(),
        fail: Default::default(),
        callbacks: Default::default(),
        inside: Default::default(),
        open,
    });
    for i in 0..2 {
        let st = st.clone();
        host::set_code(bot(i), Code::Mock(Rc::new(move |d| attack(&st, d))));
    }
    (st.inv)(true)?;
    let max = s.size;
    let mut inside = 0;
    s.steps(max, |s| {
        between(s);
        begin();
        *st.callbacks.borrow_mut() = 0;
        *st.inside.borrow_mut() = 0;
        st.log.borrow_mut().clear();
        let me = if s.chance(1, 4) { eoa(1) } else { bot(s.below(2)) };
        let outer = inner(s);
        let n = s.idx(5);
        let plan: VecDeque<Inner> = (0..n).map(|_| inner(s)).collect();
        *st.plan.borrow_mut() = plan;
        let (what, to, data) = (st.make)(me, &outer);
        let out = host::tx(me, to, U256::ZERO, data);
        st.plan.borrow_mut().clear();
        s.note(|| format!("{}: {what} {}", short(me), if out.ok() { "ok" } else { "reverted" }));
        for l in st.log.borrow().iter() {
            s.note(|| format!("  {l}"));
        }
        if let Some(f) = st.fail.borrow_mut().take() {
            return Err(f);
        }
        if out.ok() && *st.inside.borrow() > 0 {
            inside += 1;
        }
        (st.inv)(true)
    })?;
    s.nontrivial = inside > 1;
    Ok(())
}

// ------------------------------------------------- ERC-20 and what wraps it

fn bal(t: Address, a: Address) -> Result<U256, Fail> {
    Ok(view(t, I20::balanceOfCall { account: a })?._0)
}
fn supply(t: Address) -> Result<U256, Fail> {
    Ok(view(t, I20::totalSupplyCall {})?._0)
}
/// A part of `b`, or a small number.
fn part(b: U256, x: u64) -> U256 {
    match x % 6 {
        0 => b,
        1 => b / u(2),
        2 => b.min(u(1)),
        3 => b + u(1),
        _ => u(x).min(b),
    }
}

fn coins(s: &mut Src) -> Check {
    let [asset, wrap, vault, flash] = [ca(1), ca(2), ca(3), ca(4)];
    let tok = Tok::deploy(asset);
    deploy::<Wrap20>(wrap);
    deploy::<Vault>(vault);
    deploy::<Flash>(flash);
    link("m-underlying", wrap, || Ok(view(wrap, I20::underlyingCall {})?._0), asset)?;
    link("m-asset", vault, || Ok(view(vault, I20::assetCall {})?._0), asset)?;
    let fee = if s.bool() { u(s.below(5)) } else { U256::ZERO };
    let hit = || view(flash, IFl::flashFeeCall { token: flash, value: u(5) }).ok().map(|r| r._0) == Some(u(1));
    ensure!(configure("r-fee", flash, hit, &fee.to_be_bytes::<32>()), "config", "flash fee cannot be configured");
    let hooked = s.chance(3, 4);
    let by = eoa(BYSTANDER);
    let actors = [bot(0), bot(1), eoa(1)];
    s.note(|| format!("flash fee {fee}, asset with transfer hooks: {hooked}"));
    for a in actors.into_iter().chain([by]) {
        tok.set_bal(a, u(s.range(10, 2000)));
        let _ = send(a, flash, IFl::hMintCall { account: a, value: u(s.range(10, 2000)) });
        for p in [wrap, vault] {
            tok.set_allow(a, p, MAX);
        }
    }
    for a in actors {
        for p in actors.into_iter().chain([flash]) {
            for t in [wrap, vault, flash] {
                let _ = send(a, t, I20::approveCall { spender: p, value: MAX });
            }
        }
    }
    let ok = send(by, wrap, I20::depositForCall { account: by, value: u(3) }).ok()
        && send(by, vault, I20::depositCall { assets: u(s.range(1, 5)), receiver: by }).ok();
    ensure!(ok, "setup", "a first deposit failed");
    // A donation makes the share price a fraction.
    tok.set_bal(vault, tok.bal(vault) + u(s.below(7)));
    if hooked {
        *tok.hooked.borrow_mut() = vec![bot(0), bot(1)];
    }
    let mine: Vec<U256> = [wrap, vault, flash].iter().map(|t| bal(*t, by)).collect::<Result<_, _>>()?;
    let mine_asset = tok.bal(by);
    let all = [bot(0), bot(1), eoa(1), by, asset, wrap, vault, flash];
    // Price and flash supply at the start of the transaction.
    let base: Rc<RefCell<(U256, U256, U256)>> = Default::default();
    let (b1, b2) = (base.clone(), base);
    let (t1, t2, t3) = (tok.clone(), tok.clone(), tok);
    play(
        s,
        move |me, i| {
            let who = |x: u64| actors[x as usize % 3];
            let (o, to) = (who(i.x[0]), if i.x[1] < 3 { [wrap, vault, flash][i.x[1] as usize] } else { who(i.x[1]) });
            let t = [wrap, vault, flash][i.x[2] as usize % 3];
            let b = |t: Address, a: Address| bal(t, a).unwrap_or_default();
            let n = |x: U256| num(x);
            match i.op % 16 {
                0 => {
                    let v = part(t2.bal(me), i.x[3]);
                    (format!("asset.transfer({}, {})", short(to), n(v)), asset, IT::transferCall { to, value: v }.abi_encode())
                }
                1 | 2 => {
                    let v = part(t2.bal(me), i.x[3]);
                    let account = who(i.x[1]);
                    (format!("wrap.depositFor({}, {})", short(account), n(v)), wrap, I20::depositForCall { account, value: v }.abi_encode())
                }
                3 | 4 => {
                    let v = part(b(wrap, me), i.x[3]);
                    let account = who(i.x[1]);
                    (format!("wrap.withdrawTo({}, {})", short(account), n(v)), wrap, I20::withdrawToCall { account, value: v }.abi_encode())
                }
                5 | 6 => {
                    let v = part(t2.bal(me), i.x[3]);
                    let receiver = who(i.x[1]);
                    (format!("vault.deposit({}, {})", n(v), short(receiver)), vault, I20::depositCall { assets: v, receiver }.abi_encode())
                }
                7 => {
                    let v = part(t2.bal(me), i.x[3]);
                    let receiver = who(i.x[1]);
                    (format!("vault.mint({}, {})", n(v), short(receiver)), vault, I20::mintCall { shares: v, receiver }.abi_encode())
                }
                8 => {
                    let v = part(b(vault, o), i.x[3]);
                    let receiver = who(i.x[1]);
                    (format!("vault.withdraw({}, {}, {})", n(v), short(receiver), short(o)), vault, I20::withdrawCall { assets: v, receiver, owner: o }.abi_encode())
                }
                9 | 10 => {
                    let v = part(b(vault, o), i.x[3]);
                    let receiver = who(i.x[1]);
                    (format!("vault.redeem({}, {}, {})", n(v), short(receiver), short(o)), vault, I20::redeemCall { shares: v, receiver, owner: o }.abi_encode())
                }
                11 | 12 => {
                    let receiver = bot(i.x[0] % 2);
                    let v = part(u(500), i.x[3]);
                    (format!("flashLoan({}, {})", short(receiver), n(v)), flash, IFl::flashLoanCall { receiver, token: flash, value: v, data: vec![].into() }.abi_encode())
                }
                13 | 14 => {
                    let v = part(b(t, me), i.x[3]);
                    (format!("{}.transfer({}, {})", short(t), short(to), n(v)), t, I20::transferCall { to, value: v }.abi_encode())
                }
                _ => {
                    let v = part(b(t, o), i.x[3]);
                    (format!("{}.transferFrom({}, {}, {})", short(t), short(o), short(to), n(v)), t, I20::transferFromCall { from: o, to, value: v }.abi_encode())
                }
            }
        },
        move |end| {
            for (k, t) in [wrap, vault, flash].into_iter().enumerate() {
                let mut sum = U256::ZERO;
                for a in all {
                    sum += bal(t, a)?;
                }
                ensure_eq!(supply(t)?, sum, "supply", "total supply of {} and the sum of its balances", ["the wrapper", "the vault", "the flash-mint token"][k]);
                ensure_eq!(bal(t, by)?, mine[k], "bystander", "balance of an account that took no part");
            }
            ensure_eq!(t1.bal(by), mine_asset, "bystander", "asset balance of an account that took no part");
            let backed = t1.bal(wrap);
            ensure!(supply(wrap)? <= backed, "backing", "{} wrapped tokens with {} underlying held", supply(wrap)?, backed);
            let (a0, s0, f0) = *b1.borrow();
            let one = u(1);
            if s0 != U256::ZERO {
                let (a, sh) = (t1.bal(vault), supply(vault)?);
                ensure!(
                    (a + one) * (s0 + one) >= (a0 + one) * (sh + one),
                    "price",
                    "a vault share fell from {a0}+1 / {s0}+1 at the start of the transaction to {a}+1 / {sh}+1"
                );
                if end {
                    let f = supply(flash)?;
                    ensure!(f <= f0, "flash", "flash loans left {f} tokens where {f0} existed");
                    if fee.is_zero() {
                        ensure_eq!(f, f0, "flash", "supply of the flash-mint token after free loans");
                    }
                }
            }
            Ok(())
        },
        move || *b2.borrow_mut() = (t3.bal(vault), supply(vault).unwrap_or_default(), supply(flash).unwrap_or_default()),
        |_| {},
    )
}

// --------------------------------------------------------------- ERC-721

fn nfts(s: &mut Src) -> Check {
    let [nft, wrap] = [ca(1), ca(2)];
    deploy::<Nft>(nft);
    deploy::<Wrap721>(wrap);
    link("m-nft-underlying", wrap, || Ok(view(wrap, INf::underlyingCall {})?._0), nft)?;
    let by = eoa(BYSTANDER);
    let actors = [bot(0), bot(1), eoa(1)];
    let ids: Vec<U256> = (0..8).map(u).collect();
    for i in 0..8u64 {
        let to = if i == 7 || i == 6 { by } else { actors[s.idx(3)] };
        if i >= 6 || s.chance(3, 4) {
            s.note(|| format!("mint {i} to {}", short(to)));
            let _ = send(to, nft, INf::hMintCall { to, id: u(i) });
        }
    }
    for a in actors.into_iter().chain([by]) {
        let _ = send(a, nft, I721::setApprovalForAllCall { operator: wrap, approved: true });
    }
    for a in actors {
        for p in actors {
            if a != p && s.bool() {
                for t in [nft, wrap] {
                    let _ = send(a, t, I721::setApprovalForAllCall { operator: p, approved: true });
                }
            }
        }
    }
    ensure!(send(by, wrap, INf::depositForCall { account: by, ids: vec![u(7)] }).ok(), "setup", "a first deposit failed");
    let owner = |t: Address, id: U256| view(t, I721::ownerOfCall { id }).map(|r| r._0).unwrap_or(Z);
    let all = [bot(0), bot(1), eoa(1), by, nft, wrap];
    let ids2 = ids.clone();
    play(
        s,
        move |me, i| {
            let who = |x: u64| actors[x as usize % 3];
            let t = if i.x[2] % 3 == 0 { wrap } else { nft };
            // An id, preferably one of the caller's.
            let pick = |t: Address, x: u64| {
                let own: Vec<U256> = ids2.iter().copied().filter(|d| owner(t, *d) == me).collect();
                if own.is_empty() || x % 5 == 0 { u(x % 8) } else { own[x as usize % own.len()] }
            };
            let list = |t: Address| {
                let mut v = vec![pick(t, i.x[3]), pick(t, i.x[0])];
                v.dedup();
                v.truncate(1 + i.x[2] as usize % 2);
                v
            };
            let id = pick(t, i.x[3]);
            let from = if i.x[0] % 4 == 0 { owner(t, id) } else { me };
            let to = if i.x[1] == 0 { wrap } else { who(i.x[1]) };
            match i.op % 12 {
                0 | 1 => (format!("{}.safeTransferFrom({}, {}, {id})", short(t), short(from), short(to)), t, I721::safeTransferFrom_1Call { from, to, id, data: vec![].into() }.abi_encode()),
                2 => (format!("{}.transferFrom({}, {}, {id})", short(t), short(from), short(to)), t, I721::transferFromCall { from, to: who(i.x[1]), id }.abi_encode()),
                3..=5 => {
                    let v = list(nft);
                    let account = who(i.x[1]);
                    (format!("wrap.depositFor({}, {v:?})", short(account)), wrap, INf::depositForCall { account, ids: v }.abi_encode())
                }
                6..=8 => {
                    let v = list(wrap);
                    let account = who(i.x[1]);
                    (format!("wrap.withdrawTo({}, {v:?})", short(account)), wrap, INf::withdrawToCall { account, ids: v }.abi_encode())
                }
                9 => (format!("nft.safeTransferFrom({}, wrap, {id})", short(me)), nft, I721::safeTransferFrom_1Call { from: me, to: wrap, id: pick(nft, i.x[3]), data: vec![].into() }.abi_encode()),
                10 => {
                    let id = pick(nft, i.x[3]);
                    (format!("nft.burn({id})"), nft, INf::burnCall { id }.abi_encode())
                }
                _ => {
                    let (to, id) = (who(i.x[1]), u(i.x[3] % 8));
                    (format!("nft safe mint({}, {id})", short(to)), nft, INf::hSafeMintCall { to, id, data: vec![].into() }.abi_encode())
                }
            }
        },
        move |_| {
            for t in [nft, wrap] {
                let mut n: BTreeMap<Address, u64> = BTreeMap::new();
                for id in &ids {
                    *n.entry(owner(t, *id)).or_default() += 1;
                }
                for a in all {
                    let b = view(t, I721::balanceOfCall { owner: a })?._0;
                    ensure_eq!(b, u(n.get(&a).copied().unwrap_or(0)), "balance", "balance of {} in {} and the tokens it owns", short(a), short(t));
                }
            }
            for id in &ids {
                if owner(wrap, *id) != Z {
                    ensure_eq!(owner(nft, *id), wrap, "backing", "owner of the underlying of wrapped token {id}");
                }
            }
            ensure!(owner(nft, u(6)) == by && owner(wrap, u(7)) == by, "bystander", "an account that took no part lost a token");
            Ok(())
        },
        || {},
        |_| {},
    )
}

// -------------------------------------------------------------- ERC-1155

fn multis(s: &mut Src) -> Check {
    let c = ca(1);
    deploy::<Supply>(c);
    let by = eoa(BYSTANDER);
    let actors = [bot(0), bot(1), eoa(1)];
    let data = || Vec::<u8>::new().into();
    for a in actors.into_iter().chain([by]) {
        for id in 0..3 {
            // The attackers have no code yet.
            let v = u(s.range(1, 60));
            let _ = send(a, c, I1155::hMintCall { to: a, id: u(id), value: v, data: data() });
        }
    }
    for a in actors {
        for p in actors {
            if a != p && s.bool() {
                let _ = send(a, c, I1155::setApprovalForAllCall { operator: p, approved: true });
            }
        }
    }
    let b = move |a: Address, id: u64| view(c, I1155::balanceOfCall { account: a, id: u(id) }).map(|r| r._0);
    let mine: Vec<U256> = (0..3).map(|id| b(by, id)).collect::<Result<_, _>>()?;
    let all = [bot(0), bot(1), eoa(1), by, c];
    play(
        s,
        move |me, i| {
            let who = |x: u64| actors[x as usize % 3];
            let from = if i.x[0] % 3 == 0 { who(i.x[2]) } else { me };
            let to = who(i.x[1]);
            let id = i.x[2] % 3;
            let v = part(b(from, id).unwrap_or_default(), i.x[3]);
            // Possibly the same id twice.
            let id2 = if i.x[0] % 2 == 0 { id } else { (id + 1) % 3 };
            let v2 = part(b(from, id2).unwrap_or_default(), i.x[3] / 3) / u(2);
            let n = if i.x[1] % 4 == 3 { 0 } else { 2 };
            let ids = vec![u(id), u(id2)][..n].to_vec();
            let values = vec![v / u(2), v2][..n].to_vec();
            match i.op % 8 {
                0 | 1 => (format!("safeTransferFrom({}, {}, {id}, {v})", short(from), short(to)), c, I1155::safeTransferFromCall { from, to, id: u(id), value: v, data: data() }.abi_encode()),
                2 | 3 => (format!("safeBatchTransferFrom({}, {}, {ids:?}, {values:?})", short(from), short(to)), c, I1155::safeBatchTransferFromCall { from, to, ids, values, data: data() }.abi_encode()),
                4 => (format!("mint({}, {id}, 7)", short(to)), c, I1155::hMintCall { to, id: u(id), value: u(7), data: data() }.abi_encode()),
                5 => (format!("mintBatch({}, {ids:?}, {values:?})", short(to)), c, I1155::hMintBatchCall { to, ids, values, data: data() }.abi_encode()),
                _ => (format!("burnBatch({}, {ids:?}, {values:?})", short(me)), c, I1155::hBurnBatchCall { from: me, ids, values }.abi_encode()),
            }
        },
        move |_| {
            let mut total = U256::ZERO;
            for id in 0..3 {
                let mut sum = U256::ZERO;
                for a in all {
                    sum += b(a, id)?;
                }
                total += sum;
                ensure_eq!(view(c, ISup::totalSupply_0Call { id: u(id) })?._0, sum, "supply", "total supply of id {id} and the sum of its balances");
                ensure_eq!(b(by, id)?, mine[id as usize], "bystander", "balance of an account that took no part");
            }
            ensure_eq!(view(c, ISup::totalSupply_1Call {})?._0, total, "supply-all", "overall supply and the sum of all balances");
            Ok(())
        },
        || {},
        |_| {},
    )
}

// --------------------------------------------------------- vesting wallet

fn vest(s: &mut Src) -> Check {
    let (c, t) = (ca(1), ca(2));
    deploy::<Vest>(c);
    let tok = Tok::deploy(t);
    *tok.hooked.borrow_mut() = vec![bot(0), bot(1)];
    let (start, dur) = (1_700_000_000 + s.below(50), s.range(1, 400));
    let one = |r: Result<U256, Fail>| matches!(r, Ok(x) if x == u(1));
    let found = configure("r-start", c, || one(view(c, IVe::startCall {}).map(|r| r._0)), &start.to_be_bytes())
        && configure("r-duration", c, || one(view(c, IVe::durationCall {}).map(|r| r._0)), &dur.to_be_bytes());
    ensure!(found, "config", "start and duration cannot be configured");
    let owner = if s.chance(1, 8) { eoa(1) } else { bot(0) };
    let _ = send(owner, c, IVe::forceCall { newOwner: owner });
    let funds = (u(s.range(0, 5000)), u(s.range(0, 5000)));
    host::set_balance(c, funds.0);
    tok.set_bal(c, funds.1);
    s.note(|| format!("start {start} duration {dur} owner {} funds {funds:?}", short(owner)));
    let t2 = tok.clone();
    play(
        s,
        move |_, i| match i.op % 2 {
            0 => ("release()".into(), c, IVe::release_0Call {}.abi_encode()),
            _ => ("release(token)".into(), c, IVe::release_1Call { token: t }.abi_encode()),
        },
        move |end| {
            let vested = |total: U256| {
                let now = host::time();
                if now < start {
                    U256::ZERO
                } else if now >= start + dur {
                    total
                } else {
                    total * u(now - start) / u(dur)
                }
            };
            let r = view(c, IVe::released_0Call {})?._0;
            let rt = view(c, IVe::released_1Call { token: t })?._0;
            let (paid, paid_t) = (host::balance(owner), t2.bal(owner));
            ensure!(paid <= vested(funds.0) && paid_t <= vested(funds.1), "schedule", "paid {paid} and {paid_t} of {funds:?}, vested are {} and {}", vested(funds.0), vested(funds.1));
            ensure!(paid <= r && paid_t <= rt, "released", "paid {paid} and {paid_t}, recorded are {r} and {rt}");
            if end {
                ensure_eq!((r, rt), (paid, paid_t), "released", "recorded and paid amounts");
                ensure_eq!((host::balance(c) + paid, t2.bal(c) + paid_t), funds, "conservation", "paid and remaining funds");
            }
            Ok(())
        },
        || {},
        move |s| {
            let now = host::time();
            host::set_time(now + if s.bool() { s.below(40) } else { 0 });
        },
    )
}

pub const PROP: Prop = Prop {
    id: "C37",
    name: "reentry",
    parts: &[("erc20", coins, 6), ("erc721", nfts, 3), ("erc1155", multis, 2), ("vesting", vest, 1)],
    rule: "at least two successful transactions had successful state-changing calls made from inside their callbacks",
    quick_cases: 50_000,
    thorough_cases: 400_000,
    size: (25, 60),
};
