//! Real library contracts wired to each other, driven without a model: the
//! histories' arguments are biased with what the contracts themselves report.

use std::collections::BTreeMap;

use alloy_primitives::{aliases::U96, Address, FixedBytes, U256};
use alloy_sol_types::{sol, SolCall};
use engine::{ensure, Check, Fail, Src};
use openzeppelin_stylus::token::{
    erc1155::{
        self,
        extensions::{Erc1155Supply, IErc1155Burnable},
        Erc1155,
    },
    erc20::{
        self,
        extensions::{erc4626, wrapper as wrapper20, Erc20Wrapper, Erc4626, IErc20Burnable, IErc20Wrapper, IErc4626},
        Erc20,
    },
    erc721::{
        self,
        extensions::{consecutive, wrapper as wrapper721, Erc721Consecutive, Erc721Wrapper, IErc721Burnable},
        Erc721,
    },
};
use ozverif::{
    host::Log,
    m1155::I1155,
    m721::{gen_ids, I721},
    util::*,
};
use stylus_sdk::{abi::Bytes, msg, prelude::*};

sol! {
    interface I20 {
        function totalSupply() external view returns (uint256);
        function balanceOf(address account) external view returns (uint256);
        function allowance(address owner, address spender) external view returns (uint256);
        function transfer(address to, uint256 value) external returns (bool);
        function approve(address spender, uint256 value) external returns (bool);
        function transferFrom(address from, address to, uint256 value) external returns (bool);
        function burn(uint256 value) external;
        function burnFrom(address account, uint256 value) external;
        function hMint(address account, uint256 value) external;
        function underlying() external view returns (address);
        function depositFor(address account, uint256 value) external returns (bool);
        function withdrawTo(address account, uint256 value) external returns (bool);
        function asset() external view returns (address);
        function deposit(uint256 assets, address receiver) external returns (uint256);
        function mint(uint256 shares, address receiver) external returns (uint256);
        function withdraw(uint256 assets, address receiver, address owner) external returns (uint256);
        function redeem(uint256 shares, address receiver, address owner) external returns (uint256);
    }
    interface INf {
        function burn(uint256 id) external;
        function hMint(address to, uint256 id) external;
        function hSafeMint(address to, uint256 id, bytes data) external;
        function hBatch(address to, uint256 size) external returns (uint256);
        function underlying() external view returns (address);
        function depositFor(address account, uint256[] ids) external returns (bool);
        function withdrawTo(address account, uint256[] ids) external returns (bool);
    }
    interface ISup {
        function totalSupply(uint256 id) external view returns (uint256);
        function totalSupply() external view returns (uint256);
    }
    error ERC721ExceededMaxBatchMint(uint256 batch_size, uint256 max_batch);
}

#[storage]
pub struct Coin {
    #[borrow]
    erc20: Erc20,
}
unsafe impl TopLevelStorage for Coin {}
#[public]
#[inherit(Erc20)]
impl Coin {
    fn burn(&mut self, value: U256) -> Result<(), erc20::Error> {
        self.erc20.burn(value)
    }
    fn burn_from(&mut self, account: Address, value: U256) -> Result<(), erc20::Error> {
        self.erc20.burn_from(account, value)
    }
    fn h_mint(&mut self, to: Address, value: U256) -> Result<(), erc20::Error> {
        self.erc20._mint(to, value)
    }
}

#[storage]
pub struct Wrap20 {
    #[borrow]
    erc20: Erc20,
    #[borrow]
    wrapper: Erc20Wrapper,
}
unsafe impl TopLevelStorage for Wrap20 {}
#[public]
#[inherit(Erc20)]
impl Wrap20 {
    fn underlying(&self) -> Address {
        self.wrapper.underlying()
    }
    fn deposit_for(&mut self, account: Address, value: U256) -> Result<bool, wrapper20::Error> {
        self.wrapper.deposit_for(account, value, &mut self.erc20)
    }
    fn withdraw_to(&mut self, account: Address, value: U256) -> Result<bool, wrapper20::Error> {
        self.wrapper.withdraw_to(account, value, &mut self.erc20)
    }
}

#[storage]
pub struct Vault {
    #[borrow]
    erc4626: Erc4626,
    #[borrow]
    erc20: Erc20,
}
unsafe impl TopLevelStorage for Vault {}
type R4 = Result<U256, erc4626::Error>;
#[public]
#[inherit(Erc20)]
impl Vault {
    fn asset(&self) -> Address {
        self.erc4626.asset()
    }
    fn deposit(&mut self, assets: U256, receiver: Address) -> R4 {
        self.erc4626.deposit(assets, receiver, &mut self.erc20)
    }
    fn mint(&mut self, shares: U256, receiver: Address) -> R4 {
        self.erc4626.mint(shares, receiver, &mut self.erc20)
    }
    fn withdraw(&mut self, assets: U256, receiver: Address, owner: Address) -> R4 {
        self.erc4626.withdraw(assets, receiver, owner, &mut self.erc20)
    }
    fn redeem(&mut self, shares: U256, receiver: Address, owner: Address) -> R4 {
        self.erc4626.redeem(shares, receiver, owner, &mut self.erc20)
    }
}

#[storage]
pub struct Nft {
    #[borrow]
    erc721: Erc721,
}
unsafe impl TopLevelStorage for Nft {}
#[public]
#[inherit(Erc721)]
impl Nft {
    fn burn(&mut self, id: U256) -> Result<(), erc721::Error> {
        self.erc721.burn(id)
    }
    fn h_mint(&mut self, to: Address, id: U256) -> Result<(), erc721::Error> {
        self.erc721._mint(to, id)
    }
    fn h_safe_mint(&mut self, to: Address, id: U256, data: Bytes) -> Result<(), erc721::Error> {
        self.erc721._safe_mint(to, id, &data)
    }
}

#[storage]
pub struct Wrap721 {
    #[borrow]
    erc721: Erc721,
    #[borrow]
    wrapper: Erc721Wrapper,
}
unsafe impl TopLevelStorage for Wrap721 {}
#[public]
#[inherit(Erc721)]
impl Wrap721 {
    fn underlying(&self) -> Address {
        self.wrapper.underlying()
    }
    fn deposit_for(&mut self, account: Address, ids: Vec<U256>) -> Result<bool, wrapper721::Error> {
        self.wrapper.deposit_for(account, ids, &mut self.erc721)
    }
    fn withdraw_to(&mut self, account: Address, ids: Vec<U256>) -> Result<bool, wrapper721::Error> {
        self.wrapper.withdraw_to(account, ids, &mut self.erc721)
    }
    #[selector(name = "onERC721Received")]
    fn on_erc721_received(
        &mut self,
        operator: Address,
        from: Address,
        token_id: U256,
        data: Bytes,
    ) -> Result<FixedBytes<4>, wrapper721::Error> {
        self.wrapper.on_erc721_received(operator, from, token_id, data, &mut self.erc721)
    }
}

#[storage]
pub struct Cons {
    #[borrow]
    erc721: Erc721Consecutive,
}
unsafe impl TopLevelStorage for Cons {}
#[public]
#[inherit(Erc721Consecutive)]
impl Cons {
    fn burn(&mut self, id: U256) -> Result<(), consecutive::Error> {
        self.erc721._update(Z, id, msg::sender())?;
        Ok(())
    }
    fn h_batch(&mut self, to: Address, size: U256) -> Result<U256, consecutive::Error> {
        Ok(U256::from(self.erc721._mint_consecutive(to, U96::from(size))?))
    }
    fn h_mint(&mut self, to: Address, id: U256) -> Result<(), consecutive::Error> {
        self.erc721._mint(to, id)
    }
}

#[storage]
pub struct Multi {
    #[borrow]
    erc1155: Erc1155,
}
unsafe impl TopLevelStorage for Multi {}
type R = Result<(), erc1155::Error>;
#[public]
#[inherit(Erc1155)]
impl Multi {
    fn burn(&mut self, account: Address, id: U256, value: U256) -> R {
        self.erc1155.burn(account, id, value)
    }
    fn burn_batch(&mut self, account: Address, ids: Vec<U256>, values: Vec<U256>) -> R {
        self.erc1155.burn_batch(account, ids, values)
    }
    fn h_mint_batch(&mut self, to: Address, ids: Vec<U256>, values: Vec<U256>, data: Bytes) -> R {
        self.erc1155._mint_batch(to, ids, values, &data)
    }
    fn h_mint(&mut self, to: Address, id: U256, value: U256, data: Bytes) -> R {
        self.erc1155._mint(to, id, value, &data)
    }
}

#[storage]
pub struct Supply {
    #[borrow]
    erc1155: Erc1155Supply,
}
unsafe impl TopLevelStorage for Supply {}
#[public]
#[inherit(Erc1155Supply)]
impl Supply {
    #[selector(name = "totalSupply")]
    fn total_supply(&self, id: U256) -> U256 {
        use openzeppelin_stylus::token::erc1155::extensions::IErc1155Supply;
        self.erc1155.total_supply(id)
    }
    #[selector(name = "totalSupply")]
    fn total_supply_all(&self) -> U256 {
        use openzeppelin_stylus::token::erc1155::extensions::IErc1155Supply;
        self.erc1155.total_supply_all()
    }
    fn h_burn_batch(&mut self, from: Address, ids: Vec<U256>, values: Vec<U256>) -> R {
        self.erc1155._burn_batch(from, ids, values)
    }
    fn h_mint_batch(&mut self, to: Address, ids: Vec<U256>, values: Vec<U256>, data: Bytes) -> R {
        self.erc1155._mint_batch(to, ids, values, &data)
    }
    fn h_mint(&mut self, to: Address, id: U256, value: U256, data: Bytes) -> R {
        self.erc1155._mint(to, id, value, &data)
    }
}

/// What kind of right-relevant call it was.
#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    /// ERC-20 approval of this spender, ERC-721 approval of this id, or an
    /// operator grant to this account.
    Approve20(Address),
    Approve721(U256),
    Operator(Address),
    /// Spends `from`'s ERC-20 allowance to the caller: amount, or the drop of
    /// its balance when not stated.
    Spend(Address, Option<U256>),
    Move,
    /// Issues tokens or is an internal routine: not a user's call.
    Faucet,
}
pub struct Act {
    pub caller: Address,
    pub target: Address,
    pub kind: Kind,
    pub ok: bool,
    pub logs: Vec<Log>,
}

fn act<C: SolCall>(caller: Address, target: Address, kind: Kind, c: C) -> Act {
    let out = send(caller, target, c);
    Act { caller, target, kind, ok: out.ok(), logs: out.logs }
}
pub fn link(key: &'static str, c: Address, get: impl Fn() -> Result<Address, Fail>, to: Address) -> Check {
    let mut low = [0u8; 20];
    low[19] = 1;
    let low = Address::from(low);
    ensure!(configure(key, c, || get().is_ok_and(|x| x == low), to.as_slice()), "config", "{key} is not reported");
    Ok(())
}

// ---------------------------------------------------------------- ERC-20

pub struct W20 {
    pub tokens: [Address; 3],
    pub who: Vec<Address>,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct S20 {
    pub bal: BTreeMap<(Address, Address), U256>,
    pub allow: BTreeMap<(Address, Address, Address), U256>,
}
impl W20 {
    pub fn new() -> Result<W20, Fail> {
        let [coin, wrap, vault] = [ca(1), ca(2), ca(3)];
        deploy::<Coin>(coin);
        deploy::<Wrap20>(wrap);
        deploy::<Vault>(vault);
        link("m-underlying", wrap, || Ok(view(wrap, I20::underlyingCall {})?._0), coin)?;
        link("m-asset", vault, || Ok(view(vault, I20::assetCall {})?._0), coin)?;
        Ok(W20 { tokens: [coin, wrap, vault], who: vec![eoa(1), eoa(2), eoa(3), coin, wrap, vault] })
    }
    /// Some first balances and approvals.
    pub fn start(&self, s: &mut Src) -> Vec<Act> {
        let [coin, wrap, vault] = self.tokens;
        let mut v = vec![];
        for i in 1..4 {
            if s.chance(3, 4) {
                let x = u(s.range(1, 5000));
                s.note(|| format!("mint coin({}, {x})", short(eoa(i))));
                v.push(act(eoa(i), coin, Kind::Faucet, I20::hMintCall { account: eoa(i), value: x }));
            }
            for p in [wrap, vault, eoa(1 + i % 3)] {
                if s.chance(2, 3) {
                    let x = if s.bool() { MAX } else { u(s.range(1, 5000)) };
                    s.note(|| format!("coin: {}.approve({}, {})", short(eoa(i)), short(p), num(x)));
                    v.push(act(eoa(i), coin, Kind::Approve20(p), I20::approveCall { spender: p, value: x }));
                }
            }
        }
        v
    }
    pub fn snap(&self) -> Result<S20, Fail> {
        let mut x = S20::default();
        for t in self.tokens {
            for a in &self.who {
                x.bal.insert((t, *a), view(t, I20::balanceOfCall { account: *a })?._0);
                for p in &self.who {
                    x.allow.insert((t, *a, *p), view(t, I20::allowanceCall { owner: *a, spender: *p })?._0);
                }
            }
        }
        Ok(x)
    }
    pub fn step(&self, s: &mut Src, now: &S20) -> Act {
        let [coin, wrap, vault] = self.tokens;
        let caller = eoa(s.range(1, 3));
        let to = self.who[s.weighted(&[4, 4, 4, 1, 1, 1])];
        let t = self.tokens[s.weighted(&[4, 2, 2])];
        // An owner, preferably one that holds `t` and approved the caller.
        let given: Vec<Address> = self
            .who
            .iter()
            .copied()
            .filter(|o| !now.bal[&(t, *o)].is_zero() && !now.allow[&(t, *o, caller)].is_zero())
            .collect();
        let owner = if !given.is_empty() && s.chance(3, 4) { s.pick(&given) } else { self.who[s.idx(3)] };
        let value = |s: &mut Src, t: Address, o: Address, p: Option<Address>| {
            let b = now.bal[&(t, o)];
            let most = p.map(|p| b.min(now.allow[&(t, o, p)])).unwrap_or(b);
            if s.chance(4, 5) {
                // Something affordable.
                return match s.idx(4) {
                    0 => most,
                    1 => most / u(2),
                    2 => most.min(u(1)),
                    _ => most.min(u(s.range(1, 50))),
                };
            }
            let mut h = vec![b];
            if let Some(p) = p {
                h.push(now.allow[&(t, o, p)]);
                h.push(b.min(now.allow[&(t, o, p)]));
                h.push(b.min(now.allow[&(t, o, p)]));
            }
            amount(s, &h)
        };
        let sh = |a: Address| short(a);
        match s.weighted(&[4, 6, 6, 3, 2, 3, 3, 3, 2, 2, 3, 3]) {
            0 => {
                let v = match s.idx(4) {
                    0 => u(s.range(1, 1000)),
                    1 => u(1) << s.range(1, 60) as usize,
                    _ => u(1) << s.range(1, 128) as usize,
                };
                s.note(|| format!("mint coin({}, {v})", sh(to)));
                act(caller, coin, Kind::Faucet, I20::hMintCall { account: to, value: v })
            }
            1 => {
                let p = self.who[s.idx(self.who.len())];
                let v = match s.weighted(&[2, 4, 2]) {
                    0 => MAX,
                    1 => u(s.range(1, 5000)),
                    _ => value(s, t, caller, None),
                };
                s.note(|| format!("{}: {}.approve({}, {})", sh(t), sh(caller), sh(p), num(v)));
                act(caller, t, Kind::Approve20(p), I20::approveCall { spender: p, value: v })
            }
            2 => {
                let v = value(s, t, owner, Some(caller));
                let to = if s.chance(1, 8) { owner } else { to };
                s.note(|| format!("{}: {}.transferFrom({}, {}, {})", sh(t), sh(caller), sh(owner), sh(to), num(v)));
                act(caller, t, Kind::Spend(owner, Some(v)), I20::transferFromCall { from: owner, to, value: v })
            }
            3 => {
                let v = value(s, t, caller, None);
                s.note(|| format!("{}: {}.transfer({}, {})", sh(t), sh(caller), sh(to), num(v)));
                act(caller, t, Kind::Move, I20::transferCall { to, value: v })
            }
            4 => {
                let v = value(s, coin, caller, None);
                s.note(|| format!("{}.burn({})", sh(caller), num(v)));
                act(caller, coin, Kind::Move, I20::burnCall { value: v })
            }
            5 => {
                let o = if t == coin { owner } else { self.who[s.idx(3)] };
                let v = value(s, coin, o, Some(caller));
                s.note(|| format!("{}.burnFrom({}, {})", sh(caller), sh(o), num(v)));
                act(caller, coin, Kind::Spend(o, Some(v)), I20::burnFromCall { account: o, value: v })
            }
            6 => {
                let v = value(s, coin, caller, Some(wrap));
                s.note(|| format!("wrap: {}.depositFor({}, {})", sh(caller), sh(to), num(v)));
                act(caller, wrap, Kind::Move, I20::depositForCall { account: to, value: v })
            }
            7 => {
                let v = value(s, wrap, caller, None);
                s.note(|| format!("wrap: {}.withdrawTo({}, {})", sh(caller), sh(to), num(v)));
                act(caller, wrap, Kind::Move, I20::withdrawToCall { account: to, value: v })
            }
            8 => {
                let v = value(s, coin, caller, Some(vault));
                s.note(|| format!("vault: {}.deposit({}, {})", sh(caller), num(v), sh(to)));
                act(caller, vault, Kind::Move, I20::depositCall { assets: v, receiver: to })
            }
            9 => {
                let v = value(s, coin, caller, Some(vault));
                s.note(|| format!("vault: {}.mint({}, {})", sh(caller), num(v), sh(to)));
                act(caller, vault, Kind::Move, I20::mintCall { shares: v, receiver: to })
            }
            k => {
                let given: Vec<Address> = self.who[..3]
                    .iter()
                    .copied()
                    .filter(|o| !now.bal[&(vault, *o)].is_zero() && (*o == caller || !now.allow[&(vault, *o, caller)].is_zero()))
                    .collect();
                let o = if !given.is_empty() && s.chance(5, 6) { s.pick(&given) } else { self.who[s.idx(3)] };
                let v = value(s, vault, o, Some(caller));
                let kind = if o == caller { Kind::Move } else { Kind::Spend(o, None) };
                s.note(|| format!("vault: {}.{}({}, {}, owner {})", sh(caller), if k == 10 { "withdraw" } else { "redeem" }, num(v), sh(to), sh(o)));
                if k == 10 {
                    act(caller, vault, kind, I20::withdrawCall { assets: v, receiver: to, owner: o })
                } else {
                    act(caller, vault, kind, I20::redeemCall { shares: v, receiver: to, owner: o })
                }
            }
        }
    }
}

// ---------------------------------------------------------------- ERC-721

pub struct W721 {
    pub tokens: [Address; 3],
    pub who: Vec<Address>,
    pub ids: Vec<U256>,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct S721 {
    pub owner: BTreeMap<(Address, U256), Address>,
    pub appr: BTreeMap<(Address, U256), Address>,
    pub ops: BTreeMap<(Address, Address, Address), bool>,
    pub bal: BTreeMap<(Address, Address), U256>,
}
impl W721 {
    pub fn new(s: &mut Src) -> Result<W721, Fail> {
        let [nft, wrap, cons] = [ca(1), ca(2), ca(3)];
        deploy::<Nft>(nft);
        deploy::<Wrap721>(wrap);
        deploy::<Cons>(cons);
        link("m-underlying721", wrap, || Ok(view(wrap, INf::underlyingCall {})?._0), nft)?;
        let top = U256::from(U96::MAX);
        let limit = || {
            view_raw(eoa(1), cons, INf::hBatchCall { to: eoa(1), size: top })
                == Err(err(ERC721ExceededMaxBatchMint { batch_size: top, max_batch: u(5) }))
        };
        ensure!(
            configure_with("m-max-batch", cons, 5, limit, &u(5000).to_be_bytes::<32>()[20..]),
            "config",
            "the batch limit is not reported"
        );
        let k = s.range(2, 4) as usize;
        let mut ids = gen_ids(s, k);
        for x in [0, 2, 5] {
            if !ids.contains(&u(x)) {
                ids.push(u(x));
            }
        }
        Ok(W721 { tokens: [nft, wrap, cons], who: vec![eoa(1), eoa(2), eoa(3), nft, wrap, cons], ids })
    }
    /// Some first tokens and approvals.
    pub fn start(&self, s: &mut Src) -> Vec<Act> {
        let [nft, wrap, cons] = self.tokens;
        let mut v = vec![];
        for id in &self.ids {
            if s.chance(3, 4) {
                let to = eoa(s.range(1, 3));
                s.note(|| format!("nft: mint({}, {})", short(to), num(*id)));
                v.push(act(to, nft, Kind::Faucet, INf::hMintCall { to, id: *id }));
            }
        }
        for i in 1..4 {
            let n = s.range(0, 4);
            s.note(|| format!("_mint_consecutive({}, {n})", short(eoa(i))));
            v.push(act(eoa(i), cons, Kind::Faucet, INf::hBatchCall { to: eoa(i), size: u(n) }));
            for (t, p) in [(nft, wrap), (nft, eoa(1 + i % 3)), (cons, eoa(1 + i % 3)), (wrap, eoa(1 + i % 3))] {
                if s.bool() {
                    s.note(|| format!("{}: {}.setApprovalForAll({}, true)", short(t), short(eoa(i)), short(p)));
                    v.push(act(eoa(i), t, Kind::Operator(p), I721::setApprovalForAllCall { operator: p, approved: true }));
                }
            }
        }
        v
    }
    pub fn snap(&self) -> Result<S721, Fail> {
        let mut x = S721::default();
        let addr = |r: Result<Vec<u8>, Vec<u8>>| match r {
            Ok(d) if d.len() == 32 => Address::from_slice(&d[12..]),
            _ => Z,
        };
        for t in self.tokens {
            for id in &self.ids {
                x.owner.insert((t, *id), addr(view_raw(eoa(9), t, I721::ownerOfCall { id: *id })));
                x.appr.insert((t, *id), addr(view_raw(eoa(9), t, I721::getApprovedCall { id: *id })));
            }
            for o in &self.who {
                x.bal.insert((t, *o), view(t, I721::balanceOfCall { owner: *o })?._0);
                for p in &self.who {
                    let b = view(t, I721::isApprovedForAllCall { owner: *o, operator: *p })?._0;
                    x.ops.insert((t, *o, *p), b);
                }
            }
        }
        Ok(x)
    }
    pub fn step(&self, s: &mut Src, now: &S721, batches: bool) -> Act {
        let [nft, wrap, cons] = self.tokens;
        let to = self.who[s.weighted(&[4, 4, 4, 1, 1, 1])];
        let t = self.tokens[s.weighted(&[4, 2, 3])];
        let live: Vec<U256> = self.ids.iter().copied().filter(|i| now.owner[&(t, *i)] != Z).collect();
        let id = if !live.is_empty() && s.chance(5, 6) { s.pick(&live) } else { s.pick(&self.ids) };
        let owner = now.owner[&(t, id)];
        let able: Vec<Address> = (1..4)
            .map(eoa)
            .filter(|a| *a == owner || now.appr[&(t, id)] == *a || now.ops.get(&(t, owner, *a)) == Some(&true))
            .collect();
        let caller = if !able.is_empty() && s.chance(3, 5) { s.pick(&able) } else { eoa(s.range(1, 3)) };
        let sh = |a: Address| short(a);
        match s.weighted(&[4, if batches { 2 } else { 0 }, 7, 4, 3, 3, 4, 4]) {
            0 => {
                let t = if s.bool() || !batches { nft } else { cons };
                let id = s.pick(&self.ids);
                s.note(|| format!("{}: mint({}, {})", sh(t), sh(to), num(id)));
                // A batch over a singly minted id is not supported.
                if t == cons {
                    let n = s.range(1, 4);
                    return act(caller, cons, Kind::Faucet, INf::hBatchCall { to, size: u(n) });
                }
                act(caller, t, Kind::Faucet, INf::hMintCall { to, id })
            }
            1 => {
                let n = s.range(0, 5);
                s.note(|| format!("_mint_consecutive({}, {n})", sh(to)));
                act(caller, cons, Kind::Faucet, INf::hBatchCall { to, size: u(n) })
            }
            2 => {
                let from = if s.chance(1, 10) { to } else { owner };
                let to = if s.chance(1, 8) { owner } else { to };
                let safe = s.chance(1, 3);
                s.note(|| format!("{}: {}.{}transferFrom({}, {}, {})", sh(t), sh(caller), if safe { "safe " } else { "" }, sh(from), sh(to), num(id)));
                if safe {
                    act(caller, t, Kind::Move, I721::safeTransferFrom_0Call { from, to, id })
                } else {
                    act(caller, t, Kind::Move, I721::transferFromCall { from, to, id })
                }
            }
            3 => {
                let p = s.pick(&self.who);
                s.note(|| format!("{}: {}.approve({}, {})", sh(t), sh(caller), sh(p), num(id)));
                act(caller, t, Kind::Approve721(id), I721::approveCall { to: p, id })
            }
            4 => {
                let p = s.pick(&self.who);
                let on = s.chance(3, 4);
                s.note(|| format!("{}: {}.setApprovalForAll({}, {on})", sh(t), sh(caller), sh(p)));
                act(caller, t, Kind::Operator(p), I721::setApprovalForAllCall { operator: p, approved: on })
            }
            5 => {
                s.note(|| format!("{}: {}.burn({})", sh(t), sh(caller), num(id)));
                act(caller, t, Kind::Move, INf::burnCall { id })
            }
            6 => {
                let mine: Vec<U256> = self.ids.iter().copied().filter(|i| now.owner[&(nft, *i)] == caller).collect();
                let mut l: Vec<U256> = if s.chance(1, 6) { vec![s.pick(&self.ids)] } else { vec![] };
                for i in mine {
                    if s.bool() {
                        l.push(i);
                    }
                }
                s.note(|| format!("wrap: {}.depositFor({}, {l:?})", sh(caller), sh(to)));
                act(caller, wrap, Kind::Move, INf::depositForCall { account: to, ids: l })
            }
            _ => {
                let mine: Vec<U256> = self
                    .ids
                    .iter()
                    .copied()
                    .filter(|i| {
                        let o = now.owner[&(wrap, *i)];
                        o != Z && (o == caller || now.appr[&(wrap, *i)] == caller || now.ops.get(&(wrap, o, caller)) == Some(&true))
                    })
                    .collect();
                let mut l: Vec<U256> = if s.chance(1, 6) { vec![s.pick(&self.ids)] } else { vec![] };
                for i in mine {
                    if s.bool() {
                        l.push(i);
                    }
                }
                s.note(|| format!("wrap: {}.withdrawTo({}, {l:?})", sh(caller), sh(to)));
                act(caller, wrap, Kind::Move, INf::withdrawToCall { account: to, ids: l })
            }
        }
    }
}

// ---------------------------------------------------------------- ERC-1155

pub struct W1155 {
    pub tokens: [Address; 2],
    pub who: Vec<Address>,
    pub ids: Vec<U256>,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct S1155 {
    pub bal: BTreeMap<(Address, U256, Address), U256>,
    pub ops: BTreeMap<(Address, Address, Address), bool>,
}
impl W1155 {
    pub fn new(s: &mut Src) -> W1155 {
        let [a, b] = [ca(1), ca(2)];
        deploy::<Multi>(a);
        deploy::<Supply>(b);
        W1155 { tokens: [a, b], who: vec![eoa(1), eoa(2), eoa(3), a], ids: gen_ids(s, 3) }
    }
    /// Some first balances and approvals.
    pub fn start(&self, s: &mut Src) -> Vec<Act> {
        let mut v = vec![];
        for t in self.tokens {
            for i in 1..4 {
                let (id, x) = (s.pick(&self.ids), u(s.range(0, 1000)));
                s.note(|| format!("{}: mint({}, {}, {x})", short(t), short(eoa(i)), num(id)));
                v.push(act(eoa(i), t, Kind::Faucet, I1155::hMintCall { to: eoa(i), id, value: x, data: vec![].into() }));
                if s.bool() {
                    let p = eoa(1 + i % 3);
                    s.note(|| format!("{}: {}.setApprovalForAll({}, true)", short(t), short(eoa(i)), short(p)));
                    v.push(act(eoa(i), t, Kind::Operator(p), I1155::setApprovalForAllCall { operator: p, approved: true }));
                }
            }
        }
        v
    }
    pub fn snap(&self) -> Result<S1155, Fail> {
        let mut x = S1155::default();
        for t in self.tokens {
            for o in &self.who {
                for id in &self.ids {
                    x.bal.insert((t, *id, *o), view(t, I1155::balanceOfCall { account: *o, id: *id })?._0);
                }
                for p in &self.who {
                    let b = view(t, I1155::isApprovedForAllCall { account: *o, operator: *p })?._0;
                    x.ops.insert((t, *o, *p), b);
                }
            }
        }
        Ok(x)
    }
    pub fn step(&self, s: &mut Src, now: &S1155, internal: bool) -> Act {
        let t = self.tokens[s.weighted(&[3, 2])];
        let caller = eoa(s.range(1, 3));
        let to = self.who[s.weighted(&[4, 4, 4, 1])];
        let given: Vec<Address> = (1..4)
            .map(eoa)
            .filter(|o| now.ops[&(t, *o, caller)] && self.ids.iter().any(|i| !now.bal[&(t, *i, *o)].is_zero()))
            .collect();
        let owner = match s.weighted(&[4, 3, 2]) {
            0 if !given.is_empty() => s.pick(&given),
            2 => eoa(s.range(1, 3)),
            _ => caller,
        };
        let n = if s.chance(1, 2) { 1 } else { s.range(0, 4) as usize };
        let mut ids = vec![];
        let mut values = vec![];
        let mut left = now.bal.clone();
        for _ in 0..n {
            let held: Vec<U256> = self.ids.iter().copied().filter(|i| !left[&(t, *i, owner)].is_zero()).collect();
            let id = if held.is_empty() { s.pick(&self.ids) } else { s.pick(&held) };
            let b = left[&(t, id, owner)];
            let v = if s.chance(1, 8) { amount(s, &[b]) } else { match s.idx(3) { 0 => b, 1 => b / u(2), _ => b.min(u(3)) } };
            if v <= b {
                left.insert((t, id, owner), b - v);
            }
            ids.push(id);
            values.push(v);
        }
        let sh = |a: Address| short(a);
        let b = || vec![7u8].into();
        match s.weighted(&[4, 7, 4, 4, if internal { 2 } else { 0 }]) {
            0 => {
                let k = if s.bool() { 1 } else { s.range(0, 3) };
                let ids: Vec<U256> = (0..k).map(|_| s.pick(&self.ids)).collect();
                let values: Vec<U256> = (0..k).map(|_| if s.chance(1, 20) { MAX - u(s.below(9)) } else { u(s.below(1000)) }).collect();
                s.note(|| format!("{}: mint({}, {ids:?}, {values:?})", sh(t), sh(to)));
                if k == 1 && s.bool() {
                    act(caller, t, Kind::Faucet, I1155::hMintCall { to, id: ids[0], value: values[0], data: b() })
                } else {
                    act(caller, t, Kind::Faucet, I1155::hMintBatchCall { to, ids, values, data: b() })
                }
            }
            1 => {
                s.note(|| format!("{}: {}.transfer({} -> {}, {ids:?}, {values:?})", sh(t), sh(caller), sh(owner), sh(to)));
                if n == 1 && s.bool() {
                    act(caller, t, Kind::Move, I1155::safeTransferFromCall { from: owner, to, id: ids[0], value: values[0], data: b() })
                } else {
                    act(caller, t, Kind::Move, I1155::safeBatchTransferFromCall { from: owner, to, ids, values, data: b() })
                }
            }
            2 => {
                let p = s.pick(&self.who);
                let on = s.chance(3, 4);
                s.note(|| format!("{}: {}.setApprovalForAll({}, {on})", sh(t), sh(caller), sh(p)));
                act(caller, t, Kind::Operator(p), I1155::setApprovalForAllCall { operator: p, approved: on })
            }
            3 => {
                // Only the plain token exposes public burns.
                let t = self.tokens[0];
                s.note(|| format!("{}.burn({}, {ids:?}, {values:?})", sh(caller), sh(owner)));
                if n == 1 && s.bool() {
                    act(caller, t, Kind::Move, I1155::burnCall { account: owner, id: ids[0], value: values[0] })
                } else {
                    act(caller, t, Kind::Move, I1155::burnBatchCall { account: owner, ids, values })
                }
            }
            _ => {
                let t = self.tokens[1];
                s.note(|| format!("_burn_batch({}, {ids:?}, {values:?})", sh(owner)));
                act(caller, t, Kind::Faucet, I1155::hBurnBatchCall { from: owner, ids, values })
            }
        }
    }
}

pub fn no_trace(a: &Act) -> Check {
    ensure!(a.ok || a.logs.is_empty(), "events", "a reverted call left events {:?}", a.logs);
    Ok(())
}
