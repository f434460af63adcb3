//! C06: ERC-4626.

use alloy_primitives::{Address, U256, U512, U8};
use alloy_sol_types::sol;
use engine::{ensure, ensure_eq, Check, Fail, Prop, Src};
use openzeppelin_stylus::token::erc20::{
    extensions::{erc4626, Erc4626, IErc4626},
    Erc20,
};
use ozverif::{
    host::CallResult,
    tokens::{gen_ans, Ans, Tok},
    util::*,
};
use stylus_sdk::prelude::*;

use super::{
    ledger::{core_op, tr, ERC20InvalidReceiver, ERC20InvalidSender, I20, M20},
    wrapper::{moved, SafeErc20FailedOperation},
};

sol! {
    interface IV4 {
        function decimals() external view returns (uint8);
        function asset() external view returns (address);
        function totalAssets() external returns (uint256);
        function convertToShares(uint256 assets) external returns (uint256);
        function convertToAssets(uint256 shares) external returns (uint256);
        function maxDeposit(address receiver) external view returns (uint256);
        function previewDeposit(uint256 assets) external returns (uint256);
        function deposit(uint256 assets, address receiver) external returns (uint256);
        function maxMint(address receiver) external view returns (uint256);
        function previewMint(uint256 shares) external returns (uint256);
        function mint(uint256 shares, address receiver) external returns (uint256);
        function maxWithdraw(address owner) external returns (uint256);
        function previewWithdraw(uint256 assets) external returns (uint256);
        function withdraw(uint256 assets, address receiver, address owner) external returns (uint256);
        function maxRedeem(address owner) external view returns (uint256);
        function previewRedeem(uint256 shares) external returns (uint256);
        function redeem(uint256 shares, address receiver, address owner) external returns (uint256);
        function hMint(address account, uint256 value) external;
    }
    event Deposit(address indexed sender, address indexed owner, uint256 assets, uint256 shares);
    event Withdraw(address indexed sender, address indexed receiver, address indexed owner, uint256 assets, uint256 shares);
    error ERC4626ExceededMaxWithdraw(address owner, uint256 assets, uint256 max);
    error ERC4626ExceededMaxRedeem(address owner, uint256 shares, uint256 max);
    error InvalidAsset(address asset);
}
use IV4::*;

type R = Result<U256, erc4626::Error>;

#[storage]
pub struct V {
    #[borrow]
    erc4626: Erc4626,
    #[borrow]
    erc20: Erc20,
}
unsafe impl TopLevelStorage for V {}
#[public]
#[inherit(Erc20)]
impl V {
    fn decimals(&self) -> U8 {
        self.erc4626.decimals()
    }
    fn asset(&self) -> Address {
        self.erc4626.asset()
    }
    fn total_assets(&mut self) -> R {
        self.erc4626.total_assets()
    }
    fn convert_to_shares(&mut self, assets: U256) -> R {
        self.erc4626.convert_to_shares(assets, &self.erc20)
    }
    fn convert_to_assets(&mut self, shares: U256) -> R {
        self.erc4626.convert_to_assets(shares, &self.erc20)
    }
    fn max_deposit(&self, receiver: Address) -> U256 {
        self.erc4626.max_deposit(receiver)
    }
    fn preview_deposit(&mut self, assets: U256) -> R {
        self.erc4626.preview_deposit(assets, &self.erc20)
    }
    fn deposit(&mut self, assets: U256, receiver: Address) -> R {
        self.erc4626.deposit(assets, receiver, &mut self.erc20)
    }
    fn max_mint(&self, receiver: Address) -> U256 {
        self.erc4626.max_mint(receiver)
    }
    fn preview_mint(&mut self, shares: U256) -> R {
        self.erc4626.preview_mint(shares, &self.erc20)
    }
    fn mint(&mut self, shares: U256, receiver: Address) -> R {
        self.erc4626.mint(shares, receiver, &mut self.erc20)
    }
    fn max_withdraw(&mut self, owner: Address) -> R {
        self.erc4626.max_withdraw(owner, &self.erc20)
    }
    fn preview_withdraw(&mut self, assets: U256) -> R {
        self.erc4626.preview_withdraw(assets, &self.erc20)
    }
    fn withdraw(&mut self, assets: U256, receiver: Address, owner: Address) -> R {
        self.erc4626.withdraw(assets, receiver, owner, &mut self.erc20)
    }
    fn max_redeem(&self, owner: Address) -> U256 {
        self.erc4626.max_redeem(owner, &self.erc20)
    }
    fn preview_redeem(&mut self, shares: U256) -> R {
        self.erc4626.preview_redeem(shares, &self.erc20)
    }
    fn redeem(&mut self, shares: U256, receiver: Address, owner: Address) -> Result<U256, Vec<u8>> {
        self.erc4626.redeem(shares, receiver, owner, &mut self.erc20).map_err(nested)
    }
    fn h_mint(&mut self, account: Address, value: U256) -> Result<(), erc4626::Error> {
        Ok(self.erc20._mint(account, value)?)
    }
}

/// x * a / b, or `None` if it does not fit.
fn ratio(x: U256, a: U512, b: U512, up: bool) -> Option<U256> {
    // `a` and `b` below 2^257 would be overflow in the contract: the caller
    // has checked that they fit.
    let p: U512 = U512::from(x) * a;
    let mut q = p / b;
    if up && !(p % b).is_zero() {
        q += U512::from(1);
    }
    (q <= U512::from(MAX)).then(|| U256::from(q))
}

#[derive(Clone, Copy, Debug)]
struct Rate {
    supply: U256,
    assets: U256,
    offset: u8,
}
impl Rate {
    fn parts(&self) -> Option<(U512, U512)> {
        let off = (0..self.offset).try_fold(u(1), |a, _| a.checked_mul(u(10)))?;
        let sh = self.supply.checked_add(off)?;
        let as_ = self.assets.checked_add(u(1))?;
        Some((U512::from(sh), U512::from(as_)))
    }
    fn to_shares(self, assets: U256, up: bool) -> Option<U256> {
        let (sh, a) = self.parts()?;
        ratio(assets, sh, a, up)
    }
    fn to_assets(self, shares: U256, up: bool) -> Option<U256> {
        let (sh, a) = self.parts()?;
        ratio(shares, a, sh, up)
    }
}

fn expect(fault: bool, asset: Address, v: Option<U256>) -> Exp {
    if fault && v.is_some() {
        Exp::Rev(vec![err(InvalidAsset { asset })])
    } else {
        match v {
            Some(v) => Exp::Ok(ret_u256(v)),
            None => Exp::Fail,
        }
    }
}

fn run(s: &mut Src) -> Check {
    let c = ca(1);
    deploy::<V>(c);
    let t = Tok::deploy(ca(2));
    let one = Address::with_last_byte(1);
    ensure!(
        configure("asset", c, || view(c, assetCall {}).map(|r| r._0 == one).unwrap_or(false), t.addr.as_slice()),
        "config",
        "asset cannot be configured"
    );
    let shares_of_one = || send(eoa(9), c, convertToSharesCall { assets: u(1) }).result;
    let offset = match s.weighted(&[4, 5, 2, 1, 1]) {
        0 => 0,
        1 => s.range(1, 12) as u8,
        2 => 18,
        3 => s.range(70, 80) as u8,
        _ => s.below(256) as u8,
    };
    let und = s.pick(&[0u8, 6, 8, 18, 255 - offset]);
    let is = |n: u8| view(c, decimalsCall {}).map(|r| r._0 == n).unwrap_or(false);
    ensure!(
        configure("underlying_decimals", c, || is(1) && shares_of_one() == Ok(ret_u256(u(1))), &[und]),
        "config",
        "underlying decimals cannot be configured"
    );
    ensure!(
        configure("offset", c, || shares_of_one() == Ok(ret_u256(u(10))), &[offset]),
        "config",
        "decimals offset cannot be configured"
    );
    ensure_eq!(view(c, assetCall {})?._0, t.addr, "asset", "asset()");
    match und.checked_add(offset) {
        Some(d) => ensure_eq!(view(c, decimalsCall {})?._0, d, "decimals", "decimals()"),
        None => ensure!(view(c, decimalsCall {}).is_err(), "decimals", "decimals() beyond 255 must fail"),
    }
    s.note(|| format!("decimals offset {offset}"));
    let who = [Z, eoa(1), eoa(2), eoa(3), c];
    let huge = s.chance(1, 5);
    for w in &who[1..4] {
        t.set_bal(*w, if huge { MAX >> 3 } else { u(s.range(0, 100_000)) });
        t.set_allow(*w, c, if s.chance(2, 3) { MAX } else { u(s.range(0, 50_000)) });
    }
    let mut m = M20::default();
    let faulty = s.chance(1, 3);
    let max = s.size;
    s.steps(max, |s| {
        let mut bad_query = false;
        {
            let mut b = t.beh.borrow_mut();
            b.transfer = Ans::True;
            b.transfer_from = Ans::True;
            b.balance_of = None;
            if faulty && s.chance(1, 4) {
                match s.idx(3) {
                    0 => b.transfer = gen_ans(s, 2),
                    1 => b.transfer_from = gen_ans(s, 2),
                    _ => {
                        bad_query = true;
                        let r: CallResult = match s.idx(3) {
                            0 => Err(b"broken".to_vec()),
                            1 => Ok(vec![]),
                            _ => Ok(vec![1; s.range(1, 31) as usize]),
                        };
                        b.balance_of = Some(r);
                    }
                }
            }
        }
        let rate = Rate { supply: m.supply, assets: t.bal(c), offset };
        let before: Vec<U256> = who.iter().map(|w| t.bal(*w)).collect();
        let mut after = before.clone();
        let ix = |a: Address| who.iter().position(|w| *w == a).unwrap();
        let caller = who[1 + s.idx(3)];
        let receiver = if s.chance(1, 6) { s.pick(&who) } else { who[1 + s.idx(3)] };
        let owner = match s.weighted(&[5, 4, 1]) {
            0 => caller,
            1 => m.actor(s, &who),
            _ => s.pick(&who),
        };
        let invalid = || err(InvalidAsset { asset: t.addr });
        let safe_err = || err(SafeErc20FailedOperation { token: t.addr });
        match s.weighted(&[6, 5, 5, 5, 3, 3, 4, 2]) {
            k @ (0 | 1) => {
                // deposit / mint
                let al = t.allow(caller, c).min(t.bal(caller));
                let hint = if k == 0 { al } else { rate.to_shares(al, false).unwrap_or_default() };
                let x = if s.chance(1, 3) { u(s.range(0, 3000)) } else { amount(s, &[hint, hint, rate.assets, rate.supply]) };
                let y = if k == 0 { rate.to_shares(x, false) } else { rate.to_assets(x, true) };
                let (assets, shares) = if k == 0 { (Some(x), y) } else { (y, Some(x)) };
                let name = ["deposit", "mint"][k];
                s.note(|| format!("{}.{name}({}, {}) with {rate:?} fault {bad_query} answer {:?}", short(caller), num(x), short(receiver), t.beh.borrow().transfer_from));
                let mut e = vec![];
                let mut over = false;
                if bad_query && y.is_some() {
                    e.push(invalid());
                } else if y.is_none() {
                    over = true;
                } else {
                    let (a, sh) = (assets.unwrap(), shares.unwrap());
                    if t.bal(caller) < a || t.allow(caller, c) < a || t.beh.borrow().transfer_from.success() == Some(false) || t.bal(c).checked_add(a).is_none() {
                        e.push(safe_err());
                    }
                    if receiver == Z {
                        e.push(err(ERC20InvalidReceiver { receiver: Z }));
                    }
                    over = e.is_empty() && m.supply.checked_add(sh).is_none();
                }
                let exp = Exp::from(e, over, y.map(ret_u256).unwrap_or_default());
                let out = if k == 0 {
                    send(caller, c, depositCall { assets: x, receiver })
                } else {
                    send(caller, c, mintCall { shares: x, receiver })
                };
                judge(&out, &exp, name)?;
                if exp.is_ok() {
                    let (a, sh) = (assets.unwrap(), shares.unwrap());
                    m.mv(Z, receiver, sh);
                    after[ix(caller)] -= a;
                    after[ix(c)] += a;
                    judge_logs(
                        &out.logs,
                        &[
                            moved(&t, caller, c, a),
                            tr(c, Z, receiver, sh),
                            ev(c, Deposit { sender: caller, owner: receiver, assets: a, shares: sh }),
                        ],
                        name,
                    )?;
                    // Redeeming what was just issued never profits.
                    let r = send(eoa(9), c, previewRedeemCall { shares: sh }).result;
                    if let Ok(r) = r {
                        ensure!(U256::from_be_slice(&r) <= a, "profit", "{name} of {a} assets for {sh} shares redeems for more: {}", U256::from_be_slice(&r));
                    }
                    if !a.is_zero() {
                        s.tag("in");
                    }
                } else {
                    s.tag("refused");
                }
            }
            k @ (2 | 3) => {
                // withdraw / redeem
                let max_assets = rate.to_assets(m.b(owner), false);
                let hint = if k == 2 { max_assets.unwrap_or_default() } else { m.b(owner) };
                let x = if s.chance(1, 4) { u(s.range(0, 3000)) } else { amount(s, &[hint, hint, hint, rate.assets]) };
                let y = if k == 2 { rate.to_shares(x, true) } else { rate.to_assets(x, false) };
                let (assets, shares) = if k == 2 { (Some(x), y) } else { (y, Some(x)) };
                let name = if k == 2 { "withdraw" } else { "redeem" };
                s.note(|| format!("{}.{name}({}, {}, {}) with {rate:?} fault {bad_query} answer {:?}", short(caller), num(x), short(receiver), short(owner), t.beh.borrow().transfer));
                let mut e = vec![];
                let mut over = false;
                if bad_query {
                    e.push(invalid());
                }
                if k == 2 {
                    match max_assets {
                        None => over = true,
                        Some(max) if x > max => e.push(err(ERC4626ExceededMaxWithdraw { owner, assets: x, max })),
                        _ => {}
                    }
                } else if x > m.b(owner) {
                    e.push(err(ERC4626ExceededMaxRedeem { owner, shares: x, max: m.b(owner) }));
                }
                if e.is_empty() && !over {
                    match (assets, shares) {
                        (Some(a), Some(sh)) => {
                            if caller != owner {
                                e.extend(m.spend_errs(owner, caller, sh));
                            }
                            if owner == Z {
                                e.push(err(ERC20InvalidSender { sender: Z }));
                            }
                            if m.b(owner) < sh {
                                e.push(m.insufficient(owner, sh));
                            }
                            if t.bal(c) < a || t.beh.borrow().transfer.success() == Some(false) || (receiver != c && t.bal(receiver).checked_add(a).is_none()) {
                                e.push(safe_err());
                            }
                        }
                        _ => over = true,
                    }
                }
                let exp = Exp::from(e, over || (bad_query && (y.is_none() || max_assets.is_none())), y.map(ret_u256).unwrap_or_default());
                let out = if k == 2 {
                    send(caller, c, withdrawCall { assets: x, receiver, owner })
                } else {
                    send(caller, c, redeemCall { shares: x, receiver, owner })
                };
                judge(&out, &exp, name)?;
                if exp.is_ok() {
                    let (a, sh) = (assets.unwrap(), shares.unwrap());
                    if caller != owner {
                        m.spend(owner, caller, sh);
                        s.tag("delegated");
                    }
                    m.mv(owner, Z, sh);
                    after[ix(c)] -= a;
                    after[ix(receiver)] += a;
                    judge_logs(
                        &out.logs,
                        &[
                            moved(&t, c, receiver, a),
                            tr(c, owner, Z, sh),
                            ev(c, Withdraw { sender: caller, receiver, owner, assets: a, shares: sh }),
                        ],
                        name,
                    )?;
                    // Putting the assets back never buys more shares.
                    let r = send(eoa(9), c, previewDepositCall { assets: a }).result;
                    if let Ok(r) = r {
                        if receiver != c {
                            ensure!(U256::from_be_slice(&r) <= sh, "profit", "{name} of {sh} shares for {a} assets buys back more: {}", U256::from_be_slice(&r));
                        }
                    }
                    if !a.is_zero() {
                        s.tag("out");
                    }
                } else {
                    s.tag("refused");
                }
            }
            4 => {
                // Yield or loss outside the vault's control.
                let v = match s.weighted(&[6, 1, 1]) {
                    0 => t.bal(c).saturating_add(u(s.range(1, 5000))),
                    1 => t.bal(c) / u(s.range(2, 4)),
                    _ if huge => MAX >> s.idx(4),
                    _ => t.bal(c) + u(1),
                };
                s.note(|| format!("vault assets become {}", num(v)));
                t.set_bal(c, v);
                after[ix(c)] = v;
            }
            5 => {
                core_op(s, &mut m, c, &who)?;
            }
            6 => {
                // Every read in this state.
                let x = amount(s, &[rate.assets, rate.supply]);
                s.note(|| format!("previews of {} with {rate:?} fault {bad_query}", num(x)));
                let p = |out: ozverif::host::Outcome, v: Option<U256>, what: &str| -> Result<(), Fail> {
                    judge(&out, &expect(bad_query, t.addr, v), what)?;
                    judge_logs(&out.logs, &[], what)
                };
                p(send(caller, c, totalAssetsCall {}), Some(rate.assets), "totalAssets")?;
                p(send(caller, c, convertToSharesCall { assets: x }), rate.to_shares(x, false), "convertToShares")?;
                p(send(caller, c, convertToAssetsCall { shares: x }), rate.to_assets(x, false), "convertToAssets")?;
                p(send(caller, c, previewDepositCall { assets: x }), rate.to_shares(x, false), "previewDeposit")?;
                p(send(caller, c, previewMintCall { shares: x }), rate.to_assets(x, true), "previewMint")?;
                p(send(caller, c, previewWithdrawCall { assets: x }), rate.to_shares(x, true), "previewWithdraw")?;
                p(send(caller, c, previewRedeemCall { shares: x }), rate.to_assets(x, false), "previewRedeem")?;
                p(send(caller, c, maxWithdrawCall { owner }), rate.to_assets(m.b(owner), false), "maxWithdraw")?;
                ensure_eq!(view(c, maxRedeemCall { owner })?._0, m.b(owner), "maxRedeem", "maxRedeem({})", short(owner));
                ensure_eq!(view(c, maxDepositCall { receiver })?._0, MAX, "maxDeposit", "maxDeposit");
                ensure_eq!(view(c, maxMintCall { receiver })?._0, MAX, "maxMint", "maxMint");
                s.tag("previews");
            }
            _ => {
                let v = if s.bool() { MAX } else { u(s.range(1, 100_000)) };
                let o = who[1 + s.idx(3)];
                let sp = who[1 + s.idx(3)];
                s.note(|| format!("{} approves {} for {} shares", short(o), short(sp), num(v)));
                judge(&send(o, c, I20::approveCall { spender: sp, value: v }), &Exp::Ok(ret_bool(true)), "approve")?;
                m.allow.insert((o, sp), v);
            }
        }
        t.beh.borrow_mut().balance_of = None;
        for (i, w) in who.iter().enumerate() {
            ensure_eq!(t.bal(*w), after[i], "assets", "asset balance of {}", short(*w));
        }
        m.compare(c, &who)
    })?;
    s.nontrivial = s.has("in") && s.has("out");
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C06",
    name: "ERC-4626 vault",
    parts: &[("vault", run, 1)],
    rule: "the history has a non-zero deposit or mint and a non-zero withdrawal or redemption",
    quick_cases: 160_000,
    thorough_cases: 800_000,
    size: (24, 60),
};
