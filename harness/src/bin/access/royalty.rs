//! C17: ERC-2981 royalties.

use std::collections::BTreeMap;

use alloy_primitives::{aliases::U96, Address, U256, U512};
use alloy_sol_types::{sol, SolCall};
use engine::{ensure, ensure_eq, Check, Prop, Src};
use openzeppelin_stylus::token::common::erc2981::Erc2981;
use ozverif::{m721::gen_ids, util::*};
use stylus_sdk::prelude::*;

sol! {
    interface IR {
        function royaltyInfo(uint256 tokenId, uint256 salePrice) external view returns (address, uint256);
        function init(uint96 denominator) external;
        function setDefault(address receiver, uint96 numerator) external;
        function deleteDefault() external;
        function setToken(uint256 id, address receiver, uint96 numerator) external;
        function resetToken(uint256 id) external;
    }
    error ERC2981InvalidDefaultRoyalty(uint256 numerator, uint256 denominator);
    error ERC2981InvalidDefaultRoyaltyReceiver(address receiver);
    error ERC2981InvalidTokenRoyalty(uint256 tokenId, uint256 numerator, uint256 denominator);
    error ERC2981InvalidTokenRoyaltyReceiver(uint256 tokenId, address receiver);
}
use IR::*;

#[storage]
pub struct R {
    #[borrow]
    royalty: Erc2981,
}
unsafe impl TopLevelStorage for R {}
#[public]
#[inherit(Erc2981)]
impl R {
    fn init(&mut self, denominator: U96) {
        self.royalty.fee_denominator.set(denominator);
    }
    fn set_default(&mut self, receiver: Address, numerator: U96) -> Result<(), Vec<u8>> {
        Ok(self.royalty._set_default_royalty(receiver, numerator)?)
    }
    fn delete_default(&mut self) {
        self.royalty._delete_default_royalty();
    }
    fn set_token(&mut self, id: U256, receiver: Address, numerator: U96) -> Result<(), Vec<u8>> {
        if id.bit(0) {
            return self.royalty._set_token_royalty(id, receiver, numerator).map_err(nested);
        }
        Ok(self.royalty._set_token_royalty(id, receiver, numerator)?)
    }
    fn reset_token(&mut self, id: U256) {
        self.royalty._reset_token_royalty(id);
    }
}

fn n96(s: &mut Src, den: u128) -> u128 {
    let max = (1u128 << 96) - 1;
    match s.weighted(&[6, 2, 2, 2, 1]) {
        0 => ((s.u64() as u128) << 32) % (den + 1),
        1 => den,
        2 => (den + 1).min(max),
        3 => 0,
        _ => max - s.below(3) as u128,
    }
}

fn run(s: &mut Src) -> Check {
    let c = ca(1);
    deploy::<R>(c);
    let den: u128 = match s.weighted(&[5, 1, 1, 1, 1]) {
        0 => 10_000,
        1 => 1,
        2 => s.range(2, 100) as u128,
        3 => (1u128 << 96) - 1,
        _ => 1 + ((s.u64() as u128) << 31),
    };
    s.note(|| format!("denominator {den}"));
    judge(&send(eoa(1), c, initCall { denominator: U96::from(den) }), &Exp::Ok(vec![]), "init")?;
    let who = [eoa(1), eoa(2), c, Address::from([0xff; 20]), Z];
    let mut ids = vec![u(0), u(1), u(2), u(256), MAX];
    ids.extend(gen_ids(s, 3));
    let mut def: Option<(Address, u128)> = None;
    let mut tok: BTreeMap<U256, (Address, u128)> = BTreeMap::new();
    let max = s.size;
    s.steps(max, |s| {
        let id = s.pick(&ids);
        match s.weighted(&[4, 1, 6, 2, 0]) {
            0 => {
                let (r, n) = (if s.chance(7, 8) { who[s.idx(4)] } else { Z }, n96(s, den));
                s.note(|| format!("setDefault({}, {n})", short(r)));
                let mut e = vec![];
                if n > den {
                    e.push(err(ERC2981InvalidDefaultRoyalty {
                        numerator: U256::from(n),
                        denominator: U256::from(den),
                    }));
                }
                if r == Z {
                    e.push(err(ERC2981InvalidDefaultRoyaltyReceiver { receiver: Z }));
                }
                let exp = Exp::from(e, false, vec![]);
                let out = send(eoa(1), c, setDefaultCall { receiver: r, numerator: U96::from(n) });
                judge(&out, &exp, "_set_default_royalty")?;
                if exp.is_ok() {
                    def = Some((r, n));
                    s.tag("default");
                } else {
                    s.tag("refused");
                }
            }
            1 => {
                s.note(|| "deleteDefault()".into());
                judge(&send(eoa(1), c, deleteDefaultCall {}), &Exp::Ok(vec![]), "delete")?;
                def = None;
            }
            2 => {
                let (r, n) = (if s.chance(7, 8) { who[s.idx(4)] } else { Z }, n96(s, den));
                s.note(|| format!("setToken({}, {}, {n})", num(id), short(r)));
                let mut e = vec![];
                if n > den {
                    e.push(err(ERC2981InvalidTokenRoyalty {
                        tokenId: id,
                        numerator: U256::from(n),
                        denominator: U256::from(den),
                    }));
                }
                if r == Z {
                    e.push(err(ERC2981InvalidTokenRoyaltyReceiver { tokenId: id, receiver: Z }));
                }
                let exp = Exp::from(e, false, vec![]);
                let out =
                    send(eoa(1), c, setTokenCall { id, receiver: r, numerator: U96::from(n) });
                judge(&out, &exp, "_set_token_royalty")?;
                if exp.is_ok() {
                    tok.insert(id, (r, n));
                    s.tag("token");
                } else {
                    s.tag("refused");
                }
            }
            _ => {
                s.note(|| format!("resetToken({})", num(id)));
                judge(&send(eoa(1), c, resetTokenCall { id }), &Exp::Ok(vec![]), "reset")?;
                if tok.remove(&id).is_some() {
                    s.tag("reset");
                }
            }
        }
        for id in &ids {
            let (r, n) = tok.get(id).copied().or(def).unwrap_or((Z, 0));
            let limit = if n == 0 { MAX } else { MAX / U256::from(n) };
            let price = amount(s, &[limit, U256::from(den), u(10_000), u(9_999)]);
            let out = view_raw(eoa(3), c, royaltyInfoCall { tokenId: *id, salePrice: price });
            let wide: U512 = U512::from(price) * U512::from(n);
            if wide > U512::from(MAX) {
                ensure!(
                    out.is_err(),
                    "overflow",
                    "royaltyInfo({id}, {price}) with {n}/{den} must not answer on overflow: {out:?}"
                );
                s.tag("price-overflow");
            } else {
                let want = U256::from(wide / U512::from(den));
                let Ok(d) = out else {
                    ensure!(false, "revert", "royaltyInfo({id}, {price}) reverted");
                    unreachable!()
                };
                let got = royaltyInfoCall::abi_decode_returns(&d, true)
                    .map_err(|e| engine::Fail { sig: "decode".into(), msg: e.to_string() })?;
                ensure_eq!(
                    (got._0, got._1),
                    (r, want),
                    "royalty",
                    "royaltyInfo({id}, {price}) with token {:?} default {:?} over {den}",
                    tok.get(id),
                    def
                );
                ensure!(got._1 <= price, "above-price", "royalty {} above price {price}", got._1);
            }
        }
        Ok(())
    })?;
    s.nontrivial = s.has("default") && s.has("token") && (s.has("reset") || s.has("refused"));
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C17",
    name: "ERC-2981",
    parts: &[("histories", run, 1)],
    rule: "both a default and a token royalty were set, and a token royalty was reset or a setting refused",
    quick_cases: 300_000,
    thorough_cases: 2_000_000,
    size: (24, 80),
};
