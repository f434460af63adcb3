//! C15, C16: ERC-1155 ledger and supply.

use std::rc::Rc;

use alloy_primitives::{Address, U256};
use alloy_sol_types::{sol, SolCall};
use engine::{ensure_eq, Check, Prop, Src};
use openzeppelin_stylus::token::erc1155::{
    self,
    extensions::{Erc1155Supply, IErc1155Burnable, IErc1155Supply},
    Erc1155,
};
use ozverif::{
    host::{self, Code},
    m1155::{self, *},
    m721::gen_ids,
    util::*,
};
use stylus_sdk::{abi::Bytes, prelude::*};

sol! {
    interface ISup {
        function totalSupply(uint256 id) external view returns (uint256);
        function totalSupply() external view returns (uint256);
        function exists(uint256 id) external view returns (bool);
    }
    interface IRecv {
        function onERC1155Received(address operator, address from, uint256 id, uint256 value, bytes data) external returns (bytes4);
        function onERC1155BatchReceived(address operator, address from, uint256[] ids, uint256[] values, bytes data) external returns (bytes4);
    }
}

type R = Result<(), erc1155::Error>;

#[storage]
pub struct Plain {
    #[borrow]
    erc1155: Erc1155,
}
unsafe impl TopLevelStorage for Plain {}
#[public]
#[inherit(Erc1155)]
impl Plain {
    fn burn(&mut self, account: Address, id: U256, value: U256) -> R {
        self.erc1155.burn(account, id, value)
    }
    fn burn_batch(&mut self, account: Address, ids: Vec<U256>, values: Vec<U256>) -> R {
        self.erc1155.burn_batch(account, ids, values)
    }
    fn h_mint(&mut self, to: Address, id: U256, value: U256, data: Bytes) -> R {
        self.erc1155._mint(to, id, value, &data)
    }
    fn h_mint_batch(&mut self, to: Address, ids: Vec<U256>, values: Vec<U256>, data: Bytes) -> R {
        self.erc1155._mint_batch(to, ids, values, &data)
    }
    fn h_burn(&mut self, from: Address, id: U256, value: U256) -> Result<(), Vec<u8>> {
        self.erc1155._burn(from, id, value).map_err(nested)
    }
    fn h_burn_batch(&mut self, from: Address, ids: Vec<U256>, values: Vec<U256>) -> R {
        self.erc1155._burn_batch(from, ids, values)
    }
}

#[storage]
pub struct Sup {
    #[borrow]
    erc1155: Erc1155Supply,
}
unsafe impl TopLevelStorage for Sup {}
#[public]
#[inherit(Erc1155Supply)]
impl Sup {
    #[selector(name = "totalSupply")]
    fn total_supply(&self, id: U256) -> U256 {
        self.erc1155.total_supply(id)
    }
    #[selector(name = "totalSupply")]
    fn total_supply_all(&self) -> U256 {
        self.erc1155.total_supply_all()
    }
    fn exists(&self, id: U256) -> bool {
        self.erc1155.exists(id)
    }
    fn burn(&mut self, account: Address, id: U256, value: U256) -> R {
        self.authorize(account)?;
        self.erc1155._burn(account, id, value)
    }
    fn burn_batch(&mut self, account: Address, ids: Vec<U256>, values: Vec<U256>) -> R {
        self.authorize(account)?;
        self.erc1155._burn_batch(account, ids, values)
    }
    fn h_mint(&mut self, to: Address, id: U256, value: U256, data: Bytes) -> R {
        self.erc1155._mint(to, id, value, &data)
    }
    fn h_mint_batch(&mut self, to: Address, ids: Vec<U256>, values: Vec<U256>, data: Bytes) -> R {
        self.erc1155._mint_batch(to, ids, values, &data)
    }
    fn h_burn(&mut self, from: Address, id: U256, value: U256) -> Result<(), Vec<u8>> {
        self.erc1155._burn(from, id, value).map_err(nested)
    }
    fn h_burn_batch(&mut self, from: Address, ids: Vec<U256>, values: Vec<U256>) -> R {
        self.erc1155._burn_batch(from, ids, values)
    }
}
impl Sup {
    /// What the contract composing the extension adds in front of a burn.
    fn authorize(&self, account: Address) -> R {
        use openzeppelin_stylus::token::erc1155::IErc1155;
        let sender = stylus_sdk::msg::sender();
        if account != sender && !self.erc1155.is_approved_for_all(account, sender) {
            return Err(erc1155::Error::MissingApprovalForAll(
                erc1155::ERC1155MissingApprovalForAll { operator: sender, owner: account },
            ));
        }
        Ok(())
    }
}

fn acceptor(a: Address) {
    host::set_code(
        a,
        Code::Mock(Rc::new(|d| {
            if d.len() < 4 {
                return Err(vec![]);
            }
            let sel: [u8; 4] = d[..4].try_into().unwrap();
            if sel != IRecv::onERC1155ReceivedCall::SELECTOR && sel != IRecv::onERC1155BatchReceivedCall::SELECTOR {
                return Err(vec![]);
            }
            let mut r = sel.to_vec();
            r.resize(32, 0);
            Ok(r)
        })),
    );
}

fn setup(s: &mut Src) -> (Address, Vec<Address>, Vec<U256>, M1155) {
    let c = ca(1);
    let yes = ca(2);
    acceptor(yes);
    let mut who = vec![Z, eoa(1), eoa(2), yes, c];
    if s.chance(1, 3) {
        who.push(eoa(3));
    }
    let k = s.range(1, 4) as usize;
    let ids = gen_ids(s, k);
    (c, who, ids, M1155 { accept: vec![yes], ..Default::default() })
}

fn ledger(s: &mut Src) -> Check {
    let (c, who, ids, mut m) = setup(s);
    deploy::<Plain>(c);
    let max = s.size;
    s.steps(max, |s| {
        m1155::op(s, &mut m, c, &who, &ids)?;
        m.compare(c, &who, &ids)
    })?;
    s.nontrivial = s.has("delegated") && s.has("duplicate") && s.has("transfer") && s.has("refused");
    Ok(())
}

fn supply(s: &mut Src) -> Check {
    let (c, who, ids, mut m) = setup(s);
    m.bounded = true;
    deploy::<Sup>(c);
    let max = s.size;
    s.steps(max, |s| {
        m1155::op(s, &mut m, c, &who, &ids)?;
        for id in &ids {
            let t = m.supply(*id).expect("bounded");
            ensure_eq!(view(c, ISup::totalSupply_0Call { id: *id })?._0, t, "supply", "totalSupply({})", num(*id));
            ensure_eq!(view(c, ISup::existsCall { id: *id })?._0, !t.is_zero(), "exists", "exists({})", num(*id));
        }
        let other = rand_u256(s) | u(1) << 40;
        if !ids.contains(&other) {
            ensure_eq!(view(c, ISup::totalSupply_0Call { id: other })?._0, u(0), "supply", "totalSupply of another id");
            ensure_eq!(view(c, ISup::existsCall { id: other })?._0, false, "exists", "exists of another id");
        }
        ensure_eq!(view(c, ISup::totalSupply_1Call {})?._0, m.supply_all().expect("bounded"), "total", "totalSupply()");
        m.compare(c, &who, &ids)
    })?;
    s.nontrivial = s.has("duplicate") && s.has("burn") && s.has("transfer");
    Ok(())
}

pub const LEDGER: Prop = Prop {
    id: "C15",
    name: "ERC-1155 ledger",
    parts: &[("ledger", ledger, 1)],
    rule: "the history has a transfer or burn by an operator, a batch with a repeated id and a refused call",
    quick_cases: 60_000,
    thorough_cases: 600_000,
    size: (36, 100),
};
pub const SUPPLY: Prop = Prop {
    id: "C16",
    name: "ERC-1155 supply",
    parts: &[("supply", supply, 1)],
    rule: "the history has a batch with a repeated id, a burn and a transfer",
    quick_cases: 60_000,
    thorough_cases: 600_000,
    size: (36, 100),
};
