//! Scripted token contracts with injectable faults. Their state lives in the
//! host's journaled storage, so it is rolled back with a reverted call.

use std::{cell::RefCell, rc::Rc};

use alloy_primitives::{Address, B256, U256};
use alloy_sol_types::{sol, SolCall, SolEvent};

use crate::{
    host::{self, CallResult, Code},
    util::*,
};

sol! {
    interface IT {
        function balanceOf(address account) external view returns (uint256);
        function allowance(address owner, address spender) external view returns (uint256);
        function decimals() external view returns (uint8);
        function transfer(address to, uint256 value) external returns (bool);
        function approve(address spender, uint256 value) external returns (bool);
        function transferFrom(address from, address to, uint256 value) external returns (bool);
    }
    interface INft {
        function ownerOf(uint256 id) external view returns (address);
        #[derive(Debug)]
        function transferFrom(address from, address to, uint256 id) external;
        function safeTransferFrom(address from, address to, uint256 id) external;
        function safeTransferFrom(address from, address to, uint256 id, bytes data) external;
    }
    event Moved(address indexed from, address indexed to, uint256 value);
}

/// How a mock token answers a state-changing call.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ans {
    True,
    Empty,
    /// More than 32 bytes, beginning with the word 1.
    LongTrue,
    False,
    /// A full word that is neither 0 nor 1.
    Word(U256),
    /// More than 32 bytes, beginning with another word.
    LongWord(U256),
    /// Fewer than 32 bytes.
    Short(Vec<u8>),
    Revert,
    RevertData(Vec<u8>),
}
impl Ans {
    /// Whether a safe-ERC-20 caller must take this as success. `None`: short
    /// data that spells "1", which the library deliberately accepts.
    pub fn success(&self) -> Option<bool> {
        match self {
            Ans::True | Ans::Empty | Ans::LongTrue => Some(true),
            Ans::Short(d) if d.is_empty() => Some(true),
            Ans::Short(d) if U256::from_be_slice(d) == u(1) => None,
            _ => Some(false),
        }
    }
    fn reply(&self) -> CallResult {
        match self {
            Ans::True => Ok(ret_bool(true)),
            Ans::Empty => Ok(vec![]),
            Ans::LongTrue => Ok([ret_bool(true), vec![0xab; 40]].concat()),
            Ans::False => Ok(ret_bool(false)),
            Ans::Word(w) => Ok(ret_u256(*w)),
            Ans::LongWord(w) => Ok([ret_u256(*w), ret_u256(u(1))].concat()),
            Ans::Short(d) => Ok(d.clone()),
            Ans::Revert => Err(vec![]),
            Ans::RevertData(d) => Err(d.clone()),
        }
    }
}

/// A random answer; good ones with probability `good` in 10.
pub fn gen_ans(s: &mut engine::Src, good: u64) -> Ans {
    if s.below(10) < good {
        return match s.weighted(&[6, 2, 1]) {
            0 => Ans::True,
            1 => Ans::Empty,
            _ => Ans::LongTrue,
        };
    }
    match s.idx(7) {
        0 => Ans::Revert,
        1 => Ans::False,
        2 => Ans::Word(match s.idx(5) {
            0 => u(2),
            1 => MAX,
            2 => U256::from(1) << 255,
            3 => U256::from(1) << (8 * s.range(1, 31)) as usize,
            _ => rand_u256(s).max(u(2)),
        }),
        3 => {
            let w = match s.idx(3) {
                0 => u(0),
                1 => u(2),
                _ => rand_u256(s).max(u(2)),
            };
            Ans::LongWord(w)
        }
        4 => {
            let n = s.range(1, 31) as usize;
            let mut d = vec![0u8; n];
            match s.idx(3) {
                0 => {}
                1 => d[0] = 1,
                _ => d = s.bytes(n),
            }
            if U256::from_be_slice(&d) == u(1) {
                d[n - 1] = 2;
            }
            Ans::Short(d)
        }
        5 => Ans::RevertData(ret_bool(true)),
        _ => Ans::RevertData(blob(s)),
    }
}

#[derive(Clone, Debug)]
pub struct Beh {
    pub transfer: Ans,
    pub transfer_from: Ans,
    pub approve: Ans,
    /// Answer of `balanceOf` instead of the balance.
    pub balance_of: Option<CallResult>,
    /// Answer of `allowance` instead of the allowance.
    pub allowance: Option<CallResult>,
    /// `approve` of a non-zero value while the allowance is non-zero fails.
    pub zero_reset: bool,
    pub decimals: CallResult,
}
impl Default for Beh {
    fn default() -> Self {
        Beh {
            transfer: Ans::True,
            transfer_from: Ans::True,
            approve: Ans::True,
            balance_of: None,
            allowance: None,
            zero_reset: false,
            decimals: Ok(ret_u256(u(18))),
        }
    }
}

#[derive(Clone)]
pub struct Tok {
    pub addr: Address,
    pub beh: Rc<RefCell<Beh>>,
    /// Accounts with ERC-777 style hooks: called before tokens leave them and
    /// after tokens reached them.
    pub hooked: Rc<RefCell<Vec<Address>>>,
}

fn bal_slot(a: Address) -> U256 {
    U256::from_be_bytes(host::keccak(&[b"bal", a.as_slice()].concat()).0)
}
fn allow_slot(o: Address, s: Address) -> U256 {
    U256::from_be_bytes(host::keccak(&[b"all", o.as_slice(), s.as_slice()].concat()).0)
}

impl Tok {
    pub fn deploy(addr: Address) -> Tok {
        let t = Tok { addr, beh: Rc::new(RefCell::new(Beh::default())), hooked: Default::default() };
        let t2 = t.clone();
        host::set_code(addr, Code::Mock(Rc::new(move |d| t2.run(d))));
        t
    }
    pub fn bal(&self, a: Address) -> U256 {
        host::sload(self.addr, bal_slot(a))
    }
    pub fn allow(&self, o: Address, s: Address) -> U256 {
        host::sload(self.addr, allow_slot(o, s))
    }
    pub fn set_bal(&self, a: Address, v: U256) {
        host::sstore(self.addr, bal_slot(a), v);
    }
    pub fn set_allow(&self, o: Address, s: Address, v: U256) {
        host::sstore(self.addr, allow_slot(o, s), v);
    }
    fn hook(&self, a: Address, name: &[u8; 4]) -> Result<(), Vec<u8>> {
        if self.hooked.borrow().contains(&a) {
            host::call(self.addr, a, U256::ZERO, name, false)?;
        }
        Ok(())
    }
    fn mv(&self, from: Address, to: Address, v: U256) -> Result<(), Vec<u8>> {
        self.hook(from, b"send")?;
        let b = self.bal(from);
        if b < v {
            return Err(b"insufficient".to_vec());
        }
        self.set_bal(from, b - v);
        let t = self.bal(to);
        self.set_bal(to, t.checked_add(v).ok_or_else(Vec::new)?);
        let l = Moved { from, to, value: v }.encode_log_data();
        host::mock_log(l.topics().to_vec(), l.data.to_vec());
        self.hook(to, b"recv")
    }
    fn run(&self, d: &[u8]) -> CallResult {
        let (_, sender, value) = host::ctx();
        if !value.is_zero() || d.len() < 4 {
            return Err(vec![]);
        }
        let beh = self.beh.borrow().clone();
        let sel: [u8; 4] = d[..4].try_into().unwrap();
        let bad = |_| Vec::<u8>::new();
        match sel {
            IT::balanceOfCall::SELECTOR => {
                let c = IT::balanceOfCall::abi_decode(d, true).map_err(bad)?;
                beh.balance_of.unwrap_or_else(|| Ok(ret_u256(self.bal(c.account))))
            }
            IT::allowanceCall::SELECTOR => {
                let c = IT::allowanceCall::abi_decode(d, true).map_err(bad)?;
                beh.allowance.unwrap_or_else(|| Ok(ret_u256(self.allow(c.owner, c.spender))))
            }
            IT::decimalsCall::SELECTOR => beh.decimals,
            IT::transferCall::SELECTOR => {
                let c = IT::transferCall::abi_decode(d, true).map_err(bad)?;
                self.mv(sender, c.to, c.value)?;
                beh.transfer.reply()
            }
            IT::transferFromCall::SELECTOR => {
                let c = IT::transferFromCall::abi_decode(d, true).map_err(bad)?;
                let a = self.allow(c.from, sender);
                if a < c.value {
                    return Err(b"allowance".to_vec());
                }
                if a != MAX {
                    self.set_allow(c.from, sender, a - c.value);
                }
                self.mv(c.from, c.to, c.value)?;
                beh.transfer_from.reply()
            }
            IT::approveCall::SELECTOR => {
                let c = IT::approveCall::abi_decode(d, true).map_err(bad)?;
                let cur = self.allow(sender, c.spender);
                if beh.zero_reset && !cur.is_zero() && !c.value.is_zero() {
                    return Err(b"reset first".to_vec());
                }
                if beh.approve.success() == Some(true) {
                    self.set_allow(sender, c.spender, c.value);
                }
                beh.approve.reply()
            }
            _ => Err(vec![]),
        }
    }
}

/// A scripted ERC-721 (owners, no approvals: `transferFrom` needs the caller to
/// be the owner or approved for all).
#[derive(Clone)]
pub struct Nft {
    pub addr: Address,
    pub fail_transfer: Rc<RefCell<Option<Vec<u8>>>>,
    pub fail_owner_of: Rc<RefCell<Option<CallResult>>>,
}
fn own_slot(id: U256) -> U256 {
    U256::from_be_bytes(host::keccak(&[b"own".to_vec(), ret_u256(id)].concat()).0)
}
fn op_slot(o: Address, op: Address) -> U256 {
    U256::from_be_bytes(host::keccak(&[b"opr", o.as_slice(), op.as_slice()].concat()).0)
}
impl Nft {
    pub fn deploy(addr: Address) -> Nft {
        let t = Nft {
            addr,
            fail_transfer: Default::default(),
            fail_owner_of: Default::default(),
        };
        let t2 = t.clone();
        host::set_code(addr, Code::Mock(Rc::new(move |d| t2.run(d))));
        t
    }
    pub fn owner(&self, id: U256) -> Address {
        Address::from_word(B256::from(host::sload(self.addr, own_slot(id))))
    }
    pub fn set_owner(&self, id: U256, a: Address) {
        host::sstore(self.addr, own_slot(id), U256::from_be_bytes(a.into_word().0));
    }
    pub fn approved(&self, o: Address, op: Address) -> bool {
        !host::sload(self.addr, op_slot(o, op)).is_zero()
    }
    pub fn set_approved(&self, o: Address, op: Address, v: bool) {
        host::sstore(self.addr, op_slot(o, op), u(v as u64));
    }
    fn mv(&self, sender: Address, from: Address, to: Address, id: U256) -> Result<(), Vec<u8>> {
        if let Some(e) = self.fail_transfer.borrow().clone() {
            return Err(e);
        }
        let o = self.owner(id);
        if o == Z || o != from || to == Z || (sender != o && !self.approved(o, sender)) {
            return Err(b"not allowed".to_vec());
        }
        self.set_owner(id, to);
        Ok(())
    }
    fn run(&self, d: &[u8]) -> CallResult {
        let (me, sender, value) = host::ctx();
        if !value.is_zero() || d.len() < 4 {
            return Err(vec![]);
        }
        let sel: [u8; 4] = d[..4].try_into().unwrap();
        let bad = |_| Vec::<u8>::new();
        match sel {
            INft::ownerOfCall::SELECTOR => {
                let c = INft::ownerOfCall::abi_decode(d, true).map_err(bad)?;
                if let Some(r) = self.fail_owner_of.borrow().clone() {
                    return r;
                }
                let o = self.owner(c.id);
                if o == Z {
                    return Err(b"no such token".to_vec());
                }
                Ok(o.into_word().to_vec())
            }
            INft::transferFromCall::SELECTOR => {
                let c = INft::transferFromCall::abi_decode(d, true).map_err(bad)?;
                self.mv(sender, c.from, c.to, c.id)?;
                Ok(vec![])
            }
            INft::safeTransferFrom_0Call::SELECTOR => {
                let c = INft::safeTransferFrom_0Call::abi_decode(d, true).map_err(bad)?;
                self.mv(sender, c.from, c.to, c.id)?;
                nft_callback(me, sender, c.from, c.to, c.id, vec![])?;
                Ok(vec![])
            }
            INft::safeTransferFrom_1Call::SELECTOR => {
                let c = INft::safeTransferFrom_1Call::abi_decode(d, true).map_err(bad)?;
                self.mv(sender, c.from, c.to, c.id)?;
                nft_callback(me, sender, c.from, c.to, c.id, c.data.to_vec())?;
                Ok(vec![])
            }
            _ => Err(vec![]),
        }
    }
}

sol! {
    function onERC721Received(address operator, address from, uint256 tokenId, bytes data) external returns (bytes4);
}
/// What a well-behaved ERC-721 does after a safe transfer.
pub fn nft_callback(
    me: Address,
    operator: Address,
    from: Address,
    to: Address,
    id: U256,
    data: Vec<u8>,
) -> Result<(), Vec<u8>> {
    if !host::has_code(to) {
        return Ok(());
    }
    let call = onERC721ReceivedCall { operator, from, tokenId: id, data: data.into() };
    let r = host::call(me, to, U256::ZERO, &call.abi_encode(), false)?;
    if r.len() == 32 && r[..4] == onERC721ReceivedCall::SELECTOR {
        Ok(())
    } else {
        Err(b"refused".to_vec())
    }
}
