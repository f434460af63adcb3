//! C10: acceptance checks of safe transfers and mints.

use std::{cell::RefCell, rc::Rc};

use alloy_primitives::{Address, U256};
use alloy_sol_types::{sol, SolCall};
use engine::{ensure, ensure_eq, Check, Prop, Src};
use openzeppelin_stylus::token::{
    erc1155::{self, extensions::Erc1155Supply, Erc1155},
    erc721::{
        self,
        extensions::{consecutive, Erc721Consecutive},
        Erc721,
    },
};
use ozverif::{
    host::{self, CallResult, Code},
    m1155::{self, I1155, M1155},
    m721::{self, gen_ids, I721, M721},
    tokens::onERC721ReceivedCall,
    util::*,
};
use stylus_sdk::{abi::Bytes, prelude::*};

sol! {
    interface IH {
        function hMint(address to, uint256 id) external;
        function hSafeMint(address to, uint256 id, bytes data) external;
        function hSafeTransfer(address from, address to, uint256 id, bytes data) external;
    }
    function onERC1155Received(address operator, address from, uint256 id, uint256 value, bytes data) external returns (bytes4);
    function onERC1155BatchReceived(address operator, address from, uint256[] ids, uint256[] values, bytes data) external returns (bytes4);
}
use IH::*;

#[storage]
pub struct A721 {
    #[borrow]
    t: Erc721,
}
unsafe impl TopLevelStorage for A721 {}
#[public]
#[inherit(Erc721)]
impl A721 {
    fn h_mint(&mut self, to: Address, id: U256) -> Result<(), erc721::Error> {
        self.t._mint(to, id)
    }
    fn h_safe_mint(&mut self, to: Address, id: U256, data: Bytes) -> Result<(), erc721::Error> {
        self.t._safe_mint(to, id, &data)
    }
    fn h_safe_transfer(&mut self, from: Address, to: Address, id: U256, data: Bytes) -> Result<(), erc721::Error> {
        self.t._safe_transfer(from, to, id, &data)
    }
}
#[storage]
pub struct B721 {
    #[borrow]
    t: Erc721Consecutive,
}
unsafe impl TopLevelStorage for B721 {}
#[public]
#[inherit(Erc721Consecutive)]
impl B721 {
    fn h_mint(&mut self, to: Address, id: U256) -> Result<(), consecutive::Error> {
        self.t._mint(to, id)
    }
    fn h_safe_mint(&mut self, to: Address, id: U256, data: Bytes) -> Result<(), consecutive::Error> {
        self.t._safe_mint(to, id, &data)
    }
    fn h_safe_transfer(&mut self, from: Address, to: Address, id: U256, data: Bytes) -> Result<(), consecutive::Error> {
        self.t._safe_transfer(from, to, id, &data)
    }
}
macro_rules! multi {
    ($n:ident, $t:ident) => {
        #[storage]
        pub struct $n {
            #[borrow]
            t: $t,
        }
        unsafe impl TopLevelStorage for $n {}
        #[public]
        #[inherit($t)]
        impl $n {
            fn h_mint(&mut self, to: Address, id: U256, value: U256, data: Bytes) -> Result<(), erc1155::Error> {
                self.t._mint(to, id, value, &data)
            }
            fn h_mint_batch(&mut self, to: Address, ids: Vec<U256>, values: Vec<U256>, data: Bytes) -> Result<(), erc1155::Error> {
                self.t._mint_batch(to, ids, values, &data)
            }
        }
    };
}
multi!(A1155, Erc1155);
multi!(B1155, Erc1155Supply);

/// What the receiver answers, given its callback's magic value.
#[derive(Clone, Debug, PartialEq)]
enum Act {
    Accept,
    /// The magic value followed by further bytes.
    AcceptLong,
    Other([u8; 4]),
    /// The magic value with dirty padding.
    Dirty,
    /// The magic value right-aligned.
    Right,
    Short(usize),
    Empty,
    Revert,
    RevertData(Vec<u8>),
}
enum Want {
    Accept,
    Refuse,
    Either,
    Data(Vec<u8>),
}
impl Act {
    fn reply(&self, sel: [u8; 4]) -> CallResult {
        let mut w = sel.to_vec();
        w.resize(32, 0);
        match self {
            Act::Accept => Ok(w),
            Act::AcceptLong => {
                w.extend([0; 32]);
                Ok(w)
            }
            Act::Other(x) => {
                let mut v = x.to_vec();
                v.resize(32, 0);
                Ok(v)
            }
            Act::Dirty => {
                w[31] = 1;
                Ok(w)
            }
            Act::Right => Ok([vec![0; 28], sel.to_vec()].concat()),
            Act::Short(n) => Ok(w[..*n].to_vec()),
            Act::Empty => Ok(vec![]),
            Act::Revert => Err(vec![]),
            Act::RevertData(d) => Err(d.clone()),
        }
    }
    fn want(&self) -> Want {
        match self {
            Act::Accept => Want::Accept,
            // Solidity callers accept these two; the ABI decoder here is stricter.
            Act::AcceptLong | Act::Dirty => Want::Either,
            Act::RevertData(d) if !d.is_empty() => Want::Data(d.clone()),
            _ => Want::Refuse,
        }
    }
}
const ONE: [u8; 4] = onERC1155ReceivedCall::SELECTOR;
const MANY: [u8; 4] = onERC1155BatchReceivedCall::SELECTOR;
const NFT: [u8; 4] = onERC721ReceivedCall::SELECTOR;

/// `own` is the magic value of the token family's usual callback.
fn gen_act(s: &mut Src, own: [u8; 4]) -> Act {
    match s.weighted(&[8, 1, 5, 1, 1, 2, 1, 2, 3]) {
        0 => Act::Accept,
        1 => Act::AcceptLong,
        2 => {
            let mut x = match s.idx(7) {
                0 => [0; 4],
                1 => [0xff; 4],
                2 => ONE,
                3 => MANY,
                4 => NFT,
                5 => [0, 0, 0, 1],
                _ => {
                    let mut x = own;
                    x[s.idx(4)] ^= 1 << s.idx(8);
                    x
                }
            };
            if x == own {
                x[3] ^= 1;
            }
            Act::Other(x)
        }
        3 => Act::Dirty,
        4 => Act::Right,
        5 => Act::Short(s.range(1, 31) as usize),
        6 => Act::Empty,
        7 => Act::Revert,
        _ => {
            let n = match s.idx(4) {
                0 => 1,
                1 => 4,
                2 => 36,
                _ => {
                    let mut d = blob(s);
                    d.push(1);
                    return Act::RevertData(d);
                }
            };
            Act::RevertData(s.bytes(n))
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
struct Seen {
    token: Address,
    at: Address,
    call: Vec<u8>,
    /// Token state as seen from the callback.
    state: Vec<CallResult>,
}

/// Installs a receiver; `look` reads the token's state during the callback.
fn receiver(
    a: Address,
    act: Rc<RefCell<Act>>,
    seen: Rc<RefCell<Vec<Seen>>>,
    look: Rc<RefCell<Vec<Vec<u8>>>>,
) {
    host::set_code(
        a,
        Code::Mock(Rc::new(move |d| {
            let (at, token, _) = host::ctx();
            let state =
                look.borrow().iter().map(|q| host::call(at, token, U256::ZERO, q, true)).collect();
            seen.borrow_mut().push(Seen { token, at, call: d.to_vec(), state });
            let sel: [u8; 4] = if d.len() >= 4 { d[..4].try_into().unwrap() } else { [0; 4] };
            act.borrow().reply(sel)
        })),
    );
}

struct Rig {
    act: Rc<RefCell<Act>>,
    seen: Rc<RefCell<Vec<Seen>>>,
    look: Rc<RefCell<Vec<Vec<u8>>>>,
    who: Vec<Address>,
}
fn rig() -> Rig {
    host::set_reentrancy(true);
    let act = Rc::new(RefCell::new(Act::Accept));
    let seen = Rc::new(RefCell::new(vec![]));
    let look = Rc::new(RefCell::new(vec![]));
    for a in [ca(2), ca(3)] {
        receiver(a, act.clone(), seen.clone(), look.clone());
    }
    Rig { act, seen, look, who: vec![Z, eoa(1), eoa(2), eoa(3), ca(2), ca(3)] }
}
impl Rig {
    /// Judges the call against the expectation without the acceptance check
    /// (`exp`), and the callback made (`call` with `state` visible to it).
    /// Returns whether the operation took effect.
    fn judge(
        &self,
        s: &mut Src,
        out: &host::Outcome,
        exp: &Exp,
        to: Address,
        token: Address,
        call: Vec<u8>,
        state: Vec<CallResult>,
        refuse: Vec<u8>,
        what: &str,
    ) -> Result<bool, engine::Fail> {
        if !exp.is_ok() {
            // Refused for another reason; whether the receiver was asked first
            // does not matter, since everything is undone.
            ensure!(out.result.is_err(), "unexpected-success", "{what}: must fail but succeeded");
            return Ok(false);
        }
        let seen = self.seen.borrow();
        if !host::has_code(to) {
            ensure_eq!(*seen, vec![], "callback", "{what}: no callback for an account without code");
            judge(out, exp, what)?;
            return Ok(true);
        }
        let want = vec![Seen { token, at: to, call, state }];
        ensure_eq!(*seen, want, "callback", "{what}: acceptance callback");
        s.tag("asked");
        match self.act.borrow().want() {
            Want::Accept => {
                judge(out, exp, what)?;
                s.tag("accepted");
                Ok(true)
            }
            Want::Refuse => {
                judge(out, &Exp::Rev(vec![refuse]), what)?;
                s.tag("refused");
                Ok(false)
            }
            Want::Data(d) => {
                judge(out, &Exp::Rev(vec![d]), what)?;
                s.tag("refused-with-data");
                Ok(false)
            }
            Want::Either => {
                if out.result.is_ok() {
                    judge(out, exp, what)?;
                    Ok(true)
                } else {
                    judge(out, &Exp::Rev(vec![refuse]), what)?;
                    Ok(false)
                }
            }
        }
    }
}

fn nft(s: &mut Src) -> Check {
    let c = ca(1);
    if s.bool() {
        deploy::<A721>(c);
    } else {
        deploy::<B721>(c);
    }
    let r = rig();
    let mut m = M721::default();
    let k = s.range(1, 4) as usize;
    let ids = gen_ids(s, k);
    let max = s.size;
    s.steps(max, |s| {
        r.seen.borrow_mut().clear();
        *r.act.borrow_mut() = gen_act(s, NFT);
        let id = m.token(s, &ids);
        let to = if s.chance(2, 3) { s.pick(&r.who[4..]) } else { s.pick(&r.who) };
        let data = blob(s);
        let from;
        let sender;
        let out;
        let e;
        let kind = s.weighted(&[2, 4, 5, 3, 2, 1, 2]);
        let own = m.owner(id);
        // Queries made by the receiver, and what they must show.
        *r.look.borrow_mut() = vec![
            alloy_sol_types::SolCall::abi_encode(&I721::ownerOfCall { id }),
            alloy_sol_types::SolCall::abi_encode(&I721::balanceOfCall { owner: to }),
        ];
        match kind {
            0 => {
                // A plain mint or transfer asks nobody.
                sender = m.caller(s, &r.who, id);
                if s.bool() {
                    s.note(|| format!("_mint({}, {})", short(to), num(id)));
                    from = Z;
                    e = m.mint_errs(to, id);
                    out = send(sender, c, hMintCall { to, id });
                } else {
                    from = own;
                    s.note(|| format!("{}.transferFrom({}, {}, {})", short(sender), short(from), short(to), num(id)));
                    let mut x = m.transfer_errs(from, to, id);
                    x.extend(m.auth_errs(sender, id));
                    e = x;
                    out = send(sender, c, I721::transferFromCall { from, to, id });
                }
                let exp = Exp::from(e, false, vec![]);
                ensure_eq!(*r.seen.borrow(), vec![], "callback", "a plain transfer asks nobody");
                judge(&out, &exp, "plain transfer")?;
                if exp.is_ok() {
                    judge_logs(&out.logs, &[m721::tr(c, from, to, id)], "plain transfer")?;
                    m.mv(to, id);
                }
                return m.compare(c, &r.who, &ids);
            }
            1 => {
                from = Z;
                sender = r.who[1 + s.idx(r.who.len() - 1)];
                s.note(|| format!("{}._safe_mint({}, {}, {} bytes) receiver {:?}", short(sender), short(to), num(id), data.len(), r.act.borrow()));
                e = m.mint_errs(to, id);
                out = send(sender, c, hSafeMintCall { to, id, data: data.clone().into() });
            }
            2 | 3 | 4 => {
                from = if kind == 4 && s.chance(1, 4) { s.pick(&r.who) } else { own };
                sender = m.caller(s, &r.who, id);
                s.note(|| format!("{}.safeTransfer{kind}({}, {}, {}, {} bytes) receiver {:?}", short(sender), short(from), short(to), num(id), data.len(), r.act.borrow()));
                let mut x = m.transfer_errs(from, to, id);
                if kind != 4 && own != Z {
                    x.extend(m.auth_errs(sender, id));
                }
                e = x;
                out = match kind {
                    2 => send(sender, c, I721::safeTransferFrom_1Call { from, to, id, data: data.clone().into() }),
                    3 => send(sender, c, I721::safeTransferFrom_0Call { from, to, id }),
                    _ => send(sender, c, hSafeTransferCall { from, to, id, data: data.clone().into() }),
                };
            }
            5 => {
                let (a, b) = (r.who[1 + s.idx(5)], r.who[1 + s.idx(5)]);
                judge(&send(a, c, I721::setApprovalForAllCall { operator: b, approved: true }), &Exp::Ok(vec![]), "setApprovalForAll")?;
                m.ops.insert((a, b));
                return Ok(());
            }
            _ => {
                if own != Z {
                    judge(&send(own, c, I721::approveCall { to, id }), &Exp::Ok(vec![]), "approve")?;
                    m.appr.insert(id, to);
                }
                return m.compare(c, &r.who, &ids);
            }
        }
        let exp = Exp::from(e, false, vec![]);
        let data = if kind == 3 { vec![] } else { data };
        let call = onERC721ReceivedCall { operator: sender, from, tokenId: id, data: data.into() };
        let mut w = m.clone();
        if exp.is_ok() {
            w.mv(to, id);
        }
        let state = vec![Ok(to.into_word().to_vec()), Ok(ret_u256(w.b(to)))];
        let done = r.judge(s, &out, &exp, to, c, call.abi_encode(), state, err(m721::ERC721InvalidReceiver { receiver: to }), "safe transfer")?;
        if done {
            judge_logs(&out.logs, &[m721::tr(c, from, to, id)], "safe transfer")?;
            m = w;
        } else {
            judge_logs(&out.logs, &[], "refused safe transfer")?;
        }
        m.compare(c, &r.who, &ids)
    })?;
    s.nontrivial = s.has("accepted") && s.has("refused") && s.has("refused-with-data");
    Ok(())
}

fn multi(s: &mut Src) -> Check {
    let c = ca(1);
    let mut m = M1155::default();
    if s.bool() {
        deploy::<A1155>(c);
    } else {
        deploy::<B1155>(c);
        m.bounded = true;
    }
    let r = rig();
    m.accept = r.who[4..].to_vec();
    let k = s.range(1, 3) as usize;
    let ids = gen_ids(s, k);
    let max = s.size;
    s.steps(max, |s| {
        r.seen.borrow_mut().clear();
        let to = if s.chance(3, 4) { s.pick(&r.who[4..]) } else { s.pick(&r.who) };
        let data = blob(s);
        let holders: Vec<Address> =
            r.who[1..].iter().copied().filter(|w| ids.iter().any(|i| !m.b(*i, *w).is_zero())).collect();
        let kind = s.weighted(&[3, 4, 3, 4, 1]);
        let mint = kind < 2 || holders.is_empty();
        let batch = kind % 2 == 1;
        if kind == 4 {
            let (a, b) = (r.who[1 + s.idx(5)], r.who[1 + s.idx(5)]);
            judge(&send(a, c, I1155::setApprovalForAllCall { operator: b, approved: true }), &Exp::Ok(vec![]), "setApprovalForAll")?;
            m.ops.insert((a, b));
            return Ok(());
        }
        let from = if mint { Z } else { s.pick(&holders) };
        let sender = m.caller(s, &r.who, from);
        let n = if batch { m1155::gen_len(s) } else { 1 };
        let (mut l, mut v) = m.gen_lists(s, from, &ids, n);
        if !batch && (l.len() != 1 || v.len() != 1) {
            (l, v) = (vec![ids[0]], vec![u(1)]);
        }
        let mv = m1155::Move { from, to, ids: l.clone(), values: v.clone() };
        // A list of one entry may use either callback's magic value.
        let single = l.len() == 1;
        *r.act.borrow_mut() = gen_act(s, if single { ONE } else { MANY });
        s.note(|| format!("{}.{}{} {} ({} bytes) receiver {:?}", short(sender), if mint { "mint" } else { "transfer" }, if batch { "Batch" } else { "" }, mv.show(), data.len(), r.act.borrow()));
        *r.look.borrow_mut() = l
            .iter()
            .map(|id| alloy_sol_types::SolCall::abi_encode(&I1155::balanceOfCall { account: to, id: *id }))
            .collect();
        let mut e = if mint { vec![] } else { m.auth_errs(from, sender) };
        if to == Z {
            e.push(err(m1155::ERC1155InvalidReceiver { receiver: Z }));
        }
        let (exp, next) = m.expect(&mv, e);
        let b = data.clone().into();
        let out = match (mint, batch) {
            (true, false) => send(sender, c, I1155::hMintCall { to, id: l[0], value: v[0], data: b }),
            (true, true) => send(sender, c, I1155::hMintBatchCall { to, ids: l.clone(), values: v.clone(), data: b }),
            (false, false) => send(sender, c, I1155::safeTransferFromCall { from, to, id: l[0], value: v[0], data: b }),
            (false, true) => send(sender, c, I1155::safeBatchTransferFromCall { from, to, ids: l.clone(), values: v.clone(), data: b }),
        };
        let call = if single && !v.is_empty() {
            onERC1155ReceivedCall { operator: sender, from, id: l[0], value: v[0], data: data.into() }.abi_encode()
        } else {
            onERC1155BatchReceivedCall { operator: sender, from, ids: l.clone(), values: v.clone(), data: data.into() }.abi_encode()
        };
        let state = match &next {
            Some(w) => l.iter().map(|id| Ok(ret_u256(w.b(*id, to)))).collect(),
            None => vec![],
        };
        let done = r.judge(s, &out, &exp, to, c, call, state, err(m1155::ERC1155InvalidReceiver { receiver: to }), "safe transfer")?;
        if done {
            judge_logs(&out.logs, &[mv.log(c, sender)], "safe transfer")?;
            m = next.unwrap();
            s.tag(if l.len() == 1 { "one" } else { "many" });
        } else {
            judge_logs(&out.logs, &[], "refused safe transfer")?;
        }
        m.compare(c, &r.who, &ids)
    })?;
    s.nontrivial = s.has("accepted") && s.has("refused") && s.has("refused-with-data") && s.has("many");
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C10",
    name: "acceptance checks",
    parts: &[("erc721", nft, 1), ("erc1155", multi, 1)],
    rule: "the history has an accepted, a refused and a reverted-with-data callback (and, for ERC-1155, a batch)",
    quick_cases: 96_000,
    thorough_cases: 500_000,
    size: (24, 60),
};
