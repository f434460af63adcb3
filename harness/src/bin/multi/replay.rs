//! C35: the event log alone reconstructs the state.

use std::collections::BTreeMap;

use alloy_primitives::{Address, B256, U256};
use alloy_sol_types::{sol, SolEvent};
use engine::{ensure, ensure_eq, Check, Fail, Prop, Src};
use openzeppelin_stylus::access::{
    control::AccessControl, ownable::Ownable, ownable_two_step::Ownable2Step,
};
use ozverif::{host::Log, m1155, m721, util::*};
use stylus_sdk::prelude::*;

use super::world::*;

sol! {
    event Transfer(address indexed from, address indexed to, uint256 value);
    event ConsecutiveTransfer(uint256 indexed from_token_id, uint256 to_token_id, address indexed from_address, address indexed to_address);
    interface IAcc {
        function hasRole(bytes32 role, address account) external view returns (bool);
        function getRoleAdmin(bytes32 role) external view returns (bytes32);
        function grantRole(bytes32 role, address account) external;
        function revokeRole(bytes32 role, address account) external;
        function renounceRole(bytes32 role, address confirmation) external;
        function setAdmin(bytes32 role, bytes32 admin) external;
        function hGrant(bytes32 role, address account) external returns (bool);
        function hRevoke(bytes32 role, address account) external returns (bool);
        function owner() external view returns (address);
        function pendingOwner() external view returns (address);
        function transferOwnership(address newOwner) external;
        function acceptOwnership() external;
        function renounceOwnership() external;
        function force(address newOwner) external;
    }
    event RoleAdminChanged(bytes32 indexed role, bytes32 indexed previousAdminRole, bytes32 indexed newAdminRole);
    event RoleGranted(bytes32 indexed role, address indexed account, address indexed sender);
    event RoleRevoked(bytes32 indexed role, address indexed account, address indexed sender);
    event OwnershipTransferred(address indexed previousOwner, address indexed newOwner);
    event OwnershipTransferStarted(address indexed previousOwner, address indexed newOwner);
}

fn get<E: SolEvent>(l: &Log) -> Option<E> {
    if l.topics.first() != Some(&E::SIGNATURE_HASH) {
        return None;
    }
    E::decode_raw_log(l.topics.iter().copied(), &l.data, true).ok()
}
fn bad<T>(l: &Log, why: &str) -> Result<T, Fail> {
    Err(Fail { sig: "untruthful".into(), msg: format!("event {l:?}: {why}") })
}

// ------------------------------------------------------------------ ERC-20

#[derive(Default)]
struct R20 {
    bal: BTreeMap<(Address, Address), U256>,
    supply: BTreeMap<Address, U256>,
}
impl R20 {
    fn apply(&mut self, logs: &[Log]) -> Check {
        for l in logs {
            let Some(t) = get::<Transfer>(l) else { continue };
            if t.from != Z {
                let b = self.bal.entry((l.address, t.from)).or_default();
                let Some(n) = b.checked_sub(t.value) else { return bad(l, "moves more than the log says is there") };
                *b = n;
            } else {
                *self.supply.entry(l.address).or_default() += t.value;
            }
            if t.to != Z {
                *self.bal.entry((l.address, t.to)).or_default() += t.value;
            } else {
                let b = self.supply.entry(l.address).or_default();
                let Some(n) = b.checked_sub(t.value) else { return bad(l, "burns more than the log says exists") };
                *b = n;
            }
        }
        Ok(())
    }
}

fn coins(s: &mut Src) -> Check {
    let w = W20::new()?;
    let mut r = R20::default();
    for a in w.start(s) {
        r.apply(&a.logs)?;
    }
    let mut now = w.snap()?;
    let max = s.size;
    s.steps(max, |s| {
        let a = w.step(s, &now);
        no_trace(&a)?;
        r.apply(&a.logs)?;
        now = w.snap()?;
        for ((t, o), b) in &now.bal {
            ensure_eq!(*b, r.bal.get(&(*t, *o)).copied().unwrap_or_default(), "balance", "balance of {} in {} against the log", short(*o), short(*t));
        }
        for t in w.tokens {
            let n = view(t, I20::totalSupplyCall {})?._0;
            ensure_eq!(n, r.supply.get(&t).copied().unwrap_or_default(), "supply", "supply of {} against the log", short(t));
        }
        if a.ok {
            s.tag(if a.target == w.tokens[0] { "coin" } else { "wrapped" });
            s.tag(match a.kind {
                Kind::Faucet => "mint",
                Kind::Spend(..) => "spend",
                Kind::Move => "move",
                _ => "approve",
            });
        } else {
            s.tag("reverted");
        }
        Ok(())
    })?;
    s.nontrivial = s.has("wrapped") && (s.has("spend") || s.has("move"));
    Ok(())
}

// ----------------------------------------------------------------- ERC-721

#[derive(Default)]
struct R721 {
    own: BTreeMap<(Address, U256), Address>,
    runs: Vec<(Address, U256, U256, Address)>,
    bal: BTreeMap<(Address, Address), U256>,
    appr: BTreeMap<(Address, U256), Address>,
    ops: BTreeMap<(Address, Address, Address), bool>,
}
impl R721 {
    fn owner(&self, t: Address, id: U256) -> Address {
        if let Some(o) = self.own.get(&(t, id)) {
            return *o;
        }
        self.runs
            .iter()
            .rev()
            .find(|r| r.0 == t && r.1 <= id && id <= r.2)
            .map(|r| r.3)
            .unwrap_or_default()
    }
    fn apply(&mut self, logs: &[Log]) -> Check {
        for l in logs {
            let t = l.address;
            if let Some(e) = get::<m721::Transfer>(l) {
                let o = self.owner(t, e.token_id);
                if o != e.from {
                    return bad(l, &format!("the log says {} owned it", short(o)));
                }
                if o != Z {
                    let b = self.bal.entry((t, o)).or_default();
                    *b = b.saturating_sub(u(1));
                }
                if e.to != Z {
                    *self.bal.entry((t, e.to)).or_default() += u(1);
                }
                self.own.insert((t, e.token_id), e.to);
                self.appr.remove(&(t, e.token_id));
            } else if let Some(e) = get::<ConsecutiveTransfer>(l) {
                if e.from_address != Z || e.to_token_id < e.from_token_id {
                    return bad(l, "not a batch mint");
                }
                let n = e.to_token_id - e.from_token_id + u(1);
                self.runs.push((t, e.from_token_id, e.to_token_id, e.to_address));
                *self.bal.entry((t, e.to_address)).or_default() += n;
            } else if let Some(e) = get::<m721::Approval>(l) {
                let o = self.owner(t, e.token_id);
                if o != e.owner {
                    return bad(l, &format!("the log says {} owns it", short(o)));
                }
                self.appr.insert((t, e.token_id), e.approved);
            } else if let Some(e) = get::<m721::ApprovalForAll>(l) {
                self.ops.insert((t, e.owner, e.operator), e.approved);
            }
        }
        Ok(())
    }
}

fn nfts(s: &mut Src) -> Check {
    let w = W721::new(s)?;
    let mut r = R721::default();
    for a in w.start(s) {
        r.apply(&a.logs)?;
    }
    let mut now = w.snap()?;
    let max = s.size;
    s.steps(max, |s| {
        let a = w.step(s, &now, true);
        no_trace(&a)?;
        r.apply(&a.logs)?;
        now = w.snap()?;
        for ((t, id), o) in &now.owner {
            ensure_eq!(*o, r.owner(*t, *id), "owner", "owner of {} in {} against the log", num(*id), short(*t));
            let p = r.appr.get(&(*t, *id)).copied().unwrap_or_default();
            ensure_eq!(now.appr[&(*t, *id)], p, "approval", "approval of {} in {} against the log", num(*id), short(*t));
        }
        for ((t, o), b) in &now.bal {
            ensure_eq!(*b, r.bal.get(&(*t, *o)).copied().unwrap_or_default(), "balance", "balance of {} in {} against the log", short(*o), short(*t));
        }
        for ((t, o, p), b) in &now.ops {
            ensure_eq!(*b, r.ops.get(&(*t, *o, *p)) == Some(&true), "operator", "operator right of {} over {} in {} against the log", short(*p), short(*o), short(*t));
        }
        if a.ok {
            s.tag(match a.kind {
                Kind::Faucet => "mint",
                Kind::Approve721(_) => "approve",
                Kind::Operator(_) => "operator",
                _ if a.target == w.tokens[2] => "move-consecutive",
                _ if a.target == w.tokens[1] => "wrap",
                _ => "move",
            });
        } else {
            s.tag("reverted");
        }
        Ok(())
    })?;
    s.nontrivial = s.has("approve") && (s.has("move") || s.has("move-consecutive") || s.has("wrap"));
    Ok(())
}

// ---------------------------------------------------------------- ERC-1155

#[derive(Default)]
struct R1155 {
    bal: BTreeMap<(Address, U256, Address), U256>,
    supply: BTreeMap<(Address, U256), U256>,
    ops: BTreeMap<(Address, Address, Address), bool>,
}
impl R1155 {
    fn moves(&mut self, l: &Log, from: Address, to: Address, id: U256, v: U256) -> Check {
        let t = l.address;
        if from == Z {
            let b = self.supply.entry((t, id)).or_default();
            // The plain token does not bound supplies.
            *b = b.wrapping_add(v);
        } else {
            let b = self.bal.entry((t, id, from)).or_default();
            let Some(n) = b.checked_sub(v) else { return bad(l, "moves more than the log says is there") };
            *b = n;
        }
        if to == Z {
            let b = self.supply.entry((t, id)).or_default();
            *b = b.wrapping_sub(v);
        } else {
            let b = self.bal.entry((t, id, to)).or_default();
            let Some(n) = b.checked_add(v) else { return bad(l, "overflows a balance") };
            *b = n;
        }
        Ok(())
    }
    fn apply(&mut self, logs: &[Log], caller: Address) -> Check {
        for l in logs {
            if let Some(e) = get::<m1155::TransferSingle>(l) {
                if e.operator != caller {
                    return bad(l, "names another operator than the caller");
                }
                self.moves(l, e.from, e.to, e.id, e.value)?;
            } else if let Some(e) = get::<m1155::TransferBatch>(l) {
                if e.operator != caller || e.ids.len() != e.values.len() {
                    return bad(l, "names another operator than the caller, or uneven lists");
                }
                for (id, v) in e.ids.iter().zip(&e.values) {
                    self.moves(l, e.from, e.to, *id, *v)?;
                }
            } else if let Some(e) = get::<m1155::ApprovalForAll>(l) {
                self.ops.insert((l.address, e.account, e.operator), e.approved);
            }
        }
        Ok(())
    }
}

fn multis(s: &mut Src) -> Check {
    let w = W1155::new(s);
    let mut r = R1155::default();
    for a in w.start(s) {
        r.apply(&a.logs, a.caller)?;
    }
    let mut now = w.snap()?;
    let max = s.size;
    s.steps(max, |s| {
        let a = w.step(s, &now, true);
        no_trace(&a)?;
        r.apply(&a.logs, a.caller)?;
        now = w.snap()?;
        for ((t, id, o), b) in &now.bal {
            ensure_eq!(*b, r.bal.get(&(*t, *id, *o)).copied().unwrap_or_default(), "balance", "balance of {} for id {} in {} against the log", short(*o), num(*id), short(*t));
        }
        let sup = w.tokens[1];
        let mut total = U256::ZERO;
        for id in &w.ids {
            let n = view(sup, ISup::totalSupply_0Call { id: *id })?._0;
            let want = r.supply.get(&(sup, *id)).copied().unwrap_or_default();
            ensure_eq!(n, want, "supply", "supply of id {} against the log", num(*id));
            total = total.wrapping_add(want);
        }
        ensure_eq!(view(sup, ISup::totalSupply_1Call {})?._0, total, "supply", "overall supply against the log");
        for ((t, o, p), b) in &now.ops {
            ensure_eq!(*b, r.ops.get(&(*t, *o, *p)) == Some(&true), "operator", "operator right of {} over {} against the log", short(*p), short(*o));
        }
        if a.ok {
            s.tag(match a.kind {
                Kind::Faucet => "mint-or-internal-burn",
                Kind::Operator(_) => "operator",
                _ => "move",
            });
            if a.logs.iter().any(|l| get::<m1155::TransferBatch>(l).is_some_and(|e| e.ids.len() > 1)) {
                s.tag("batch");
            }
        } else {
            s.tag("reverted");
        }
        Ok(())
    })?;
    s.nontrivial = s.has("move") && s.has("batch");
    Ok(())
}

// ------------------------------------------------------------------ access

#[storage]
pub struct Roles {
    #[borrow]
    control: AccessControl,
}
unsafe impl TopLevelStorage for Roles {}
#[public]
#[inherit(AccessControl)]
impl Roles {
    fn set_admin(&mut self, role: B256, admin: B256) {
        self.control._set_role_admin(role, admin);
    }
    fn h_grant(&mut self, role: B256, account: Address) -> bool {
        self.control._grant_role(role, account)
    }
    fn h_revoke(&mut self, role: B256, account: Address) -> bool {
        self.control._revoke_role(role, account)
    }
}
#[storage]
pub struct One {
    #[borrow]
    ownable: Ownable,
}
unsafe impl TopLevelStorage for One {}
#[public]
#[inherit(Ownable)]
impl One {
    fn force(&mut self, new_owner: Address) {
        self.ownable._transfer_ownership(new_owner);
    }
}
#[storage]
pub struct Two {
    #[borrow]
    ownable: Ownable2Step,
}
unsafe impl TopLevelStorage for Two {}
#[public]
#[inherit(Ownable2Step)]
impl Two {
    fn force(&mut self, new_owner: Address) {
        self.ownable.ownable._transfer_ownership(new_owner);
    }
}

fn access(s: &mut Src) -> Check {
    use IAcc::*;
    let [c, one, two] = [ca(1), ca(2), ca(3)];
    deploy::<Roles>(c);
    deploy::<One>(one);
    deploy::<Two>(two);
    let who = [eoa(1), eoa(2), eoa(3)];
    let roles = [B256::ZERO, B256::with_last_byte(1), B256::from([0xff; 32])];
    let mut members: BTreeMap<(B256, Address), bool> = BTreeMap::new();
    let mut admins: BTreeMap<B256, B256> = BTreeMap::new();
    let mut owner: BTreeMap<Address, Address> = BTreeMap::new();
    let mut pending = Z;
    let max = s.size;
    s.steps(max, |s| {
        let caller = s.pick(&who);
        let role = s.pick(&roles);
        let acct = if s.chance(1, 10) { Z } else { s.pick(&who) };
        let t = if owner.contains_key(&one) && (!owner.contains_key(&two) || s.bool()) { two } else { one };
        let k = if owner.len() < 2 { s.idx(2) } else { 2 + s.weighted(&[5, 4, 3, 2, 2, 1, 5, 4, 2, 1]) };
        let out = match k {
            0 | 7 => {
                s.note(|| format!("_grant_role({role}, {})", short(acct)));
                send(caller, c, hGrantCall { role, account: acct })
            }
            1 | 11 => {
                // The internal routine of the plain variant knows no pending owner.
                let t = if k == 1 { t } else { one };
                s.note(|| format!("{}: _transfer_ownership({})", short(t), short(acct)));
                send(caller, t, forceCall { newOwner: acct })
            }
            2 => {
                s.note(|| format!("{}.grantRole({role}, {})", short(caller), short(acct)));
                send(caller, c, grantRoleCall { role, account: acct })
            }
            3 => {
                s.note(|| format!("{}.revokeRole({role}, {})", short(caller), short(acct)));
                send(caller, c, revokeRoleCall { role, account: acct })
            }
            4 => {
                s.note(|| format!("{}.renounceRole({role})", short(caller)));
                send(caller, c, renounceRoleCall { role, confirmation: caller })
            }
            5 => {
                let admin = s.pick(&roles);
                s.note(|| format!("_set_role_admin({role}, {admin})"));
                send(caller, c, setAdminCall { role, admin })
            }
            6 => {
                s.note(|| format!("_revoke_role({role}, {})", short(acct)));
                send(caller, c, hRevokeCall { role, account: acct })
            }
            8 => {
                let caller = if s.chance(2, 3) { owner.get(&t).copied().unwrap_or(caller) } else { caller };
                s.note(|| format!("{}: {}.transferOwnership({})", short(t), short(caller), short(acct)));
                send(caller, t, transferOwnershipCall { newOwner: acct })
            }
            9 => {
                let caller = if pending != Z && s.chance(2, 3) { pending } else { caller };
                s.note(|| format!("{}.acceptOwnership()", short(caller)));
                send(caller, two, acceptOwnershipCall {})
            }
            _ => {
                s.note(|| format!("{}: {}.renounceOwnership()", short(t), short(caller)));
                send(caller, t, renounceOwnershipCall {})
            }
        };
        ensure!(out.ok() || out.logs.is_empty(), "events", "a reverted call left events {:?}", out.logs);
        s.tag(if out.ok() { "done" } else { "reverted" });
        for l in &out.logs {
            if let Some(e) = get::<RoleGranted>(l) {
                if members.insert((e.role, e.account), true) == Some(true) {
                    return bad(l, "the log says it was a member already");
                }
                s.tag("granted");
            } else if let Some(e) = get::<RoleRevoked>(l) {
                if members.insert((e.role, e.account), false) != Some(true) {
                    return bad(l, "the log says it was not a member");
                }
                s.tag("revoked");
            } else if let Some(e) = get::<RoleAdminChanged>(l) {
                let old = admins.insert(e.role, e.newAdminRole).unwrap_or_default();
                if old != e.previousAdminRole {
                    return bad(l, &format!("the log says the admin role was {old}"));
                }
                s.tag("admin");
            } else if let Some(e) = get::<OwnershipTransferred>(l) {
                let old = owner.insert(l.address, e.newOwner).unwrap_or_default();
                if old != e.previousOwner {
                    return bad(l, &format!("the log says the owner was {}", short(old)));
                }
                if l.address == two {
                    pending = Z;
                }
                s.tag("ownership");
            } else if let Some(e) = get::<OwnershipTransferStarted>(l) {
                if owner.get(&l.address).copied().unwrap_or_default() != e.previousOwner {
                    return bad(l, "the log says someone else owns it");
                }
                pending = e.newOwner;
                s.tag("started");
            }
        }
        for r in &roles {
            for a in who.iter().chain([&Z]) {
                let got = view(c, hasRoleCall { role: *r, account: *a })?._0;
                ensure_eq!(got, members.get(&(*r, *a)) == Some(&true), "role", "membership of {} in {r} against the log", short(*a));
            }
            let got = view(c, getRoleAdminCall { role: *r })?._0;
            ensure_eq!(got, admins.get(r).copied().unwrap_or_default(), "role-admin", "admin role of {r} against the log");
        }
        for t in [one, two] {
            ensure_eq!(view(t, ownerCall {})?._0, owner.get(&t).copied().unwrap_or_default(), "owner", "owner of {} against the log", short(t));
        }
        ensure_eq!(view(two, pendingOwnerCall {})?._0, pending, "pending", "pending owner against the log");
        Ok(())
    })?;
    s.nontrivial = s.has("granted") && s.has("revoked") || s.has("started") && s.has("ownership");
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C35",
    name: "log replay",
    parts: &[("erc20", coins, 3), ("erc721", nfts, 3), ("erc1155", multis, 2), ("access", access, 2)],
    rule: "the history moves assets (through a wrapper or vault, with an approval, or as a batch), or grants and revokes, or completes a two-step transfer",
    quick_cases: 28_000,
    thorough_cases: 300_000,
    size: (40, 100),
};
