//! C09: the ERC-721 ledger.

use alloy_primitives::{Address, U256};
use alloy_sol_types::sol;
use engine::{ensure_eq, Check, Prop, Src};
use openzeppelin_stylus::token::erc721::{self, extensions::IErc721Burnable, Erc721};
use ozverif::{m721::*, util::*};
use stylus_sdk::{abi::Bytes, prelude::*};

sol! {
    interface IH {
        function burn(uint256 id) external;
        function hMint(address to, uint256 id) external;
        function hSafeMint(address to, uint256 id, bytes data) external;
        function hBurn(uint256 id) external;
        function hTransfer(address from, address to, uint256 id) external;
        function hSafeTransfer(address from, address to, uint256 id, bytes data) external;
        function hUpdate(address to, uint256 id, address auth) external returns (address);
        function hApprove(address to, uint256 id, address auth, bool emitEvent) external;
        function hSetApprovalForAll(address owner, address operator, bool approved) external;
        function hIsAuthorized(address owner, address spender, uint256 id) external view returns (bool);
        function hCheckAuthorized(address owner, address spender, uint256 id) external view;
    }
}
pub use IH::*;

#[storage]
pub struct T721 {
    #[borrow]
    erc721: Erc721,
}
unsafe impl TopLevelStorage for T721 {}
type R = Result<(), erc721::Error>;
#[public]
#[inherit(Erc721)]
impl T721 {
    fn burn(&mut self, id: U256) -> R {
        self.erc721.burn(id)
    }
    fn h_mint(&mut self, to: Address, id: U256) -> R {
        self.erc721._mint(to, id)
    }
    fn h_safe_mint(&mut self, to: Address, id: U256, data: Bytes) -> R {
        self.erc721._safe_mint(to, id, &data)
    }
    fn h_burn(&mut self, id: U256) -> R {
        self.erc721._burn(id)
    }
    fn h_transfer(&mut self, from: Address, to: Address, id: U256) -> R {
        self.erc721._transfer(from, to, id)
    }
    fn h_safe_transfer(&mut self, from: Address, to: Address, id: U256, data: Bytes) -> R {
        self.erc721._safe_transfer(from, to, id, &data)
    }
    fn h_update(&mut self, to: Address, id: U256, auth: Address) -> Result<Address, erc721::Error> {
        self.erc721._update(to, id, auth)
    }
    fn h_approve(&mut self, to: Address, id: U256, auth: Address, emit_event: bool) -> R {
        self.erc721._approve(to, id, auth, emit_event)
    }
    fn h_set_approval_for_all(&mut self, owner: Address, operator: Address, approved: bool) -> R {
        self.erc721._set_approval_for_all(owner, operator, approved)
    }
    fn h_is_authorized(&self, owner: Address, spender: Address, id: U256) -> bool {
        self.erc721._is_authorized(owner, spender, id)
    }
    fn h_check_authorized(&self, owner: Address, spender: Address, id: U256) -> R {
        self.erc721._check_authorized(owner, spender, id)
    }
}

fn run(s: &mut Src) -> Check {
    let c = ca(1);
    deploy::<T721>(c);
    let mut who = vec![Z, eoa(1), eoa(2), eoa(3), c];
    if s.chance(1, 4) {
        who.push(Address::from([0xff; 20]));
    }
    let k = s.range(2, 6) as usize;
    let ids = gen_ids(s, k);
    let mut m = M721::default();
    let max = s.size;
    s.steps(max, |s| {
        let id = m.token(s, &ids);
        let sender = m.caller(s, &who, id);
        match s.weighted(&[14, 6, 3, 2, 2, 2, 1, 1, 2]) {
            0 => {
                core_op(s, &mut m, c, &who, &ids)?;
            }
            1 => {
                let id = s.pick(&ids);
                let to = s.pick(&who);
                let safe = s.chance(1, 4);
                s.note(|| format!("{}_mint({}, {})", if safe { "_safe" } else { "" }, short(to), num(id)));
                let mut e = m.mint_errs(to, id);
                if safe && to == c {
                    e.push(err(ERC721InvalidReceiver { receiver: c }));
                }
                let exp = Exp::from(e, false, vec![]);
                let out = if safe {
                    let data = blob(s);
                    send(sender, c, hSafeMintCall { to, id, data: data.into() })
                } else {
                    send(sender, c, hMintCall { to, id })
                };
                judge(&out, &exp, "_mint")?;
                if exp.is_ok() {
                    if m.own.contains_key(&id) {
                        s.tag("re-mint");
                    }
                    m.mv(to, id);
                    judge_logs(&out.logs, &[tr(c, Z, to, id)], "_mint")?;
                    s.tag("mint");
                }
            }
            2 => {
                s.note(|| format!("{}.burn({})", short(sender), num(id)));
                let exp = Exp::from(m.auth_errs(sender, id), false, vec![]);
                let out = send(sender, c, burnCall { id });
                judge(&out, &exp, "burn")?;
                if exp.is_ok() {
                    let o = m.mv(Z, id);
                    judge_logs(&out.logs, &[tr(c, o, Z, id)], "burn")?;
                    s.tag("burn");
                    if sender != o {
                        s.tag("delegated");
                    }
                }
            }
            3 => {
                s.note(|| format!("_burn({})", num(id)));
                let e = if m.owner(id) == Z { vec![nonexistent(id)] } else { vec![] };
                let exp = Exp::from(e, false, vec![]);
                let out = send(sender, c, hBurnCall { id });
                judge(&out, &exp, "_burn")?;
                if exp.is_ok() {
                    let o = m.mv(Z, id);
                    judge_logs(&out.logs, &[tr(c, o, Z, id)], "_burn")?;
                }
            }
            4 => {
                let from = if s.chance(1, 4) { s.pick(&who) } else { m.owner(id) };
                let to = s.pick(&who);
                let safe = s.chance(1, 3);
                s.note(|| format!("{}_transfer({}, {}, {})", if safe { "_safe" } else { "" }, short(from), short(to), num(id)));
                let mut e = m.transfer_errs(from, to, id);
                if safe && to == c {
                    e.push(err(ERC721InvalidReceiver { receiver: c }));
                }
                let exp = Exp::from(e, false, vec![]);
                let out = if safe {
                    send(sender, c, hSafeTransferCall { from, to, id, data: vec![1].into() })
                } else {
                    send(sender, c, hTransferCall { from, to, id })
                };
                judge(&out, &exp, "_transfer")?;
                if exp.is_ok() {
                    m.mv(to, id);
                    judge_logs(&out.logs, &[tr(c, from, to, id)], "_transfer")?;
                }
            }
            5 => {
                let to = s.pick(&who);
                let auth = if s.chance(1, 2) { Z } else { sender };
                s.note(|| format!("_update({}, {}, auth {})", short(to), num(id), short(auth)));
                let e = if auth == Z { vec![] } else { m.auth_errs(auth, id) };
                let exp = Exp::from(e, false, m.owner(id).into_word().to_vec());
                let out = send(eoa(1), c, hUpdateCall { to, id, auth });
                judge(&out, &exp, "_update")?;
                if exp.is_ok() {
                    let o = m.mv(to, id);
                    judge_logs(&out.logs, &[tr(c, o, to, id)], "_update")?;
                }
            }
            6 => {
                let to = s.pick(&who);
                let o = m.owner(id);
                let auth = if s.chance(1, 2) { Z } else { sender };
                let emit = s.bool() || o == Z;
                s.note(|| format!("_approve({}, {}, auth {}, emit {emit})", short(to), num(id), short(auth)));
                let mut e = vec![];
                if o == Z {
                    e.push(nonexistent(id));
                } else if auth != Z && o != auth && !m.op(o, auth) {
                    e.push(err(ERC721InvalidApprover { approver: auth }));
                }
                let exp = Exp::from(e, false, vec![]);
                let out = send(eoa(1), c, hApproveCall { to, id, auth, emitEvent: emit });
                judge(&out, &exp, "_approve")?;
                if exp.is_ok() {
                    m.appr.insert(id, to);
                    let l = if emit { vec![ev(c, Approval { owner: o, approved: to, token_id: id })] } else { vec![] };
                    judge_logs(&out.logs, &l, "_approve")?;
                }
            }
            7 => {
                let (o, p) = (who[1 + s.idx(who.len() - 1)], s.pick(&who));
                let on = s.bool();
                s.note(|| format!("_set_approval_for_all({}, {}, {on})", short(o), short(p)));
                let e = if p == Z { vec![err(ERC721InvalidOperator { operator: Z })] } else { vec![] };
                let exp = Exp::from(e, false, vec![]);
                let out = send(eoa(1), c, hSetApprovalForAllCall { owner: o, operator: p, approved: on });
                judge(&out, &exp, "_set_approval_for_all")?;
                if exp.is_ok() {
                    if on {
                        m.ops.insert((o, p));
                    } else {
                        m.ops.remove(&(o, p));
                    }
                    judge_logs(&out.logs, &[ev(c, ApprovalForAll { owner: o, operator: p, approved: on })], "_set_approval_for_all")?;
                }
            }
            _ => {
                // The guards contracts build on.
                let sp = if s.bool() { sender } else { s.pick(&who) };
                let o = m.owner(id);
                let want = m.authorized(o, sp, id);
                ensure_eq!(view(c, hIsAuthorizedCall { owner: o, spender: sp, id })?._0, want, "authorized", "_is_authorized({}, {}, {})", short(o), short(sp), num(id));
                let got = view_raw(eoa(1), c, hCheckAuthorizedCall { owner: o, spender: sp, id });
                let w = if want { Ok(vec![]) } else {
                    Err(if o == Z { nonexistent(id) } else { err(ERC721InsufficientApproval { operator: sp, token_id: id }) })
                };
                ensure_eq!(got, w, "authorized", "_check_authorized({}, {}, {})", short(o), short(sp), num(id));
            }
        }
        m.compare(c, &who, &ids)?;
        // Balances are counts.
        for w in &who[1..] {
            let n = ids.iter().filter(|i| m.owner(**i) == *w).count();
            ensure_eq!(m.b(*w), u(n as u64), "count", "tokens of {}", short(*w));
        }
        Ok(())
    })?;
    s.nontrivial = s.has("delegated") && s.has("mint") && s.has("refused");
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C09",
    name: "ERC-721 ledger",
    parts: &[("ledger", run, 1)],
    rule: "the history has a mint, a transfer or burn by an approved account or operator, and a refused transfer or approval",
    quick_cases: 80_000,
    thorough_cases: 800_000,
    size: (36, 100),
};
