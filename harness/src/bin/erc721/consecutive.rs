//! C12: consecutive ERC-721 batches.

use alloy_primitives::{aliases::U96, Address, U256};
use alloy_sol_types::sol;
use engine::{ensure, ensure_eq, Check, Prop, Src};
use openzeppelin_stylus::token::erc721::extensions::consecutive::{Erc721Consecutive, Error};
#[allow(deprecated)]
use stylus_sdk::msg;
use ozverif::{m721::*, util::*};
use stylus_sdk::{abi::Bytes, prelude::*};

sol! {
    interface ICo {
        function burn(uint256 id) external;
        function hBatch(address to, uint256 size) external returns (uint256);
        function hMint(address to, uint256 id) external;
        function hSafeMint(address to, uint256 id, bytes data) external;
        function hBurn(uint256 id) external;
        function hTransfer(address from, address to, uint256 id) external;
        function hSafeTransfer(address from, address to, uint256 id, bytes data) external;
        function hApprove(address to, uint256 id, address auth, bool emitEvent) external;
        function hOwner(uint256 id) external view returns (address);
    }
    event ConsecutiveTransfer(uint256 indexed from_token_id, uint256 to_token_id, address indexed from_address, address indexed to_address);
    error ERC721ExceededMaxBatchMint(uint256 batch_size, uint256 max_batch);
}
use ICo::*;

#[storage]
pub struct Co {
    #[borrow]
    erc721: Erc721Consecutive,
}
unsafe impl TopLevelStorage for Co {}
#[public]
#[inherit(Erc721Consecutive)]
impl Co {
    fn burn(&mut self, id: U256) -> Result<(), Error> {
        self.erc721._update(Z, id, msg::sender())?;
        Ok(())
    }
    fn h_batch(&mut self, to: Address, size: U256) -> Result<U256, Error> {
        Ok(U256::from(self.erc721._mint_consecutive(to, U96::from(size))?))
    }
    fn h_mint(&mut self, to: Address, id: U256) -> Result<(), Vec<u8>> {
        self.erc721._mint(to, id).map_err(nested)
    }
    fn h_safe_mint(&mut self, to: Address, id: U256, data: Bytes) -> Result<(), Error> {
        self.erc721._safe_mint(to, id, &data)
    }
    fn h_burn(&mut self, id: U256) -> Result<(), Vec<u8>> {
        self.erc721._burn(id).map_err(nested)
    }
    fn h_transfer(&mut self, from: Address, to: Address, id: U256) -> Result<(), Error> {
        self.erc721._transfer(from, to, id)
    }
    fn h_safe_transfer(&mut self, from: Address, to: Address, id: U256, data: Bytes) -> Result<(), Error> {
        self.erc721._safe_transfer(from, to, id, &data)
    }
    fn h_approve(&mut self, to: Address, id: U256, auth: Address, emit_event: bool) -> Result<(), Error> {
        self.erc721._approve(to, id, auth, emit_event)
    }
    fn h_owner(&self, id: U256) -> Address {
        self.erc721._owner_of(id)
    }
}

fn top() -> U256 {
    U256::from(U96::MAX)
}
fn be12(v: U256) -> Vec<u8> {
    v.to_be_bytes::<32>()[20..].to_vec()
}

fn run(s: &mut Src) -> Check {
    let c = ca(1);
    deploy::<Co>(c);
    let who = [Z, eoa(1), eoa(2), eoa(3), c];
    let first = match s.weighted(&[5, 4, 1, 3]) {
        0 => U256::ZERO,
        1 => u(s.range(1, 300)),
        2 => U256::from(1) << s.idx(96),
        _ => top() - u(s.below(40)),
    };
    let max = match s.weighted(&[4, 4, 2, 1]) {
        0 => u(s.range(1, 12)),
        1 => u(5000),
        2 => top(),
        _ => U256::ZERO,
    };
    // `probe(max)` reads the limit from the refusal of the largest batch,
    // `probe(first)` the next id from the answer to an empty one.
    let limit = || {
        view_raw(eoa(1), c, hBatchCall { to: eoa(1), size: top() })
            == Err(err(ERC721ExceededMaxBatchMint { batch_size: top(), max_batch: u(5) }))
    };
    let next = || view_raw(eoa(1), c, hBatchCall { to: eoa(1), size: U256::ZERO }) == Ok(ret_u256(u(5)));
    ensure!(configure_with("max-batch", c, 5, limit, &be12(max)), "config", "the batch limit is not reported");
    ensure!(configure_with("first-id", c, 5, next, &be12(first)), "config", "the first id is not reported");

    let mut m = M721::default();
    let mut ids = gen_ids(s, 2);
    ids.push(first);
    if !first.is_zero() {
        ids.push(first - u(1));
    }
    // The next id, or none when the id space is used up.
    let mut next = Some(first);
    let mut single = false;
    let max_steps = s.size;
    s.steps(max_steps, |s| {
        let id = m.token(s, &ids);
        let sender = m.caller(s, &who, id);
        let b = if single { 0 } else { 8 };
        let end = ids.len();
        match s.weighted(&[12, b, 3, 3, 4, 2, 1]) {
            0 => {
                core_op(s, &mut m, c, &who, &ids)?;
            }
            1 => {
                let room = next.map(|n| top() - n).unwrap_or_default();
                let size = match s.weighted(&[1, 6, 2, 1, 2, 1]) {
                    0 => U256::ZERO,
                    1 => u(s.range(1, 12)),
                    2 => max.min(top()),
                    3 => (max + u(1)).min(top()),
                    4 => (room + u(s.below(3))).saturating_sub(u(1)).min(top()),
                    _ => u(s.range(200, 600)),
                };
                let to = if s.chance(1, 12) { Z } else { who[1 + s.idx(4)] };
                s.note(|| format!("_mint_consecutive({}, {})", short(to), num(size)));
                let out = send(sender, c, hBatchCall { to, size });
                let mut e = vec![];
                if !size.is_zero() {
                    if to == Z {
                        e.push(err(ERC721InvalidReceiver { receiver: Z }));
                    }
                    if size > max {
                        e.push(err(ERC721ExceededMaxBatchMint { batch_size: size, max_batch: max }));
                    }
                }
                let Some(n) = next else {
                    // Nothing is left to assign; an empty batch may go either way.
                    if !size.is_zero() {
                        ensure!(out.result.is_err(), "exhausted", "a batch was minted beyond the largest id");
                    }
                    return Ok(());
                };
                let over = !size.is_zero() && size - u(1) > top() - n;
                let exact = !size.is_zero() && size - u(1) == top() - n;
                if exact && e.is_empty() && out.result.is_err() {
                    // Using the very last id may be refused.
                    s.tag("last-id-refused");
                    return m.compare(c, &who, &ids);
                }
                let exp = Exp::from(e, over, ret_u256(n));
                judge(&out, &exp, "_mint_consecutive")?;
                if over {
                    s.tag("space-exceeded");
                }
                if exp.is_ok() && !size.is_zero() {
                    let last = n + size - u(1);
                    m.batches.push((n, last, to));
                    *m.bal.entry(to).or_default() += size;
                    judge_logs(
                        &out.logs,
                        &[ev(c, ConsecutiveTransfer { from_token_id: n, to_token_id: last, from_address: Z, to_address: to })],
                        "_mint_consecutive",
                    )?;
                    next = if last == top() { None } else { Some(last + u(1)) };
                    for x in [n, n + size / u(2), last, last + u(1), n + rand_u256(s) % size] {
                        if !ids.contains(&x) && ids.len() < 16 {
                            ids.push(x);
                        }
                    }
                    s.tag("batch");
                    if m.batches.len() >= 2 {
                        s.tag("two-batches");
                    }
                } else if exp.is_ok() {
                    judge_logs(&out.logs, &[], "_mint_consecutive")?;
                }
            }
            2 => {
                let id = ids[s.idx(end)];
                let to = if s.chance(1, 10) { Z } else { who[1 + s.idx(4)] };
                let safe = s.chance(1, 4);
                s.note(|| format!("_mint({}, {})", short(to), num(id)));
                let mut e = m.mint_errs(to, id);
                if safe && to == c {
                    e.push(err(ERC721InvalidReceiver { receiver: c }));
                }
                let exp = Exp::from(e, false, vec![]);
                let out = if safe {
                    send(sender, c, hSafeMintCall { to, id, data: vec![2].into() })
                } else {
                    send(sender, c, hMintCall { to, id })
                };
                judge(&out, &exp, "_mint")?;
                if exp.is_ok() {
                    // A later batch over a singly minted id is not supported.
                    if next.is_some_and(|n| id >= n) {
                        single = true;
                    }
                    if m.own.contains_key(&id) {
                        s.tag("re-mint");
                    }
                    m.mv(to, id);
                    judge_logs(&out.logs, &[tr(c, Z, to, id)], "_mint")?;
                    s.tag("mint");
                }
            }
            3 => {
                s.note(|| format!("_burn({})", num(id)));
                let e = if m.owner(id) == Z { vec![nonexistent(id)] } else { vec![] };
                let exp = Exp::from(e, false, vec![]);
                let out = send(sender, c, hBurnCall { id });
                judge(&out, &exp, "_burn")?;
                if exp.is_ok() {
                    let o = m.mv(Z, id);
                    judge_logs(&out.logs, &[tr(c, o, Z, id)], "_burn")?;
                    s.tag("burn");
                }
            }
            4 => {
                s.note(|| format!("{}.burn({})", short(sender), num(id)));
                let exp = Exp::from(m.auth_errs(sender, id), false, vec![]);
                let out = send(sender, c, burnCall { id });
                judge(&out, &exp, "burn")?;
                if exp.is_ok() {
                    let o = m.mv(Z, id);
                    judge_logs(&out.logs, &[tr(c, o, Z, id)], "burn")?;
                    s.tag("burn");
                }
            }
            5 => {
                let from = if s.chance(1, 4) { s.pick(&who) } else { m.owner(id) };
                let to = s.pick(&who);
                let safe = s.chance(1, 3);
                s.note(|| format!("_transfer({}, {}, {})", short(from), short(to), num(id)));
                let mut e = m.transfer_errs(from, to, id);
                if safe && to == c {
                    e.push(err(ERC721InvalidReceiver { receiver: c }));
                }
                let exp = Exp::from(e, false, vec![]);
                let out = if safe {
                    send(sender, c, hSafeTransferCall { from, to, id, data: vec![1].into() })
                } else {
                    send(sender, c, hTransferCall { from, to, id })
                };
                judge(&out, &exp, "_transfer")?;
                if exp.is_ok() {
                    m.mv(to, id);
                    judge_logs(&out.logs, &[tr(c, from, to, id)], "_transfer")?;
                }
            }
            _ => {
                let to = s.pick(&who);
                let o = m.owner(id);
                let auth = if s.bool() { Z } else { sender };
                let emit = s.bool() || o == Z;
                s.note(|| format!("_approve({}, {}, auth {}, emit {emit})", short(to), num(id), short(auth)));
                let mut e = vec![];
                if o == Z {
                    e.push(nonexistent(id));
                } else if auth != Z && o != auth && !m.op(o, auth) {
                    e.push(err(ERC721InvalidApprover { approver: auth }));
                }
                let exp = Exp::from(e, false, vec![]);
                let out = send(eoa(1), c, hApproveCall { to, id, auth, emitEvent: emit });
                judge(&out, &exp, "_approve")?;
                if exp.is_ok() {
                    m.appr.insert(id, to);
                    let l = if emit { vec![ev(c, Approval { owner: o, approved: to, token_id: id })] } else { vec![] };
                    judge_logs(&out.logs, &l, "_approve")?;
                }
            }
        }
        m.compare(c, &who, &ids)?;
        let id = match s.idx(3) {
            0 => s.pick(&ids),
            1 => first + u(s.below(700)),
            _ => rand_u256(s) >> (160 + s.idx(90)),
        };
        ensure_eq!(view(c, hOwnerCall { id })?._0, m.owner(id), "owner", "_owner_of({})", num(id));
        Ok(())
    })?;
    s.nontrivial = s.has("two-batches") && s.has("transfer") && s.has("burn");
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C12",
    name: "consecutive ERC-721",
    parts: &[("consecutive", run, 1)],
    rule: "the history has two batches or more, a transfer and a burn",
    quick_cases: 80_000,
    thorough_cases: 500_000,
    size: (36, 100),
};
