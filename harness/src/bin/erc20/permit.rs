//! C03: ERC-2612 permit.

use std::collections::BTreeMap;

use alloy_primitives::{Address, B256, U256};
use alloy_sol_types::sol;
use engine::{ensure_eq, Check, Prop, Src};
use openzeppelin_stylus::{
    token::erc20::{
        extensions::{permit, Erc20Permit},
        Erc20,
    },
    utils::{cryptography::eip712::IEip712, nonces::Nonces},
};
use ozverif::{host, util::*};
use stylus_sdk::prelude::*;

use super::ledger::{core_op, Approval, ERC20InvalidSpender, M20};

sol! {
    interface IP {
        function permit(address owner, address spender, uint256 value, uint256 deadline, uint8 v, bytes32 r, bytes32 s) external;
        function nonces(address owner) external view returns (uint256);
        function DOMAIN_SEPARATOR() external view returns (bytes32);
        function hMint(address account, uint256 value) external;
    }
    error ERC2612ExpiredSignature(uint256 deadline);
    error ERC2612InvalidSigner(address signer, address owner);
    error ECDSAInvalidSignature();
    error ECDSAInvalidSignatureS(bytes32 s);
}
use IP::*;

const NAME: &str = "Permit token of the harness";
const VERSION: &str = "v-1";

#[storage]
pub struct Dom;
impl IEip712 for Dom {
    const NAME: &'static str = NAME;
    const VERSION: &'static str = VERSION;
}

#[storage]
pub struct P {
    #[borrow]
    erc20: Erc20,
    #[borrow]
    nonces: Nonces,
    #[borrow]
    permit: Erc20Permit<Dom>,
}
unsafe impl TopLevelStorage for P {}
#[public]
#[inherit(Erc20, Nonces, Erc20Permit<Dom>)]
impl P {
    fn h_mint(&mut self, account: Address, value: U256) -> Result<(), permit::Error> {
        Ok(self.erc20._mint(account, value)?)
    }
    #[allow(clippy::too_many_arguments)]
    fn permit(
        &mut self,
        owner: Address,
        spender: Address,
        value: U256,
        deadline: U256,
        v: u8,
        r: B256,
        s: B256,
    ) -> Result<(), Vec<u8>> {
        let out = self.permit.permit(
            owner,
            spender,
            value,
            deadline,
            v,
            r,
            s,
            &mut self.erc20,
            &mut self.nonces,
        );
        if value.bit(0) {
            return out.map_err(nested);
        }
        Ok(out?)
    }
}

const N: U256 = U256::from_limbs([
    0xBFD25E8CD0364141,
    0xBAAEDCE6AF48A03B,
    0xFFFFFFFFFFFFFFFE,
    0xFFFFFFFFFFFFFFFF,
]);
const HALF: U256 = U256::from_limbs([
    0xdfe92f46681b20a0,
    0x5d576e7357a4501d,
    0xffffffffffffffff,
    0x7fffffffffffffff,
]);

fn uw(x: B256) -> U256 {
    U256::from_be_bytes(x.0)
}
fn wd(x: U256) -> [u8; 32] {
    x.to_be_bytes()
}

fn separator(name: &str, version: &str, chain: u64, c: Address) -> B256 {
    host::keccak(
        &[
            host::keccak(b"EIP712Domain(string name,string version,uint256 chainId,address verifyingContract)").0,
            host::keccak(name.as_bytes()).0,
            host::keccak(version.as_bytes()).0,
            wd(u(chain)),
            c.into_word().0,
        ]
        .concat(),
    )
}
#[derive(Clone, Debug)]
struct Msg {
    owner: Address,
    spender: Address,
    value: U256,
    nonce: U256,
    deadline: U256,
}
fn digest(sep: B256, m: &Msg) -> B256 {
    let st = host::keccak(
        &[
            host::keccak(b"Permit(address owner,address spender,uint256 value,uint256 nonce,uint256 deadline)").0,
            m.owner.into_word().0,
            m.spender.into_word().0,
            wd(m.value),
            wd(m.nonce),
            wd(m.deadline),
        ]
        .concat(),
    );
    let mut b = vec![0x19, 0x01];
    b.extend_from_slice(sep.as_slice());
    b.extend_from_slice(st.as_slice());
    host::keccak(&b)
}

fn run(s: &mut Src) -> Check {
    let cs = [ca(1), ca(2)];
    for c in cs {
        deploy::<P>(c);
    }
    let keys: Vec<_> = (0..3).map(|_| gen_key(s)).collect();
    let mut who = vec![Z, keys[0].1, keys[1].1, keys[2].1, eoa(1), cs[0]];
    who.dedup();
    let mut ms = [M20::default(), M20::default()];
    let mut nonces: [BTreeMap<Address, U256>; 2] = Default::default();
    for i in 0..2 {
        for k in &keys {
            let v = u(s.range(0, 1000));
            judge(&send(eoa(1), cs[i], hMintCall { account: k.1, value: v }), &Exp::Ok(vec![]), "mint")?;
            ms[i].mv(Z, k.1, v);
        }
    }
    let mut last: Option<permitCall> = None;
    let max = s.size;
    s.steps(max, |s| {
        let i = if s.chance(1, 5) { 1 } else { 0 };
        let c = cs[i];
        match s.weighted(&[10, 3, 1, 1]) {
            0 => {
                let now = host::time();
                let (key, owner) = keys[s.idx(3)].clone();
                let cur = nonces[i].get(&owner).copied().unwrap_or_default();
                let spender = if s.chance(1, 12) { Z } else { who[1 + s.idx(who.len() - 1)] };
                let value = if s.chance(1, 4) { MAX } else { amount(s, &[ms[i].b(owner)]) };
                let deadline = match s.weighted(&[3, 3, 2, 1, 1]) {
                    0 => MAX,
                    1 => u(now) + u(s.range(1, 1000)),
                    2 => u(now),
                    3 => u(now - 1),
                    _ => amount(s, &[u(now)]),
                };
                let signed = Msg { owner, spender, value, nonce: cur, deadline };
                // What is submitted, and what the signature covers.
                let mut call = permitCall { owner, spender, value, deadline, v: 0, r: B256::ZERO, s: B256::ZERO };
                let mut over = signed.clone();
                let (mut name, mut ver, mut chain, mut at) = (NAME, VERSION, host::chain_id(), c);
                let mut replay = false;
                let kind = if s.chance(2, 5) { 0 } else { s.range(1, 17) };
                match kind {
                    0 => {}
                    1 => over.spender = s.pick(&who),
                    2 => over.value = amount(s, &[value]),
                    3 => {
                        over.nonce = match s.idx(4) {
                            0 => cur.wrapping_add(u(1)),
                            1 => cur.wrapping_sub(u(1)),
                            2 => u(0),
                            _ => amount(s, &[cur]),
                        }
                    }
                    4 => over.deadline = amount(s, &[deadline, deadline]),
                    5 => over.owner = keys[s.idx(3)].1,
                    6 => call.owner = s.pick(&who),
                    7 => chain = if s.bool() { chain.wrapping_add(1) } else { s.u64() },
                    8 => at = cs[1 - i],
                    9 => name = "Permit token",
                    10 => ver = "1",
                    11 => replay = true,
                    _ => {}
                }
                let key = if kind == 12 { keys[s.idx(3)].0.clone() } else { key };
                let (v, r, sv) = sign(&key, digest(separator(name, ver, chain, at), &over));
                call.v = v;
                call.r = r;
                call.s = sv;
                match kind {
                    13 => {
                        call.v = 27 + (v == 27) as u8;
                        call.s = B256::from(N - uw(sv));
                    }
                    14 => call.v = s.below(256) as u8,
                    15 => call.r = B256::from(uw(r) ^ (U256::from(1) << s.idx(256))),
                    16 => call.s = B256::from(uw(sv) ^ (U256::from(1) << s.idx(256))),
                    17 => {
                        call.r = B256::from(amount(s, &[N]));
                        call.s = B256::from(amount(s, &[HALF]));
                    }
                    _ => {}
                }
                if replay {
                    if let Some(l) = &last {
                        call = permitCall { ..l.clone() };
                    }
                }
                // Specification.
                let cur = nonces[i].get(&call.owner).copied().unwrap_or_default();
                let want = digest(
                    separator(NAME, VERSION, host::chain_id(), c),
                    &Msg {
                        owner: call.owner,
                        spender: call.spender,
                        value: call.value,
                        nonce: cur,
                        deadline: call.deadline,
                    },
                );
                let mut e = vec![];
                if u(now) > call.deadline {
                    e.push(err(ERC2612ExpiredSignature { deadline: call.deadline }));
                }
                if uw(call.s) > HALF {
                    e.push(err(ECDSAInvalidSignatureS { s: call.s }));
                }
                let rec = host::ecrecover(
                    &[want.0, wd(u(call.v as u64)), call.r.0, call.s.0].concat(),
                );
                if rec.is_empty() {
                    e.push(err(ECDSAInvalidSignature {}));
                } else {
                    let signer = Address::from_slice(&rec[12..]);
                    if signer != call.owner {
                        e.push(err(ERC2612InvalidSigner { signer, owner: call.owner }));
                    }
                }
                if call.spender == Z {
                    e.push(err(ERC20InvalidSpender { spender: Z }));
                }
                s.note(|| {
                    format!(
                        "permit #{i} kind {kind}: owner {} spender {} value {} nonce {} deadline {} now {now}",
                        short(call.owner), short(call.spender), num(call.value), cur, num(call.deadline)
                    )
                });
                let exp = Exp::from(e, false, vec![]);
                let out = send(s.pick(&[eoa(1), eoa(2), owner]), c, call.clone());
                judge(&out, &exp, "permit")?;
                if exp.is_ok() {
                    nonces[i].insert(call.owner, cur + u(1));
                    ms[i].allow.insert((call.owner, call.spender), call.value);
                    judge_logs(
                        &out.logs,
                        &[ev(c, Approval { owner: call.owner, spender: call.spender, value: call.value })],
                        "permit",
                    )?;
                    s.tag("permit");
                    last = Some(call);
                } else {
                    s.tag("refused");
                    if kind == 0 {
                        last = Some(call);
                    }
                    if replay {
                        s.tag("replay");
                    }
                }
            }
            1 => {
                core_op(s, &mut ms[i], c, &who)?;
            }
            2 => {
                let d = s.range(1, 600);
                host::set_time(host::time() + d);
                s.note(|| format!("clock +{d}"));
            }
            _ => {
                let id = match s.idx(4) {
                    0 => 42161,
                    1 => 1,
                    2 => u64::MAX,
                    _ => s.u64(),
                };
                host::set_chain_id(id);
                s.note(|| format!("chain id {id}"));
            }
        }
        for j in 0..2 {
            ensure_eq!(
                view(cs[j], DOMAIN_SEPARATORCall {})?._0,
                separator(NAME, VERSION, host::chain_id(), cs[j]),
                "separator",
                "DOMAIN_SEPARATOR()"
            );
            for w in &who {
                ensure_eq!(
                    view(cs[j], noncesCall { owner: *w })?._0,
                    nonces[j].get(w).copied().unwrap_or_default(),
                    "nonce",
                    "nonces({})",
                    short(*w)
                );
            }
        }
        ms[i].compare(cs[i], &who)?;
        Ok(())
    })?;
    s.nontrivial = s.has("permit") && s.has("refused");
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C03",
    name: "ERC-2612 permit",
    parts: &[("permit", run, 1)],
    rule: "the history contains an accepted permit and a refused one",
    quick_cases: 48_000,
    thorough_cases: 400_000,
    size: (8, 24),
};
