//! Shared helpers: ABI calls, expectations, generators.

use alloy_primitives::{Address, B256, U256};
use alloy_sol_types::{SolCall, SolError, SolEvent};
use stylus_sdk::{
    abi::{router_entrypoint, Router},
    host::{WasmVM, VM},
    prelude::{StorageType, TopLevelStorage, ValueDenier},
};

use engine::{ensure, Check, Fail, Src};

use crate::host::{self, Code, Log, Outcome};

pub fn entry<C>(data: Vec<u8>) -> host::CallResult
where
    C: StorageType
        + TopLevelStorage
        + ValueDenier
        + Router<C>
        + std::borrow::BorrowMut<<C as Router<C>>::Storage>,
{
    router_entrypoint::<C, C>(data, VM(WasmVM {}))
}

/// Deploys the Stylus contract `C` at `a`.
pub fn deploy<C>(a: Address)
where
    C: StorageType
        + TopLevelStorage
        + ValueDenier
        + Router<C>
        + std::borrow::BorrowMut<<C as Router<C>>::Storage>
        + 'static,
{
    host::set_code(a, Code::Native(entry::<C>));
}

pub const Z: Address = Address::ZERO;
pub const MAX: U256 = U256::MAX;
pub fn u(x: u64) -> U256 {
    U256::from(x)
}

/// The i-th externally owned account (never zero).
pub fn eoa(i: u64) -> Address {
    let mut b = [0u8; 20];
    b[0] = 0xe0;
    // Neighbours agree in the high or in the low bytes, so that no two accounts
    // are told apart by a part of the address only.
    b[1] = (i >> 1) as u8;
    b[10] = 0x5a;
    b[19] = 0x10 + (i & 1) as u8;
    Address::from(b)
}
/// The i-th contract address.
pub fn ca(i: u64) -> Address {
    let mut b = [0u8; 20];
    b[0] = 0xc0;
    b[5] = (i >> 1) as u8;
    b[19] = 0x20 + (i & 1) as u8;
    Address::from(b)
}

pub fn send<C: SolCall>(from: Address, to: Address, c: C) -> Outcome {
    host::tx(from, to, U256::ZERO, c.abi_encode())
}
pub fn send_value<C: SolCall>(
    from: Address,
    to: Address,
    value: U256,
    c: C,
) -> Outcome {
    host::tx(from, to, value, c.abi_encode())
}

/// A read-only (static) call; its failure or an undecodable answer is a
/// failure of the case.
pub fn view<C: SolCall>(to: Address, c: C) -> Result<C::Return, Fail> {
    let r = host::call(eoa(99), to, U256::ZERO, &c.abi_encode(), true);
    match r {
        Ok(d) => C::abi_decode_returns(&d, true).map_err(|e| Fail {
            sig: format!("view:{}", C::SIGNATURE),
            msg: format!("{} returned undecodable {:?}: {e}", C::SIGNATURE, d),
        }),
        Err(d) => Err(Fail {
            sig: format!("view:{}", C::SIGNATURE),
            msg: format!(
                "{} (args 0x{}) reverted with 0x{}",
                C::SIGNATURE,
                hex(&c.abi_encode()[4..]),
                hex(&d)
            ),
        }),
    }
}
pub fn view_raw<C: SolCall>(from: Address, to: Address, c: C) -> host::CallResult {
    host::call(from, to, U256::ZERO, &c.abi_encode(), true)
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

pub fn err<E: SolError>(e: E) -> Vec<u8> {
    e.abi_encode()
}

/// What a call must do.
#[derive(Debug, Clone)]
pub enum Exp {
    /// Succeed and return exactly these bytes.
    Ok(Vec<u8>),
    /// Revert with one of these error encodings.
    Rev(Vec<Vec<u8>>),
    /// Not succeed (arithmetic overflow and the like: no typed error promised).
    Fail,
}
impl Exp {
    /// Success unless one of the collected error conditions applies.
    pub fn from(errs: Vec<Vec<u8>>, overflow: bool, ok: Vec<u8>) -> Exp {
        if overflow {
            Exp::Fail
        } else if errs.is_empty() {
            Exp::Ok(ok)
        } else {
            Exp::Rev(errs)
        }
    }
    pub fn is_ok(&self) -> bool {
        matches!(self, Exp::Ok(_))
    }
}

pub fn judge(out: &Outcome, exp: &Exp, what: &str) -> Check {
    match (exp, &out.result) {
        (Exp::Ok(want), Ok(got)) => {
            ensure!(
                want == got,
                "wrong-return",
                "{what}: returned 0x{} instead of 0x{}",
                hex(got),
                hex(want)
            );
        }
        (Exp::Ok(_), Err(d)) => {
            return Err(Fail {
                sig: "unexpected-revert".into(),
                msg: format!(
                    "{what}: must succeed but reverted (data 0x{}, panic {:?})",
                    hex(d),
                    out.panicked
                ),
            });
        }
        (Exp::Rev(list), Ok(_)) => {
            return Err(Fail {
                sig: "unexpected-success".into(),
                msg: format!(
                    "{what}: must revert (one of {:?}) but succeeded",
                    list.iter().map(|x| hex(x)).collect::<Vec<_>>()
                ),
            });
        }
        (Exp::Fail, Ok(_)) => {
            return Err(Fail {
                sig: "unexpected-success".into(),
                msg: format!("{what}: must fail but succeeded"),
            });
        }
        (Exp::Rev(list), Err(d)) => {
            ensure!(
                list.contains(d),
                "wrong-error",
                "{what}: reverted with 0x{} (panic {:?}), expected one of {:?}",
                hex(d),
                out.panicked,
                list.iter().map(|x| hex(x)).collect::<Vec<_>>()
            );
        }
        (Exp::Fail, Err(_)) => {}
    }
    Ok(())
}

pub fn ev<E: SolEvent>(address: Address, e: E) -> Log {
    let d = e.encode_log_data();
    Log { address, topics: d.topics().to_vec(), data: d.data.to_vec() }
}

/// Compares the events of a successful call as a multiset.
pub fn judge_logs(got: &[Log], want: &[Log], what: &str) -> Check {
    let key = |l: &Log| (l.address, l.topics.clone(), l.data.clone());
    let mut a: Vec<_> = got.iter().map(key).collect();
    let mut b: Vec<_> = want.iter().map(key).collect();
    a.sort();
    b.sort();
    ensure!(
        a == b,
        "wrong-events",
        "{what}: emitted {:?}, expected {:?}",
        got,
        want
    );
    Ok(())
}

pub fn rand_u256(s: &mut Src) -> U256 {
    U256::from_limbs([s.u64(), s.u64(), s.u64(), s.u64()])
}

/// An amount, biased to boundaries and to the given interesting values.
pub fn amount(s: &mut Src, hints: &[U256]) -> U256 {
    let n = hints.len() as u64;
    match s.weighted(&[3, 12, if n > 0 { 20 } else { 0 }, 1, 2, 1]) {
        0 => U256::ZERO,
        1 => u(s.range(1, 100)),
        2 => {
            let h = hints[s.idx(hints.len())];
            match s.weighted(&[6, 2, 2, 2, 1, 1]) {
                0 => h,
                1 => h.wrapping_add(u(1)),
                2 => h.wrapping_sub(u(1)),
                3 => h / u(2),
                4 => h.wrapping_add(u(s.range(2, 50))),
                // Equal to the hint in all but one bit: nothing may look at
                // a part of the value only.
                _ => {
                    let k = if s.bool() { s.pick(&[8usize, 16, 32, 64, 96, 128, 160, 192, 248]) } else { s.idx(256) };
                    h ^ (U256::from(1) << k)
                }
            }
        }
        3 => match s.idx(4) {
            0 => MAX,
            1 => MAX - u(1),
            2 => MAX - u(s.range(2, 100)),
            _ => U256::from(1) << 255,
        },
        4 => {
            let k = s.idx(256);
            let base = U256::from(1) << k;
            match s.idx(3) {
                0 => base,
                1 => base - u(1),
                _ => base + u(1),
            }
        }
        _ => {
            let k = s.idx(256);
            rand_u256(s) >> k
        }
    }
}

pub fn word(a: Address) -> B256 {
    a.into_word()
}
pub fn ret_bool(b: bool) -> Vec<u8> {
    U256::from(b as u64).to_be_bytes::<32>().to_vec()
}
pub fn ret_u256(v: U256) -> Vec<u8> {
    v.to_be_bytes::<32>().to_vec()
}
pub fn short(a: Address) -> String {
    if a == Z {
        return "0x0".into();
    }
    let h = hex(a.as_slice());
    format!("0x{}..{}", &h[..4], &h[36..])
}
/// Compact number for traces.
pub fn num(v: U256) -> String {
    if v == MAX {
        "MAX".into()
    } else if MAX - v < u(1000) {
        format!("MAX-{}", MAX - v)
    } else {
        format!("{v}")
    }
}

/// Ordinary contract payload bytes.
pub fn blob(s: &mut Src) -> Vec<u8> {
    let n = match s.weighted(&[4, 4, 4, 4, 4, 4, 1]) {
        0 => 0,
        1 => 1,
        2 => 31,
        3 => 32,
        4 => 33,
        5 => s.idx(90),
        _ => return long(s),
    };
    s.bytes(n)
}

/// A long length: around a power of two, or up to several kilobytes.
pub fn long_len(s: &mut Src) -> usize {
    match s.idx(3) {
        0 => (1 << (6 + s.idx(7))) - 1 + s.idx(3),
        1 => 90 + s.idx(600),
        _ => s.idx(6000),
    }
}

/// Long data without period: few choices, many bytes.
fn long(s: &mut Src) -> Vec<u8> {
    let n = long_len(s);
    let mut x = s.u64() | 1;
    (0..n)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            (x >> 32) as u8
        })
        .collect()
}

/// A secp256k1 key and its address.
pub fn gen_key(s: &mut Src) -> (k256::ecdsa::SigningKey, Address) {
    loop {
        let b = match s.idx(8) {
            0 => {
                let mut b = vec![0u8; 32];
                b[31] = s.range(1, 5) as u8;
                b
            }
            _ => {
                let mut b = s.bytes(32);
                b[31] |= 1;
                b
            }
        };
        if let Ok(k) = k256::ecdsa::SigningKey::from_slice(&b) {
            let p = k.verifying_key().to_encoded_point(false);
            let h = host::keccak(&p.as_bytes()[1..]);
            return (k, Address::from_slice(&h[12..]));
        }
    }
}
/// Low-s signature `(v, r, s)`.
pub fn sign(k: &k256::ecdsa::SigningKey, hash: B256) -> (u8, B256, B256) {
    let (sig, id) = k.sign_prehash_recoverable(hash.as_slice()).expect("sign");
    let b = sig.to_bytes();
    (27 + id.to_byte(), B256::from_slice(&b[..32]), B256::from_slice(&b[32..]))
}

thread_local! {
    static CFG: std::cell::RefCell<std::collections::HashMap<&'static str, (u64, usize)>> = Default::default();
}
/// Sets a configuration field that has no setter: finds where it lives by
/// writing the byte 1 into each position of the contract's first slots until
/// `hit` (a condition on the contract's getters) holds, remembers the place
/// under `key`, then stores `bytes` (big-endian) there. Does not depend on the
/// order of fields. Returns false if the field cannot be found.
pub fn configure(
    key: &'static str,
    a: Address,
    hit: impl Fn() -> bool,
    bytes: &[u8],
) -> bool {
    configure_with(key, a, 1, hit, bytes)
}
/// The same with another probe byte.
pub fn configure_with(
    key: &'static str,
    a: Address,
    probe: u8,
    hit: impl Fn() -> bool,
    bytes: &[u8],
) -> bool {
    let known = CFG.with(|c| c.borrow().get(key).copied());
    let place = known.or_else(|| {
        for slot in 0..24u64 {
            let old = host::sload(a, u(slot));
            for off in 0..32usize {
                let mut w = old.to_be_bytes::<32>();
                w[31 - off] = probe;
                host::sstore(a, u(slot), U256::from_be_bytes(w));
                let h = hit();
                host::sstore(a, u(slot), old);
                if h {
                    CFG.with(|c| c.borrow_mut().insert(key, (slot, off)));
                    return Some((slot, off));
                }
            }
        }
        None
    });
    match place {
        Some((slot, off)) if off + bytes.len() <= 32 => {
            host::sstore_packed(a, slot, off, bytes);
            true
        }
        _ => false,
    }
}
/// The same for a string field read back by `get`.
pub fn configure_string(
    key: &'static str,
    a: Address,
    get: impl Fn() -> Option<String>,
    text: &[u8],
) -> bool {
    let known = CFG.with(|c| c.borrow().get(key).copied());
    let place = known.or_else(|| {
        for slot in 0..24u64 {
            let old = host::sload(a, u(slot));
            host::sstore_string(a, slot, b"probe");
            let h = get().as_deref() == Some("probe");
            host::sstore(a, u(slot), old);
            if h {
                CFG.with(|c| c.borrow_mut().insert(key, (slot, 0)));
                return Some((slot, 0));
            }
        }
        None
    });
    match place {
        Some((slot, _)) => {
            host::sstore_string(a, slot, text);
            true
        }
        None => false,
    }
}

/// The error as part of a contract's own error type.
pub fn nested<E: stylus_sdk::call::MethodError>(e: E) -> Vec<u8> {
    e.encode()
}
