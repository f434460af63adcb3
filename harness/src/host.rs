//! Deterministic in-process Stylus host: implements every `vm_hooks` import
//! with EVM semantics (journaled revert, value transfer, static-call
//! enforcement, per-invocation storage cache, reentrancy denial, settable clock and chain id, ecrecover).
//!
//! The state is thread local, so that cases can run on several threads.
#![allow(clippy::missing_safety_doc)]

use std::{
    cell::RefCell,
    collections::{BTreeMap, HashMap},
    rc::Rc,
    slice,
};

use engine::quietly;
use alloy_primitives::{Address, B256, U256};
use tiny_keccak::{Hasher, Keccak};

pub type CallResult = Result<Vec<u8>, Vec<u8>>;
pub type MockFn = Rc<dyn Fn(&[u8]) -> CallResult>;

#[derive(Clone)]
pub enum Code {
    /// A Stylus contract: its router entrypoint.
    Native(fn(Vec<u8>) -> CallResult),
    /// A scripted contract of the harness.
    Mock(MockFn),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Log {
    pub address: Address,
    pub topics: Vec<B256>,
    pub data: Vec<u8>,
}

struct Frame {
    address: Address,
    sender: Address,
    value: U256,
    is_static: bool,
    static_violation: bool,
    return_data: Vec<u8>,
    /// The VM's storage cache of this invocation: key -> (value, value known
    /// to be in the state trie). Reads and writes go through it; writes reach
    /// the trie when it is flushed.
    cache: BTreeMap<B256, (B256, Option<B256>)>,
}

enum Undo {
    Storage(Address, B256, B256),
    Balance(Address, U256),
}

#[derive(Clone, Debug)]
pub struct CallRecord {
    pub from: Address,
    pub to: Address,
    pub value: U256,
    pub data: Vec<u8>,
    pub is_static: bool,
    pub depth: usize,
}

#[derive(Default)]
pub struct World {
    storage: HashMap<(Address, B256), B256>,
    balances: HashMap<Address, U256>,
    code: HashMap<Address, Code>,
    logs: Vec<Log>,
    frames: Vec<Frame>,
    journal: Vec<Undo>,
    pub calls: Vec<CallRecord>,
    timestamp: u64,
    chain_id: u64,
    pub allow_reentrancy: bool,
    panicked: bool,
    panic_msg: String,
}

thread_local! {
    static W: RefCell<World> = RefCell::new(World::default());
}

pub fn with<T>(f: impl FnOnce(&mut World) -> T) -> T {
    W.with(|w| f(&mut w.borrow_mut()))
}

/// Forget everything: called at the start of each case.
pub fn reset() {
    with(|w| {
        *w = World::default();
        w.timestamp = 1_700_000_000;
        w.chain_id = 42161;
    });
}

pub fn set_code(a: Address, c: Code) {
    with(|w| {
        w.code.insert(a, c);
    });
}
pub fn has_code(a: Address) -> bool {
    with(|w| w.code.contains_key(&a))
}
pub fn set_reentrancy(allow: bool) {
    with(|w| w.allow_reentrancy = allow);
}
pub fn set_balance(a: Address, v: U256) {
    with(|w| {
        w.balances.insert(a, v);
    });
}
pub fn balance(a: Address) -> U256 {
    with(|w| w.balances.get(&a).copied().unwrap_or_default())
}
pub fn set_time(t: u64) {
    with(|w| w.timestamp = t);
}
pub fn time() -> u64 {
    with(|w| w.timestamp)
}
pub fn set_chain_id(c: u64) {
    with(|w| w.chain_id = c);
}
pub fn chain_id() -> u64 {
    with(|w| w.chain_id)
}
pub fn sload(a: Address, slot: U256) -> U256 {
    with(|w| {
        U256::from_be_bytes(
            w.storage.get(&(a, B256::from(slot))).copied().unwrap_or_default().0,
        )
    })
}
/// Every non-zero slot of a contract.
pub fn dump(a: Address) -> BTreeMap<U256, U256> {
    with(|w| {
        w.storage
            .iter()
            .filter(|((b, _), v)| *b == a && !v.is_zero())
            .map(|((_, k), v)| (U256::from_be_bytes(k.0), U256::from_be_bytes(v.0)))
            .collect()
    })
}
/// Raw storage write (constructor-time configuration, mock state).
pub fn sstore(a: Address, slot: U256, v: U256) {
    with(|w| {
        let k = (a, B256::from(slot));
        let old = w.storage.insert(k, B256::from(v)).unwrap_or_default();
        w.journal.push(Undo::Storage(a, k.1, old));
    });
}
/// Writes `bytes` at byte offset `off` (from the least significant end, as the
/// Solidity layout counts) of `slot`.
pub fn sstore_packed(a: Address, slot: u64, off: usize, bytes: &[u8]) {
    let mut w = B256::from(sload(a, U256::from(slot)));
    let end = 32 - off;
    w[end - bytes.len()..end].copy_from_slice(bytes);
    sstore(a, U256::from(slot), U256::from_be_bytes(w.0));
}
/// Solidity `string`/`bytes` layout at `slot`.
pub fn sstore_string(a: Address, slot: u64, s: &[u8]) {
    let slot = U256::from(slot);
    if s.len() < 32 {
        let mut w = [0u8; 32];
        w[..s.len()].copy_from_slice(s);
        w[31] = (s.len() * 2) as u8;
        sstore(a, slot, U256::from_be_bytes(w));
    } else {
        sstore(a, slot, U256::from(s.len() * 2 + 1));
        let base = U256::from_be_bytes(keccak(&slot.to_be_bytes::<32>()).0);
        for (i, c) in s.chunks(32).enumerate() {
            let mut w = [0u8; 32];
            w[..c.len()].copy_from_slice(c);
            sstore(a, base + U256::from(i), U256::from_be_bytes(w));
        }
    }
}

pub fn keccak(b: &[u8]) -> B256 {
    let mut k = Keccak::v256();
    k.update(b);
    let mut out = [0u8; 32];
    k.finalize(&mut out);
    B256::from(out)
}

#[derive(Clone, Debug)]
pub struct Outcome {
    pub result: CallResult,
    pub panicked: Option<String>,
    pub logs: Vec<Log>,
    pub calls: Vec<CallRecord>,
}
impl Outcome {
    pub fn ok(&self) -> bool {
        self.result.is_ok()
    }
}

/// A top-level transaction.
pub fn tx(from: Address, to: Address, value: U256, data: Vec<u8>) -> Outcome {
    with(|w| {
        w.logs.clear();
        w.journal.clear();
        w.calls.clear();
        w.panicked = false;
        w.panic_msg.clear();
        assert!(w.frames.is_empty(), "harness: nested tx");
    });
    let result = call(from, to, value, &data, false);
    with(|w| Outcome {
        panicked: (result.is_err() && w.panicked)
            .then(|| std::mem::take(&mut w.panic_msg)),
        logs: std::mem::take(&mut w.logs),
        calls: std::mem::take(&mut w.calls),
        result,
    })
}

/// A message call with EVM semantics; also used by mocks to call out.
pub fn call(
    from: Address,
    to: Address,
    value: U256,
    data: &[u8],
    is_static: bool,
) -> CallResult {
    // Prologue.
    let (mark, logs_mark, code) = {
        let r = with(|w| -> Result<(usize, usize, Option<Code>), ()> {
            let parent_static =
                w.frames.last().map(|f| f.is_static).unwrap_or(false);
            let is_static_eff = is_static || parent_static;
            if is_static_eff && !value.is_zero() {
                if let Some(f) = w.frames.last_mut() {
                    f.static_violation = true;
                }
                return Err(());
            }
            if w.frames.len() > 64 {
                return Err(());
            }
            let depth = w.frames.len();
            w.calls.push(CallRecord {
                from,
                to,
                value,
                data: data.to_vec(),
                is_static: is_static_eff,
                depth,
            });
            let mark = w.journal.len();
            let logs_mark = w.logs.len();
            if !value.is_zero() {
                let fb = w.balances.get(&from).copied().unwrap_or_default();
                if fb < value {
                    return Err(());
                }
                w.balances.insert(from, fb - value);
                w.journal.push(Undo::Balance(from, fb));
                let tb = w.balances.get(&to).copied().unwrap_or_default();
                w.balances.insert(to, tb.wrapping_add(value));
                w.journal.push(Undo::Balance(to, tb));
            }
            let code = w.code.get(&to).cloned();
            if matches!(code, Some(Code::Native(_)))
                && !w.allow_reentrancy
                && w.frames.iter().any(|f| f.address == to)
            {
                // `deny_reentrant`: the entrypoint returns status 1.
                undo(w, mark, logs_mark);
                return Err(());
            }
            if code.is_some() {
                w.frames.push(Frame {
                    address: to,
                    sender: from,
                    value,
                    is_static: is_static_eff,
                    static_violation: false,
                    return_data: vec![],
                    cache: BTreeMap::new(),
                });
            }
            Ok((mark, logs_mark, code))
        });
        match r {
            Ok(x) => x,
            Err(()) => return Err(vec![]),
        }
    };
    let Some(code) = code else {
        if to == Address::with_last_byte(1) {
            return Ok(ecrecover(data));
        }
        return Ok(vec![]);
    };
    let res = quietly(|| match &code {
        Code::Native(f) => f(data.to_vec()),
        Code::Mock(f) => f(data),
    });
    with(|w| {
        if matches!(res, Ok(Ok(_))) {
            // What `user_entrypoint` does once the router has succeeded.
            flush(w, false);
        }
        let frame = w.frames.pop().expect("harness: frame");
        let res = match res {
            Ok(r) => r,
            Err(m) => {
                w.panicked = true;
                w.panic_msg = m;
                Err(vec![])
            }
        };
        let res = if frame.static_violation { Err(vec![]) } else { res };
        if res.is_err() {
            undo(w, mark, logs_mark);
        }
        res
    })
}

fn undo(w: &mut World, mark: usize, logs_mark: usize) {
    while w.journal.len() > mark {
        match w.journal.pop().unwrap() {
            Undo::Storage(a, k, v) => {
                w.storage.insert((a, k), v);
            }
            Undo::Balance(a, v) => {
                w.balances.insert(a, v);
            }
        }
    }
    w.logs.truncate(logs_mark);
}

/// The context of the running mock: `(self, sender, value)`.
pub fn ctx() -> (Address, Address, U256) {
    with(|w| {
        let f = w.frames.last().expect("harness: no frame");
        (f.address, f.sender, f.value)
    })
}
pub fn mock_log(topics: Vec<B256>, data: Vec<u8>) {
    with(|w| {
        let address = w.frames.last().expect("harness: no frame").address;
        w.logs.push(Log { address, topics, data });
    });
}

/// EVM precompile 0x01: empty output on an invalid input.
pub fn ecrecover(input: &[u8]) -> Vec<u8> {
    use k256::ecdsa::{RecoveryId, Signature, VerifyingKey};
    let mut b = [0u8; 128];
    let n = input.len().min(128);
    b[..n].copy_from_slice(&input[..n]);
    if b[32..63].iter().any(|x| *x != 0) {
        return vec![];
    }
    let v = b[63];
    if v != 27 && v != 28 {
        return vec![];
    }
    let Ok(sig) = Signature::from_slice(&b[64..128]) else {
        return vec![];
    };
    let (sig, id) = match sig.normalize_s() {
        Some(n) => (n, (v - 27) ^ 1),
        None => (sig, v - 27),
    };
    let Some(id) = RecoveryId::from_byte(id) else { return vec![] };
    let Ok(key) = VerifyingKey::recover_from_prehash(&b[..32], &sig, id) else {
        return vec![];
    };
    let p = key.to_encoded_point(false);
    let h = keccak(&p.as_bytes()[1..]);
    let mut out = vec![0u8; 32];
    out[12..].copy_from_slice(&h[12..]);
    out
}

// ---------------------------------------------------------------- vm_hooks

unsafe fn rd_addr(p: *const u8) -> Address {
    Address::from_slice(slice::from_raw_parts(p, 20))
}
unsafe fn rd_word(p: *const u8) -> B256 {
    B256::from_slice(slice::from_raw_parts(p, 32))
}
unsafe fn wr(p: *mut u8, b: &[u8]) {
    std::ptr::copy_nonoverlapping(b.as_ptr(), p, b.len());
}

#[no_mangle]
unsafe extern "C" fn native_keccak256(b: *const u8, len: usize, out: *mut u8) {
    let d: &[u8] = if len == 0 { &[] } else { slice::from_raw_parts(b, len) };
    wr(out, keccak(d).as_slice());
}
#[no_mangle]
unsafe extern "C" fn storage_load_bytes32(key: *const u8, out: *mut u8) {
    let k = rd_word(key);
    let v = with(|w| {
        let Some(f) = w.frames.last_mut() else {
            return w.storage.get(&(Address::ZERO, k)).copied().unwrap_or_default();
        };
        if let Some((v, _)) = f.cache.get(&k) {
            return *v;
        }
        let v = w.storage.get(&(f.address, k)).copied().unwrap_or_default();
        f.cache.insert(k, (v, Some(v)));
        v
    });
    wr(out, v.as_slice());
}
#[no_mangle]
unsafe extern "C" fn storage_cache_bytes32(key: *const u8, value: *const u8) {
    let (k, v) = (rd_word(key), rd_word(value));
    with(|w| match w.frames.last_mut() {
        Some(f) => {
            let known = f.cache.get(&k).and_then(|c| c.1);
            if f.is_static && known != Some(v) {
                f.static_violation = true;
            }
            f.cache.insert(k, (v, known));
        }
        None => {
            let a = Address::ZERO;
            let old = w.storage.insert((a, k), v).unwrap_or_default();
            w.journal.push(Undo::Storage(a, k, old));
        }
    });
}
/// Writes the dirty slots of the running frame's cache to the trie.
fn flush(w: &mut World, clear: bool) {
    let Some(f) = w.frames.last_mut() else { return };
    let a = f.address;
    for (k, (v, known)) in f.cache.iter_mut() {
        if *known != Some(*v) {
            if f.is_static {
                f.static_violation = true;
                continue;
            }
            let old = w.storage.insert((a, *k), *v).unwrap_or_default();
            w.journal.push(Undo::Storage(a, *k, old));
            *known = Some(*v);
        }
    }
    if clear {
        f.cache.clear();
    }
}
#[no_mangle]
unsafe extern "C" fn storage_flush_cache(clear: bool) {
    with(|w| flush(w, clear));
}
#[no_mangle]
unsafe extern "C" fn msg_sender(p: *mut u8) {
    let a = with(|w| w.frames.last().map(|f| f.sender).unwrap_or_default());
    wr(p, a.as_slice());
}
#[no_mangle]
unsafe extern "C" fn msg_value(p: *mut u8) {
    let v = with(|w| w.frames.last().map(|f| f.value).unwrap_or_default());
    wr(p, &v.to_be_bytes::<32>());
}
#[no_mangle]
unsafe extern "C" fn msg_reentrant() -> bool {
    with(|w| match w.frames.last() {
        Some(f) => {
            w.frames.iter().filter(|g| g.address == f.address).count() > 1
        }
        None => false,
    })
}
#[no_mangle]
unsafe extern "C" fn contract_address(p: *mut u8) {
    let a = with(|w| w.frames.last().map(|f| f.address).unwrap_or_default());
    wr(p, a.as_slice());
}
#[no_mangle]
unsafe extern "C" fn chainid() -> u64 {
    with(|w| w.chain_id)
}
#[no_mangle]
unsafe extern "C" fn emit_log(data: *const u8, len: usize, topics: usize) {
    let d: &[u8] =
        if len == 0 { &[] } else { slice::from_raw_parts(data, len) };
    with(|w| {
        let Some(f) = w.frames.last_mut() else { return };
        if f.is_static || topics > 4 {
            f.static_violation = true;
            return;
        }
        let address = f.address;
        let t = (0..topics)
            .map(|i| B256::from_slice(&d[i * 32..i * 32 + 32]))
            .collect();
        w.logs.push(Log { address, topics: t, data: d[topics * 32..].to_vec() });
    });
}
#[no_mangle]
unsafe extern "C" fn account_balance(address: *const u8, dest: *mut u8) {
    let b = balance(rd_addr(address));
    wr(dest, &b.to_be_bytes::<32>());
}
#[no_mangle]
unsafe extern "C" fn account_codehash(address: *const u8, dest: *mut u8) {
    let a = rd_addr(address);
    // EOAs: keccak("") as the SDK's `has_code` expects; contracts: anything.
    let has = with(|w| w.code.contains_key(&a));
    let h = if has { keccak(a.as_slice()) } else { keccak(&[]) };
    wr(dest, h.as_slice());
}
#[no_mangle]
unsafe extern "C" fn account_code_size(address: *const u8) -> usize {
    let a = rd_addr(address);
    with(|w| if w.code.contains_key(&a) { 3 } else { 0 })
}
#[no_mangle]
unsafe extern "C" fn account_code(
    address: *const u8,
    offset: usize,
    size: usize,
    dest: *mut u8,
) -> usize {
    let a = rd_addr(address);
    if !with(|w| w.code.contains_key(&a)) {
        return 0;
    }
    let code = [0xef, 0xf0, 0x00];
    let n = code.len().saturating_sub(offset).min(size);
    if n > 0 {
        wr(dest, &code[offset..offset + n]);
    }
    n
}
#[no_mangle]
unsafe extern "C" fn return_data_size() -> usize {
    with(|w| w.frames.last().map(|f| f.return_data.len()).unwrap_or(0))
}
#[no_mangle]
unsafe extern "C" fn read_return_data(
    dest: *mut u8,
    offset: usize,
    size: usize,
) -> usize {
    with(|w| {
        let Some(f) = w.frames.last() else { return 0 };
        let n = f.return_data.len().saturating_sub(offset).min(size);
        if n > 0 {
            wr(dest, &f.return_data[offset..offset + n]);
        }
        n
    })
}
unsafe fn do_call(
    contract: *const u8,
    data: *const u8,
    len: usize,
    value: U256,
    is_static: bool,
    out_len: *mut usize,
) -> u8 {
    let to = rd_addr(contract);
    let d: Vec<u8> = if len == 0 {
        vec![]
    } else {
        slice::from_raw_parts(data, len).to_vec()
    };
    let from = with(|w| w.frames.last().map(|f| f.address).unwrap_or_default());
    let r = call(from, to, value, &d, is_static);
    let (status, bytes) = match r {
        Ok(b) => (0u8, b),
        Err(b) => (1u8, b),
    };
    *out_len = bytes.len();
    with(|w| {
        if let Some(f) = w.frames.last_mut() {
            f.return_data = bytes;
        }
    });
    status
}
#[no_mangle]
unsafe extern "C" fn call_contract(
    contract: *const u8,
    data: *const u8,
    len: usize,
    value: *const u8,
    _gas: u64,
    out_len: *mut usize,
) -> u8 {
    let v = U256::from_be_bytes(rd_word(value).0);
    do_call(contract, data, len, v, false, out_len)
}
#[no_mangle]
unsafe extern "C" fn static_call_contract(
    contract: *const u8,
    data: *const u8,
    len: usize,
    _gas: u64,
    out_len: *mut usize,
) -> u8 {
    do_call(contract, data, len, U256::ZERO, true, out_len)
}
#[no_mangle]
unsafe extern "C" fn delegate_call_contract(
    _contract: *const u8,
    _data: *const u8,
    _len: usize,
    _gas: u64,
    out_len: *mut usize,
) -> u8 {
    // No library code delegates; fail loudly as a revert.
    *out_len = 0;
    1
}
#[no_mangle]
unsafe extern "C" fn block_timestamp() -> u64 {
    with(|w| w.timestamp)
}
#[no_mangle]
unsafe extern "C" fn block_number() -> u64 {
    1
}
#[no_mangle]
unsafe extern "C" fn block_gas_limit() -> u64 {
    u64::MAX
}
#[no_mangle]
unsafe extern "C" fn block_basefee(p: *mut u8) {
    wr(p, &[0; 32]);
}
#[no_mangle]
unsafe extern "C" fn block_coinbase(p: *mut u8) {
    wr(p, &[0; 20]);
}
#[no_mangle]
unsafe extern "C" fn tx_gas_price(p: *mut u8) {
    wr(p, &[0; 32]);
}
#[no_mangle]
unsafe extern "C" fn tx_ink_price() -> u32 {
    10_000
}
#[no_mangle]
unsafe extern "C" fn tx_origin(p: *mut u8) {
    let a = with(|w| w.frames.first().map(|f| f.sender).unwrap_or_default());
    wr(p, a.as_slice());
}
#[no_mangle]
unsafe extern "C" fn evm_gas_left() -> u64 {
    u64::MAX / 2
}
#[no_mangle]
unsafe extern "C" fn evm_ink_left() -> u64 {
    u64::MAX / 2
}
#[no_mangle]
unsafe extern "C" fn pay_for_memory_grow(_pages: u16) {}
#[no_mangle]
unsafe extern "C" fn read_args(_dest: *mut u8) {}
#[no_mangle]
unsafe extern "C" fn write_result(_data: *const u8, _len: usize) {}
#[no_mangle]
unsafe extern "C" fn create1(
    _c: *const u8,
    _l: usize,
    _e: *const u8,
    out: *mut u8,
    rl: *mut usize,
) {
    wr(out, &[0; 20]);
    *rl = 0;
}
#[no_mangle]
unsafe extern "C" fn create2(
    _c: *const u8,
    _l: usize,
    _e: *const u8,
    _s: *const u8,
    out: *mut u8,
    rl: *mut usize,
) {
    wr(out, &[0; 20]);
    *rl = 0;
}
