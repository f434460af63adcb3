//! The contract properties (contracts, host and models) in one WebAssembly
//! module: see wasmrun.
#![allow(deprecated)]
extern crate alloc;

#[path = "../../harness/src/bin/access"]
mod access {
    pub mod control;
    pub mod nonces;
    pub mod ownable;
    pub mod pausable;
    pub mod royalty;
    pub mod sig;
    pub mod structs;
    pub mod vesting;
}
#[path = "../../harness/src/bin/erc20"]
mod erc20 {
    pub mod flash;
    pub mod ledger;
    pub mod permit;
    pub mod safe;
    pub mod vault;
    pub mod wrapper;
}
#[path = "../../harness/src/bin/erc721"]
mod erc721 {
    pub mod consecutive;
    pub mod enumerable;
    pub mod ledger;
    pub mod wrapper;
}
#[path = "../../harness/src/bin/erc1155"]
mod erc1155 {
    pub mod ledger;
}
#[path = "../../harness/src/bin/receivers"]
mod receivers {
    pub mod accept;
    pub mod meta;
}
#[path = "../../harness/src/bin/multi"]
mod multi {
    pub mod authority;
    pub mod reentry;
    pub mod replay;
    pub mod world;
}

use engine::{Fail, Prop, Start};
use serde_json::{json, Value};

const PROPS: &[Prop] = &[
    erc20::ledger::PROP,
    access::pausable::PROP,
    erc20::permit::PROP,
    access::nonces::PROP,
    erc20::flash::PROP,
    erc20::vault::PROP,
    erc20::wrapper::PROP,
    erc20::safe::PROP,
    erc721::ledger::PROP,
    receivers::accept::PROP,
    erc721::enumerable::PROP,
    erc721::consecutive::PROP,
    erc721::wrapper::PROP,
    receivers::meta::PROP,
    erc1155::ledger::LEDGER,
    erc1155::ledger::SUPPLY,
    access::royalty::PROP,
    access::ownable::PROP,
    access::control::PROP,
    multi::authority::PROP,
    access::vesting::PROP,
    access::sig::ECDSA,
    access::structs::MATH,
    access::structs::BITMAP,
    access::structs::CHECKPOINTS,
    access::sig::EIP712,
    multi::replay::PROP,
    multi::reentry::PROP,
];

fn no_random(b: &mut [u8]) -> Result<(), getrandom::Error> {
    b.fill(7);
    Ok(())
}
getrandom::register_custom_getrandom!(no_random);

static mut BUF: Vec<u8> = Vec::new();

/// A buffer for the request.
#[no_mangle]
pub extern "C" fn oz_buf(n: u32) -> *mut u8 {
    unsafe {
        BUF = vec![0; n as usize];
        BUF.as_mut_ptr()
    }
}
/// Answers the request in the buffer; the length of the answer.
#[no_mangle]
pub extern "C" fn oz_run() -> u32 {
    engine::embedded(ozverif::host::reset);
    let q: Value = unsafe { serde_json::from_slice(&*std::ptr::addr_of!(BUF)).expect("request") };
    let m = answer(&q).to_string().into_bytes();
    let n = m.len() as u32;
    unsafe { BUF = m };
    n
}
#[no_mangle]
pub extern "C" fn oz_answer() -> *const u8 {
    unsafe { (*std::ptr::addr_of!(BUF)).as_ptr() }
}

fn answer(q: &Value) -> Value {
    if q["list"].as_bool() == Some(true) {
        return PROPS
            .iter()
            .map(|p| {
                json!({"id": p.id, "size": [p.size.0, p.size.1],
                    "parts": p.parts.iter().map(|x| json!([x.0, x.2])).collect::<Vec<_>>()})
            })
            .collect();
    }
    let n = |k: &str| q[k].as_u64().unwrap();
    let start = match q["rec"].as_array() {
        Some(a) => Start::Replay(a.iter().map(|x| x.as_u64().unwrap()).collect()),
        None => Start::Seed(n("seed")),
    };
    let f = PROPS[n("prop") as usize].parts[n("part") as usize].1;
    let r = engine::exec(f, n("size") as usize, start, q["tracing"].as_bool() == Some(true));
    let fail = r.result.err().map(|Fail { msg, sig }| json!([sig, msg]));
    json!({"fail": fail, "rec": r.rec, "spans": r.spans, "tags": r.tags,
        "nontrivial": r.nontrivial, "trace": r.trace})
}
