//! C22: ECDSA recovery. C34: EIP-712.

use alloy_primitives::{Address, B256, U256};
use alloy_sol_types::sol;
use engine::{ensure, ensure_eq, Check, Prop, Src};
use openzeppelin_stylus::utils::cryptography::{
    ecdsa,
    eip712::{to_typed_data_hash, IEip712},
};
use ozverif::{
    host,
    util::*,
};
use stylus_sdk::prelude::*;

sol! {
    interface IE {
        function recover(bytes32 hash, uint8 v, bytes32 r, bytes32 s) external returns (address);
        function separator() external view returns (bytes32);
        function digest(bytes32 structHash) external view returns (bytes32);
        function domainName() external view returns (string);
        function domainVersion() external view returns (string);
        function domain() external view returns (uint256, uint256, address, bytes32, uint256);
    }
    error ECDSAInvalidSignature();
    error ECDSAInvalidSignatureS(bytes32 s);
}
use IE::*;

#[storage]
pub struct E {}
unsafe impl TopLevelStorage for E {}
#[public]
impl E {
    fn recover(&mut self, hash: B256, v: u8, r: B256, s: B256) -> Result<Address, Vec<u8>> {
        Ok(ecdsa::recover(self, hash, v, r, s)?)
    }
}

const N: U256 = U256::from_limbs([
    0xBFD25E8CD0364141,
    0xBAAEDCE6AF48A03B,
    0xFFFFFFFFFFFFFFFE,
    0xFFFFFFFFFFFFFFFF,
]);

/// Half the curve order, rounded down.
const HALF: U256 = U256::from_limbs([0xdfe92f46681b20a0, 0x5d576e7357a4501d, 0xffffffffffffffff, 0x7fffffffffffffff]);

fn w(x: U256) -> B256 {
    B256::from(x)
}
fn uw(x: B256) -> U256 {
    U256::from_be_bytes(x.0)
}

/// The specification, on top of an independent secp256k1.
fn expected(hash: B256, v: u8, r: B256, s: B256) -> Exp {
    if uw(s) > HALF {
        return Exp::Rev(vec![err(ECDSAInvalidSignatureS { s })]);
    }
    let mut input = vec![];
    input.extend_from_slice(hash.as_slice());
    input.extend_from_slice(w(u(v as u64)).as_slice());
    input.extend_from_slice(r.as_slice());
    input.extend_from_slice(s.as_slice());
    let d = host::ecrecover(&input);
    if d.is_empty() {
        Exp::Rev(vec![err(ECDSAInvalidSignature {})])
    } else {
        Exp::Ok(d)
    }
}

fn any_word(s: &mut Src) -> U256 {
    match s.idx(5) {
        0 => HALF.wrapping_add(u(s.below(3))).wrapping_sub(u(1)),
        1 => N.wrapping_add(u(s.below(3))).wrapping_sub(u(1)),
        2 => u(s.below(3)),
        3 => MAX - u(s.below(2)),
        _ => rand_u256(s),
    }
}

fn recover(s: &mut Src) -> Check {
    let c = ca(1);
    deploy::<E>(c);
    let (key, signer) = gen_key(s);
    let hash = match s.idx(6) {
        0 => B256::ZERO,
        1 => B256::from([0xff; 32]),
        _ => w(rand_u256(s)),
    };
    let (v, r, sv) = sign(&key, hash);
    s.note(|| format!("signer {signer}, hash {hash}, v {v}, r {r}, s {sv}"));
    ensure!(uw(sv) <= HALF, "harness", "the signer must produce low-s signatures");
    // The genuine signature.
    judge(
        &send(eoa(1), c, recoverCall { hash, v, r, s: sv }),
        &Exp::Ok(signer.into_word().to_vec()),
        "genuine signature",
    )?;
    // Alterations.
    let max = s.size;
    s.steps(max, |s| {
        let (mut h2, mut v2, mut r2, mut s2) = (hash, v, r, sv);
        let kind = s.idx(9);
        match kind {
            0 => {
                // Malleable twin.
                v2 = 27 + (v == 27) as u8;
                s2 = w(N - uw(sv));
            }
            1 => {
                let i = s.idx(256);
                h2 = w(uw(hash) ^ (U256::from(1) << i));
            }
            2 => v2 = s.below(256) as u8,
            3 => v2 = 27 + (v == 27) as u8,
            4 => r2 = w(any_word(s)),
            5 => s2 = w(any_word(s)),
            6 => {
                let i = s.idx(256);
                r2 = w(uw(r) ^ (U256::from(1) << i));
            }
            7 => {
                let i = s.idx(256);
                s2 = w(uw(sv) ^ (U256::from(1) << i));
            }
            _ => {
                r2 = w(any_word(s));
                s2 = w(any_word(s));
                v2 = [0, 1, 26, 27, 28, 29, 255][s.idx(7)];
                h2 = w(rand_u256(s));
            }
        }
        s.note(|| format!("alteration {kind}: hash {h2}, v {v2}, r {r2}, s {s2}"));
        let exp = expected(h2, v2, r2, s2);
        let out = send(eoa(1), c, recoverCall { hash: h2, v: v2, r: r2, s: s2 });
        judge(&out, &exp, "altered signature")?;
        if (h2, v2, r2, s2) != (hash, v, r, sv) {
            ensure!(
                out.result != Ok(signer.into_word().to_vec()),
                "forged",
                "altered signature recovers to the signer"
            );
            s.tag(match exp {
                Exp::Ok(_) => "other-signer",
                _ if uw(s2) > HALF => "high-s",
                _ => "unrecoverable",
            });
        }
        Ok(())
    })?;
    s.nontrivial = s.has("other-signer") && s.has("high-s") && s.has("unrecoverable");
    Ok(())
}

pub const ECDSA: Prop = Prop {
    id: "C22",
    name: "ECDSA",
    parts: &[("sign-and-alter", recover, 1)],
    rule: "the case had an alteration recovering to someone else, one refused for high s and one unrecoverable",
    quick_cases: 48_000,
    thorough_cases: 500_000,
    size: (16, 30),
};

// ---------------------------------------------------------------- EIP-712

macro_rules! domain {
    ($t:ident, $name:expr, $version:expr) => {
        #[storage]
        pub struct $t {}
        impl IEip712 for $t {
            const NAME: &'static str = $name;
            const VERSION: &'static str = $version;
        }
        unsafe impl TopLevelStorage for $t {}
        #[public]
        impl $t {
            fn separator(&self) -> B256 {
                self.domain_separator_v4()
            }
            fn digest(&self, struct_hash: B256) -> B256 {
                self.hash_typed_data_v4(struct_hash)
            }
            fn domain_name(&self) -> String {
                self.eip712_domain().1
            }
            fn domain_version(&self) -> String {
                self.eip712_domain().2
            }
            fn domain(&self) -> (U256, U256, Address, B256, U256) {
                let d = self.eip712_domain();
                (U256::from(d.0[0]), d.3, d.4, d.5.into(), U256::from(d.6.len()))
            }
        }
    };
}
const LONG: &str = "A rather long protocol name, well past the thirty-two bytes of a storage word and past the one hundred and thirty-six bytes of a Keccak-256 block, to be sure.";
domain!(D0, "ERC-20 Permit Example", "1");
domain!(D1, "", "");
domain!(D2, "1", "ERC-20 Permit Example");
domain!(D3, LONG, "2.0.0-rc.1");
domain!(D4, "名前 ✓", "1");
domain!(D5, "ERC-20 Permit Example", "11");

const DOMAINS: [(fn(Address), &str, &str); 6] = [
    (deploy::<D0>, "ERC-20 Permit Example", "1"),
    (deploy::<D1>, "", ""),
    (deploy::<D2>, "1", "ERC-20 Permit Example"),
    (deploy::<D3>, LONG, "2.0.0-rc.1"),
    (deploy::<D4>, "名前 ✓", "1"),
    (deploy::<D5>, "ERC-20 Permit Example", "11"),
];

fn separator(name: &str, version: &str, chain: u64, at: Address) -> B256 {
    let mut b = vec![];
    b.extend_from_slice(
        host::keccak(
            b"EIP712Domain(string name,string version,uint256 chainId,address verifyingContract)",
        )
        .as_slice(),
    );
    b.extend_from_slice(host::keccak(name.as_bytes()).as_slice());
    b.extend_from_slice(host::keccak(version.as_bytes()).as_slice());
    b.extend_from_slice(w(u(chain)).as_slice());
    b.extend_from_slice(at.into_word().as_slice());
    host::keccak(&b)
}

fn eip712(s: &mut Src) -> Check {
    let mut seen: std::collections::BTreeMap<B256, (usize, u64, Address, B256)> = Default::default();
    let max = s.size;
    let mut distinct = 0;
    s.steps(max, |s| {
        let k = s.idx(DOMAINS.len());
        let at = match s.idx(4) {
            0 => ca(1),
            1 => ca(2),
            2 => Address::from([0xff; 20]),
            _ => Address::from_word(w(rand_u256(s) | u(0x100))),
        };
        let chain = match s.idx(5) {
            0 => 1,
            1 => 42161,
            2 => 0,
            3 => u64::MAX,
            _ => s.u64(),
        };
        let sh = match s.idx(3) {
            0 => B256::ZERO,
            1 => B256::with_last_byte(1),
            _ => w(rand_u256(s)),
        };
        let (dep, name, version) = DOMAINS[k];
        dep(at);
        host::set_chain_id(chain);
        s.note(|| format!("domain {k} at {} chain {chain} message {sh}", short(at)));
        let want = separator(name, version, chain, at);
        ensure_eq!(view(at, separatorCall {})?._0, want, "separator", "domain separator");
        let pre = [&[0x19u8, 0x01][..], want.as_slice(), sh.as_slice()].concat();
        let dig = host::keccak(&pre);
        ensure_eq!(view(at, digestCall { structHash: sh })?._0, dig, "digest", "typed data digest");
        ensure_eq!(to_typed_data_hash(&want.0, &sh.0), dig, "digest", "to_typed_data_hash");
        let d = view(at, domainCall {})?;
        let (n, v) = (view(at, domainNameCall {})?._0, view(at, domainVersionCall {})?._0);
        ensure_eq!((n.as_str(), v.as_str()), (name, version), "domain", "domain name and version");
        ensure_eq!(
            (d._0, d._1, d._2, d._3, d._4),
            (u(0x0f), u(chain), at, B256::ZERO, U256::ZERO),
            "domain",
            "fields mask, chain id, address, salt, number of extensions"
        );
        // The reported data rebuilds the separator.
        ensure_eq!(
            separator(&n, &v, d._1.to::<u64>(), d._2),
            want,
            "domain",
            "separator rebuilt from the reported domain"
        );
        let me = (k, chain, at, sh);
        if let Some(o) = seen.insert(dig, me) {
            ensure_eq!(o, me, "collision", "two different domains or messages share a digest");
        } else {
            distinct += 1;
        }
        Ok(())
    })?;
    s.nontrivial = distinct >= 3;
    Ok(())
}

pub const EIP712: Prop = Prop {
    id: "C34",
    name: "EIP-712",
    parts: &[("domains", eip712, 1)],
    rule: "at least three different domain/message combinations were digested",
    quick_cases: 500_000,
    thorough_cases: 4_000_000,
    size: (12, 30),
};
