//! C26: interface identifiers.
#![allow(dead_code, unused_variables, deprecated)]
extern crate alloc;

use alloy_primitives::FixedBytes;
use engine::{ensure, ensure_eq, Check, Prop, Src};
use openzeppelin_stylus::{
    access::{control::*, ownable::*, ownable_two_step::*},
    finance::vesting_wallet::*,
    token::{
        common::erc2981::*,
        erc1155::{extensions::*, Erc1155, IErc1155},
        erc20::{
            extensions::{erc4626, flash_mint, metadata, wrapper},
            utils::safe_erc20,
            Erc20, IErc20,
        },
        erc721::{extensions as e721, Erc721, IErc721},
    },
    utils::introspection::erc165::{Erc165, IErc165},
};
use ozverif::host::keccak;

mod generated {
    use alloc::{string::String, vec::Vec};

    use alloy_primitives::{
        aliases::{U128, U64},
        Address, FixedBytes, B256, U256,
    };
    use openzeppelin_stylus_proc::interface_id;
    use stylus_sdk::abi::Bytes;

    /// A generated trait: its source, the identifier the library computed, and
    /// the Solidity signatures of its functions.
    pub struct Row {
        pub src: &'static str,
        pub got: u32,
        pub sigs: &'static [&'static str],
    }
    include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../target/gen/traits.rs"));
}
use generated::ROWS;

fn sel(sig: &str) -> u32 {
    let h = keccak(sig.as_bytes());
    u32::from_be_bytes([h[0], h[1], h[2], h[3]])
}
fn xor(sigs: &[&str]) -> u32 {
    sigs.iter().fold(0, |a, s| a ^ sel(s))
}

type Sigs = &'static [&'static str];
const I165: Sigs = &["supportsInterface(bytes4)"];
const I20: Sigs = &["totalSupply()", "balanceOf(address)", "transfer(address,uint256)", "allowance(address,address)", "approve(address,uint256)", "transferFrom(address,address,uint256)"];
const I20M: Sigs = &["name()", "symbol()", "decimals()"];
const I20W: Sigs = &["decimals()", "underlying()", "depositFor(address,uint256)", "withdrawTo(address,uint256)"];
const I3156: Sigs = &["maxFlashLoan(address)", "flashFee(address,uint256)", "flashLoan(address,address,uint256,bytes)"];
const I4626: Sigs = &[
    "asset()", "totalAssets()", "convertToShares(uint256)", "convertToAssets(uint256)", "maxDeposit(address)", "previewDeposit(uint256)",
    "deposit(uint256,address)", "maxMint(address)", "previewMint(uint256)", "mint(uint256,address)", "maxWithdraw(address)",
    "previewWithdraw(uint256)", "withdraw(uint256,address,address)", "maxRedeem(address)", "previewRedeem(uint256)", "redeem(uint256,address,address)",
];
const ISAFE: Sigs = &["safeTransfer(address,address,uint256)", "safeTransferFrom(address,address,address,uint256)", "safeIncreaseAllowance(address,address,uint256)", "safeDecreaseAllowance(address,address,uint256)", "forceApprove(address,address,uint256)"];
const I721: Sigs = &[
    "balanceOf(address)", "ownerOf(uint256)", "safeTransferFrom(address,address,uint256)", "safeTransferFrom(address,address,uint256,bytes)",
    "transferFrom(address,address,uint256)", "approve(address,uint256)", "setApprovalForAll(address,bool)", "getApproved(uint256)", "isApprovedForAll(address,address)",
];
const I721E: Sigs = &["totalSupply()", "tokenByIndex(uint256)", "tokenOfOwnerByIndex(address,uint256)"];
const I721M: Sigs = &["name()", "symbol()", "tokenURI(uint256)"];
const I1155: Sigs = &[
    "balanceOf(address,uint256)", "balanceOfBatch(address[],uint256[])", "setApprovalForAll(address,bool)", "isApprovedForAll(address,address)",
    "safeTransferFrom(address,address,uint256,uint256,bytes)", "safeBatchTransferFrom(address,address,uint256[],uint256[],bytes)",
];
const I1155S: Sigs = &["totalSupply(uint256)", "totalSupply()", "exists(uint256)"];
const I1155M: Sigs = &["uri(uint256)"];
const I2981: Sigs = &["royaltyInfo(uint256,uint256)"];
const IOWN: Sigs = &["owner()", "transferOwnership(address)", "renounceOwnership()"];
const IOWN2: Sigs = &["owner()", "pendingOwner()", "transferOwnership(address)", "acceptOwnership()", "renounceOwnership()"];
const IACC: Sigs = &["hasRole(bytes32,address)", "onlyRole(bytes32)", "getRoleAdmin(bytes32)", "grantRole(bytes32,address)", "revokeRole(bytes32,address)", "renounceRole(bytes32,address)"];
const IVEST: Sigs = &[
    "owner()", "transferOwnership(address)", "renounceOwnership()", "start()", "duration()", "end()", "released()", "released(address)",
    "releasable()", "releasable(address)", "release()", "release(address)", "vestedAmount(uint64)", "vestedAmount(address,uint64)",
];

struct Lib {
    name: &'static str,
    ask: fn(FixedBytes<4>) -> bool,
    ifaces: &'static [Sigs],
    /// Reported identifiers with the functions they stand for.
    ids: &'static [(u32, Sigs)],
}
// One row a contract: type, its interface traits with their functions, and
// interfaces it answers for on behalf of a part.
macro_rules! libs {
    ($($name:literal $t:ty { $($tr:path => $s:expr),* } [$($x:expr),*]),* $(,)?) => {
        const LIBS: &[Lib] = &[$(Lib {
            name: $name,
            ask: <$t as IErc165>::supports_interface,
            ifaces: &[$($s,)* $($x,)* I165],
            ids: &[$((<$t as $tr>::INTERFACE_ID, $s),)* (<$t as IErc165>::INTERFACE_ID, I165)],
        }),*];
    };
}
libs! {
    "Erc165" Erc165 {} [],
    "Erc20" Erc20 { IErc20 => I20 } [],
    "Erc20Metadata" metadata::Erc20Metadata { metadata::IErc20Metadata => I20M } [],
    "Erc20Wrapper" wrapper::Erc20Wrapper { wrapper::IErc20Wrapper => I20W } [],
    "Erc20FlashMint" flash_mint::Erc20FlashMint { flash_mint::IErc3156FlashLender => I3156 } [],
    "Erc4626" erc4626::Erc4626 { erc4626::IErc4626 => I4626 } [],
    "SafeErc20" safe_erc20::SafeErc20 { safe_erc20::ISafeErc20 => ISAFE } [],
    "Erc2981" Erc2981 { IErc2981 => I2981 } [],
    "Erc721" Erc721 { IErc721 => I721 } [],
    "Erc721Metadata" e721::Erc721Metadata { e721::IErc721Metadata => I721M } [],
    "Erc721Enumerable" e721::Erc721Enumerable { e721::IErc721Enumerable => I721E } [],
    "Erc721Consecutive" e721::Erc721Consecutive { IErc721 => I721 } [],
    "Erc1155" Erc1155 { IErc1155 => I1155 } [],
    "Erc1155Supply" Erc1155Supply { IErc1155Supply => I1155S, IErc1155 => I1155 } [],
    "Erc1155MetadataUri" Erc1155MetadataUri { IErc1155MetadataUri => I1155M } [],
    "Ownable" Ownable { IOwnable => IOWN } [],
    "Ownable2Step" Ownable2Step { IOwnable2Step => IOWN2 } [IOWN],
    "AccessControl" AccessControl { IAccessControl => IACC } [],
    "VestingWallet" VestingWallet { IVestingWallet => IVEST } [],
}
/// Published identifiers of the standards.
const PUBLISHED: &[(u32, Sigs)] = &[
    (0x01ff_c9a7, I165),
    (0x3637_2b07, I20),
    (0x80ac_58cd, I721),
    (0x5b5e_139f, I721M),
    (0x780e_9d63, I721E),
    (0xd9b6_7a26, I1155),
    (0x0e89_341c, I1155M),
    (0x2a55_205a, I2981),
    (0xe414_3091, I3156),
    (0x87df_e5a0, I4626),
];

fn query(s: &mut Src) -> Check {
    let l = &LIBS[s.idx(LIBS.len())];
    for (got, sigs) in l.ids {
        ensure_eq!(*got, xor(sigs), "library-id", "{}: identifier of {sigs:?}", l.name);
    }
    let own: Vec<u32> = l.ifaces.iter().map(|i| xor(i)).collect();
    let id = match s.weighted(&[2, 6, 4, 4, 3, 1, 4]) {
        0 => {
            s.tag("own");
            s.pick(&own)
        }
        1 => {
            // Near an implemented identifier: some bits or bytes changed.
            s.tag("near");
            let x = s.pick(&own);
            match s.idx(5) {
                0 => x ^ 1 << s.idx(32),
                1 => x ^ (0xffu32 << (8 * s.idx(4))),
                2 => x ^ (s.range(1, 255) as u32) << (8 * s.idx(4)),
                3 => x.swap_bytes(),
                _ => x ^ 1 << s.idx(32) ^ 1 << s.idx(32),
            }
        }
        2 => {
            s.tag("other-interface");
            let o = &LIBS[s.idx(LIBS.len())];
            xor(o.ifaces[s.idx(o.ifaces.len())])
        }
        3 => {
            // The selectors of some functions.
            s.tag("part-of-interface");
            let o = &LIBS[s.idx(LIBS.len())];
            let i = o.ifaces[s.idx(o.ifaces.len())];
            let mut x = 0;
            for f in i {
                if s.bool() {
                    x ^= sel(f);
                }
            }
            x
        }
        4 => {
            s.tag("combined");
            let mut x = 0;
            for _ in 0..s.range(2, 3) {
                let o = &LIBS[s.idx(LIBS.len())];
                x ^= xor(o.ifaces[s.idx(o.ifaces.len())]);
            }
            x
        }
        5 => {
            s.tag("fixed");
            s.pick(&[0u32, u32::MAX, 1, 0x7965_db0b, 0x150b_7a02, 0x4e23_12e0, 0x8000_0000])
        }
        _ => {
            s.tag("random");
            s.u64() as u32
        }
    };
    let want = own.contains(&id);
    s.note(|| format!("{}.supportsInterface({id:#010x}) = {want}", l.name));
    s.nontrivial = true;
    ensure!(
        (l.ask)(id.into()) == want,
        "answer",
        "{} answers {} for {id:#010x}",
        l.name,
        !want
    );
    Ok(())
}

/// A run of consecutive identifiers, to cover the whole space piecewise.
fn sweep(s: &mut Src) -> Check {
    let l = &LIBS[s.idx(LIBS.len())];
    let own: Vec<u32> = l.ifaces.iter().map(|i| xor(i)).collect();
    let base = (s.below(1 << 14) as u32) << 18;
    s.note(|| format!("{}: {base:#010x}..+2^18", l.name));
    for k in 0..1u32 << 18 {
        let id = base | k;
        if (l.ask)(id.into()) != own.contains(&id) {
            s.nontrivial = true;
            ensure!(false, "answer", "{} answers {} for {id:#010x}", l.name, !own.contains(&id));
        }
    }
    s.nontrivial = true;
    s.tag("identifiers x 2^18");
    Ok(())
}

fn traits(s: &mut Src) -> Check {
    let (p, sigs) = s.pick(PUBLISHED);
    ensure_eq!(xor(sigs), p, "harness", "published identifier of {sigs:?}");
    let r = &ROWS[s.idx(ROWS.len())];
    s.note(|| r.src.to_string());
    s.nontrivial = true;
    s.tag(match r.sigs.len() {
        1 => "one function",
        2..=4 => "2-4 functions",
        _ => "5-12 functions",
    });
    if r.src.contains("#[selector") {
        s.tag("renamed");
    }
    ensure_eq!(r.got, xor(r.sigs), "macro-id", "identifier of {:?}", r.sigs);
    Ok(())
}

const PROP: Prop = Prop {
    id: "C26",
    name: "interface identifiers",
    parts: &[("query", query, 60), ("sweep", sweep, 30), ("traits", traits, 10)],
    rule: "every case: a query of one identifier, a sweep of 2^18 identifiers, or one generated trait",
    quick_cases: 150_000,
    thorough_cases: 3_000_000,
    size: (1, 1),
};

fn main() {
    engine::cli(vec![PROP], None);
}
