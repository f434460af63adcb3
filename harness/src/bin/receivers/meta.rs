//! C14: metadata, URIs and configured constants.

use std::collections::BTreeMap;

use alloy_primitives::{Address, U256};
use alloy_sol_types::{sol, SolValue};
use engine::{ensure, ensure_eq, Check, Prop, Src};
use openzeppelin_stylus::token::{
    erc1155::extensions::{Erc1155MetadataUri, Erc1155UriStorage},
    erc20::extensions::{Capped, Erc20Metadata},
    erc721::{
        self,
        extensions::{Erc721Metadata, Erc721UriStorage},
        Erc721,
    },
};
use ozverif::{
    m721::{gen_ids, nonexistent},
    util::*,
};
use stylus_sdk::prelude::*;

sol! {
    interface IM {
        function name() external view returns (string);
        function symbol() external view returns (string);
        function decimals() external view returns (uint8);
        function cap() external view returns (uint256);
        function uri(uint256 id) external view returns (string);
        function tokenURI(uint256 id) external view returns (string);
        function hMetaURI(uint256 id) external view returns (string);
        function hBase() external view returns (string);
        function hMint(address to, uint256 id) external;
        function hBurn(uint256 id) external;
        function hSet(uint256 id, string uri) external;
        function hSetBase(string uri) external;
        function hPlain(uint256 id) external view returns (string);
    }
    event MetadataUpdate(uint256 token_id);
    event URI(string value, uint256 indexed id);
}
use IM::*;

#[storage]
pub struct Nft {
    #[borrow]
    erc721: Erc721,
    #[borrow]
    metadata: Erc721Metadata,
    uris: Erc721UriStorage,
}
unsafe impl TopLevelStorage for Nft {}
#[public]
#[inherit(Erc721, Erc721Metadata)]
impl Nft {
    #[selector(name = "tokenURI")]
    fn token_uri(&self, id: U256) -> Result<String, erc721::Error> {
        self.uris.token_uri(id, &self.erc721, &self.metadata)
    }
    #[selector(name = "hMetaURI")]
    fn h_meta_uri(&self, id: U256) -> Result<String, erc721::Error> {
        self.metadata.token_uri(id, &self.erc721)
    }
    fn h_base(&self) -> String {
        self.metadata.base_uri()
    }
    fn h_mint(&mut self, to: Address, id: U256) -> Result<(), erc721::Error> {
        self.erc721._mint(to, id)
    }
    fn h_burn(&mut self, id: U256) -> Result<(), erc721::Error> {
        self.erc721._burn(id)
    }
    fn h_set(&mut self, id: U256, uri: String) {
        self.uris._set_token_uri(id, uri);
    }
}

#[storage]
pub struct Multi {
    #[borrow]
    metadata: Erc1155MetadataUri,
    uris: Erc1155UriStorage,
}
unsafe impl TopLevelStorage for Multi {}
#[public]
impl Multi {
    fn uri(&self, id: U256) -> String {
        self.uris.uri(id, &self.metadata)
    }
    fn h_plain(&self, id: U256) -> String {
        use openzeppelin_stylus::token::erc1155::extensions::IErc1155MetadataUri;
        self.metadata.uri(id)
    }
    fn h_set(&mut self, id: U256, uri: String) {
        self.uris.set_token_uri(id, uri, &self.metadata);
    }
    fn h_set_base(&mut self, uri: String) {
        self.uris.set_base_uri(uri);
    }
}

#[storage]
pub struct Coin {
    #[borrow]
    metadata: Erc20Metadata,
    #[borrow]
    capped: Capped,
}
unsafe impl TopLevelStorage for Coin {}
#[public]
#[inherit(Erc20Metadata, Capped)]
impl Coin {}

pub fn text(s: &mut Src) -> String {
    let n = match s.weighted(&[4, 8, 2, 2, 2, 4, 2, 1]) {
        0 => 0,
        1 => s.range(1, 12) as usize,
        2 => 31,
        3 => 32,
        4 => 33,
        5 => 28 + s.idx(9),
        6 => s.idx(140),
        _ => long_len(s),
    };
    let mut t = String::new();
    let kind = s.idx(3);
    if n > 200 {
        // Few choices, many characters.
        let mut x = s.u64() | 1;
        while t.len() < n {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            let c = ['a', 'b', '/', 'é', '中', '🦀', '9', '.'][(x >> 40) as usize % 8];
            t.push(if t.len() + c.len_utf8() <= n { c } else { 'z' });
        }
        return t;
    }
    while t.len() < n {
        let c = match kind {
            0 => b"abcxyz/:.#{id}-09"[s.idx(17)] as char,
            1 => s.pick(&['é', 'ж', '中', '🦀', 'a', '\0', '\n', ' ']),
            _ => (0x20 + s.idx(0x5f)) as u8 as char,
        };
        if t.len() + c.len_utf8() <= n {
            t.push(c);
        } else {
            t.push('z');
        }
    }
    t
}
fn same(got: &str, want: &str, sig: &str, what: &str) -> Check {
    ensure!(got == want, sig, "{what} is {got:?}, expected {want:?}");
    Ok(())
}
fn get(a: Address, what: &str) -> Option<String> {
    match what {
        "name" => view(a, nameCall {}).ok().map(|x| x._0),
        "symbol" => view(a, symbolCall {}).ok().map(|x| x._0),
        "base" => view(a, hBaseCall {}).ok().map(|x| x._0),
        _ => view(a, hPlainCall { id: U256::ZERO }).ok().map(|x| x._0),
    }
}
fn set(key: &'static str, a: Address, what: &'static str, t: &str) -> Check {
    ensure!(configure_string(key, a, || get(a, what), t.as_bytes()), "config", "{what}() does not report a stored string");
    Ok(())
}

fn nft(s: &mut Src) -> Check {
    let c = ca(1);
    deploy::<Nft>(c);
    let (name, symbol) = (text(s), text(s));
    let base = if s.chance(1, 3) { String::new() } else { text(s) };
    set("nft-name", c, "name", &name)?;
    set("nft-symbol", c, "symbol", &symbol)?;
    set("nft-base", c, "base", &base)?;
    s.note(|| format!("name {name:?} symbol {symbol:?} base {base:?}"));
    let ids = gen_ids(s, 4);
    let mut live: BTreeMap<U256, bool> = BTreeMap::new();
    let mut uris: BTreeMap<U256, String> = BTreeMap::new();
    let max = s.size;
    s.steps(max, |s| {
        let id = s.pick(&ids);
        match s.weighted(&[3, 1, 5]) {
            0 => {
                s.note(|| format!("mint {}", num(id)));
                let out = send(eoa(1), c, hMintCall { to: eoa(1), id });
                ensure_eq!(out.ok(), !live.get(&id).copied().unwrap_or(false), "mint", "mint of {}", num(id));
                live.insert(id, true);
            }
            1 => {
                s.note(|| format!("burn {}", num(id)));
                let out = send(eoa(1), c, hBurnCall { id });
                ensure_eq!(out.ok(), live.get(&id).copied().unwrap_or(false), "burn", "burn of {}", num(id));
                live.insert(id, false);
            }
            _ => {
                let t = text(s);
                s.note(|| format!("_set_token_uri({}, {t:?})", num(id)));
                let out = send(eoa(2), c, hSetCall { id, uri: t.clone() });
                judge(&out, &Exp::Ok(vec![]), "_set_token_uri")?;
                judge_logs(&out.logs, &[ev(c, MetadataUpdate { token_id: id })], "_set_token_uri")?;
                if uris.get(&id).is_some_and(|o| o.len() > t.len()) {
                    s.tag("shortened");
                }
                uris.insert(id, t);
                s.tag("set");
            }
        }
        same(&view(c, nameCall {})?._0, &name, "name", "name()")?;
        same(&view(c, symbolCall {})?._0, &symbol, "symbol", "symbol()")?;
        same(&view(c, hBaseCall {})?._0, &base, "base", "base_uri()")?;
        for id in &ids {
            let own = uris.get(id).cloned().unwrap_or_default();
            let dec = if base.is_empty() { String::new() } else { format!("{base}{id}") };
            let full = if base.is_empty() {
                own.clone()
            } else if own.is_empty() {
                dec.clone()
            } else {
                format!("{base}{own}")
            };
            if live.get(id).copied().unwrap_or(false) {
                same(&view(c, tokenURICall { id: *id })?._0, &full, "token-uri", &format!("tokenURI({})", num(*id)))?;
                same(&view(c, hMetaURICall { id: *id })?._0, &dec, "meta-uri", &format!("metadata tokenURI({})", num(*id)))?;
                if !own.is_empty() && !base.is_empty() {
                    s.tag("joined");
                }
            } else {
                ensure_eq!(view_raw(eoa(1), c, tokenURICall { id: *id }), Err(nonexistent(*id)), "nonexistent", "tokenURI({})", num(*id));
                ensure_eq!(view_raw(eoa(1), c, hMetaURICall { id: *id }), Err(nonexistent(*id)), "nonexistent", "metadata tokenURI({})", num(*id));
            }
        }
        Ok(())
    })?;
    s.nontrivial = s.has("joined") || (base.is_empty() && s.has("set"));
    Ok(())
}

fn multi(s: &mut Src) -> Check {
    let c = ca(1);
    deploy::<Multi>(c);
    let plain = text(s);
    set("multi-uri", c, "uri", &plain)?;
    let mut base = String::new();
    s.note(|| format!("contract-wide uri {plain:?}"));
    let ids = gen_ids(s, 4);
    let mut uris: BTreeMap<U256, String> = BTreeMap::new();
    let expect = |base: &str, uris: &BTreeMap<U256, String>, id: U256| match uris.get(&id) {
        Some(t) if !t.is_empty() => format!("{base}{t}"),
        _ => plain.clone(),
    };
    let max = s.size;
    s.steps(max, |s| {
        let id = s.pick(&ids);
        let t = text(s);
        if s.chance(1, 3) {
            s.note(|| format!("set_base_uri({t:?})"));
            let out = send(eoa(2), c, hSetBaseCall { uri: t.clone() });
            judge(&out, &Exp::Ok(vec![]), "set_base_uri")?;
            judge_logs(&out.logs, &[], "set_base_uri")?;
            base = t;
        } else {
            s.note(|| format!("set_token_uri({}, {t:?})", num(id)));
            let out = send(eoa(2), c, hSetCall { id, uri: t.clone() });
            uris.insert(id, t);
            judge(&out, &Exp::Ok(vec![]), "set_token_uri")?;
            judge_logs(&out.logs, &[ev(c, URI { value: expect(&base, &uris, id), id })], "set_token_uri")?;
        }
        for id in &ids {
            let want = expect(&base, &uris, *id);
            same(&view(c, uriCall { id: *id })?._0, &want, "uri", &format!("uri({})", num(*id)))?;
            same(&view(c, hPlainCall { id: *id })?._0, &plain, "plain-uri", "contract-wide uri")?;
            if want != plain && !base.is_empty() {
                s.tag("joined");
            }
        }
        Ok(())
    })?;
    s.nontrivial = s.has("joined");
    Ok(())
}

fn coin(s: &mut Src) -> Check {
    let c = ca(1);
    deploy::<Coin>(c);
    let (name, symbol) = (text(s), text(s));
    set("coin-name", c, "name", &name)?;
    set("coin-symbol", c, "symbol", &symbol)?;
    let cap = amount(s, &[]);
    let hit = || view(c, capCall {}).is_ok_and(|x| x._0 == u(1));
    ensure!(configure("cap", c, hit, &cap.to_be_bytes::<32>()), "config", "cap() does not report a stored cap");
    s.note(|| format!("name {name:?} symbol {symbol:?} cap {}", num(cap)));
    for _ in 0..2 {
        same(&view(c, nameCall {})?._0, &name, "name", "name()")?;
        same(&view(c, symbolCall {})?._0, &symbol, "symbol", "symbol()")?;
        ensure_eq!(view(c, capCall {})?._0, cap, "cap", "cap()");
        ensure_eq!(view_raw(eoa(1), c, decimalsCall {}), Ok(u(18).abi_encode()), "decimals", "decimals()");
    }
    s.nontrivial = name.len() > 31 || symbol.len() > 31;
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C14",
    name: "metadata",
    parts: &[("erc721", nft, 3), ("erc1155", multi, 3), ("erc20", coin, 1)],
    rule: "some token's URI is joined from a base and a stored part, or is a stored URI without base, or a configured string exceeds one storage word",
    quick_cases: 240_000,
    thorough_cases: 500_000,
    size: (16, 40),
};
