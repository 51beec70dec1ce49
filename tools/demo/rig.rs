//! Scenario helpers.
#![allow(dead_code)]
pub use crate::chain::*;
pub use cosmwasm_std::{coin, coins, Coin, Decimal, Uint128};
pub use serde_json::{json, Value};

pub const CORE: &str = "core";
pub const E18: u128 = 1_000_000_000_000_000_000;

/// an index of the given units; fees as (mint, burn, streaming rate)
pub fn core(units: &[(&str, &str)], reserve: &str, mint: Option<&str>, burn: Option<&str>, stream: Option<&str>) -> Chain {
    install_panic_hook();
    let mut c = Chain::new(1_700_000_000_000_000_000);
    c.instantiate(Kind::Core, CORE, "gov", &json!({
        "gov": "gov",
        "fee": { "collector": "collector", "mint_fee": mint, "burn_fee": burn,
                 "streaming_fee": stream.map(|r| json!({ "rate": r, "freeze": false })) },
        "index_denom": "idx",
        "index_units": units.iter().map(|(d, u)| json!([d, u])).collect::<Vec<_>>(),
        "reserve_denom": reserve,
    })).unwrap();
    c
}
pub fn idx() -> String { format!("factory/{CORE}/idx") }
pub fn later(c: &mut Chain, secs: u64) { c.nanos += secs * 1_000_000_000; c.height += secs / 5 + 1; }
pub fn give(c: &mut Chain, who: &str, cs: &[(u128, &str)]) { for (x, d) in cs { c.add(who, d, *x).unwrap(); } }
pub fn cs(v: &[(u128, &str)]) -> Vec<Coin> { v.iter().map(|(x, d)| coin(*x, *d)).collect() }
/// run a message with funds conjured for the sender
pub fn run(c: &mut Chain, who: &str, addr: &str, msg: Value, funds: &[(u128, &str)]) -> Result<(), String> {
    give(c, who, funds);
    let r = c.execute(who, addr, &msg, &cs(funds));
    eprintln!("{who} {msg} -> {r:?}");
    r
}
pub fn q(c: &Chain, addr: &str, msg: Value) -> Value { c.query(addr, &msg).unwrap() }
pub fn mint(c: &mut Chain, who: &str, n: u128, funds: &[(u128, &str)]) -> Result<(), String> {
    run(c, who, CORE, json!({"mint": {"amount": n.to_string(), "receiver": null, "refund_to": null}}), funds)
}
pub fn burn(c: &mut Chain, who: &str, n: u128) -> Result<(), String> {
    let r = c.execute(who, CORE, &json!({"burn": {"redeem_to": null}}), &[coin(n, idx())]);
    eprintln!("{who} burns {n} -> {r:?}");
    r
}
pub fn num(v: &Value) -> u128 { v.as_str().unwrap().parse().unwrap() }

// ---- airdrops
pub const AIR: &str = "airdrop";
pub fn airdrop() -> Chain {
    install_panic_hook();
    let mut c = Chain::new(1_700_000_000_000_000_000);
    c.instantiate(Kind::Airdrop, AIR, "gov", &json!({})).unwrap();
    c
}
pub fn sha(b: &[u8]) -> [u8; 32] { use sha2::Digest; sha2::Sha256::digest(b).into() }
pub fn leaf(key: &str, amount: u128) -> [u8; 32] { sha(format!("{key}:{amount}").as_bytes()) }
pub fn node(a: [u8; 32], b: [u8; 32]) -> [u8; 32] { let mut v = [a, b]; v.sort(); sha(&v.concat()) }
pub fn signer() -> k256::ecdsa::SigningKey { k256::ecdsa::SigningKey::from_slice(&sha(b"signer")).unwrap() }
pub fn signer_pub() -> Vec<u8> { signer().verifying_key().to_encoded_point(true).as_bytes().to_vec() }
pub fn signer_addr() -> String {
    use bech32::ToBase32;
    use ripemd::Digest;
    let h: [u8; 20] = ripemd::Ripemd160::digest(sha(&signer_pub())).into();
    bech32::encode("osmo", h.to_base32(), bech32::Variant::Bech32).unwrap()
}
pub fn sign(text: &str) -> String {
    use k256::ecdsa::signature::hazmat::PrehashSigner;
    let s: k256::ecdsa::Signature = signer().sign_prehash(&sha(text.as_bytes())).unwrap();
    hex::encode(s.to_bytes())
}
pub fn open(c: &mut Chain, who: &str, root: [u8; 32], label: Option<&str>, funds: &[(u128, &str)]) -> Result<(), String> {
    run(c, who, AIR, json!({"register": {"open": {"merkle_root": hex::encode(root), "denom": funds[0].1, "label": label}}}), funds)
}
pub fn bearer(c: &mut Chain, who: &str, root: [u8; 32], label: Option<&str>, funds: &[(u128, &str)]) -> Result<(), String> {
    run(c, who, AIR, json!({"register": {"bearer": {"merkle_root": hex::encode(root), "denom": funds[0].1, "label": label, "signer_pub": hex::encode(signer_pub()), "signer_sig": sign(&signer_addr())}}}), funds)
}
pub fn open_payload(id: u64, account: &str, amount: u128, proof: &[[u8; 32]]) -> Value {
    json!({"open": {"airdrop": {"id": id}, "amount": amount.to_string(), "account": account, "merkle_proof": proof.iter().map(hex::encode).collect::<Vec<_>>()}})
}
pub fn bearer_payload(id: u64, code: &str, to: &str, amount: u128, proof: &[[u8; 32]]) -> Value {
    json!({"bearer": {"airdrop": {"id": id}, "amount": amount.to_string(), "account": to, "claim_hash": code, "claim_sign": sign(&format!("{code}/{to}/{amount}")), "merkle_proof": proof.iter().map(hex::encode).collect::<Vec<_>>()}})
}
pub fn claim(c: &mut Chain, who: &str, p: Value) -> Result<(), String> { run(c, who, AIR, json!({"claim": p}), &[]) }
pub fn close(c: &mut Chain, who: &str, id: u64) -> Result<(), String> { run(c, who, AIR, json!({"close": {"id": id}}), &[]) }

// ---- periphery
pub const PERI: &str = "periphery";
pub fn pool(c: &mut Chain, id: u64, kind: PoolKind, fee: u128, assets: &[(&str, u128)]) {
    let p = ChainPool { id, kind, assets: assets.iter().map(|a| (a.0.to_string(), 1)).collect(), fee };
    for (d, x) in assets { c.add(&p.addr(), d, *x).unwrap(); }
    c.pools.insert(id, p);
}
pub fn routes(v: &[(&str, &[(u64, &str)])]) -> Value {
    json!(v.iter().map(|(k, h)| json!({"key": k, "routes": h.iter().map(|(p, d)| format!("{p},{d}")).collect::<Vec<_>>()})).collect::<Vec<_>>())
}
