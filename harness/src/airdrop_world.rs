//! Histories of the airdrop contract with a reference model, and the oracles C19-C24.

use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

use cosmwasm_std::{coin, Coin, Uint128};
use ibcx_interface::airdrop::*;
use ibcx_interface::types::RangeOrder;
use k256::ecdsa::signature::hazmat::PrehashSigner;
use k256::ecdsa::{Signature, SigningKey};
use ripemd::Ripemd160;
use sha2::{Digest, Sha256};

use crate::chain::*;
use crate::core_world::{coins_map, show_coins, valid_addr};
use crate::pbt::*;

pub const AIR: &str = "airdrop";
const USERS: [&str; 5] = ["alice", "bob", "carol", "dave", "osmo1phaxpevm5wecex2jyaqty2a4v02qj7qmlmzk5a"];
const DENOMS: [&str; 3] = ["uosmo", "uion", "factory/x/ukrw"];

const A: &[&str] = &[
    "the bank module behaves as modelled in harness/src/chain.rs (atomic transactions, no sends of zero coins)",
    "addresses contain neither '/' nor ':' (true of every bech32 address)",
    "SHA-256 has no collisions and secp256k1 signatures cannot be forged",
];

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C19", quick: 20_000, thorough: 250_000, rule: "a claim was paid, or an airdrop was closed, while another airdrop of the same asset was open", run: c19, assumptions: A },
        Prop { id: "C20", quick: 10_000, thorough: 250_000, rule: "an entitlement already paid was claimed again", run: c20, assumptions: A },
        Prop { id: "C21", quick: 16_000, thorough: 250_000, rule: "a claim was paid and a claim without a valid proof or signature was refused", run: c21, assumptions: A },
        Prop { id: "C22", quick: 20_000, thorough: 250_000, rule: "a funding or close by the creator succeeded and an illegitimate one was refused", run: c22, assumptions: A },
        Prop { id: "C23", quick: 10_000, thorough: 200_000, rule: "a valid and an invalid payload were verified", run: c23, assumptions: A },
        Prop { id: "C24", quick: 10_000, thorough: 120_000, rule: "a listing of at least three items was walked page by page", run: c24, assumptions: A },
    ]
}

// ------------------------------------------------------------------------------------------ cryptography

pub fn sha(b: &[u8]) -> [u8; 32] { Sha256::digest(b).into() }

struct Key { sk: SigningKey, publics: [Vec<u8>; 2] }

/// signature of (key, digest); the variants are the two equivalent encodings
fn sign(key: usize, digest: &[u8; 32], high_s: bool) -> Vec<u8> {
    thread_local! { static CACHE: RefCell<BTreeMap<(usize, [u8; 32]), Vec<u8>>> = RefCell::new(BTreeMap::new()); }
    let v = CACHE.with(|c| {
        let mut c = c.borrow_mut();
        if c.len() > 20_000 { c.clear(); }
        c.entry((key, *digest)).or_insert_with(|| with_keys(|k| { let s: Signature = k[key].sk.sign_prehash(digest).unwrap(); s.to_bytes().to_vec() })).clone()
    });
    if !high_s { return v; }
    let s = Signature::from_slice(&v).unwrap();
    let (r, sc) = (s.r(), s.s());
    let neg = -*sc;
    Signature::from_scalars(r.to_bytes(), neg.to_bytes()).unwrap().to_bytes().to_vec()
}

const KEYS: usize = 3;

fn with_keys<T>(f: impl FnOnce(&[Key]) -> T) -> T {
    thread_local! {
        static K: Vec<Key> = (0..KEYS).map(|i| {
            let sk = SigningKey::from_slice(&sha(format!("signer {i}").as_bytes())).unwrap();
            let vk = *sk.verifying_key();
            let publics = [vk.to_encoded_point(true).as_bytes().to_vec(), vk.to_encoded_point(false).as_bytes().to_vec()];
            Key { sk, publics }
        }).collect();
    }
    K.with(|k| f(k))
}

fn public(key: usize, uncompressed: bool) -> Vec<u8> { with_keys(|k| k[key].publics[uncompressed as usize].clone()) }

fn address_of(public: &[u8]) -> String {
    use bech32::ToBase32;
    let h: [u8; 20] = Ripemd160::digest(sha(public)).into();
    bech32::encode("osmo", h.to_base32(), bech32::Variant::Bech32).unwrap()
}

#[derive(Clone)]
pub struct Tree { pub entries: Vec<(String, u128)>, levels: Vec<Vec<[u8; 32]>>, top: Vec<[u8; 32]>, pad: bool }

impl Tree {
    fn new(entries: Vec<(String, u128)>) -> Tree { Tree::tall(entries, 0, false) }
    /// a list of which these are the entries that are ever used: `extra` more levels lie above them
    /// and an odd node is joined with nothing but zeros where `pad` is set
    fn tall(entries: Vec<(String, u128)>, extra: usize, pad: bool) -> Tree {
        let mut levels = vec![entries.iter().map(|(k, a)| sha(format!("{k}:{a}").as_bytes())).collect::<Vec<_>>()];
        while levels.last().unwrap().len() > 1 {
            let l = levels.last().unwrap();
            levels.push(l.chunks(2).map(|c| match c.get(1) { Some(o) => node(&c[0], o), None if pad => node(&c[0], &[0; 32]), None => c[0] }).collect());
        }
        Tree { entries, levels, top: (0..extra).map(|i| if pad && i == 0 { [0; 32] } else { sha(format!("other half {i}").as_bytes()) }).collect(), pad }
    }
    fn root(&self) -> String { hex::encode(self.top.iter().fold(self.levels.last().unwrap()[0], |h, o| node(&h, o))) }
    fn proof(&self, mut i: usize) -> Vec<String> {
        let mut v = vec![];
        for l in &self.levels[..self.levels.len() - 1] {
            match l.get(i ^ 1) { Some(h) => v.push(hex::encode(h)), None if self.pad => v.push(hex::encode([0; 32])), None => {} }
            i /= 2;
        }
        v.extend(self.top.iter().map(hex::encode));
        v
    }
    fn has(&self, k: &str, a: u128) -> bool { self.entries.iter().any(|e| e.0 == k && e.1 == a) }
}

fn node(a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] {
    let (x, y) = if a <= b { (a, b) } else { (b, a) };
    sha(&[x.as_slice(), y.as_slice()].concat())
}

fn hash32(s: &str) -> Option<[u8; 32]> { hex::decode(s).ok()?.try_into().ok() }

fn proves(root: &str, proof: &[String], key: &str, amount: u128) -> bool {
    let mut h = sha(format!("{key}:{amount}").as_bytes());
    for p in proof {
        match hash32(p) { Some(v) => h = node(&h, &v), None => return false }
    }
    hash32(root) == Some(h)
}

// ------------------------------------------------------------------------------------------ model

#[derive(Clone)]
pub struct Drop_ {
    pub bearer: bool,
    pub creator: String,
    pub denom: String,
    pub total: u128,
    pub claimed: u128,
    pub root: String,
    pub label: Option<String>,
    pub created_at: u64,
    pub closed_at: Option<u64>,
    pub public: Vec<u8>,
    pub signer: Option<usize>,
    pub tree: Tree,
    pub paid: BTreeMap<String, u128>,
}

#[derive(Clone, Default)]
pub struct Model { pub drops: Vec<Drop_>, pub labels: BTreeMap<String, u64> }

impl Model {
    fn find(&self, id: &AirdropId) -> Option<usize> {
        let i = match id { AirdropId::Id(i) => *i as usize, AirdropId::Label(l) => *self.labels.get(l)? as usize };
        if i < self.drops.len() { Some(i) } else { None }
    }
}

/// what a payload that should be well signed was signed with
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Signed { Yes, No }

#[derive(Clone)]
pub enum Op {
    Register { sender: String, payload: RegisterPayload, funds: Vec<Coin>, tree: Tree, key: Option<usize>, public: Vec<u8>, signed: Signed },
    Fund { sender: String, id: AirdropId, funds: Vec<Coin> },
    /// signed: the signature is by the signer of the addressed airdrop over this code, recipient and amount
    Claim { sender: String, payload: ClaimPayload, funds: Vec<Coin>, signed: Signed },
    Close { sender: String, id: AirdropId, funds: Vec<Coin> },
    Donate { from: String, denom: String, amount: u128 },
    Blocks(u64),
}

impl Op {
    fn show(&self) -> String {
        let j = |m: &ExecuteMsg| serde_json::to_string(m).unwrap();
        match self {
            Op::Donate { from, denom, amount } => format!("{from} sends {amount}{denom} to the contract"),
            Op::Blocks(n) => format!("{n} blocks pass"),
            Op::Register { tree, signed, .. } => { let (s, m, f) = self.msg().unwrap(); format!("{s}: {} funds={} list={:?} signed={signed:?}", j(&m), show_coins(&f), tree.entries) }
            Op::Claim { signed, .. } => { let (s, m, f) = self.msg().unwrap(); format!("{s}: {} funds={} signed={signed:?}", j(&m), show_coins(&f)) }
            _ => { let (s, m, f) = self.msg().unwrap(); format!("{s}: {} funds={}", j(&m), show_coins(&f)) }
        }
    }
    fn msg(&self) -> Option<(String, ExecuteMsg, Vec<Coin>)> {
        Some(match self.clone() {
            Op::Register { sender, payload, funds, .. } => (sender, ExecuteMsg::Register(payload), funds),
            Op::Fund { sender, id, funds } => (sender, ExecuteMsg::Fund(id), funds),
            Op::Claim { sender, payload, funds, .. } => (sender, ExecuteMsg::Claim(payload), funds),
            Op::Close { sender, id, funds } => (sender, ExecuteMsg::Close(id), funds),
            _ => return None,
        })
    }
}

/// the parts of a claim, whatever its kind
pub struct Claim<'a> { pub bearer: bool, pub id: &'a AirdropId, pub amount: u128, pub account: Option<&'a String>, pub key: String, pub recipient: String, pub proof: &'a [String], pub sig: Option<&'a String> }

pub fn claim_of<'a>(p: &'a ClaimPayload, sender: &str) -> Claim<'a> {
    match p {
        ClaimPayload::Open { airdrop, amount, account, merkle_proof } => {
            let r = account.clone().unwrap_or_else(|| sender.to_string());
            Claim { bearer: false, id: airdrop, amount: amount.u128(), account: account.as_ref(), key: r.clone(), recipient: r, proof: merkle_proof, sig: None }
        }
        ClaimPayload::Bearer { airdrop, amount, account, claim_hash, claim_sign, merkle_proof } => {
            let r = account.clone().unwrap_or_else(|| sender.to_string());
            Claim { bearer: true, id: airdrop, amount: amount.u128(), account: account.as_ref(), key: claim_hash.clone(), recipient: r, proof: merkle_proof, sig: Some(claim_sign) }
        }
    }
}

/// do the checks of proof and signature accept this claim?
fn accepted(m: &Model, c: &Claim, signed: Signed) -> bool {
    let d = match m.find(c.id) { Some(i) => &m.drops[i], None => return false };
    d.bearer == c.bearer && d.tree.has(&c.key, c.amount) && proves(&d.root, c.proof, &c.key, c.amount) && (!c.bearer || signed == Signed::Yes)
}

fn pays(funds: &[Coin], denom: &str) -> Option<u128> {
    let m = coins_map(funds);
    let v: Vec<_> = m.iter().filter(|(_, x)| **x > 0).collect();
    match v[..] { [(k, x)] if k == denom => Some(*x), _ => None }
}

/// does the reference model let this operation succeed?
fn expected(m: &Model, op: &Op) -> bool {
    match op {
        Op::Register { sender, payload, funds, key, signed, .. } => {
            let (root, denom, label, ok) = match payload {
                RegisterPayload::Open { merkle_root, denom, label } => (merkle_root, denom, label, true),
                RegisterPayload::Bearer { merkle_root, denom, label, .. } => (merkle_root, denom, label, key.is_some() && *signed == Signed::Yes),
            };
            let taken = label.as_ref().map(|l| m.labels.contains_key(&format!("{sender}/{l}"))).unwrap_or(false);
            ok && hash32(root).is_some() && !taken && pays(funds, denom).is_some()
        }
        Op::Fund { sender, id, funds } => match m.find(id) {
            Some(i) => { let d = &m.drops[i]; d.creator == *sender && d.closed_at.is_none() && pays(funds, &d.denom).is_some() }
            None => false,
        },
        Op::Close { sender, id, .. } => match m.find(id) {
            Some(i) => { let d = &m.drops[i]; d.creator == *sender && d.closed_at.is_none() }
            None => false,
        },
        Op::Claim { sender, payload, signed, .. } => {
            let c = claim_of(payload, sender);
            let i = match m.find(c.id) { Some(i) => i, None => return false };
            let d = &m.drops[i];
            accepted(m, &c, *signed) && d.closed_at.is_none() && !d.paid.contains_key(&c.key) && d.claimed + c.amount <= d.total && c.amount > 0 && valid_addr(&c.recipient)
        }
        _ => true,
    }
}

/// record an operation that succeeded
fn apply(m: &mut Model, op: &Op, height: u64) {
    match op {
        Op::Register { sender, payload, funds, tree, key, public, .. } => {
            let (bearer, root, denom, label) = match payload {
                RegisterPayload::Open { merkle_root, denom, label } => (false, merkle_root, denom, label),
                RegisterPayload::Bearer { merkle_root, denom, label, .. } => (true, merkle_root, denom, label),
            };
            let label = label.as_ref().map(|l| format!("{sender}/{l}"));
            if let Some(l) = &label { m.labels.insert(l.clone(), m.drops.len() as u64); }
            m.drops.push(Drop_ {
                bearer, creator: sender.clone(), denom: denom.clone(), total: pays(funds, denom).unwrap_or(0), claimed: 0, root: root.clone(), label, created_at: height,
                closed_at: None, public: public.clone(), signer: *key, tree: tree.clone(), paid: BTreeMap::new(),
            });
        }
        Op::Fund { id, funds, .. } => if let Some(i) = m.find(id) { let d = &mut m.drops[i]; d.total += pays(funds, &d.denom).unwrap_or(0); },
        Op::Close { id, .. } => if let Some(i) = m.find(id) { m.drops[i].closed_at = Some(height); },
        Op::Claim { sender, payload, .. } => {
            let c = claim_of(payload, sender);
            if let Some(i) = m.find(c.id) { let d = &mut m.drops[i]; d.claimed = d.claimed.saturating_add(c.amount); *d.paid.entry(c.key.clone()).or_insert(0) += c.amount; }
        }
        _ => {}
    }
}

// ------------------------------------------------------------------------------------------ observation

#[derive(Clone, PartialEq, Debug)]
pub struct Rec { pub bearer: bool, pub id: u64, pub creator: String, pub signer: Option<(String, String)>, pub denom: String, pub total: u128, pub claimed: u128, pub root: String, pub label: Option<String>, pub created_at: u64, pub closed_at: Option<u64> }

fn rec(r: GetAirdropResponse) -> Rec {
    match r {
        GetAirdropResponse::Open { id, creator, denom, total_amount, total_claimed, merkle_root, label, created_at, closed_at } =>
            Rec { bearer: false, id, creator, signer: None, denom, total: total_amount.u128(), claimed: total_claimed.u128(), root: merkle_root, label, created_at, closed_at },
        GetAirdropResponse::Bearer { id, creator, signer, signer_pub, denom, total_amount, total_claimed, merkle_root, label, created_at, closed_at } =>
            Rec { bearer: true, id, creator, signer: Some((signer, signer_pub)), denom, total: total_amount.u128(), claimed: total_claimed.u128(), root: merkle_root, label, created_at, closed_at },
    }
}

fn model_rec(m: &Model, i: usize) -> Rec {
    let d = &m.drops[i];
    Rec {
        bearer: d.bearer, id: i as u64, creator: d.creator.clone(), signer: if d.bearer { Some((address_of(&d.public), hex::encode(&d.public))) } else { None }, denom: d.denom.clone(),
        total: d.total, claimed: d.claimed, root: d.root.clone(), label: d.label.clone(), created_at: d.created_at, closed_at: d.closed_at,
    }
}

pub fn get(c: &Chain, id: &AirdropId) -> Result<Rec, String> { c.query::<_, GetAirdropResponse>(AIR, &QueryMsg::GetAirdrop { id: id.clone() }).map(rec) }

fn reports(c: &Chain, n: usize) -> Result<Vec<Rec>, Fail> {
    (0..n as u64).map(|i| get(c, &AirdropId::Id(i)).or_else(|e| fail("airdrop: lost", format!("airdrop {i} of {n} is not reported: {e}")))).collect()
}

// ------------------------------------------------------------------------------------------ generation

#[derive(Clone, Copy, Default)]
pub struct Profile {
    pub ops: u64,
    /// per cent of registrations that are bearer airdrops
    pub bearer: u64,
    pub register: u32,
    pub fund: u32,
    pub claim: u32,
    pub close: u32,
    /// mutated proofs and signatures, 0..8
    pub bad: u64,
    pub entries: u64,
    pub blocks: u32,
    /// of 8 registrations, how many come from one creator
    pub busy: u64,
}

const P: Profile = Profile { ops: 20, bearer: 40, register: 5, fund: 3, claim: 14, close: 3, bad: 3, entries: 6, blocks: 1, busy: 0 };

/// mostly a user, now and then somebody whose key signs for a bearer airdrop
fn user(s: &mut Src) -> String { if s.chance(1, 16) { let k = s.usize(KEYS); signer_address(k) } else { s.pick(&USERS).to_string() } }

fn signer_address(key: usize) -> String {
    thread_local! { static C: Vec<String> = (0..KEYS).map(|k| address_of(&public(k, false))).collect(); }
    C.with(|c| c[key].clone())
}

fn codes(s: &mut Src) -> String {
    match s.weighted(&[20, 4, 4, 4, 2, 1, 1, 2]) {
        0 => { let i = s.draw(12); hex::encode(&sha(format!("salt {i}").as_bytes())[..8]) }
        1 => user(s),
        2 => { let i = s.draw(3); format!("gift/{i}") }
        3 => { let i = s.draw(3); format!("gift:{i}") }
        // near twins
        4 => ["gift", "Gift", "GIFT", " gift", "gift ", "gift\n", "0gift", "00", "0", "\u{e9}", "e\u{301}"][s.usize(11)].to_string(),
        5 => String::new(),
        // hashes
        7 => { let i = s.draw(3); let h = hex::encode(sha(format!("hash {i}").as_bytes())); if s.chance(1, 3) { h.to_uppercase() } else { h } }
        // codes have no length limit
        _ => { let n = [31, 63, 64, 100, 128, 255, 256, 300][s.usize(8)]; format!("{}{}", "c".repeat(n), s.draw(3)) }
    }
}

fn amount(s: &mut Src) -> u128 { match s.weighted(&[1, 5, 4, 1]) { 0 => s.draw(2) as u128, 1 => 1 + s.draw(20) as u128, 2 => 1000 + s.draw(1_000_000) as u128, _ => s.log_range(1, 1 << 100) } }

fn gen_tree(s: &mut Src, bearer: bool, max: u64) -> Tree {
    let n = 1 + s.draw(max);
    let mut v: Vec<(String, u128)> = vec![];
    for i in 0..n {
        let k = if bearer { codes(s) } else if n > 10 { format!("user{i:03}") } else {
            match s.weighted(&[8, 1, 1]) { 0 => user(s), 1 => ["UPPER", "ab", AIR][s.usize(3)].to_string(), _ => format!("user{}", s.draw(4)) }
        };
        let a = match v.last() { Some(l) if s.chance(1, 6) => l.1, _ => amount(s) };
        v.push((k, a));
    }
    // sometimes an entry is listed twice
    if v.len() > 1 && s.chance(1, 8) { let e = v[0].clone(); v.push(e); }
    let extra = if s.chance(1, 6) { s.usize(40) } else { 0 };
    let pad = s.chance(1, 4);
    Tree::tall(v, extra, pad)
}

fn gen_root(s: &mut Src, tree: &Tree) -> String {
    let r = tree.root();
    match s.weighted(&[48, 1, 1, 1, 1, 1, 1, 4, 2]) {
        0 => r,
        1 => r.to_uppercase(),
        2 => String::new(),
        3 => r[..62].to_string(),
        4 => format!("{r}00"),
        5 => r[..63].to_string(),
        6 => format!("zz{}", &r[2..]),
        8 => ["00", "ff"][s.usize(2)].repeat(32),
        // a root this list does not have, though nearly
        _ => { let i = s.usize(64); let c = if &r[i..=i] == "0" { "1" } else { "0" }; format!("{}{c}{}", &r[..i], &r[i + 1..]) }
    }
}

fn gen_funds(s: &mut Src, denom: &str, x: u128) -> Vec<Coin> {
    let other = DENOMS.iter().find(|d| **d != denom).unwrap();
    match s.weighted(&[30, 1, 1, 2, 1]) {
        0 => vec![coin(x.max(1), denom)],
        1 => vec![],
        2 => vec![coin(x.max(1), *other)],
        3 => { let mut v = vec![coin(x.max(1), denom), coin(1 + s.draw(50) as u128, *other)]; v.sort_by(|a, b| a.denom.cmp(&b.denom)); v }
        _ => vec![coin(0, denom)],
    }
}

fn gen_label(s: &mut Src, m: &Model) -> Option<String> {
    match s.weighted(&[4, 4, 1, 1]) {
        0 => None,
        1 => Some(["a", "b", "summer", "x/y", "", "0", " a", "a ", "A", "a/", "/a"][s.usize(11)].to_string()),
        2 => Some(format!("n{}", s.draw(6))),
        // a label another creator uses, with or without its creator in front
        _ => match m.labels.keys().nth(s.usize(m.labels.len().max(1))) {
            Some(l) => if s.chance(1, 2) { Some(l.clone()) } else { Some(l.splitn(2, '/').nth(1).unwrap_or("").to_string()) },
            None => Some("a".into()),
        },
    }
}

pub fn gen_id(s: &mut Src, m: &Model) -> AirdropId {
    if m.drops.is_empty() || s.chance(1, 24) {
        return match s.draw(4) { 0 => AirdropId::Id(m.drops.len() as u64), 1 => AirdropId::Id(s.full()), 2 => AirdropId::Label("a".into()), _ => AirdropId::Label(String::new()) };
    }
    let i = s.usize(m.drops.len());
    addressed(s, m, i)
}

fn addressed(s: &mut Src, m: &Model, i: usize) -> AirdropId {
    match &m.drops[i].label { Some(l) if s.chance(1, 3) => AirdropId::Label(l.clone()), _ => AirdropId::Id(i as u64) }
}

fn gen_register(cx: &mut Cx, m: &Model, pr: &Profile) -> Op {
    let s = &mut cx.s;
    let busy = s.chance(pr.busy, 8);
    let sender = if busy { "alice".to_string() } else { user(s) };
    let bearer = s.chance(pr.bearer, 100);
    // sometimes the very list of another airdrop, so that its proofs could be replayed here
    let tree = match m.drops.iter().filter(|d| d.bearer == bearer).nth(s.usize(m.drops.len().max(1))) { Some(d) if s.chance(1, 4) => d.tree.clone(), _ => gen_tree(s, bearer, pr.entries) };
    let root = gen_root(s, &tree);
    let denom = s.pick(&DENOMS).to_string();
    let sum = tree.entries.iter().fold(0u128, |a, e| a.saturating_add(e.1)).min(1 << 110);
    let x = match s.weighted(&[6, 2, 1]) { 0 => sum, 1 => s.draw128(sum + 1), _ => sum + s.draw(100) as u128 };
    let funds = gen_funds(s, &denom, x);
    let label = if busy && s.chance(5, 6) { Some(format!("n{}", s.draw(200))) } else { gen_label(s, m) };
    if !bearer { return Op::Register { sender, payload: RegisterPayload::Open { merkle_root: root, denom, label }, funds, tree, key: None, public: vec![], signed: Signed::No }; }
    let key = s.usize(KEYS);
    let mut public = public(key, s.chance(1, 6));
    let addr = address_of(&public);
    let high = s.chance(1, 8);
    let right = sign(key, &sha(addr.as_bytes()), high);
    let mut signed = Signed::Yes;
    let mut k = Some(key);
    let sig = match s.weighted(&[24, 1, 1, 1, 1, 1, 1]) {
        0 => hex::encode(right),
        // another key's signature, of its own address or of this one
        1 => { signed = Signed::No; let o = (key + 1) % KEYS; hex::encode(sign(o, &sha(addr.as_bytes()), false)) }
        2 => { signed = Signed::No; let o = (key + 1) % KEYS; hex::encode(sign(o, &sha(address_of(&self::public(o, false)).as_bytes()), false)) }
        // the right key, something else signed
        3 => { if sender != addr { signed = Signed::No; } hex::encode(sign(key, &sha(sender.as_bytes()), false)) }
        4 => { signed = Signed::No; let mut v = right; v[40] ^= 1; hex::encode(v) }
        5 => { signed = Signed::No; ["", "zz", "00"][s.usize(3)].to_string() }
        _ => { signed = Signed::No; k = None; public = vec![4; 12]; hex::encode(right) }
    };
    Op::Register { sender, payload: RegisterPayload::Bearer { merkle_root: root, denom, signer_pub: hex::encode(&public), signer_sig: sig, label }, funds, tree, key: k, public, signed }
}

/// a claim payload for a mostly existing airdrop; says whether it is signed as it should be
pub fn gen_claim(cx: &mut Cx, m: &Model, bad: u64, sender: &str) -> (ClaimPayload, Signed) {
    let s = &mut cx.s;
    let at = if m.drops.is_empty() || s.chance(1, 40) { None } else { Some(s.usize(m.drops.len())) };
    let (id, d) = match at { Some(i) => (addressed(s, m, i), Some(&m.drops[i])), None => { let id = gen_id(s, m); let d = m.find(&id).map(|i| &m.drops[i]); (id, d) } };
    let blank = Tree::new(vec![("alice".into(), 1)]);
    let tree = d.map(|d| &d.tree).unwrap_or(&blank);
    // mostly an entry that has not been paid yet
    let mut e = s.usize(tree.entries.len());
    if let Some(d) = d { if s.chance(1, 2) { for j in 0..tree.entries.len() { let k = (e + j) % tree.entries.len(); if !d.paid.contains_key(&tree.entries[k].0) { e = k; break; } } } }
    let (mut key, mut amt) = tree.entries[e].clone();
    let mut proof = tree.proof(e);
    if s.chance(bad, 8) {
        match s.draw(14) {
            0 => amt = amt.saturating_add(1),
            1 => amt = amt.saturating_sub(1),
            2 => amt = tree.entries[(e + 1) % tree.entries.len()].1,
            3 => key = tree.entries[(e + 1) % tree.entries.len()].0.clone(),
            4 => { proof.pop(); }
            5 => proof.push(hex::encode(sha(b"more"))),
            6 => proof.reverse(),
            7 => if let Some(p) = proof.first_mut() { *p = p.to_uppercase(); },
            8 => if proof.is_empty() { proof.push("ab".into()) } else {
                // an element that is not a hash
                let i = s.usize(proof.len());
                match s.draw(6) { 0 => { proof[i].pop(); } 1 => proof[i].clear(), 2 => proof[i].truncate(62), 3 => proof[i].push_str("00"), 4 => proof[i].insert_str(0, "0x"), _ => { proof[i].pop(); proof[i].push('z'); } }
            },
            9 => if let Some(p) = proof.last_mut() { *p = hex::encode(sha(p.as_bytes())); },
            10 => { let i = s.usize(m.drops.len().max(1)); if let Some(o) = m.drops.get(i) { let j = s.usize(o.tree.entries.len()); key = o.tree.entries[j].0.clone(); amt = o.tree.entries[j].1; proof = o.tree.proof(j); } }
            11 => key = user(s),
            // nearly the same key
            _ => key = match s.draw(8) {
                0 => key.to_uppercase(),
                1 => key.to_lowercase(),
                2 => format!("{key}:"),
                3 => format!("{key} "),
                4 => format!(" {key}"),
                5 => key.trim().to_string(),
                6 => format!("{key}\u{0}"),
                _ => { let cut = key.chars().count().saturating_sub(1); key.chars().take(cut).collect() }
            },
        }
    }
    let bearer = d.map(|d| d.bearer).unwrap_or(false) ^ s.chance(1, 30);
    if !bearer {
        let account = if key == sender && s.chance(1, 2) || s.chance(1, 20) { None } else { Some(key) };
        return (ClaimPayload::Open { airdrop: id, amount: Uint128::new(amt), account, merkle_proof: proof }, Signed::No);
    }
    let account = match s.weighted(&[6, 3, 1]) { 0 => Some(user(s)), 1 => None, _ => Some(["UPPER", "ab", AIR][s.usize(3)].to_string()) };
    let recipient = account.clone().unwrap_or_else(|| sender.to_string());
    let signer = d.and_then(|d| d.signer).unwrap_or(0);
    let msg = |k: &str, r: &str, a: u128| sha(format!("{k}/{r}/{a}").as_bytes());
    let right = msg(&key, &recipient, amt);
    let mut signed = if d.map(|d| d.signer.is_some()).unwrap_or(false) { Signed::Yes } else { Signed::No };
    let sig = if s.chance(bad, 16) {
        signed = Signed::No;
        let other = USERS.iter().find(|u| **u != recipient).unwrap();
        match s.draw(8) {
            0 => sign((signer + 1) % KEYS, &right, false),
            1 => sign(signer, &msg(&key, other, amt), false),
            2 => sign(signer, &msg(&key, &recipient, amt ^ 1), false),
            3 => { let k2 = &tree.entries[(e + 1) % tree.entries.len()].0; if *k2 == key { vec![] } else { sign(signer, &msg(k2, &recipient, amt), false) } }
            4 => vec![],
            5 => vec![7; 64],
            6 => sign(signer, &sha(address_of(&public(signer, false)).as_bytes()), false),
            _ => { let mut v = sign(signer, &right, false); v[9] ^= 4; v }
        }
    } else { let high = s.chance(1, 10); sign(signer, &right, high) };
    let claim_sign = if signed == Signed::No && s.chance(1, 12) { "not hex".into() } else { hex::encode(sig) };
    (ClaimPayload::Bearer { airdrop: id, amount: Uint128::new(amt), account, claim_hash: key, claim_sign, merkle_proof: proof }, signed)
}

fn gen_op(cx: &mut Cx, m: &Model, pr: &Profile) -> Op {
    let w = if m.drops.is_empty() { 0 } else { cx.s.weighted(&[pr.register, pr.fund, pr.claim, pr.close, 1, pr.blocks]) };
    match w {
        0 => gen_register(cx, m, pr),
        1 => {
            let s = &mut cx.s;
            let id = gen_id(s, m);
            let d = m.find(&id).map(|i| &m.drops[i]);
            let sender = match d { Some(d) if !s.chance(1, 4) => d.creator.clone(), _ => user(s) };
            let x = amount(s);
            let funds = gen_funds(s, d.map(|d| d.denom.as_str()).unwrap_or("uosmo"), x);
            Op::Fund { sender, id, funds }
        }
        2 => {
            let sender = user(&mut cx.s);
            let (payload, signed) = gen_claim(cx, m, pr.bad, &sender);
            let funds = if cx.s.chance(1, 30) { vec![coin(5, DENOMS[cx.s.usize(3)])] } else { vec![] };
            Op::Claim { sender, payload, funds, signed }
        }
        3 => {
            let s = &mut cx.s;
            let id = gen_id(s, m);
            let sender = match m.find(&id) { Some(i) if !s.chance(1, 4) => m.drops[i].creator.clone(), _ => user(s) };
            let funds = if s.chance(1, 30) { vec![coin(5, DENOMS[s.usize(3)])] } else { vec![] };
            Op::Close { sender, id, funds }
        }
        4 => Op::Donate { from: user(&mut cx.s), denom: DENOMS[cx.s.usize(3)].to_string(), amount: 1 + cx.s.draw(1000) as u128 },
        _ => Op::Blocks(1 + cx.s.draw(10_000)),
    }
}

// ------------------------------------------------------------------------------------------ histories

pub struct Step<'a> { pub op: &'a Op, pub ok: bool, pub err: &'a str, pub m0: &'a Model, pub m: &'a Model, pub c0: &'a Chain, pub c: &'a Chain }

impl Step<'_> {
    /// coins the contract sent: (to, denom, amount)
    fn sent(&self) -> Vec<(String, String, u128)> { self.c.sends.iter().filter(|s| s.0 == AIR).map(|s| (s.1.clone(), s.2.clone(), s.3)).collect() }
    fn what(&self) -> String { format!("{} -> {}", self.op.show(), if self.ok { "ok".into() } else { format!("failed: {}", self.err) }) }
    fn target(&self) -> Option<usize> {
        match self.op {
            Op::Register { .. } => Some(self.m0.drops.len()),
            Op::Fund { id, .. } | Op::Close { id, .. } => self.m0.find(id),
            Op::Claim { sender, payload, .. } => self.m0.find(claim_of(payload, sender).id),
            _ => None,
        }
    }
}

fn start() -> Chain {
    let mut c = Chain::new(1_700_000_000_000_000_000);
    c.instantiate(Kind::Airdrop, AIR, "creator", &InstantiateMsg {}).unwrap();
    c
}

fn history(cx: &mut Cx, pr: &Profile, mut oracle: impl FnMut(&mut Cx, &Step) -> R) -> R {
    history_with(cx, pr, |_, _, _| Ok(()), &mut oracle)
}

fn history_with(cx: &mut Cx, pr: &Profile, mut before: impl FnMut(&mut Cx, &Model, &Chain) -> R, mut oracle: impl FnMut(&mut Cx, &Step) -> R) -> R {
    let mut c = start();
    let mut m = Model::default();
    // now and then hundreds of airdrops are registered first
    let head = if cx.s.chance(1, 256) { 30 + cx.s.draw(300) } else { 0 };
    if head > 0 { cx.class("hundreds of airdrops"); }
    let few = Profile { entries: pr.entries.min(4), bearer: pr.bearer.min(20), ..*pr };
    let n = head + 3 + cx.s.draw(pr.ops);
    for i in 0..n {
        let a = cx.s.begin();
        let op = if i < head { gen_register(cx, &m, &few) } else { gen_op(cx, &m, pr) };
        before(cx, &m, &c)?;
        let (mut ok, mut err) = (true, String::new());
        if let Some((sender, _, funds)) = op.msg() { for f in &funds { c.add(&sender, &f.denom, f.amount.u128()).ok(); } }
        if let Op::Donate { from, denom, amount } = &op { c.add(from, denom, *amount).ok(); }
        let c0 = c.clone();
        // several operations can share a block
        if !cx.s.chance(1, 4) { c.height += 1; }
        match &op {
            Op::Donate { from, denom, amount } => { c.tx(|c| c.transfer(from, AIR, denom, *amount)).ok(); }
            Op::Blocks(k) => { c.sends.clear(); c.height += k; c.nanos += k * 5_000_000_000; }
            _ => {
                let (sender, msg, funds) = op.msg().unwrap();
                if let Err(e) = c.execute(&sender, AIR, &msg, &funds) { ok = false; err = e; }
            }
        }
        let m0 = m.clone();
        if ok { apply(&mut m, &op, c.height); }
        cx.log(|| format!("h={} {} -> {}", c.height, op.show(), if ok { "ok".to_string() } else { format!("failed: {}", err.chars().take(120).collect::<String>()) }));
        cx.class(match (&op, ok) {
            (Op::Register { .. }, true) => "register", (Op::Register { .. }, false) => "register refused", (Op::Fund { .. }, true) => "fund", (Op::Fund { .. }, false) => "fund refused",
            (Op::Claim { .. }, true) => "claim paid", (Op::Claim { .. }, false) => "claim refused", (Op::Close { .. }, true) => "close", (Op::Close { .. }, false) => "close refused", _ => "other",
        });
        cx.checks += 1;
        oracle(cx, &Step { op: &op, ok, err: &err, m0: &m0, m: &m, c0: &c0, c: &c })?;
        cx.s.end(a);
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ oracles

/// what each airdrop really received and paid
#[derive(Default, Clone)]
struct Ledger { in_: u128, claims: u128, closed: bool, refund: u128, denom: String }

fn c19(cx: &mut Cx) -> R {
    let pr = Profile { register: 8, close: 3, bearer: 25, bad: 1, ..P };
    let mut led: Vec<Ledger> = vec![];
    let mut before: Vec<Rec> = vec![];
    history(cx, &pr, |cx, s| {
        if !s.ok {
            ensure!(s.c.bank == s.c0.bank && s.c.contracts == s.c0.contracts, "airdrop: trace of a failed operation", "{} changed something", s.what());
        }
        let out = s.sent().iter().fold(BTreeMap::new(), |mut a: BTreeMap<String, u128>, x| { *a.entry(x.1.clone()).or_insert(0) += x.2; a });
        if s.ok {
            if let (Op::Register { funds, payload, .. }, _) = (s.op, ()) {
                let denom = match payload { RegisterPayload::Open { denom, .. } | RegisterPayload::Bearer { denom, .. } => denom.clone() };
                led.push(Ledger { in_: crate::core_world::cget(&coins_map(funds), &denom), denom, ..Default::default() });
                ensure!(out.is_empty(), "airdrop: coins sent by a registration", "{} sent {out:?}", s.what());
            } else if let Some(i) = s.target() {
                let l = &mut led[i];
                let sent = out.get(&l.denom).copied().unwrap_or(0);
                ensure!(out.keys().all(|k| *k == l.denom), "airdrop: foreign asset sent", "{} sent {out:?}, the airdrop is of {}", s.what(), l.denom);
                match s.op {
                    Op::Fund { funds, .. } => { l.in_ += crate::core_world::cget(&coins_map(funds), &l.denom); ensure!(sent == 0, "airdrop: coins sent by a funding", "{} sent {sent}", s.what()); }
                    Op::Claim { .. } => l.claims += sent,
                    Op::Close { .. } => { l.refund += sent; l.closed = true; }
                    _ => {}
                }
                ensure!(l.claims + l.refund <= l.in_, "airdrop: pays out more than was put in", "{}: {} went in, {} was claimed, {} sent back", s.what(), l.in_, l.claims, l.refund);
                let other_open = led.iter().enumerate().any(|(j, o)| j != i && !o.closed && o.denom == led[i].denom);
                if matches!(s.op, Op::Claim { .. } | Op::Close { .. }) && other_open { cx.nontrivial(); }
            }
        }
        // holdings
        let mut need: BTreeMap<&str, u128> = BTreeMap::new();
        for l in led.iter().filter(|l| !l.closed) { *need.entry(&l.denom).or_insert(0) += l.in_ - l.claims; }
        for (k, x) in need { ensure!(s.c.bal(AIR, k) >= x, "airdrop: not backed", "after {} the contract holds {}{k}, open airdrops still owe {x}", s.what(), s.c.bal(AIR, k)); }
        // reports
        let now = reports(s.c, led.len())?;
        for (i, (r, l)) in now.iter().zip(&led).enumerate() {
            ensure!(r.total == l.in_ && r.claimed == l.claims && r.denom == l.denom, "airdrop: totals reported differently", "after {} airdrop {i} reports {} put in and {} claimed of {}, really {} and {} of {}", s.what(), r.total, r.claimed, r.denom, l.in_, l.claims, l.denom);
            ensure!(r.closed_at.is_some() == l.closed, "airdrop: closing reported differently", "after {} airdrop {i} reports closed_at {:?}", s.what(), r.closed_at);
            // isolation
            if let Some(b) = before.get(i) { if Some(i) != s.target() || !s.ok { ensure!(r == b, "airdrop: another airdrop changed", "{} changed airdrop {i} from {b:?} to {r:?}", s.what()); } }
        }
        before = now;
        Ok(())
    })
}

/// all claims reported for an airdrop
fn listed_claims(c: &Chain, id: u64) -> Result<BTreeMap<String, u128>, Fail> {
    let mut v = BTreeMap::new();
    let mut after: Option<String> = None;
    for _ in 0..100 {
        let r: ListClaimsResponse = c.query(AIR, &QueryMsg::ListClaims { airdrop: AirdropId::Id(id), start_after: after.clone(), limit: Some(30), order: None }).or_else(|e| fail("claims: cannot be listed", e))?;
        for x in &r.0 {
            ensure!(x.id == id, "claims: of another airdrop", "listing of {id} shows a claim of {}", x.id);
            ensure!(v.insert(x.claim_key.clone(), x.amount.u128()).is_none(), "claims: listed twice", "{} is listed twice for {id}", x.claim_key);
        }
        if r.0.len() < 30 { break; }
        after = r.0.last().map(|x| x.claim_key.clone());
    }
    Ok(v)
}

fn c20(cx: &mut Cx) -> R {
    let pr = Profile { claim: 24, close: 1, bad: 1, entries: 3, ..P };
    // payments really made: airdrop -> key -> amount
    let mut paid: BTreeMap<u64, BTreeMap<String, u128>> = BTreeMap::new();
    history(cx, &pr, |cx, s| {
        if let Op::Claim { sender, payload, .. } = s.op {
            let c = claim_of(payload, sender);
            let i = s.m0.find(c.id).map(|i| i as u64);
            let done = i.and_then(|i| paid.get(&i)).map(|p| p.contains_key(&c.key)).unwrap_or(false);
            if done {
                cx.nontrivial();
                ensure!(!s.ok, "claim: paid twice", "{} although {} was already paid for airdrop {i:?}", s.what(), c.key);
            }
            if s.ok {
                let sent = s.sent();
                let i = match i { Some(i) => i, None => return fail("claim: of no airdrop", s.what()) };
                ensure!(sent.len() == 1, "claim: not one payment", "{} made the payments {sent:?}", s.what());
                paid.entry(i).or_default().insert(c.key.clone(), sent[0].2);
            }
        } else if !matches!(s.op, Op::Close { .. }) {
            ensure!(s.sent().is_empty(), "claim: paid without a claim", "{} sent {:?}", s.what(), s.sent());
        }
        // the record of payments
        for i in 0..s.m.drops.len() as u64 {
            let want = paid.get(&i).cloned().unwrap_or_default();
            let got = listed_claims(s.c, i)?;
            ensure!(got == want, "claim: records differ", "after {} airdrop {i} lists the claims {got:?}, paid were {want:?}", s.what());
            for (k, x) in &want {
                let r: GetClaimResponse = s.c.query(AIR, &QueryMsg::GetClaim { airdrop: AirdropId::Id(i), claim_key: k.clone() }).or_else(|e| fail("claim: record missing", format!("{k} of airdrop {i}: {e}")))?;
                ensure!(r.amount.u128() == *x && r.id == i && r.claim_key == *k, "claim: record differs", "{k} of airdrop {i} was paid {x}, recorded is {r:?}");
                if let Some(l) = &s.m.drops[i as usize].label {
                    let b: Result<GetClaimResponse, _> = s.c.query(AIR, &QueryMsg::GetClaim { airdrop: AirdropId::Label(l.clone()), claim_key: k.clone() });
                    ensure!(b.as_ref() == Ok(&r), "claim: record differs by label", "{k} of airdrop {i} is recorded as {r:?}, asked by its label {l} as {b:?}");
                }
            }
            for u in USERS.into_iter().chain(["", " ", "gift", "gift ", "gift/0", "0"]) { if !want.contains_key(u) {
                let r: Result<GetClaimResponse, _> = s.c.query(AIR, &QueryMsg::GetClaim { airdrop: AirdropId::Id(i), claim_key: u.into() });
                ensure!(r.is_err(), "claim: record of nothing", "{u} was paid nothing by airdrop {i}, recorded is {r:?}");
            } }
        }
        Ok(())
    })
}

fn c21(cx: &mut Cx) -> R {
    let pr = Profile { claim: 26, close: 1, bearer: 50, bad: 4, ..P };
    let (mut good, mut bad) = (false, false);
    history(cx, &pr, |cx, s| {
        if let Op::Claim { sender, payload, signed, .. } = s.op {
            let c = claim_of(payload, sender);
            let acc = accepted(s.m0, &c, *signed);
            if s.ok {
                ensure!(acc, "claim: not committed", "{} although the list, the proof or the signature does not cover it", s.what());
                let d = &s.m0.drops[s.m0.find(c.id).unwrap()];
                let sent = s.sent();
                ensure!(sent == vec![(c.recipient.clone(), d.denom.clone(), c.amount)], "claim: paid to another or a different amount", "{}: expected {}{} to {}, sent {sent:?}", s.what(), c.amount, d.denom, c.recipient);
                good = true;
            } else {
                ensure!(!expected(s.m0, s.op), "claim: entitlement refused", "{} although the airdrop is open and funded, the entitlement unpaid and proof and signature right", s.what());
                if !acc { bad = true; }
            }
            if good && bad { cx.nontrivial(); }
        }
        Ok(())
    })
}

fn c22(cx: &mut Cx) -> R {
    let pr = Profile { register: 8, fund: 9, claim: 6, close: 7, bad: 0, bearer: 40, ..P };
    let (mut good, mut bad) = (false, false);
    history(cx, &pr, |cx, s| {
        let want = expected(s.m0, s.op);
        match s.op {
            Op::Register { .. } => ensure!(s.ok == want, "register: wrong verdict", "{}, it should {}", s.what(), if want { "succeed" } else { "fail" }),
            Op::Fund { .. } | Op::Close { .. } => {
                ensure!(s.ok == want, "creator's operation: wrong verdict", "{}, it should {}", s.what(), if want { "succeed" } else { "fail" });
                if want { good = true } else if s.target().is_some() { bad = true }
            }
            Op::Claim { .. } => if let Some(i) = s.target() { if s.m0.drops[i].closed_at.is_some() { ensure!(!s.ok, "close: not final", "{} after the airdrop was closed", s.what()); bad = true; } },
            _ => {}
        }
        if s.ok {
            if let (Op::Close { .. }, Some(i)) = (s.op, s.target()) {
                let d = &s.m0.drops[i];
                let left = d.total - d.claimed;
                let want = if left > 0 { vec![(d.creator.clone(), d.denom.clone(), left)] } else { vec![] };
                ensure!(s.sent() == want, "close: remainder paid differently", "{}: {} of {} was claimed, sent {:?}", s.what(), d.claimed, d.total, s.sent());
            }
        }
        // every report agrees with the history
        if s.ok { if let Some(i) = s.target() {
            let r = get(s.c, &AirdropId::Id(i as u64)).or_else(|e| fail("airdrop: lost", format!("{}: {e}", s.what())))?;
            ensure!(r == model_rec(s.m, i), "airdrop: reported differently", "after {} airdrop {i} is {:?}, reported {r:?}", s.what(), model_rec(s.m, i));
        } }
        if good && bad { cx.nontrivial(); }
        Ok(())
    })
}

fn c23(cx: &mut Cx) -> R {
    let pr = Profile { ops: 10, claim: 8, close: 3, bearer: 50, bad: 3, ..P };
    let (mut good, mut bad) = (false, false);
    history_with(cx, &pr, |cx, m, c| {
        let k = 1 + cx.s.draw(2);
        for _ in 0..k {
            let sender = user(&mut cx.s);
            let (payload, signed) = gen_claim(cx, m, 4, &sender);
            let cl = claim_of(&payload, &sender);
            if cl.account.is_none() { continue; }
            let r: Result<VerifyClaimResponse, String> = c.query(AIR, &QueryMsg::VerifyClaim { claim: payload.clone() });
            let valid = r.as_ref().map(|r| r.valid).unwrap_or(false);
            let show = || format!("{} signed={signed:?}", serde_json::to_string(&payload).unwrap());
            cx.checks += 1;
            let i = m.find(cl.id);
            let closed = i.map(|i| m.drops[i].closed_at.is_some()).unwrap_or(false);
            cx.log(|| format!("  verify {} -> {r:?}", show()));
            if closed {
                cx.class("verification of a closed airdrop");
                ensure!(!valid, "verify: closed airdrop valid", "{} is reported valid although the airdrop is closed", show());
                continue;
            }
            let acc = accepted(m, &cl, signed);
            ensure!(valid == acc, "verify: wrong answer", "{}: proof and signature are {}, the answer is {r:?}", show(), if acc { "right" } else { "not right" });
            if acc { good = true } else { bad = true }
            if good && bad { cx.nontrivial(); }
            // the claim operation itself, with the airdrop funded and the entitlement unpaid
            if let Some(i) = i {
                let d = &m.drops[i];
                if d.paid.contains_key(&cl.key) || cl.amount == 0 || !valid_addr(&cl.recipient) { continue; }
                let mut c = c.clone();
                let (x, id) = (cl.amount.min(1 << 110), AirdropId::Id(i as u64));
                c.add(&d.creator, &d.denom, x).unwrap();
                if c.execute(&d.creator, AIR, &ExecuteMsg::Fund(id), &[coin(x, &d.denom)]).is_err() || x < cl.amount { continue; }
                let done = c.execute(&sender, AIR, &ExecuteMsg::Claim(payload.clone()), &[]);
                ensure!(done.is_ok() == valid, "verify: disagrees with claiming", "{}: the answer is {r:?}, claiming gives {done:?}", show());
            }
        }
        Ok(())
    }, |_, _| Ok(()))
}

// ------------------------------------------------------------------------------------------ C24

/// walk a listing and compare it with the expected keys and records in ascending order
fn walk<K: Ord + Clone + std::fmt::Debug, V: PartialEq + Clone + std::fmt::Debug>(
    cx: &mut Cx, what: &str, all: &[(K, V)], between: impl Fn(&mut Src) -> K, page: impl Fn(Option<K>, Option<u32>, Option<RangeOrder>) -> Result<Vec<(K, V)>, String>,
) -> R {
    let order = match cx.s.draw(3) { 0 => None, 1 => Some(RangeOrder::Asc), _ => Some(RangeOrder::Desc) };
    let desc = matches!(order, Some(RangeOrder::Desc));
    let mut want: Vec<(K, V)> = all.to_vec();
    want.sort_by(|a, b| a.0.cmp(&b.0));
    if desc { want.reverse(); }
    let limit = match cx.s.weighted(&[2, 6, 1, 1]) { 0 => None, 1 => Some(1 + cx.s.draw(6) as u32), 2 => Some(30), _ => Some(1 + cx.s.draw(30) as u32) };
    let size = limit.unwrap_or(10) as usize;
    let mut after: Option<K> = None;
    let mut seen = vec![];
    for _ in 0..=want.len() / size + 1 {
        let p = page(after.clone(), limit, order.clone()).or_else(|e| fail("listing: refused", format!("{what} after {after:?} limit {limit:?}: {e}")))?;
        ensure!(p.len() <= size, "listing: page too long", "{what} with limit {limit:?} returned {} items", p.len());
        if p.is_empty() { break; }
        after = p.last().map(|x| x.0.clone());
        seen.extend(p);
    }
    ensure!(seen == want, "listing: wrong items", "{what} ({order:?}, limit {limit:?}) visits {seen:?}, expected {want:?}");
    if want.len() >= 3 { cx.nontrivial(); cx.class("listing of at least three items"); }
    cx.checks += 1;
    // from a key in between
    let k = between(&mut cx.s);
    let p = page(Some(k.clone()), limit, order.clone()).or_else(|e| fail("listing: refused", format!("{what} after {k:?}: {e}")))?;
    let w: Vec<(K, V)> = want.iter().filter(|x| if desc { x.0 < k } else { x.0 > k }).take(size).cloned().collect();
    ensure!(p == w, "listing: wrong page", "{what} after {k:?} ({order:?}, limit {limit:?}) returns {p:?}, expected {w:?}");
    // limits
    if let Ok(p) = page(None, Some(0), order) { ensure!(p.is_empty(), "listing: page too long", "{what} with limit 0 returned {} items", p.len()); }
    let over = 31 + cx.s.draw(3) as u32;
    if let Ok(p) = page(None, Some(over), None) { ensure!(p.len() <= 30, "listing: page limit exceeded", "{what} with limit {over} returned {} items", p.len()); }
    Ok(())
}

fn c24(cx: &mut Cx) -> R {
    // mostly many airdrops or many claims, to fill pages
    let mode = cx.s.weighted(&[3, 2, 2]);
    let pr = match mode {
        0 => Profile { register: 20, fund: 1, claim: 4, close: 2, bearer: 20, bad: 0, ..P },
        1 => Profile { ops: 50, register: 60, fund: 1, claim: 2, close: 2, bearer: *cx.s.pick(&[4, 4, 4, 96]), bad: 0, entries: 2, busy: *cx.s.pick(&[0, 0, 7, 8]), ..P },
        _ => Profile { ops: 50, register: 1, fund: 0, claim: 40, close: 0, bearer: 0, bad: 0, entries: 45, blocks: 0, busy: 0 },
    };
    let mut last: Option<(Model, Chain)> = None;
    let mut used: BTreeSet<String> = BTreeSet::new();
    history(cx, &pr, |_, s| {
        let n: LatestAirdropResponse = s.c.query(AIR, &QueryMsg::LatestAirdropId {}).or_else(|e| fail("ids: counter", e))?;
        ensure!(n.0 == s.m.drops.len() as u64, "ids: counter", "after {} registrations the next id is {}", s.m.drops.len(), n.0);
        if let Op::Register { sender, payload, .. } = s.op {
            let label = match payload { RegisterPayload::Open { label, .. } | RegisterPayload::Bearer { label, .. } => label };
            if s.ok {
                let i = s.m.drops.len() as u64 - 1;
                let r = get(s.c, &AirdropId::Id(i)).or_else(|e| fail("ids: not consecutive", format!("{}: airdrop {i} is not there: {e}", s.what())))?;
                let want = model_rec(s.m, i as usize);
                ensure!(r == want, "airdrop: reported differently", "{}: expected {want:?}, reported {r:?}", s.what());
                if let Some(l) = label { ensure!(used.insert(format!("{sender}/{l}")), "labels: bound twice", "{} although {sender} already uses the label", s.what()); }
            } else if expected(s.m0, s.op) {
                return fail("labels: refused", format!("{} although the label is free", s.what()));
            }
        }
        last = Some((s.m.clone(), s.c.clone()));
        Ok(())
    })?;
    let (m, c) = match last { Some(v) => v, None => return Ok(()) };
    let recs: Vec<Rec> = (0..m.drops.len()).map(|i| model_rec(&m, i)).collect();
    // look-ups
    for (i, r) in recs.iter().enumerate() {
        let by_id = get(&c, &AirdropId::Id(i as u64)).or_else(|e| fail("airdrop: lost", e))?;
        ensure!(by_id == *r, "airdrop: reported differently", "airdrop {i} is {r:?}, reported {by_id:?}");
        if let Some(l) = &r.label {
            let by_label = get(&c, &AirdropId::Label(l.clone())).or_else(|e| fail("labels: lost", format!("{l}: {e}")))?;
            ensure!(by_label == *r, "labels: another airdrop", "{l} belongs to {i}, look-up gives {by_label:?}");
            let g: GetLabelResponse = c.query(AIR, &QueryMsg::GetLabel { label: l.clone() }).or_else(|e| fail("labels: lost", format!("{l}: {e}")))?;
            ensure!(g.airdrop_id == i as u64 && g.creator == r.creator && format!("{}/{}", g.creator, g.label) == *l, "labels: reported differently", "{l} of airdrop {i} is reported as {g:?}");
        }
    }
    ensure!(get(&c, &AirdropId::Id(m.drops.len() as u64)).is_err(), "ids: airdrop from nowhere", "an airdrop beyond the last one is reported");
    // listings
    let n = m.drops.len() as u64;
    let air = |o: ListAirdropsQueryOptions| -> Result<Vec<Rec>, String> { c.query::<_, ListAirdropsResponse>(AIR, &QueryMsg::ListAirdrops { option: o }).map(|r| r.0.into_iter().map(rec).collect()) };
    let by_id = |v: Vec<Rec>| v.into_iter().map(|r| (r.id, r)).collect::<Vec<_>>();
    let pairs: Vec<(u64, Rec)> = by_id(recs.clone());
    let some_id = |s: &mut Src| s.draw(n + 2);
    walk(cx, "airdrops by id", &pairs, some_id, |a, l, o| air(ListAirdropsQueryOptions::ByID { start_after: a, limit: l.map(|x| x as _), order: o }).map(by_id))?;
    for (t, b) in [(AirdropType::Open, false), (AirdropType::Bearer, true)] {
        let w: Vec<_> = pairs.iter().filter(|p| p.1.bearer == b).cloned().collect();
        walk(cx, "airdrops by type", &w, some_id, |a, l, o| air(ListAirdropsQueryOptions::ByType { typ: t.clone(), start_after: a, limit: l.map(|x| x as _), order: o }).map(by_id))?;
    }
    let u = if pr.busy > 0 { "alice".to_string() } else { user(&mut cx.s) };
    let w: Vec<_> = pairs.iter().filter(|p| p.1.creator == u).cloned().collect();
    walk(cx, "airdrops by creator", &w, some_id, |a, l, o| air(ListAirdropsQueryOptions::ByCreator { creator: u.clone(), start_after: a, limit: l.map(|x| x as _), order: o }).map(by_id))?;
    let labels: Vec<(String, u64)> = recs.iter().filter_map(|r| r.label.clone().map(|l| (l, r.id))).collect();
    let between = |s: &mut Src| -> String { match s.draw(3) { 0 => format!("{}/m", USERS[s.usize(5)]), 1 => "b".into(), _ => labels.get(s.usize(labels.len().max(1))).map(|l| l.0.clone()).unwrap_or("c".into()) } };
    let lw: Vec<(String, Rec)> = labels.iter().map(|(l, i)| (l.clone(), recs[*i as usize].clone())).collect();
    walk(cx, "airdrops by label", &lw, between, |a, l, o| air(ListAirdropsQueryOptions::ByLabel { start_after: a, limit: l.map(|x| x as _), order: o }).map(|v| v.into_iter().map(|r| (r.label.clone().unwrap_or_default(), r)).collect()))?;
    walk(cx, "labels", &labels, between, |a, l, o| {
        c.query::<_, ListLabelsResponse>(AIR, &QueryMsg::ListLabels { start_after: a, limit: l.map(|x| x as _), order: o }).map(|r| r.0.into_iter().map(|g| (format!("{}/{}", g.creator, g.label), g.airdrop_id)).collect())
    })?;
    if n > 0 {
        // the airdrop with most claims, and any other
        let most = (0..n).max_by_key(|i| m.drops[*i as usize].paid.len()).unwrap();
        for i in [most, cx.s.draw(n)] {
            let id = addressed(&mut cx.s, &m, i as usize);
            let w: Vec<(String, u128)> = m.drops[i as usize].paid.clone().into_iter().collect();
            walk(cx, "claims", &w, |s| format!("user{:03}", s.draw(46)), |a, l, o| {
                c.query::<_, ListClaimsResponse>(AIR, &QueryMsg::ListClaims { airdrop: id.clone(), start_after: a, limit: l.map(|x| x as _), order: o })
                    .map(|r| r.0.into_iter().map(|g| (if g.id == i { g.claim_key } else { format!("{} of airdrop {}", g.claim_key, g.id) }, g.amount.u128())).collect())
            })?;
        }
    }
    Ok(())
}

/// what every successful operation says about itself (C36)
pub fn events(cx: &mut Cx) -> R {
    let pr = Profile { bad: 1, bearer: 45, ..P };
    let mut n = 0;
    history(cx, &pr, |cx, s| {
        let (who, what) = match s.op.msg() { Some(m) => (m.0, s.what()), None => return Ok(()) };
        if !s.ok { return Ok(()); }
        n += 1;
        cx.class("event judged");
        if n >= 3 { cx.nontrivial(); }
        let i = match s.target() { Some(i) => i, None => return Ok(()) };
        let d = &s.m.drops[i];
        let typ = if d.bearer { "bearer" } else { "open" }.to_string();
        let me = ("executor", who);
        let (t, id) = (("airdrop_type", typ.clone()), ("airdrop_id", i.to_string()));
        let sent: u128 = s.sent().iter().map(|x| x.2).sum();
        match s.op {
            Op::Register { .. } => {
                let mut want = vec![me, ("id", i.to_string()), ("type", typ), ("merkle_root", d.root.clone()), ("total_amount", d.total.to_string())];
                if let Some(l) = &d.label { want.push(("label", l.clone())); }
                if d.bearer { want.push(("signer", address_of(&d.public))); }
                told(s.c, AIR, "register", &want, &what)?;
                ensure!(d.label.is_some() || told_value(s.c, AIR, "register", "label").is_none(), "event: register label", "{what}: a label is named");
                Ok(())
            }
            Op::Fund { .. } => told(s.c, AIR, "fund", &[me, t, id, ("amount", (d.total - s.m0.drops[i].total).to_string())], &what),
            Op::Claim { .. } => {
                let to = s.sent().first().map(|x| x.0.clone()).unwrap_or_default();
                let mut want = vec![me, t, id, ("claimer", to), ("amount", sent.to_string())];
                if d.bearer { want.push(("signer", address_of(&d.public))); }
                told(s.c, AIR, "claim", &want, &what)
            }
            Op::Close { .. } => told(s.c, AIR, "close", &[me, t, id, ("redeemed", sent.to_string())], &what),
            _ => Ok(()),
        }
    })
}

// ------------------------------------------------------------------------------------------ answers (C37)

pub type Ask<'a> = &'a mut dyn FnMut(&mut Cx, &Chain, &[String]) -> R;
pub type Judge<'a> = &'a mut dyn FnMut(&mut Cx, &Chain, serde_json::Value) -> R;

/// short histories, with queries between the operations
pub fn answers(cx: &mut Cx, ask: Ask, judge: Judge) -> R {
    use serde_json::json;
    history(cx, &Profile { ops: 8, ..P }, |cx, s| {
        let mut pool: Vec<String> = s.m.labels.keys().cloned().collect();
        pool.push(cx.s.pick(&USERS).to_string());
        for _ in 0..2 {
            if cx.s.chance(1, 2) { ask(cx, s.c, &pool)?; continue; }
            let id = json!({ "id": cx.s.draw(s.m.drops.len() as u64 + 1) });
            let user = cx.s.pick(&USERS).to_string();
            let page = json!({ "limit": if cx.s.chance(1, 2) { json!(1 + cx.s.draw(3)) } else { json!(null) }, "order": cx.s.pick(&[json!("asc"), json!("desc"), json!(null)]), "start_after": null });
            let with = |k: &str, v: serde_json::Value| { let mut p = page.clone(); p[k] = v; p };
            let q = match cx.s.draw(9) {
                0 => json!({ "get_airdrop": { "id": id } }),
                1 => json!({ "list_airdrops": { "option": { "by_i_d": page } } }),
                2 => json!({ "list_airdrops": { "option": { "by_type": with("type", json!(["open", "bearer"][cx.s.usize(2)])) } } }),
                3 => json!({ "list_airdrops": { "option": { "by_creator": with("creator", json!(user)) } } }),
                4 => json!({ "list_airdrops": { "option": { "by_label": page } } }),
                5 => json!({ "latest_airdrop_id": {} }),
                6 => json!({ "list_claims": with("airdrop", id) }),
                7 => json!({ "list_labels": page }),
                _ => match s.op { Op::Claim { payload, .. } => json!({ "verify_claim": { "claim": payload } }), _ => json!({ "get_claim": { "airdrop": id, "claim_key": user } }) },
            };
            judge(cx, s.c, q)?;
        }
        Ok(())
    })
}
