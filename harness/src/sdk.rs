//! C37: the published client types (ts/sdk) and the contracts speak the same JSON.
//!
//! The types are read from the checked tree's SDK (or, where that cannot be read, from the copy in harness/sdk).

use std::collections::BTreeMap;
use std::sync::OnceLock;

use cosmwasm_std::{coin, from_json, to_json_vec, Addr, CosmosMsg, Empty, Uint128, WasmMsg};
use ibcx_interface::helpers::IbcCore;
use ibcx_interface::{airdrop as air, core, periphery as peri};
use serde_json::{json, Map, Value};

use crate::airdrop_world;
use crate::chain::*;
use crate::core_world::{self, CORE};
use crate::pbt::*;
use crate::periphery_world::{self, PERI};
use crate::said::Said;

const A37: &[&str] = &[
    "the SDK's generated types are the published form of messages and answers; numbers are generated up to 2^53-1 (limits up to 2^32-1), the range a client can send",
    "answers are judged by their shape only (their contents are the other properties' matter)",
];

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C37", quick: 60000, thorough: 1500000, rule: "a message with at least one value was read and written back, a malformed one offered, or an answer of a running contract judged", run: c37, assumptions: A37 }]
}

// ------------------------------------------------------------------------------------------ the SDK's types

#[derive(Clone, Debug, PartialEq)]
enum T {
    Str, Num, Bool, Null, Any,
    Lit(String),
    Arr(Box<T>),
    Tuple(Vec<T>),
    /// fields (name, optional, type); open to further fields
    Obj(Vec<(String, bool, T)>, bool),
    Union(Vec<T>),
    Ref(String),
}

#[derive(Clone, Default)]
struct Sdk { types: BTreeMap<String, T>, answers: BTreeMap<String, T> }

fn tokens(src: &str) -> Vec<String> {
    let b: Vec<char> = src.chars().collect();
    let (mut i, mut out) = (0, vec![]);
    while i < b.len() {
        let c = b[i];
        if c.is_whitespace() { i += 1; continue; }
        if c == '/' && b.get(i + 1) == Some(&'*') {
            i += 2;
            while i + 1 < b.len() && !(b[i] == '*' && b[i + 1] == '/') { i += 1; }
            i += 2;
            continue;
        }
        if c == '/' && b.get(i + 1) == Some(&'/') { while i < b.len() && b[i] != '\n' { i += 1; } continue; }
        if c == '"' || c == '\'' {
            let s = i;
            i += 1;
            while i < b.len() && b[i] != c { i += 1; }
            i += 1;
            out.push(format!("\"{}", b[s + 1..(i - 1).min(b.len())].iter().collect::<String>()));
            continue;
        }
        if c.is_alphanumeric() || c == '_' || c == '$' {
            let s = i;
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_' || b[i] == '$') { i += 1; }
            out.push(b[s..i].iter().collect());
            continue;
        }
        if c == '=' && b.get(i + 1) == Some(&'>') { out.push("=>".into()); i += 2; continue; }
        out.push(c.to_string());
        i += 1;
    }
    out
}

struct P { t: Vec<String>, i: usize }

impl P {
    fn peek(&self) -> &str { self.t.get(self.i).map(|s| s.as_str()).unwrap_or("") }
    fn next(&mut self) -> String { let s = self.peek().to_string(); self.i += 1; s }
    fn eat(&mut self, s: &str) -> bool { if self.peek() == s { self.i += 1; true } else { false } }
    fn want(&mut self, s: &str) -> Option<()> { if self.eat(s) { Some(()) } else { None } }
    fn ty(&mut self) -> Option<T> {
        self.eat("|");
        let mut v = vec![self.post()?];
        while self.eat("|") { v.push(self.post()?); }
        Some(if v.len() == 1 { v.pop().unwrap() } else { T::Union(v) })
    }
    fn post(&mut self) -> Option<T> {
        let mut t = self.prim()?;
        while self.peek() == "[" { self.next(); self.want("]")?; t = T::Arr(Box::new(t)); }
        Some(t)
    }
    fn prim(&mut self) -> Option<T> {
        let s = self.next();
        if let Some(l) = s.strip_prefix('"') { return Some(T::Lit(l.to_string())); }
        Some(match s.as_str() {
            "string" => T::Str, "number" => T::Num, "boolean" => T::Bool, "null" => T::Null, "unknown" | "any" => T::Any,
            "(" => { let t = self.ty()?; self.want(")")?; t }
            "[" => {
                let mut v = vec![];
                while self.peek() != "]" { v.push(self.ty()?); self.eat(","); if self.peek().is_empty() { return None; } }
                self.next();
                T::Tuple(v)
            }
            "{" => self.obj()?,
            "Array" | "Promise" if self.peek() == "<" => { self.next(); let t = self.ty()?; self.want(">")?; if s == "Array" { T::Arr(Box::new(t)) } else { t } }
            n if n.chars().next().map(|c| c.is_alphabetic() || c == '_').unwrap_or(false) => T::Ref(n.to_string()),
            _ => return None,
        })
    }
    /// after the opening brace
    fn obj(&mut self) -> Option<T> {
        let (mut f, mut open) = (vec![], false);
        while !self.eat("}") {
            if self.eat("[") {
                while !self.eat("]") { if self.next().is_empty() { return None; } }
                self.want(":")?;
                self.ty()?;
                open = true;
            } else {
                let k = self.next();
                if k.is_empty() { return None; }
                let opt = self.eat("?");
                self.want(":")?;
                f.push((k.trim_start_matches('"').to_string(), opt, self.ty()?));
            }
            while self.eat(";") || self.eat(",") {}
        }
        Some(T::Obj(f, open))
    }
}

fn read_types(src: &str) -> Option<BTreeMap<String, T>> {
    let mut p = P { t: tokens(src), i: 0 };
    let mut m = BTreeMap::new();
    while !p.peek().is_empty() {
        if !p.eat("export") { p.next(); continue; }
        match p.next().as_str() {
            "type" => { let n = p.next(); p.want("=")?; m.insert(n, p.ty()?); }
            "interface" => { let n = p.next(); p.want("{")?; m.insert(n, p.obj()?); }
            _ => {}
        }
    }
    Some(m)
}

fn snake(s: &str) -> String { s.chars().flat_map(|c| if c.is_uppercase() { vec!['_', c.to_ascii_lowercase()] } else { vec![c] }).collect() }

/// the queries of the read-only interface and the types of their answers
fn read_answers(src: &str) -> Option<BTreeMap<String, T>> {
    let t = tokens(src);
    let from = t.windows(2).position(|w| w[0] == "interface" && w[1].ends_with("ReadOnlyInterface"))?;
    let mut p = P { t, i: from + 2 };
    p.want("{")?;
    let mut m = BTreeMap::new();
    while !p.eat("}") {
        let name = p.next();
        p.want(":")?;
        if p.eat("(") {
            let mut depth = 1;
            while depth > 0 { match p.next().as_str() { "(" => depth += 1, ")" => depth -= 1, "" => return None, _ => {} } }
            p.want("=>")?;
        }
        let ty = p.ty()?;
        p.eat(";");
        if name != "contractAddress" { m.insert(snake(&name), ty); }
    }
    Some(m)
}

const COPIES: [(&str, &str, &str); 3] = [
    ("Core", include_str!("../sdk/Core.types.ts"), include_str!("../sdk/Core.client.ts")),
    ("Airdrop", include_str!("../sdk/Airdrop.types.ts"), include_str!("../sdk/Airdrop.client.ts")),
    ("Periphery", include_str!("../sdk/Periphery.types.ts"), include_str!("../sdk/Periphery.client.ts")),
];

fn read(types: &str, client: &str) -> Option<Sdk> {
    let s = Sdk { types: read_types(types)?, answers: read_answers(client)? };
    let roots = ["InstantiateMsg", "ExecuteMsg", "QueryMsg", "MigrateMsg"];
    if roots.iter().all(|r| s.types.contains_key(*r)) && !s.answers.is_empty() && s.answers.values().all(|t| closed(&s, t, 0)) && s.types.values().all(|t| closed(&s, t, 0)) { Some(s) } else { None }
}

/// every name that occurs is defined
fn closed(s: &Sdk, t: &T, depth: usize) -> bool {
    match t {
        T::Ref(n) => depth > 0 || s.types.contains_key(n),
        T::Arr(t) => closed(s, t, 0),
        T::Tuple(v) | T::Union(v) => v.iter().all(|t| closed(s, t, 0)),
        T::Obj(f, _) => f.iter().all(|f| closed(s, &f.2, 0)),
        _ => true,
    }
}

fn sdks() -> &'static Vec<Sdk> {
    static S: OnceLock<Vec<Sdk>> = OnceLock::new();
    S.get_or_init(|| {
        let repo = std::env::var("IBCX_REPO").unwrap_or_else(|_| "/repo".into());
        COPIES.iter().map(|(n, types, client)| {
            let f = |k: &str| std::fs::read_to_string(format!("{repo}/ts/sdk/src/contracts/{n}.{k}.ts")).unwrap_or_default();
            read(&f("types"), &f("client")).unwrap_or_else(|| read(types, client).expect("the copy of the SDK can be read"))
        }).collect()
    })
}

// ------------------------------------------------------------------------------------------ values of a type

const SAFE: u64 = (1 << 53) - 1;

fn is_uint(s: &str) -> bool { !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit()) && s.parse::<u128>().is_ok() }
fn is_dec(s: &str) -> bool {
    let mut it = s.splitn(2, '.');
    let ok = |s: &str| !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit());
    ok(it.next().unwrap_or("")) && it.next().map(|f| ok(f) && f.len() <= 18).unwrap_or(true)
}

/// why a value is not of the type
fn misfit(s: &Sdk, t: &T, v: &Value, field: &str, at: &str) -> Option<String> {
    let bad = |what: &str| Some(format!("{at}: {what} expected, found {}", v.to_string().chars().take(120).collect::<String>()));
    match t {
        T::Any => None,
        T::Str => if v.is_string() { None } else { bad("a string") },
        T::Num => if v.as_u64().map(|n| field != "limit" || n <= u32::MAX as u64).unwrap_or(false) { None } else { bad("a number") },
        T::Bool => if v.is_boolean() { None } else { bad("true or false") },
        T::Null => if v.is_null() { None } else { bad("null") },
        T::Lit(l) => if v.as_str() == Some(l) { None } else { bad(l) },
        T::Ref(n) => match n.as_str() {
            "Uint128" => if v.as_str().map(is_uint).unwrap_or(false) { None } else { bad("a whole number in a string") },
            "Decimal" => if v.as_str().map(is_dec).unwrap_or(false) { None } else { bad("a decimal number in a string") },
            _ => misfit(s, s.types.get(n)?, v, field, at),
        },
        T::Arr(t) => match v.as_array() { Some(a) => a.iter().enumerate().find_map(|(i, x)| misfit(s, t, x, field, &format!("{at}[{i}]"))), None => bad("a list") },
        T::Tuple(ts) => match v.as_array() {
            Some(a) if a.len() == ts.len() => ts.iter().zip(a).enumerate().find_map(|(i, (t, x))| misfit(s, t, x, field, &format!("{at}[{i}]"))),
            _ => bad("a tuple"),
        },
        T::Union(ts) => {
            let tries: Vec<String> = match ts.iter().map(|t| misfit(s, t, v, field, at)).collect::<Option<Vec<_>>>() { None => return None, Some(x) => x };
            tries.into_iter().max_by_key(|m| m.split(':').next().map(|a| a.len()).unwrap_or(0))
        }
        T::Obj(fs, open) => {
            let o = match v.as_object() { Some(o) => o, None => return bad("an object") };
            for (k, opt, t) in fs {
                match o.get(k) {
                    None if *opt => {}
                    Some(Value::Null) if *opt => {}
                    None => return bad(&format!("the field {k}")),
                    Some(x) => if let Some(m) = misfit(s, t, x, k, &format!("{at}.{k}")) { return Some(m); },
                }
            }
            if !open { if let Some(k) = o.keys().find(|k| !fs.iter().any(|f| f.0 == **k)) { return bad(&format!("no field {k}")); } }
            None
        }
    }
}

/// a random value of the type; strings from the pool now and then
fn value(cx: &mut Cx, s: &Sdk, t: &T, field: &str, pool: &[String]) -> Value {
    match t {
        T::Any | T::Null => Value::Null,
        T::Str => {
            let p: &[&str] = &["", "uosmo", "alice", "factory/osmo1/u", "ibc/27394FB0", "a,b", "Ünicode \"quoted\"\n", "0", "null"];
            if !pool.is_empty() && cx.s.chance(7, 8) { json!(cx.s.pick(pool)) } else { json!(cx.s.pick(p)) }
        }
        T::Num => {
            let top = if field == "limit" { u32::MAX as u64 } else { SAFE };
            json!(cx.s.log_range(0, top as u128) as u64)
        }
        T::Bool => json!(cx.s.chance(1, 2)),
        T::Lit(l) => json!(l),
        T::Ref(n) => match n.as_str() {
            "Uint128" => json!(cx.s.log_range(0, u128::MAX).to_string()),
            "Decimal" => {
                let a = cx.s.log_range(0, u128::MAX);
                json!(cosmwasm_std::Decimal::new(a.into()).to_string())
            }
            _ => value(cx, s, &s.types[n].clone(), field, pool),
        },
        T::Arr(t) => { let n = if cx.s.chance(1, 32) { cx.s.draw(40) } else { cx.s.draw(4) }; Value::Array((0..n).map(|_| value(cx, s, t, field, pool)).collect()) }
        T::Tuple(ts) => Value::Array(ts.iter().map(|t| value(cx, s, t, field, pool)).collect()),
        T::Union(ts) => { let t = cx.s.pick(ts).clone(); value(cx, s, &t, field, pool) }
        T::Obj(fs, _) => {
            let mut m = Map::new();
            for (k, opt, t) in fs {
                if *opt {
                    match cx.s.draw(4) { 0 => continue, 1 => { m.insert(k.clone(), Value::Null); continue } _ => {} }
                }
                m.insert(k.clone(), value(cx, s, t, k, pool));
            }
            Value::Object(m)
        }
    }
}

/// without the fields that are null
fn bare(v: &Value) -> Value {
    match v {
        Value::Object(m) => Value::Object(m.iter().filter(|(_, v)| !v.is_null()).map(|(k, v)| (k.clone(), bare(v))).collect()),
        Value::Array(a) => Value::Array(a.iter().map(bare).collect()),
        v => v.clone(),
    }
}

/// number of places a change can be made at
fn places(v: &Value) -> usize { 1 + match v { Value::Object(m) => m.values().map(places).sum(), Value::Array(a) => a.iter().map(places).sum(), _ => 0 } }

/// change the `n`th place of a value
fn spoil(cx: &mut Cx, v: &mut Value, n: &mut usize) -> bool {
    if *n == 0 {
        *v = match v.take() {
            Value::Object(mut m) => {
                let keys: Vec<String> = m.keys().cloned().collect();
                match cx.s.draw(4) {
                    0 if !keys.is_empty() => { let k = cx.s.pick(&keys).clone(); m.remove(&k); Value::Object(m) }
                    1 if !keys.is_empty() => { let k = cx.s.pick(&keys).clone(); let x = m.remove(&k).unwrap(); m.insert(misspelt(cx, &k), x); Value::Object(m) }
                    2 => { m.insert("unexpected".into(), json!(1)); Value::Object(m) }
                    _ => json!("object"),
                }
            }
            Value::Array(_) => json!({ "list": 1 }),
            Value::String(s) => match cx.s.draw(7) { 0 => json!(5), 1 => Value::Null, 2 => json!([s]), 3 => json!(s.to_uppercase()), 4 => json!(pascal(&s)), 5 => json!(format!("{s}ending")), _ => json!(format!("{s}?")) },
            Value::Number(x) => match cx.s.draw(3) { 0 => json!(x.to_string()), 1 => json!(-1), _ => json!(true) },
            Value::Bool(b) => if cx.s.chance(1, 2) { json!(b.to_string()) } else { json!(b as u8) },
            Value::Null => json!({ "null": 0 }),
        };
        return true;
    }
    *n -= 1;
    match v {
        Value::Object(m) => m.values_mut().any(|x| spoil(cx, x, n)),
        Value::Array(a) => a.iter_mut().any(|x| spoil(cx, x, n)),
        _ => false,
    }
}

fn pascal(k: &str) -> String { k.split('_').map(|w| w.chars().enumerate().map(|(i, c)| if i == 0 { c.to_ascii_uppercase() } else { c }).collect::<String>()).collect() }

fn misspelt(cx: &mut Cx, k: &str) -> String {
    match cx.s.draw(4) {
        0 => format!("{k}_"),
        3 => pascal(k),
        1 => k.split('_').enumerate().map(|(i, w)| if i == 0 { w.to_string() } else { pascal(w) }).collect::<String>() + if k.contains('_') { "" } else { "s" },
        _ => k.to_uppercase(),
    }
}

// ------------------------------------------------------------------------------------------ the contracts' side

/// read as the contracts' type and written back, and what its fields say
fn rust(contract: usize, name: &str, v: &Value) -> Option<Result<(Value, Value), String>> {
    let bin = serde_json::to_vec(v).unwrap();
    macro_rules! table { ($($c:literal $m:ident: $($t:ident)*;)*) => { match (contract, name) {
        $($(($c, stringify!($t)) => Some(guarded(|| from_json::<$m::$t>(&bin).map_err(|e| e.to_string()).and_then(|x| to_json_vec(&x).map(|b| (b, x.said())).map_err(|e| e.to_string()))).and_then(|r| r).map(|(b, m)| (serde_json::from_slice(&b).unwrap(), m))),)*)*
        _ => None,
    } } }
    table! {
        0 core: InstantiateMsg ExecuteMsg QueryMsg MigrateMsg GovMsg RebalanceMsg RebalanceTradeMsg FeePayload GetConfigResponse GetFeeResponse GetPortfolioResponse GetRebalanceResponse GetTradeInfoResponse ListTradeInfoResponse SimulateMintResponse SimulateBurnResponse;
        1 air: InstantiateMsg ExecuteMsg QueryMsg MigrateMsg RegisterPayload ClaimPayload AirdropId ListAirdropsQueryOptions GetAirdropResponse LatestAirdropResponse GetClaimResponse VerifyClaimResponse ListAirdropsResponse ListClaimsResponse GetLabelResponse ListLabelsResponse;
        2 peri: InstantiateMsg ExecuteMsg QueryMsg MigrateMsg SwapInfosCompact SimulateMintExactAmountInResponse SimulateMintExactAmountOutResponse SimulateBurnExactAmountInResponse SimulateBurnExactAmountOutResponse;
    }
}

const NAMES: [&str; 3] = ["core", "airdrop", "periphery"];

fn c37(cx: &mut Cx) -> R {
    match cx.s.weighted(&[12, 1, 1, 1]) {
        0 => messages(cx),
        1 => core_answers(cx),
        2 => airdrop_answers(cx),
        _ => periphery_answers(cx),
    }
}

fn messages(cx: &mut Cx) -> R {
    let c = cx.s.usize(3);
    let s = &sdks()[c];
    let names: Vec<&String> = s.types.keys().collect();
    let name = match cx.s.draw(4) { 0 => "ExecuteMsg".to_string(), 1 => "QueryMsg".to_string(), 2 => ["InstantiateMsg", "MigrateMsg"][cx.s.usize(2)].to_string(), _ => cx.s.pick(&names).to_string() };
    let v = value(cx, s, &T::Ref(name.clone()), "", &[]);
    cx.log(|| format!("{} {name} {v}", NAMES[c]));
    let back = match rust(c, &name, &v) { Some(r) => r, None => return Ok(()) };
    cx.checks += 1;
    if v.as_object().map(|o| !o.is_empty()).unwrap_or(true) { cx.nontrivial(); }
    cx.class("a published message or answer read and written back");
    match back {
        Err(e) => return fail("message: published form refused", format!("{} {name} {v}: {e}", NAMES[c])),
        Ok((b, m)) => {
            ensure!(bare(&m) == bare(&v), "message: fields confused", "{} {name} {v} is taken to mean {m}", NAMES[c]);
            ensure!(bare(&b) == bare(&v), "message: altered by reading and writing", "{} {name} {v} comes back as {b}", NAMES[c]);
            if let Some(m) = misfit(s, &T::Ref(name.clone()), &b, "", &name) { return fail("message: written in another form", format!("{} {name} {v}: {m}", NAMES[c])); }
        }
    }
    // what the SDK does not admit is refused
    if !name.ends_with("Msg") { return Ok(()); }
    let mut x = v.clone();
    let mut n = cx.s.usize(places(&x));
    if !spoil(cx, &mut x, &mut n) || misfit(s, &T::Ref(name.clone()), &x, "", &name).is_none() { return Ok(()); }
    cx.class("a malformed message offered");
    cx.checks += 1;
    cx.log(|| format!("malformed: {x}"));
    if let Some(Ok((b, _))) = rust(c, &name, &x) { return fail("message: malformed one accepted", format!("{} {name} {x} (not of the published form) is read as {b}", NAMES[c])); }
    Ok(())
}

/// a query of the published form, with names that occur on the chain, and the shape of its answer
fn ask(cx: &mut Cx, c: usize, chain: &Chain, addr: &str, pool: &[String]) -> R {
    let s = &sdks()[c];
    let v = value(cx, s, &T::Ref("QueryMsg".into()), "", pool);
    judge(cx, c, chain, addr, v)
}

fn judge(cx: &mut Cx, c: usize, chain: &Chain, addr: &str, v: Value) -> R {
    let s = &sdks()[c];
    let name = v.as_object().and_then(|o| o.keys().next().cloned()).unwrap_or_default();
    let t = match s.answers.get(&name) { Some(t) => t, None => return Ok(()) };
    let a = match chain.query_raw(addr, &serde_json::to_vec(&v).unwrap()) { Ok(a) => a, Err(_) => { cx.class("query refused"); return Ok(()); } };
    let a: Value = match serde_json::from_slice(&a) { Ok(a) => a, Err(e) => return fail("answer: not JSON", format!("{v}: {e}")) };
    cx.checks += 1;
    cx.nontrivial();
    cx.class("answer of a running contract judged");
    if let Some(m) = misfit(s, t, &a, "", &name) { return fail("answer: not of the published form", format!("{} {v} is answered {a}: {m}", NAMES[c])); }
    Ok(())
}

fn core_answers(cx: &mut Cx) -> R {
    let mut pr = core_world::BASE;
    pr.max_ops = 6;
    core_world::history(cx, &pr, |cx, s, _| {
        if let Some((who, msg, _)) = s.msg() {
            let v: Value = serde_json::from_slice(&to_json_vec(msg).unwrap()).unwrap();
            if let Some(m) = misfit(&sdks()[0], &T::Ref("ExecuteMsg".into()), &v, "", "ExecuteMsg") { return fail("message: written in another form", format!("{who}: {v}: {m}")); }
        }
        let mut pool: Vec<String> = s.post.units.iter().map(|u| u.0.clone()).collect();
        pool.extend([s.post.reserve_denom.clone(), s.post.index_denom.clone(), cx.s.pick(&core_world::USERS).to_string()]);
        let now = s.c.now();
        for _ in 0..3 {
            if cx.s.chance(1, 2) { ask(cx, 0, s.c, CORE, &pool)?; continue; }
            // queries that are answered
            let time = match cx.s.draw(3) { 0 => Value::Null, 1 => json!(now), _ => json!(now + cx.s.draw(1000)) };
            let denom = cx.s.pick(&pool).clone();
            let v = match cx.s.draw(8) {
                0 => json!({ "get_config": { "time": time } }),
                1 => json!({ "get_fee": { "time": time } }),
                2 => json!({ "get_portfolio": { "time": time } }),
                3 => json!({ "get_rebalance": {} }),
                4 => json!({ "list_trade_info": { "denom_in": denom, "limit": null, "order": "asc", "start_after": null } }),
                5 => json!({ "simulate_mint": { "amount": "1000", "funds": null, "time": time } }),
                6 => json!({ "simulate_burn": { "amount": "1000", "time": time } }),
                _ => json!({ "get_total_supply": {} }),
            };
            judge(cx, 0, s.c, CORE, v)?;
        }
        helpers(cx, s)
    })
}

/// the Rust client's helpers ask, and send, what they say
fn helpers(cx: &mut Cx, s: &core_world::Step) -> R {
    let ibc = IbcCore(Addr::unchecked(CORE));
    let now = s.c.now();
    let time = match cx.s.draw(3) { 0 => None, 1 => Some(now), _ => Some(now + cx.s.draw(100000)) };
    let amount = Uint128::new(cx.s.log_range(0, 1_000_000_000_000));
    let funds = if cx.s.chance(1, 2) { None } else { Some(s.post.units.iter().map(|u| coin(amount.u128() * 2, &u.0)).collect::<Vec<_>>()) };
    let k = cx.s.draw(5);
    let (what, direct) = match k {
        0 => ("get_config", json!({ "get_config": { "time": time } })),
        1 => ("get_fee", json!({ "get_fee": { "time": time } })),
        2 => ("get_portfolio", json!({ "get_portfolio": { "time": time } })),
        3 => ("simulate_mint", json!({ "simulate_mint": { "amount": amount, "funds": funds, "time": time } })),
        _ => ("simulate_burn", json!({ "simulate_burn": { "amount": amount, "time": time } })),
    };
    let by: Result<Value, String> = s.c.with_deps(|d| {
        let q = &d.querier;
        macro_rules! said { ($e:expr) => { $e.map(|x| x.said()).map_err(|e| e.to_string()) } }
        match k {
            0 => said!(ibc.get_config(q, time)),
            1 => said!(ibc.get_fee(q, time)),
            2 => said!(ibc.get_portfolio(q, time)),
            3 => said!(ibc.simulate_mint(q, amount, funds.clone(), time)),
            _ => said!(ibc.simulate_burn(q, amount, time)),
        }
    });
    let asked = s.c.query_raw(CORE, &serde_json::to_vec(&direct).unwrap()).map(|a| serde_json::from_slice::<Value>(&a).unwrap());
    cx.checks += 1;
    match (&by, &asked) {
        (Ok(a), Ok(b)) => ensure!(bare(a) == bare(b), "helper: answers something else", "{what} returns {a}, asked directly {direct} gives {b}"),
        (Err(_), Err(_)) => {}
        _ => return fail("helper: answers something else", format!("{what} returns {by:?}, asked directly {direct} gives {asked:?}")),
    }
    if let Some((_, msg, funds)) = s.msg() {
        let funds = funds.to_vec();
        for (call, with) in [(ibc.call::<Empty, _>(msg.clone()), vec![]), (ibc.call_with_funds(msg.clone(), funds.clone()), funds)] {
            match call {
                Ok(CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg: m, funds: f })) => {
                    let m: Value = serde_json::from_slice(&m).unwrap_or(Value::Null);
                    ensure!(contract_addr == CORE && f == with && bare(&m) == bare(&msg.said()), "helper: sends something else", "{} becomes {m} to {contract_addr} with {f:?}", msg.said());
                }
                x => return fail("helper: sends something else", format!("{} becomes {x:?}", msg.said())),
            }
        }
    }
    Ok(())
}

fn airdrop_answers(cx: &mut Cx) -> R { airdrop_world::answers(cx, &mut |cx, c, pool| ask(cx, 1, c, airdrop_world::AIR, pool), &mut |cx, c, v| judge(cx, 1, c, airdrop_world::AIR, v)) }

fn periphery_answers(cx: &mut Cx) -> R { periphery_world::answers(cx, &mut |cx, c, v| judge(cx, 2, c, PERI, v)) }
