//! A miniature Osmosis: bank, tokenfactory, poolmanager (with pools) and wasm dispatch with submessages and
//! atomic rollback.  The real contract entry points of /repo run on it; messages travel as the JSON /
//! protobuf bytes they would have on chain.

use std::cell::Cell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

use cosmwasm_std::testing::MockApi;
use cosmwasm_std::{
    coin, from_json, to_json_binary, Addr, AllBalanceResponse, BalanceResponse, BankMsg, BankQuery, Binary, BlockInfo, Coin,
    ContractInfo, ContractResult, CosmosMsg, Deps, DepsMut, Empty, Env, Event, MessageInfo, Order, Querier, QuerierResult, QuerierWrapper,
    QueryRequest, Record, Reply, ReplyOn, Response, Storage, SubMsg, SubMsgResponse, SubMsgResult, SystemError, SystemResult,
    Timestamp, TransactionInfo, WasmMsg, WasmQuery,
};
use osmosis_std::types::osmosis::poolmanager::v1beta1 as pm;
use osmosis_std::types::osmosis::tokenfactory::v1beta1 as tf;
use prost::Message;
use serde::Serialize;

use crate::wide::*;

thread_local! {
    static IN_CONTRACT: Cell<bool> = Cell::new(false);
    /// pool records asked for by this thread since the last `take_asked`
    static ASKED: std::cell::RefCell<Vec<u64>> = const { std::cell::RefCell::new(vec![]) };
}

pub fn take_asked() -> Vec<u64> { ASKED.with(|a| std::mem::take(&mut *a.borrow_mut())) }

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if !IN_CONTRACT.with(|c| c.get()) { default(i) }
    }));
}

/// run code under test; a panic (wasm trap) becomes an error
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let prev = IN_CONTRACT.with(|c| c.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_CONTRACT.with(|c| c.set(prev));
    r.map_err(|p| {
        let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        format!("panic: {m}")
    })
}

#[derive(Clone, Default, PartialEq)]
pub struct MemStore(pub BTreeMap<Vec<u8>, Vec<u8>>);

impl Storage for MemStore {
    fn get(&self, key: &[u8]) -> Option<Vec<u8>> { self.0.get(key).cloned() }
    fn set(&mut self, key: &[u8], value: &[u8]) {
        if value.is_empty() { panic!("empty value") }
        self.0.insert(key.to_vec(), value.to_vec());
    }
    fn remove(&mut self, key: &[u8]) { self.0.remove(key); }
    fn range<'a>(&'a self, start: Option<&[u8]>, end: Option<&[u8]>, order: Order) -> Box<dyn Iterator<Item = Record> + 'a> {
        use std::ops::Bound;
        if let (Some(s), Some(e)) = (start, end) { if s > e { return Box::new(std::iter::empty()); } }
        let lo = start.map(|s| Bound::Included(s.to_vec())).unwrap_or(Bound::Unbounded);
        let hi = end.map(|s| Bound::Excluded(s.to_vec())).unwrap_or(Bound::Unbounded);
        let it = self.0.range((lo, hi)).map(|(k, v)| (k.clone(), v.clone()));
        match order { Order::Ascending => Box::new(it), Order::Descending => Box::new(it.rev()) }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { Core, Airdrop, Periphery }

#[derive(Clone, PartialEq)]
pub struct Inst { pub kind: Kind, pub store: MemStore }

#[derive(Clone, PartialEq, Debug)]
pub enum PoolKind {
    /// constant price: one of assets[0] is worth num/den of assets[1]
    Fixed { num: u128, den: u128 },
    Weighted,
    Stable,
    Concentrated,
}

#[derive(Clone, PartialEq, Debug)]
pub struct ChainPool { pub id: u64, pub kind: PoolKind, pub assets: Vec<(String, u128)>, pub fee: u128 }

impl ChainPool { pub fn addr(&self) -> String { format!("pool{}", self.id) } }

#[derive(Clone, PartialEq, Debug)]
pub struct Swap { pub sender: String, pub exact_in: bool, pub routes: Vec<(u64, String)>, pub denom: String, pub amount: u128, pub limit: u128 }

pub type Coins = BTreeMap<String, u128>;

#[derive(Clone, PartialEq)]
pub struct Chain {
    pub bank: BTreeMap<String, Coins>,
    pub supply: Coins,
    pub admins: BTreeMap<String, String>,
    pub contracts: BTreeMap<String, Inst>,
    pub pools: BTreeMap<u64, ChainPool>,
    /// pool records given out as they are
    pub records: BTreeMap<u64, String>,
    pub nanos: u64,
    pub height: u64,
    /// interpret registered rebalance routes the way the core contract stores them (last hop first)
    pub lenient: bool,
    /// swaps requested by contracts in the last transaction
    pub swaps: Vec<Swap>,
    /// bank sends made by contracts in the last transaction: (from, to, denom, amount)
    pub sends: Vec<(String, String, String, u128)>,
    /// attributes of the events contracts emitted in the last transaction, in order of execution
    pub events: Vec<(String, Vec<(String, String)>)>,
}

pub type Res<T> = Result<T, String>;

fn err<T>(s: impl Into<String>) -> Res<T> { Err(s.into()) }

impl Chain {
    pub fn new(nanos: u64) -> Self {
        Chain { bank: BTreeMap::new(), supply: BTreeMap::new(), admins: BTreeMap::new(), contracts: BTreeMap::new(), pools: BTreeMap::new(), records: BTreeMap::new(), nanos, height: 100, lenient: false, swaps: vec![], sends: vec![], events: vec![] }
    }
    pub fn now(&self) -> u64 { self.nanos / 1_000_000_000 }
    pub fn bal(&self, a: &str, d: &str) -> u128 { self.bank.get(a).and_then(|m| m.get(d)).copied().unwrap_or(0) }
    pub fn balances(&self, a: &str) -> Coins { self.bank.get(a).cloned().unwrap_or_default() }
    pub fn supply_of(&self, d: &str) -> u128 { self.supply.get(d).copied().unwrap_or(0) }

    pub fn add(&mut self, a: &str, d: &str, x: u128) -> Res<()> {
        if x == 0 { return Ok(()); }
        let s = self.supply.entry(d.to_string()).or_insert(0);
        *s = s.checked_add(x).ok_or("supply overflow")?;
        let b = self.bank.entry(a.to_string()).or_default().entry(d.to_string()).or_insert(0);
        *b += x;
        Ok(())
    }
    pub fn remove(&mut self, a: &str, d: &str, x: u128) -> Res<()> {
        if x == 0 { return Ok(()); }
        let m = self.bank.entry(a.to_string()).or_default();
        let b = m.get(d).copied().unwrap_or(0);
        if b < x { return err(format!("insufficient funds: {a} has {b}{d}, needs {x}")); }
        if b == x { m.remove(d); } else { m.insert(d.to_string(), b - x); }
        *self.supply.get_mut(d).unwrap() -= x;
        Ok(())
    }
    pub fn transfer(&mut self, from: &str, to: &str, d: &str, x: u128) -> Res<()> {
        self.remove(from, d, x)?;
        self.add(to, d, x)
    }
    fn valid_coins(cs: &[Coin]) -> Res<Coins> {
        let mut m = Coins::new();
        for c in cs {
            if c.denom.is_empty() { return err("invalid denom"); }
            if c.amount.is_zero() { continue; }
            let e = m.entry(c.denom.clone()).or_insert(0u128);
            *e = e.checked_add(c.amount.u128()).ok_or("coin overflow")?;
        }
        Ok(m)
    }
    pub fn send_coins(&mut self, from: &str, to: &str, cs: &[Coin]) -> Res<()> {
        if cs.is_empty() { return Ok(()); }
        let m = Self::valid_coins(cs)?;
        if m.is_empty() { return err("invalid coins: amount is not positive"); }
        for (d, x) in m {
            self.transfer(from, to, &d, x)?;
            self.sends.push((from.to_string(), to.to_string(), d, x));
        }
        Ok(())
    }

    fn env(&self, contract: &str) -> Env {
        Env {
            block: BlockInfo { height: self.height, time: Timestamp::from_nanos(self.nanos), chain_id: "osmosis-1".into() },
            transaction: Some(TransactionInfo { index: 0 }),
            contract: ContractInfo { address: Addr::unchecked(contract) },
        }
    }

    /// run f atomically
    pub fn tx<T>(&mut self, f: impl FnOnce(&mut Chain) -> Res<T>) -> Res<T> {
        self.swaps.clear();
        self.sends.clear();
        self.events.clear();
        let snap = self.clone();
        match f(self) {
            Ok(v) => Ok(v),
            Err(e) => { *self = snap; Err(e) }
        }
    }

    pub fn instantiate<T: Serialize>(&mut self, kind: Kind, addr: &str, sender: &str, msg: &T) -> Res<()> {
        let bin = serde_json::to_vec(msg).unwrap();
        self.tx(|c| {
            c.contracts.insert(addr.to_string(), Inst { kind, store: MemStore::default() });
            let info = MessageInfo { sender: Addr::unchecked(sender), funds: vec![] };
            let resp = c.call(addr, |deps, env| match kind {
                Kind::Core => ibcx_core::contract::instantiate(deps, env, info, parse(&bin)?).map_err(es),
                Kind::Airdrop => ibcx_airdrop::contract::instantiate(deps, env, info, parse(&bin)?).map_err(es),
                Kind::Periphery => ibcx_periphery::contract::instantiate(deps, env, info, parse(&bin)?).map_err(es),
            })?;
            c.dispatch(addr, resp, 0)
        })
    }

    pub fn migrate<T: Serialize>(&mut self, addr: &str, msg: &T) -> Res<()> {
        let bin = serde_json::to_vec(msg).unwrap();
        self.tx(|c| {
            let kind = c.contracts[addr].kind;
            let resp = c.call(addr, |deps, env| match kind {
                Kind::Core => ibcx_core::contract::migrate(deps, env, parse(&bin)?).map_err(es),
                Kind::Airdrop => ibcx_airdrop::contract::migrate(deps, env, parse(&bin)?).map_err(es),
                Kind::Periphery => ibcx_periphery::contract::migrate(deps, env, parse(&bin)?).map_err(es),
            })?;
            c.dispatch(addr, resp, 0)
        })
    }

    pub fn execute<T: Serialize>(&mut self, sender: &str, addr: &str, msg: &T, funds: &[Coin]) -> Res<()> {
        let bin = serde_json::to_vec(msg).unwrap();
        self.execute_raw(sender, addr, &bin, funds)
    }

    pub fn execute_raw(&mut self, sender: &str, addr: &str, bin: &[u8], funds: &[Coin]) -> Res<()> {
        self.tx(|c| c.exec_inner(sender, addr, bin, funds, 0))
    }

    fn exec_inner(&mut self, sender: &str, addr: &str, bin: &[u8], funds: &[Coin], depth: u32) -> Res<()> {
        if depth > 20 { return err("call depth"); }
        if !self.contracts.contains_key(addr) { return err(format!("no such contract {addr}")); }
        let m = Self::valid_coins(funds)?;
        for (d, x) in &m { self.transfer(sender, addr, d, *x)?; }
        let funds: Vec<Coin> = m.into_iter().map(|(d, x)| coin(x, d)).collect();
        let info = MessageInfo { sender: Addr::unchecked(sender), funds };
        let kind = self.contracts[addr].kind;
        let resp = self.call(addr, |deps, env| match kind {
            Kind::Core => ibcx_core::contract::execute(deps, env, info, parse(bin)?).map_err(es),
            Kind::Airdrop => ibcx_airdrop::contract::execute(deps, env, info, parse(bin)?).map_err(es),
            Kind::Periphery => ibcx_periphery::contract::execute(deps, env, info, parse(bin)?).map_err(es),
        })?;
        self.dispatch(addr, resp, depth)
    }

    fn call(&mut self, addr: &str, f: impl FnOnce(DepsMut, Env) -> Res<Response>) -> Res<Response> {
        let env = self.env(addr);
        let mut store = self.contracts[addr].store.clone();
        let r = {
            let q = Q(self);
            let api = MockApi::default();
            guarded(|| f(DepsMut { storage: &mut store, api: &api, querier: QuerierWrapper::new(&q) }, env))
        };
        let resp = r??;
        self.contracts.get_mut(addr).unwrap().store = store;
        self.note_events(addr, &resp)?;
        Ok(resp)
    }

    /// the chain refuses events with blank keys or values and with reserved keys (as wasmd and cw-multi-test 0.20 do)
    fn note_events(&mut self, addr: &str, resp: &Response) -> Res<()> {
        for a in resp.attributes.iter().chain(resp.events.iter().flat_map(|e| e.attributes.iter())) {
            if a.key.trim().is_empty() { return err(format!("empty attribute key, value {}", a.value)); }
            if a.value.trim().is_empty() { return err(format!("empty attribute value, key {}", a.key)); }
            if a.key.trim().starts_with('_') { return err(format!("reserved attribute key {}", a.key)); }
        }
        if !resp.attributes.is_empty() {
            self.events.push((addr.to_string(), resp.attributes.iter().map(|a| (a.key.clone(), a.value.clone())).collect()));
        }
        Ok(())
    }

    fn dispatch(&mut self, from: &str, resp: Response, depth: u32) -> Res<()> {
        for SubMsg { id, msg, reply_on, .. } in resp.messages {
            let data = self.one(from, msg, depth)?;
            if matches!(reply_on, ReplyOn::Success | ReplyOn::Always) {
                let reply = Reply { id, result: SubMsgResult::Ok(SubMsgResponse { events: Vec::<Event>::new(), data }) };
                let kind = self.contracts[from].kind;
                let r = self.call(from, |deps, env| match kind {
                    Kind::Core => ibcx_core::contract::reply(deps, env, reply).map_err(es),
                    _ => err("no reply entry point"),
                })?;
                self.dispatch(from, r, depth + 1)?;
            }
        }
        Ok(())
    }

    fn one(&mut self, from: &str, msg: CosmosMsg, depth: u32) -> Res<Option<Binary>> {
        match msg {
            CosmosMsg::Bank(BankMsg::Send { to_address, amount }) => {
                if to_address.is_empty() { return err("empty address"); }
                self.send_coins(from, &to_address, &amount)?;
                Ok(None)
            }
            CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds }) => {
                self.exec_inner(from, &contract_addr, msg.as_slice(), &funds, depth + 1)?;
                Ok(None)
            }
            CosmosMsg::Stargate { type_url, value } => self.stargate(from, &type_url, value.as_slice()),
            other => err(format!("unsupported message {other:?}")),
        }
    }

    fn stargate(&mut self, from: &str, url: &str, v: &[u8]) -> Res<Option<Binary>> {
        let own = |s: &str| if s == from { Ok(()) } else { Err(format!("{from} cannot sign for {s}")) };
        match url {
            "/osmosis.tokenfactory.v1beta1.MsgCreateDenom" => {
                let m = tf::MsgCreateDenom::decode(v).map_err(es)?;
                own(&m.sender)?;
                let d = format!("factory/{}/{}", m.sender, m.subdenom);
                if m.subdenom.len() > 44 || self.admins.contains_key(&d) { return err("cannot create denom"); }
                self.admins.insert(d.clone(), m.sender);
                Ok(Some(Binary(tf::MsgCreateDenomResponse { new_token_denom: d }.encode_to_vec())))
            }
            "/osmosis.tokenfactory.v1beta1.MsgMint" => {
                let m = tf::MsgMint::decode(v).map_err(es)?;
                own(&m.sender)?;
                let (d, x) = pcoin(m.amount)?;
                if x == 0 { return err("mint amount must be positive"); }
                if self.admins.get(&d) != Some(&m.sender) { return err("not denom admin"); }
                let to = if m.mint_to_address.is_empty() { m.sender } else { m.mint_to_address };
                self.add(&to, &d, x)?;
                Ok(None)
            }
            "/osmosis.tokenfactory.v1beta1.MsgBurn" => {
                let m = tf::MsgBurn::decode(v).map_err(es)?;
                own(&m.sender)?;
                let (d, x) = pcoin(m.amount)?;
                if x == 0 { return err("burn amount must be positive"); }
                if self.admins.get(&d) != Some(&m.sender) { return err("not denom admin"); }
                let who = if m.burn_from_address.is_empty() { m.sender } else { m.burn_from_address };
                self.remove(&who, &d, x)?;
                Ok(None)
            }
            "/osmosis.poolmanager.v1beta1.MsgSwapExactAmountIn" => {
                let m = pm::MsgSwapExactAmountIn::decode(v).map_err(es)?;
                own(&m.sender)?;
                let (d, x) = pcoin(m.token_in)?;
                let limit: u128 = m.token_out_min_amount.parse().map_err(es)?;
                let routes: Vec<(u64, String)> = m.routes.into_iter().map(|r| (r.pool_id, r.token_out_denom)).collect();
                self.swaps.push(Swap { sender: m.sender.clone(), exact_in: true, routes: routes.clone(), denom: d.clone(), amount: x, limit });
                if limit == 0 { return err("token_out_min_amount must be positive"); }
                let out = self.swap_in(&m.sender, &routes, &d, x, true)?;
                if out < limit { return err(format!("swap output {out} below minimum {limit}")); }
                Ok(None)
            }
            "/osmosis.poolmanager.v1beta1.MsgSwapExactAmountOut" => {
                let m = pm::MsgSwapExactAmountOut::decode(v).map_err(es)?;
                own(&m.sender)?;
                let (d, x) = pcoin(m.token_out)?;
                let limit: u128 = m.token_in_max_amount.parse().map_err(es)?;
                let routes: Vec<(u64, String)> = m.routes.into_iter().map(|r| (r.pool_id, r.token_in_denom)).collect();
                self.swaps.push(Swap { sender: m.sender.clone(), exact_in: false, routes: routes.clone(), denom: d.clone(), amount: x, limit });
                if limit == 0 { return err("token_in_max_amount must be positive"); }
                let used = self.swap_out(&m.sender, &routes, &d, x, true)?;
                if used > limit { return err(format!("swap input {used} above maximum {limit}")); }
                Ok(None)
            }
            other => err(format!("unsupported message type {other}")),
        }
    }

    // ---------------------------------------------------------------- pools

    /// exact-in swap along routes; returns the final amount out.  Moves coins only if `real`.
    pub fn swap_in(&mut self, who: &str, routes: &[(u64, String)], denom: &str, amount: u128, real: bool) -> Res<u128> {
        if routes.is_empty() { return err("empty routes"); }
        let rs: Vec<(u64, String)> = if self.lenient { routes.iter().rev().cloned().collect() } else { routes.to_vec() };
        let (mut d, mut x) = (denom.to_string(), amount);
        for (id, out) in rs {
            if x == 0 { return err("token in amount must be positive"); }
            let p = self.pools.get(&id).ok_or_else(|| format!("pool {id} not found"))?.clone();
            let y = self.out_given_in(&p, &d, x, &out)?;
            if y == 0 { return err("token out amount must be positive"); }
            if real { self.move_swap(who, &p, &d, x, &out, y)?; }
            d = out;
            x = y;
        }
        Ok(x)
    }
    /// exact-out swap along routes; returns the amount in.
    pub fn swap_out(&mut self, who: &str, routes: &[(u64, String)], denom: &str, amount: u128, real: bool) -> Res<u128> {
        if routes.is_empty() { return err("empty routes"); }
        // hops as (pool, in, out) in trading order
        let mut hops = vec![];
        if self.lenient {
            for (i, (id, d)) in routes.iter().enumerate() {
                let p = self.pools.get(id).ok_or_else(|| format!("pool {id} not found"))?;
                let other = match routes.get(i + 1) {
                    Some((_, n)) => n.clone(),
                    None => p.assets.iter().map(|a| a.0.clone()).find(|a| a != d).ok_or("no such asset")?,
                };
                hops.push((*id, other, d.clone()));
            }
            hops.reverse();
            if hops.last().unwrap().2 != denom { return err("route does not end in the output denom"); }
        } else {
            for (i, (id, d)) in routes.iter().enumerate() {
                let out = routes.get(i + 1).map(|n| n.1.clone()).unwrap_or_else(|| denom.to_string());
                hops.push((*id, d.clone(), out));
            }
        }
        // required amounts from the last hop back (on the state before the swap, like poolmanager)
        let mut need = amount;
        let mut plan = vec![];
        for (id, i, o) in hops.iter().rev() {
            if need == 0 { return err("token out amount must be positive"); }
            let p = self.pools.get(id).ok_or_else(|| format!("pool {id} not found"))?.clone();
            let x = self.in_given_out(&p, i, o, need)?;
            if x == 0 { return err("token in amount must be positive"); }
            plan.push((p, i.clone(), o.clone(), x, need));
            need = x;
        }
        if real {
            for (p, i, o, x, y) in plan.iter().rev() { self.move_swap(who, p, i, *x, o, *y)?; }
        }
        Ok(need)
    }
    fn move_swap(&mut self, who: &str, p: &ChainPool, i: &str, x: u128, o: &str, y: u128) -> Res<()> {
        self.transfer(who, &p.addr(), i, x)?;
        self.transfer(&p.addr(), who, o, y)
    }
    fn pair(&self, p: &ChainPool, i: &str, o: &str) -> Res<(usize, usize)> {
        let a = p.assets.iter().position(|v| v.0 == i).ok_or_else(|| format!("denom {i} not in pool {}", p.id))?;
        let b = p.assets.iter().position(|v| v.0 == o).ok_or_else(|| format!("denom {o} not in pool {}", p.id))?;
        if a == b { return err("token in and out are the same"); }
        Ok((a, b))
    }
    pub fn out_given_in(&self, p: &ChainPool, i: &str, x: u128, o: &str) -> Res<u128> {
        let (a, b) = self.pair(p, i, o)?;
        let (bi, bo) = (self.bal(&p.addr(), i), self.bal(&p.addr(), o));
        let ov = || "overflow".to_string();
        let y = match p.kind {
            PoolKind::Fixed { num, den } => {
                if a < b { muldiv(x, num, den).ok_or_else(ov)? } else { muldiv(x, den, num).ok_or_else(ov)? }
            }
            PoolKind::Weighted => weighted_out(bi, bo, p.assets[a].1, p.assets[b].1, x, p.fee)?,
            _ => {
                let net = muldiv(x, E18 - p.fee, E18).ok_or_else(ov)?;
                muldiv(bo, net, bi.checked_add(net).ok_or_else(ov)?).ok_or_else(ov)?
            }
        };
        if y >= bo { return err("not enough liquidity"); }
        Ok(y)
    }
    pub fn in_given_out(&self, p: &ChainPool, i: &str, o: &str, y: u128) -> Res<u128> {
        let (a, b) = self.pair(p, i, o)?;
        let (bi, bo) = (self.bal(&p.addr(), i), self.bal(&p.addr(), o));
        let ov = || "overflow".to_string();
        if y >= bo { return err("not enough liquidity"); }
        Ok(match p.kind {
            PoolKind::Fixed { num, den } => {
                if a < b { muldiv_ceil(y, den, num).ok_or_else(ov)? } else { muldiv_ceil(y, num, den).ok_or_else(ov)? }
            }
            PoolKind::Weighted => weighted_in(bi, bo, p.assets[a].1, p.assets[b].1, y, p.fee)?,
            _ => {
                let net = muldiv_ceil(bi, y, bo - y).ok_or_else(ov)?;
                muldiv_ceil(net, E18, E18 - p.fee).ok_or_else(ov)?
            }
        })
    }

    // -------------------------------------------------------------- queries

    /// code under test that reads the chain
    pub fn with_deps<T>(&self, f: impl FnOnce(Deps) -> Res<T>) -> Res<T> {
        let (q, api, store) = (Q(self), MockApi::default(), MemStore::default());
        guarded(|| f(Deps { storage: &store, api: &api, querier: QuerierWrapper::new(&q) }))?
    }

    pub fn query_raw(&self, addr: &str, bin: &[u8]) -> Res<Binary> {
        let inst = self.contracts.get(addr).ok_or_else(|| format!("no such contract {addr}"))?;
        let env = self.env(addr);
        let q = Q(self);
        let api = MockApi::default();
        guarded(|| {
            let deps = Deps { storage: &inst.store, api: &api, querier: QuerierWrapper::new(&q) };
            match inst.kind {
                Kind::Core => ibcx_core::contract::query(deps, env, parse(bin)?).map_err(es),
                Kind::Airdrop => ibcx_airdrop::contract::query(deps, env, parse(bin)?).map_err(es),
                Kind::Periphery => ibcx_periphery::contract::query(deps, env, parse(bin)?).map_err(es),
            }
        })?
    }
    pub fn query<M: Serialize, T: serde::de::DeserializeOwned>(&self, addr: &str, msg: &M) -> Res<T> {
        let b = self.query_raw(addr, &serde_json::to_vec(msg).unwrap())?;
        from_json(&b).map_err(es)
    }

    fn stargate_query(&self, path: &str, data: &[u8]) -> Res<Binary> {
        let mut c = None; // a copy only if a quote is asked for
        match path {
            "/osmosis.poolmanager.v1beta1.Query/EstimateSwapExactAmountIn" => {
                let m = pm::EstimateSwapExactAmountInRequest::decode(data).map_err(es)?;
                let (d, x) = parse_coin(&m.token_in)?;
                let routes: Vec<(u64, String)> = m.routes.into_iter().map(|r| (r.pool_id, r.token_out_denom)).collect();
                let out = c.get_or_insert_with(|| self.clone()).swap_in("", &routes, &d, x, false)?;
                to_json_binary(&serde_json::json!({ "token_out_amount": out.to_string() })).map_err(es)
            }
            "/osmosis.poolmanager.v1beta1.Query/EstimateSwapExactAmountOut" => {
                let m = pm::EstimateSwapExactAmountOutRequest::decode(data).map_err(es)?;
                let (d, x) = parse_coin(&m.token_out)?;
                let routes: Vec<(u64, String)> = m.routes.into_iter().map(|r| (r.pool_id, r.token_in_denom)).collect();
                let used = c.get_or_insert_with(|| self.clone()).swap_out("", &routes, &d, x, false)?;
                to_json_binary(&serde_json::json!({ "token_in_amount": used.to_string() })).map_err(es)
            }
            "/osmosis.poolmanager.v1beta1.Query/Pool" => {
                let m = pm::PoolRequest::decode(data).map_err(es)?;
                ASKED.with(|a| { let mut a = a.borrow_mut(); if a.len() < 10_000 { a.push(m.pool_id); } });
                if let Some(r) = self.records.get(&m.pool_id) { return Ok(Binary(r.clone().into_bytes())); }
                let p = self.pools.get(&m.pool_id).ok_or_else(|| format!("pool {} not found", m.pool_id))?;
                Ok(Binary(self.pool_json(p).into_bytes()))
            }
            other => err(format!("unsupported query {other}")),
        }
    }

    /// the pool record as the chain's JSON encoding prints it
    pub fn pool_json(&self, p: &ChainPool) -> String {
        let bal = |d: &str| self.bal(&p.addr(), d).to_string();
        let shares = serde_json::json!({ "denom": format!("gamm/pool/{}", p.id), "amount": "100000000000000000000" });
        let body = match p.kind {
            PoolKind::Weighted => {
                let assets: Vec<_> = p.assets.iter().map(|(d, w)| serde_json::json!({ "token": { "denom": d, "amount": bal(d) }, "weight": (Uw(*w)).to_string() })).collect();
                let total: u128 = p.assets.iter().map(|a| a.1).sum();
                return format!(
                    "{{\"pool\":{{\"@type\":\"/osmosis.gamm.v1beta1.Pool\",\"address\":\"{}\",\"id\":\"{}\",\"pool_params\":{{\"swap_fee\":\"{}\",\"exit_fee\":\"0.000000000000000000\",\"smooth_weight_change_params\":null}},\"future_pool_governor\":\"24h\",\"total_shares\":{},\"pool_assets\":{},\"total_weight\":\"{}\"}}}}",
                    p.addr(), p.id, dec(p.fee), shares, serde_json::to_string(&assets).unwrap(), Uw(total)
                );
            }
            PoolKind::Concentrated => format!(
                "\"@type\":\"/osmosis.concentratedliquidity.v1beta1.Pool\",\"address\":\"{}\",\"incentives_address\":\"inc\",\"spread_rewards_address\":\"spr\",\"id\":\"{}\",\"current_tick_liquidity\":\"1000.000000000000000000\",\"token0\":\"{}\",\"token1\":\"{}\",\"current_sqrt_price\":\"1.0\",\"current_tick\":\"0\",\"tick_spacing\":\"100\",\"exponent_at_price_one\":\"-6\",\"spread_factor\":\"{}\",\"last_liquidity_update\":\"2023-01-01T00:00:00Z\"",
                p.addr(), p.id, p.assets[0].0, p.assets[1].0, dec(p.fee)
            ),
            _ => {
                let liq: Vec<_> = p.assets.iter().map(|(d, _)| serde_json::json!({ "denom": d, "amount": bal(d) })).collect();
                let sf: Vec<_> = p.assets.iter().map(|(_, w)| *w as u64).collect();
                format!(
                    "\"@type\":\"/osmosis.gamm.poolmodels.stableswap.v1beta1.Pool\",\"address\":\"{}\",\"id\":\"{}\",\"pool_params\":{{\"swap_fee\":\"{}\",\"exit_fee\":\"0.000000000000000000\"}},\"future_pool_governor\":\"24h\",\"total_shares\":{},\"pool_liquidity\":{},\"scaling_factors\":{},\"scaling_factor_controller\":\"ctl\"",
                    p.addr(), p.id, dec(p.fee), shares, serde_json::to_string(&liq).unwrap(), serde_json::to_string(&sf).unwrap()
                )
            }
        };
        format!("{{\"pool\":{{{body}}}}}")
    }
}

/// pool weights are stored on chain multiplied by 2^30
pub const WEIGHT_SCALE: u128 = 1 << 30;
struct Uw(u128);
impl std::fmt::Display for Uw { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.0 * WEIGHT_SCALE) } }

pub fn dec(atomics: u128) -> String { format!("{}.{:018}", atomics / E18, atomics % E18) }

fn es<E: std::fmt::Display>(e: E) -> String { e.to_string() }
fn parse<T: serde::de::DeserializeOwned>(b: &[u8]) -> Res<T> { from_json(b).map_err(|e| format!("parse: {e}")) }
fn pcoin(c: Option<osmosis_std::types::cosmos::base::v1beta1::Coin>) -> Res<(String, u128)> {
    let c = c.ok_or("missing coin")?;
    if c.denom.is_empty() { return err("invalid denom"); }
    let x: u128 = c.amount.parse().map_err(es)?;
    if x == 0 { return err("coin amount must be positive"); }
    Ok((c.denom, x))
}
fn parse_coin(s: &str) -> Res<(String, u128)> {
    let n = s.find(|c: char| !c.is_ascii_digit()).ok_or("invalid coin")?;
    Ok((s[n..].to_string(), s[..n].parse().map_err(es)?))
}

struct Q<'a>(&'a Chain);

impl<'a> Querier for Q<'a> {
    fn raw_query(&self, bin: &[u8]) -> QuerierResult {
        let req: QueryRequest<Empty> = match from_json(bin) {
            Ok(v) => v,
            Err(e) => return SystemResult::Err(SystemError::InvalidRequest { error: e.to_string(), request: bin.into() }),
        };
        let c = self.0;
        let ok = |b: Res<Binary>| SystemResult::Ok(match b { Ok(b) => ContractResult::Ok(b), Err(e) => ContractResult::Err(e) });
        match req {
            QueryRequest::Bank(BankQuery::Balance { address, denom }) => {
                let amount = coin(c.bal(&address, &denom), denom);
                ok(to_json_binary(&BalanceResponse { amount }).map_err(es))
            }
            QueryRequest::Bank(BankQuery::AllBalances { address }) => {
                let amount: Vec<Coin> = c.balances(&address).into_iter().map(|(d, x)| coin(x, d)).collect();
                ok(to_json_binary(&AllBalanceResponse { amount }).map_err(es))
            }
            QueryRequest::Wasm(WasmQuery::Smart { contract_addr, msg }) => ok(c.query_raw(&contract_addr, msg.as_slice())),
            QueryRequest::Wasm(WasmQuery::Raw { contract_addr, key }) => match c.contracts.get(&contract_addr) {
                Some(i) => ok(Ok(Binary(i.store.get(key.as_slice()).unwrap_or_default()))),
                None => SystemResult::Err(SystemError::NoSuchContract { addr: contract_addr }),
            },
            QueryRequest::Stargate { path, data } => ok(c.stargate_query(&path, data.as_slice())),
            other => SystemResult::Err(SystemError::UnsupportedRequest { kind: format!("{other:?}") }),
        }
    }
}

// ---------------------------------------------------------------- weighted pool mathematics of the chain
// Independent port of Osmosis' solveConstantFunctionInvariant / Pow on 18 decimal fixed point.

fn dquo(a: u128, b: u128) -> Res<u128> {
    // round(a * 1e18 / b)
    let q = muldiv(a, E18, b).ok_or("overflow")?;
    let r = mulmod(a, E18, b);
    Ok(if r >= b - r { q + 1 } else { q })
}
fn dmul(a: u128, b: u128) -> u128 {
    let q = muldiv(a, b, E18).unwrap();
    if mulmod(a, b, E18) >= E18 / 2 { q + 1 } else { q }
}
pub fn chain_pow(base: u128, exp: u128) -> Res<u128> {
    if base == 0 { return err("pow: base must be positive"); }
    if base >= 2 * E18 { return err("pow: base must be lesser than two"); }
    let (n, f) = (exp / E18, exp % E18);
    let mut ip = E18;
    {
        let (mut b, mut k) = (base, n);
        while k > 0 {
            if k & 1 == 1 { ip = muldiv(ip, b, E18).ok_or("pow overflow")?; }
            k >>= 1;
            if k > 0 { b = muldiv(b, b, E18).ok_or("pow overflow")?; }
        }
    }
    if f == 0 { return Ok(ip); }
    let x = base.abs_diff(E18);
    let xneg = base < E18;
    let (mut term, mut sum, mut neg, mut k) = (E18, E18 as i128, false, 0u128);
    while term >= 10_000_000_000 {
        let c = f.abs_diff(k * E18);
        let cneg = f < k * E18;
        k += 1;
        term = dmul(dmul(term, c), x) / k;
        if term == 0 { break; }
        if xneg { neg = !neg; }
        if cneg { neg = !neg; }
        if neg { sum -= term as i128 } else { sum += term as i128 }
        if k > 200_000 { return err("pow: out of gas"); }
    }
    Ok(dmul(ip, sum.max(0) as u128))
}
fn weighted_out(bi: u128, bo: u128, wi: u128, wo: u128, x: u128, fee: u128) -> Res<u128> {
    if bi == 0 || bo == 0 { return err("empty pool"); }
    // y = bi / (bi + x*(1-fee)) with 18 decimals
    let num = wmul(bi, E18) * w(E18);
    let den = wmul(bi, E18) + wmul(x, E18 - fee);
    let y: u128 = (num / den).to_string().parse().map_err(es)?;
    let p = chain_pow(y, dquo(wi, wo)?)?;
    if p > E18 { return err("invalid math approximation"); }
    Ok(muldiv(bo, E18 - p, E18).ok_or("overflow")?)
}
fn weighted_in(bi: u128, bo: u128, wi: u128, wo: u128, y: u128, fee: u128) -> Res<u128> {
    if bi == 0 || bo == 0 || y >= bo { return err("not enough liquidity"); }
    let r = dquo(bo, bo - y)?;
    let p = chain_pow(r, dquo(wo, wi)?)?;
    if p < E18 { return err("invalid math approximation"); }
    // ceil(bi*(p-1)/(1-fee))
    let n = wmul(bi, p - E18);
    let d = w(E18 - fee);
    let q = n / d;
    let q = if q * d == n { q } else { q + w(1) };
    Ok(q.to_string().parse().map_err(es)?)
}

/// the contract `who` emitted exactly one event named `name` (under the key method or action) in the last transaction; every stated
/// value is there and not contradicted
pub fn told(c: &Chain, who: &str, name: &str, want: &[(&str, String)], what: &str) -> Result<(), crate::pbt::Fail> {
    let evs: Vec<_> = c.events.iter().filter(|e| e.0 == who && e.1.iter().any(|a| (a.0 == "method" || a.0 == "action") && a.1 == name)).collect();
    if evs.len() != 1 { return crate::pbt::fail("event: not one", format!("{what}: {who} emitted {} events {name}: {:?}", evs.len(), c.events)); }
    for (k, v) in want {
        let got: Vec<&String> = evs[0].1.iter().filter(|a| a.0 == *k).map(|a| &a.1).collect();
        if got.is_empty() || got.iter().any(|g| *g != v) { return crate::pbt::fail(format!("event: {name} {k}"), format!("{what}: the event says {k} = {got:?}, it is {v}")); }
    }
    Ok(())
}
/// a value of the only event `name` of `who`
pub fn told_value(c: &Chain, who: &str, name: &str, key: &str) -> Option<String> {
    c.events.iter().find(|e| e.0 == who && e.1.iter().any(|a| (a.0 == "method" || a.0 == "action") && a.1 == name))?.1.iter().find(|a| a.0 == key).map(|a| a.1.clone())
}
