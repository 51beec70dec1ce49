//! Histories of the index contract (contracts/core) on the miniature chain.

use std::collections::BTreeMap;

use cosmwasm_std::{coin, Coin, Decimal, Uint128, Uint512};
use ibcx_interface::core::*;
use ibcx_interface::types::{SwapRoute, SwapRoutes};
use serde_json::json;

use crate::chain::*;
use crate::pbt::*;
use crate::wide::*;

pub const CORE: &str = "core";
pub const MAX_RATE: u128 = 21_979_553_000; // 0.000000021979553
pub const USERS: [&str; 10] = ["alice", "bob", "carol", "gov", "gov2", "collector", "coll2", "manager", "mgr2", "mallory"];
pub const DENOMS: [&str; 7] = ["uatom", "ujuno", "ibc/27394FB092D2ECCD56123C74F36E4C1F", "uosmo", "uusdc", "factory/x/ukrw", "uscrt"];
/// the denoms of histories with a wide portfolio, the ordinary ones first
pub const ALL: [&str; 16] = ["uatom", "ujuno", "ibc/27394FB092D2ECCD56123C74F36E4C1F", "uosmo", "uusdc", "factory/x/ukrw", "uscrt",
    "uakt", "ustars", "uregen", "factory/y/ukrw", "ibc/27394FB092D2ECCD56123C74F36E4C1E", "aevmos", "UATOM", "uatom2", "zz"];
pub const RICH: u128 = 1_000_000_000_000_000_000_000_000_000_000_000_000; // 1e36

pub type Units = Vec<(String, u128)>;

pub fn d(x: u128) -> Decimal { Decimal::new(Uint128::new(x)) }
fn un(v: &[(String, Decimal)]) -> Units { v.iter().map(|(k, x)| (k.clone(), x.atomics().u128())).collect() }
pub fn du(v: &Units) -> Vec<(String, Decimal)> { v.iter().map(|(k, x)| (k.clone(), d(*x))).collect() }
pub fn uget(v: &Units, k: &str) -> Option<u128> { v.iter().find(|u| u.0 == k).map(|u| u.1) }
pub fn coins_map(v: &[Coin]) -> Coins {
    let mut m = Coins::new();
    for c in v { if !c.amount.is_zero() { *m.entry(c.denom.clone()).or_insert(0) += c.amount.u128(); } }
    m
}
pub fn cget(m: &Coins, k: &str) -> u128 { m.get(k).copied().unwrap_or(0) }
pub fn valid_addr(s: &str) -> bool { s.len() >= 3 && s.len() <= 90 && s.to_lowercase() == s }

#[derive(Clone, Debug, PartialEq)]
pub struct Stream { pub rate: u128, pub freeze: bool, pub last: u64, pub collected: Coins }

#[derive(Clone, Debug, PartialEq)]
pub struct Reb { pub manager: Option<String>, pub deflation: Units, pub inflation: Units }

/// everything the contract reports at the current time, plus what it holds
#[derive(Clone, Debug, PartialEq)]
pub struct Obs {
    pub now: u64,
    pub gov: String,
    pub pending: Option<String>,
    pub paused: bool,
    pub expires: Option<u64>,
    pub index_denom: String,
    pub reserve_denom: String,
    pub collector: String,
    pub mint_fee: Option<u128>,
    pub burn_fee: Option<u128>,
    pub stream: Option<Stream>,
    pub units: Units,
    pub assets: Coins,
    pub supply: u128,
    pub total_supply: u128,
    pub reb: Option<Reb>,
    pub reserve_units: Units,
    pub held: Coins,
}

pub fn observe(c: &Chain) -> Result<Obs, String> {
    let cfg: GetConfigResponse = c.query(CORE, &QueryMsg::GetConfig { time: None })?;
    let fee: GetFeeResponse = c.query(CORE, &QueryMsg::GetFee { time: None })?;
    let pf: GetPortfolioResponse = c.query(CORE, &QueryMsg::GetPortfolio { time: None })?;
    let ts: Uint128 = c.query(CORE, &QueryMsg::GetTotalSupply {})?;
    let reb: GetRebalanceResponse = c.query(CORE, &QueryMsg::GetRebalance {})?;
    // proceeds set aside are not exposed by a query; read the contract's state entry like a chain client can
    let reserve_units = match c.contracts[CORE].store.0.get(&b"reserve_units"[..]) {
        Some(b) => un(&serde_json::from_slice::<Vec<(String, Decimal)>>(b).map_err(|e| e.to_string())?),
        None => vec![],
    };
    Ok(Obs {
        now: c.now(),
        gov: cfg.gov.into_string(),
        pending: cfg.pending_gov.map(|v| v.into_string()),
        paused: cfg.paused.paused,
        expires: cfg.paused.expires_at,
        index_denom: cfg.index_denom,
        reserve_denom: cfg.reserve_denom,
        collector: fee.collector.into_string(),
        mint_fee: fee.mint_fee.map(|v| v.atomics().u128()),
        burn_fee: fee.burn_fee.map(|v| v.atomics().u128()),
        stream: fee.streaming_fee.map(|s| Stream { rate: s.rate.atomics().u128(), freeze: s.freeze, last: s.last_collected_at, collected: coins_map(&s.collected) }),
        units: un(&pf.units),
        assets: coins_map(&pf.assets),
        supply: pf.total_supply.u128(),
        total_supply: ts.u128(),
        reb: reb.rebalance.map(|r| Reb { manager: r.manager.map(|m| m.into_string()), deflation: un(&r.deflation), inflation: un(&r.inflation) }),
        reserve_units,
        held: c.balances(CORE),
    })
}

#[derive(Clone, Debug, PartialEq)]
pub struct Info { pub routes: SwapRoutes, pub cooldown: u64, pub max: u128, pub last: Option<u64> }

/// facts established by the history alone (no query of the contract except where noted)
#[derive(Clone, Debug)]
pub struct Track {
    pub gov: String,
    pub pending: Option<String>,
    /// Some(expiry) while a pause has been placed and not released
    pub pause: Option<Option<u64>>,
    pub index_denom: String,
    pub reserve_denom: String,
    pub collector: String,
    pub mint_fee: Option<u128>,
    pub burn_fee: Option<u128>,
    /// (rate, frozen)
    pub stream: Option<(u128, bool)>,
    /// instant up to which streaming fees have been charged
    pub last: u64,
    /// stored units (as reported right after the last operation that may change them)
    pub units: Units,
    pub reserve_units: Units,
    /// streaming fees booked and not yet paid
    pub owed: Coins,
    pub supply: u128,
    pub reb: Option<Reb>,
    pub infos: BTreeMap<(String, String), Info>,
    /// backing shortfall explained by the listed rounding findings, per asset, in 1e-18 base units
    pub slack: BTreeMap<String, Uint512>,
}

impl Track {
    pub fn paused_at(&self, now: u64) -> bool {
        match self.pause { None => false, Some(None) => true, Some(Some(e)) => now < e }
    }
    pub fn accruing(&self) -> Option<u128> { match self.stream { Some((r, false)) => Some(r), _ => None } }
    /// (1+r)^t - 1 in atomics for the time since the last accrual, None if it does not fit
    pub fn factor(&self, now: u64) -> Option<u128> {
        match self.accruing() {
            Some(r) if now > self.last => factor(r, now - self.last),
            _ => Some(0),
        }
    }
    /// the compound factor has exceeded 100%: see known finding K4
    pub fn overgrown(&self, now: u64) -> bool { self.factor(now).map(|f| f > E18).unwrap_or(true) }
    pub fn units_at(&self, now: u64) -> Units {
        let f = self.factor(now).unwrap_or(0);
        self.units.iter().map(|(k, u)| (k.clone(), u - unit_mul(*u, f).unwrap_or(0).min(*u))).collect()
    }
}

pub fn factor(rate: u128, t: u64) -> Option<u128> {
    // fixed point power by squaring with 18 decimals
    let mut base = Decimal::one() + d(rate);
    let mut acc = Decimal::one();
    let mut e = t;
    if e == 0 { return Some(0); }
    // same association order as Decimal::checked_pow
    loop {
        if e <= 1 { break; }
        if e % 2 == 0 { base = base.checked_mul(base).ok()?; e /= 2; }
        else { acc = base.checked_mul(acc).ok()?; base = base.checked_mul(base).ok()?; e = (e - 1) / 2; }
    }
    Some(base.checked_mul(acc).ok()?.atomics().u128() - E18)
}

#[derive(Clone, Debug)]
pub enum Op {
    Advance(u64, u64),
    Exec { sender: String, msg: ExecuteMsg, funds: Vec<Coin> },
    Raw { sender: String, json: String, funds: Vec<Coin> },
    Transfer { from: String, to: String, amount: u128 },
}

impl Op {
    pub fn show(&self) -> String {
        match self {
            Op::Advance(s, n) => format!("advance {s}s {n}ns"),
            Op::Exec { sender, msg, funds } => format!("{sender}: {} funds={}", serde_json::to_string(msg).unwrap(), show_coins(funds)),
            Op::Raw { sender, json, funds } => format!("{sender}: raw {json} funds={}", show_coins(funds)),
            Op::Transfer { from, to, amount } => format!("{from} sends {amount} index tokens to {to}"),
        }
    }
}
pub fn show_coins(v: &[Coin]) -> String { v.iter().map(|c| format!("{}{}", c.amount, c.denom)).collect::<Vec<_>>().join(",") }

pub struct World { pub c: Chain, pub t: Track, pub obs: Obs, pub all: &'static [&'static str] }

pub struct Step<'a> {
    pub op: &'a Op,
    pub ok: bool,
    pub err: String,
    pub pre: &'a Obs,
    pub post: &'a Obs,
    pub t0: &'a Track,
    pub c0: &'a Chain,
    pub c: &'a Chain,
}

impl<'a> Step<'a> {
    pub fn delta(&self, who: &str, denom: &str) -> i128 { self.c.bal(who, denom) as i128 - self.c0.bal(who, denom) as i128 }
    pub fn msg(&self) -> Option<(&'a str, &'a ExecuteMsg, &'a [Coin])> {
        match self.op { Op::Exec { sender, msg, funds } => Some((sender.as_str(), msg, funds.as_slice())), _ => None }
    }
}

// ------------------------------------------------------------------------------------------- generators

pub fn gen_rate(s: &mut Src) -> u128 {
    match s.weighted(&[4, 3, 2, 1, 1, 1, 1]) {
        0 => E18 / 1000 * (1 + s.draw(300) as u128),          // 0.1% .. 30%
        1 => E18 / 10000 * (1 + s.draw(100) as u128),         // up to 1%
        2 => 1 + s.draw128(E18 - 1),                          // anything in (0,1]
        3 => E18 - 1,
        4 => 1,
        5 => E18,
        _ => if s.chance(1, 2) { 0 } else { E18 + 1 + s.draw(5) as u128 },
    }
}
pub fn gen_good_rate(s: &mut Src) -> u128 {
    match s.weighted(&[5, 3, 2, 1]) {
        0 => E18 / 1000 * (1 + s.draw(100) as u128),
        1 => E18 / 10000 * (1 + s.draw(100) as u128),
        2 => 1 + s.draw128(E18 / 2),
        _ => *s.pick(&[1u128, E18 - 1, E18 / 3, 999_999_999_999]),
    }
}
pub fn gen_stream_rate(s: &mut Src) -> u128 {
    match s.weighted(&[4, 2, 2, 1]) {
        0 => 1 + s.draw128(MAX_RATE),
        1 => MAX_RATE,
        2 => s.log_range(1, MAX_RATE),
        _ => 1,
    }
}
pub fn gen_unit(s: &mut Src) -> u128 {
    match s.weighted(&[4, 3, 3, 2, 1]) {
        0 => E18 / 1000 * (1 + s.draw(50_000) as u128),        // 3 decimals
        1 => s.log_range(1, 1_000_000 * E18),                  // any precision up to 1e6
        2 => E18 * (1 + s.draw(40) as u128),
        3 => 1 + s.draw128(3 * E18),
        _ => s.log_range(1, 1_000_000),                        // dust
    }
}
/// index token amount
pub fn gen_amount(s: &mut Src) -> u128 {
    match s.weighted(&[12, 9, 6, 3, 3, 1]) {
        0 => 1_000_000 * (1 + s.draw(1000) as u128),
        1 => s.log_range(1, 1_000_000_000_000),
        2 => 1 + s.draw(200) as u128,
        3 => s.log_range(1, 1_000_000_000_000_000_000_000),
        5 => s.log_range(1_000_000_000_000_000_000_000, 100_000_000_000_000_000_000_000_000_000),
        _ => *s.pick(&[1u128, 2, 3, 7, 10, 999_999, 1_000_001]),
    }
}
pub fn gen_user(s: &mut Src) -> String { s.pick(&USERS).to_string() }
fn sender(s: &mut Src, entitled: &str) -> String { if s.chance(1, 5) { gen_user(s) } else { entitled.to_string() } }
pub fn gen_addr(s: &mut Src) -> String {
    if s.chance(1, 12) { s.pick(&["", "ab", "Alice", "GOV", "x"]).to_string() } else { gen_user(s) }
}
/// where coins of an operation go: sometimes to the contract itself
fn gen_recipient(s: &mut Src) -> Option<String> { if s.chance(1, 24) { Some(CORE.to_string()) } else { gen_opt_addr(s) } }
fn gen_opt_addr(s: &mut Src) -> Option<String> { if s.chance(1, 2) { Some(gen_addr(s)) } else { None } }

/// how op kinds are weighted for one property
#[derive(Clone, Copy)]
pub struct Profile {
    pub advance: u32, pub mint: u32, pub burn: u32, pub realize: u32, pub transfer: u32, pub pause: u32, pub handover: u32, pub fee: u32,
    pub reserve: u32, pub route: u32, pub init: u32, pub trade: u32, pub finalize: u32, pub manager: u32, pub raw: u32,
    /// share (of 8) of histories with a streaming fee
    pub streaming: u64,
    pub max_ops: u64,
    /// share (of 16) of histories that carry rebalances through to their end
    pub script: u64,
    /// allow idle periods so long that the compound factor passes 100%
    pub overlong: bool,
    /// one in so many histories has a wide portfolio
    pub wide: u64,
}
pub const BASE: Profile = Profile { advance: 10, mint: 12, burn: 10, realize: 5, transfer: 1, pause: 2, handover: 2, fee: 3, reserve: 1, route: 3, init: 3, trade: 6, finalize: 3, manager: 1, raw: 0, streaming: 6, max_ops: 24, script: 2, overlong: false, wide: 24 };

pub fn route(id: u64, denom: &str) -> SwapRoutes { SwapRoutes(vec![SwapRoute { pool_id: id, token_denom: denom.to_string() }]) }

/// pool of a pair of assets (order independent), every pair has one
pub fn pair_pool(a: &str, b: &str) -> u64 {
    let i = ALL.iter().position(|x| *x == a).unwrap_or(0) as u64;
    let j = ALL.iter().position(|x| *x == b).unwrap_or(0) as u64;
    let (i, j) = if i < j { (i, j) } else { (j, i) };
    if j < 7 { 1 + i * 10 + j } else { 200 + i * 20 + j }
}

pub fn new_chain(s: &mut Src, plain_prices: bool, wide: bool) -> Chain {
    let all: &[&str] = if wide { &ALL } else { &DENOMS };
    let mut c = Chain::new(1_700_000_000_000_000_000 + s.draw(3) * 333_333_333);
    c.lenient = true;
    for u in USERS { for dn in all.iter() { c.add(u, dn, RICH).unwrap(); } }
    for i in 0..all.len() {
        for j in i + 1..all.len() {
            let (num, den) = if plain_prices { (1, 1) } else {
                match s.weighted(&[2, 3, 2]) { 0 => (1, 1), 1 => (1 + s.draw(20) as u128, 1 + s.draw(20) as u128), _ => (1 + s.draw(1_000_000) as u128, 1 + s.draw(1_000_000) as u128) }
            };
            let id = pair_pool(all[i], all[j]);
            let p = ChainPool { id, kind: PoolKind::Fixed { num, den }, assets: vec![(all[i].into(), 1), (all[j].into(), 1)], fee: 0 };
            for dn in [all[i], all[j]] { c.add(&p.addr(), dn, RICH).unwrap(); }
            c.pools.insert(id, p);
        }
    }
    // one pool holds every asset, a route may cross it more than once
    let (num, den) = if plain_prices { (1, 1) } else { (1 + s.draw(9) as u128, 1 + s.draw(9) as u128) };
    let p = ChainPool { id: ALL_POOL, kind: PoolKind::Fixed { num, den }, assets: all.iter().map(|x| (x.to_string(), 1)).collect(), fee: 0 };
    for dn in all.iter() { c.add(&p.addr(), dn, RICH).unwrap(); }
    c.pools.insert(p.id, p);
    c
}

pub const ALL_POOL: u64 = 99;

pub struct Genesis { pub msg: InstantiateMsg }

pub fn gen_genesis(cx: &mut Cx, pr: &Profile, wide: bool) -> Genesis {
    let s = &mut cx.s;
    let all: &[&str] = if wide { &ALL } else { &DENOMS };
    let n = if wide { 5 + s.usize(12) } else { 1 + s.usize(4) };
    let off = s.usize(all.len());
    let mut units: Units = vec![];
    for i in 0..n { let u = gen_unit(s); units.push((all[(off + i) % all.len()].to_string(), u)); }
    if s.chance(1, 30) { units.clear(); }
    let fee = FeePayload {
        collector: "collector".into(),
        mint_fee: if s.chance(1, 2) { Some(d(gen_good_rate(s))) } else { None },
        burn_fee: if s.chance(1, 2) { Some(d(gen_good_rate(s))) } else { None },
        streaming_fee: if s.chance(pr.streaming, 8) { Some(StreamingFeePayload { rate: d(gen_stream_rate(s)), freeze: s.chance(1, 10) }) } else { None },
    };
    let reserve = if s.chance(1, 2) { "uosmo".to_string() } else { s.pick(&DENOMS).to_string() };
    Genesis { msg: InstantiateMsg { gov: "gov".into(), fee, index_denom: "uibcx".into(), index_units: du(&units), reserve_denom: reserve } }
}

impl World {
    pub fn start(c: Chain, msg: &InstantiateMsg) -> Result<World, String> {
        let mut c = c;
        c.instantiate(Kind::Core, CORE, "gov", msg)?;
        let obs = observe(&c)?;
        let t = Track {
            gov: msg.gov.clone(),
            pending: None,
            pause: None,
            index_denom: format!("factory/{CORE}/{}", msg.index_denom),
            reserve_denom: msg.reserve_denom.clone(),
            collector: msg.fee.collector.clone(),
            mint_fee: msg.fee.mint_fee.map(|v| v.atomics().u128()),
            burn_fee: msg.fee.burn_fee.map(|v| v.atomics().u128()),
            stream: msg.fee.streaming_fee.as_ref().map(|v| (v.rate.atomics().u128(), v.freeze)),
            last: c.now(),
            units: un(&msg.index_units),
            reserve_units: vec![],
            owed: Coins::new(),
            supply: 0,
            reb: None,
            infos: BTreeMap::new(),
            slack: BTreeMap::new(),
        };
        let all: &[&str] = if c.bal("alice", "zz") > 0 { &ALL } else { &DENOMS };
        Ok(World { c, t, obs, all })
    }

    /// funds for a mint of n, one coin per portfolio asset
    pub fn required(&self, n: u128) -> Vec<(String, u128)> { required(&self.obs.units, n) }

    pub fn holders(&self) -> Vec<(String, u128)> {
        USERS.iter().map(|u| (u.to_string(), self.c.bal(u, &self.t.index_denom))).filter(|v| v.1 > 0).collect()
    }

    pub fn gen_op(&self, cx: &mut Cx, pr: &Profile) -> Op {
        let on = self.t.reb.is_some();
        let w = [
            pr.advance, if on { pr.mint / 6 } else { pr.mint }, if on { pr.burn / 6 } else { pr.burn }, pr.realize, pr.transfer, pr.pause, pr.handover,
            if on { pr.fee.min(1) } else { pr.fee }, pr.reserve, if on { pr.route * 3 } else { pr.route },
            if on { pr.init.min(1) } else { pr.init }, if on { pr.trade * 4 } else { pr.trade / 4 },
            if on { pr.finalize * 2 } else { pr.finalize / 3 }, if on { pr.manager * 2 } else { pr.manager }, pr.raw,
        ];
        let k = cx.s.weighted(&w);
        match k {
            0 => self.gen_advance(cx, pr),
            1 => self.gen_mint(cx),
            2 => self.gen_burn(cx),
            3 => { let s = &mut cx.s; let who = sender(s, &self.t.collector); ex(who, ExecuteMsg::Realize {}, vec![]) }
            4 => {
                let h = self.holders();
                let s = &mut cx.s;
                if h.is_empty() { return Op::Advance(1 + s.draw(5), 0); }
                let (from, b) = s.pick(&h).clone();
                Op::Transfer { from, to: gen_user(s), amount: 1 + s.draw128(b) }
            }
            5 => self.gen_pause(cx),
            6 => self.gen_handover(cx),
            7 => self.gen_fee_update(cx),
            8 => { let s = &mut cx.s; let who = sender(s, &self.t.gov); ex(who, ExecuteMsg::Gov(GovMsg::UpdateReserveDenom(s.pick(self.all).to_string())), vec![]) }
            9 => self.gen_route(cx),
            10 => self.gen_init(cx),
            11 => self.gen_trade(cx),
            12 => { let s = &mut cx.s; let m = self.manager(s); ex(m, ExecuteMsg::Rebalance(RebalanceMsg::Finalize {}), vec![]) }
            13 => { let s = &mut cx.s; let who = sender(s, &self.t.gov); ex(who, ExecuteMsg::Gov(GovMsg::UpdateRebalanceManager(gen_opt_addr(s))), vec![]) }
            _ => self.gen_raw(cx),
        }
    }

    /// the next step of a rebalance that is carried through; now and then anything else
    pub fn gen_script(&self, cx: &mut Cx, pr: &Profile) -> Op {
        if cx.s.chance(1, 10) { return self.gen_op(cx, pr); }
        if cx.s.chance(1, 10) { return self.gen_advance(cx, pr); }
        let (gov, res, supply) = (self.t.gov.clone(), self.t.reserve_denom.clone(), self.obs.supply);
        let s = &mut cx.s;
        let rb = match &self.t.reb {
            None => {
                match s.weighted(&[3, 4, 1, 1, 1]) {
                    0 => return self.gen_advance(cx, pr),
                    1 => {}
                    2 => return ex(self.t.collector.clone(), ExecuteMsg::Realize {}, vec![]),
                    3 => return self.gen_mint(cx),
                    _ => return self.gen_burn(cx),
                }
                let step = if supply > 0 && E18 % supply == 0 { E18 / supply } else { 1 };
                let mut defl: Units = vec![];
                for (k, u) in &self.obs.units {
                    if s.chance(1, 3) && !defl.is_empty() { continue; }
                    let most = u / step;
                    defl.push((k.clone(), if s.chance(3, 5) { u - most * step } else { u - step * s.draw128(most.saturating_add(1)).min(most) }));
                }
                let free: Vec<&&str> = self.all.iter().filter(|x| !defl.iter().any(|y| y.0 == ***x)).collect();
                let off = s.usize(free.len().max(1));
                let parts = 1 + s.usize(if self.all.len() > 7 { 9 } else { 3 });
                let mut infl: Units = vec![];
                for i in 0..parts { if i < free.len() { infl.push((free[(off + i) % free.len()].to_string(), E18 * (1 + s.draw(4) as u128))); } }
                // sometimes the reserve asset is to get next to nothing
                if s.chance(1, 6) && !defl.iter().chain(&infl).any(|x| x.0 == res) { infl.insert(0, (res.clone(), 1 + s.draw(3) as u128)); }
                let manager = match s.weighted(&[3, 2]) { 0 => Some("manager".to_string()), _ => None };
                return ex(gov, ExecuteMsg::Rebalance(RebalanceMsg::Init { manager, deflation: du(&defl), inflation: du(&infl) }), vec![]);
            }
            Some(rb) => rb,
        };
        if s.chance(1, 12) { return ex(self.t.collector.clone(), ExecuteMsg::Realize {}, vec![]); }
        let who = rb.manager.clone().unwrap_or_else(|| gen_user(s));
        let usable = |a: &str, b: &str| self.t.infos.get(&(a.to_string(), b.to_string())).map(|i| i.max >= RICH && i.cooldown == 0 && i.routes.0.len() == 1).unwrap_or(false);
        let direct = |a: &str, b: &str| ex(gov.clone(), ExecuteMsg::Gov(GovMsg::UpdateTradeInfo { denom: a.to_string(), routes: route(pair_pool(a, b), b), cooldown: 0, max_trade_amount: RICH.into() }), vec![]);
        let trade = |m: RebalanceTradeMsg| ex(who.clone(), ExecuteMsg::Rebalance(RebalanceMsg::Trade(m)), vec![]);
        for (k, tgt) in &rb.deflation {
            let cur = uget(&self.obs.units, k).unwrap_or(0);
            if cur <= *tgt { continue; }
            if *k == res { return trade(RebalanceTradeMsg::Deflate { target_denom: k.clone(), amount_out: 0u128.into(), max_amount_in: 0u128.into() }); }
            if !usable(k, &res) { return direct(k, &res); }
            let gap = unit_mul(cur - tgt, supply).unwrap_or(0);
            let out = self.price_out(k, &res, gap);
            return trade(RebalanceTradeMsg::Deflate { target_denom: k.clone(), amount_out: out.into(), max_amount_in: gap.into() });
        }
        for (k, left) in &self.obs.reserve_units {
            if *left == 0 { continue; }
            if *k == res { return trade(RebalanceTradeMsg::Inflate { target_denom: k.clone(), amount_in: 0u128.into(), min_amount_out: 0u128.into() }); }
            if !usable(&res, k) { return direct(&res, k); }
            return trade(RebalanceTradeMsg::Inflate { target_denom: k.clone(), amount_in: unit_mul(*left, supply).unwrap_or(0).into(), min_amount_out: 0u128.into() });
        }
        // an entry of nothing for the reserve asset can be moved too
        if uget(&self.obs.reserve_units, &res) == Some(0) && uget(&self.obs.units, &res).is_none() && s.chance(2, 3) {
            return trade(RebalanceTradeMsg::Inflate { target_denom: res.clone(), amount_in: 0u128.into(), min_amount_out: 0u128.into() });
        }
        ex(who, ExecuteMsg::Rebalance(RebalanceMsg::Finalize {}), vec![])
    }

    fn manager(&self, s: &mut Src) -> String {
        match self.t.reb.as_ref().and_then(|r| r.manager.clone()) { Some(m) => sender(s, &m), None => gen_user(s) }
    }

    pub fn gen_advance(&self, cx: &mut Cx, pr: &Profile) -> Op {
        let s = &mut cx.s;
        let now = self.c.now();
        let mut secs = match s.weighted(&[3, 3, 3, 2, 2, 1]) {
            0 => s.draw(30),
            1 => 60 * (1 + s.draw(120)),
            2 => 3600 * (1 + s.draw(72)),
            3 => 86400 * (1 + s.draw(60)),
            4 => {
                // to (or next to) an instant that matters
                let mut marks: Vec<u64> = vec![];
                if let Some(Some(e)) = self.t.pause { marks.push(e); }
                for i in self.t.infos.values() { if let Some(l) = i.last { marks.push(l.saturating_add(i.cooldown)); } }
                marks.retain(|m| *m >= now && *m < now + 400 * 86400);
                if marks.is_empty() { s.draw(3) } else {
                    let m = *s.pick(&marks);
                    let j = s.draw(3);
                    (m + j).saturating_sub(1).saturating_sub(now)
                }
            }
            _ => 86400 * 365 * (1 + s.draw(5)),
        };
        if !pr.overlong {
            if let Some(r) = self.t.accruing() {
                // stay below (1+r)^t = 2 counted from the last accrual
                let cap = (600_000_000_000_000_000u128 / r) as u64;
                let idle = now - self.t.last;
                secs = secs.min(cap.saturating_sub(idle));
            }
        }
        Op::Advance(secs, s.draw(2) * 500_000_000)
    }

    pub fn gen_mint(&self, cx: &mut Cx) -> Op {
        let s = &mut cx.s;
        let n = gen_amount(s);
        let who = if s.chance(1, 3) { gen_user(s) } else { "alice".to_string() };
        let mut funds: Vec<(String, u128)> = self.required(n);
        for f in funds.iter_mut() {
            match s.weighted(&[6, 3, 1]) { 0 => {} 1 => f.1 = f.1.saturating_add(s.log_range(1, 1_000_000)), _ => f.1 = f.1.saturating_add(1) }
        }
        if s.chance(1, 6) {
            match s.usize(5) {
                0 => { if !funds.is_empty() { let i = s.usize(funds.len()); funds.remove(i); } }
                1 => { let e = s.pick(self.all).to_string(); if !funds.iter().any(|f| f.0 == e) { funds.push((e, 1 + s.draw(100) as u128)); } }
                2 => { if !funds.is_empty() { let i = s.usize(funds.len()); let r = required(&self.obs.units, n)[i].1; funds[i].1 = r.saturating_sub(1); } }
                3 => { let b = self.c.bal(&who, &self.t.index_denom); if b > 0 { funds.push((self.t.index_denom.clone(), 1)); } }
                _ => funds.clear(),
            }
        }
        funds.retain(|f| f.1 > 0);
        funds.sort();
        let funds = funds.into_iter().map(|(k, v)| coin(v, k)).collect();
        ex(who, ExecuteMsg::Mint { amount: n.into(), receiver: gen_recipient(s), refund_to: gen_recipient(s) }, funds)
    }

    pub fn gen_burn(&self, cx: &mut Cx) -> Op {
        let h = self.holders();
        let s = &mut cx.s;
        let (who, b) = if h.is_empty() { (gen_user(s), 0) } else { s.pick(&h).clone() };
        let x = match s.weighted(&[4, 2, 2, 1]) { 0 => s.log_range(1, b.max(1)), 1 => b, 2 => 1 + s.draw128(b.max(1)), _ => 1 + s.draw(20) as u128 };
        let mut funds = if x > 0 { vec![coin(x, &self.t.index_denom)] } else { vec![] };
        if s.chance(1, 12) {
            let e = s.pick(self.all).to_string();
            if s.chance(1, 2) { funds.clear(); }
            funds.push(coin(1 + s.draw(1000) as u128, e));
        }
        ex(who, ExecuteMsg::Burn { redeem_to: gen_recipient(s) }, funds)
    }

    pub fn gen_pause(&self, cx: &mut Cx) -> Op {
        let s = &mut cx.s;
        let now = self.c.now();
        let who = sender(s, &self.t.gov);
        let release = s.chance(if self.t.paused_at(now) { 2 } else { 1 }, 4);
        if release { return ex(who, ExecuteMsg::Gov(GovMsg::Release {}), vec![]); }
        let expires_at = match s.weighted(&[12, 16, 4, 4, 4, 3]) { 0 => None, 1 => Some(now + 1 + s.draw(100_000)), 2 => Some(now), 3 => Some(now + 1), 4 => Some(s.draw(now)), _ => Some(now.saturating_add(s.log_range(1, u64::MAX as u128) as u64)) };
        ex(who, ExecuteMsg::Gov(GovMsg::Pause { expires_at }), vec![])
    }

    pub fn gen_handover(&self, cx: &mut Cx) -> Op {
        let s = &mut cx.s;
        match s.weighted(&[4, 4, 2]) {
            0 => { let who = sender(s, &self.t.gov); let a = if s.chance(1, 2) { "gov2".to_string() } else { gen_addr(s) }; ex(who, ExecuteMsg::Gov(GovMsg::UpdateGov(a)), vec![]) }
            1 => { let p = self.t.pending.clone().unwrap_or_else(|| self.t.gov.clone()); let who = sender(s, &p); ex(who, ExecuteMsg::Gov(GovMsg::AcceptGov {}), vec![]) }
            _ => { let p = if s.chance(1, 4) { self.t.pending.clone().unwrap_or_default() } else { self.t.gov.clone() }; let p = if p.is_empty() { "gov".into() } else { p }; let who = sender(s, &p); ex(who, ExecuteMsg::Gov(GovMsg::RevokeGov {}), vec![]) }
        }
    }

    pub fn gen_fee_payload(&self, s: &mut Src) -> FeePayload {
        let wild = s.chance(1, 3);
        let r = |s: &mut Src| if s.chance(1, 3) { None } else { Some(d(if wild { gen_rate(s) } else { gen_good_rate(s) })) };
        let mint_fee = r(s);
        let burn_fee = r(s);
        let streaming_fee = if s.chance(1, 4) { None } else {
            let rate = if wild { match s.weighted(&[3, 1, 1, 1, 1]) { 0 => gen_stream_rate(s), 1 => MAX_RATE + 1, 2 => 0, 3 => MAX_RATE + 1 + s.log_range(1, E18), _ => MAX_RATE } } else { gen_stream_rate(s) };
            Some(StreamingFeePayload { rate: d(rate), freeze: s.chance(1, 8) })
        };
        let collector = if s.chance(1, 2) { s.pick(&["collector", "coll2"]).to_string() } else { gen_addr(s) };
        FeePayload { collector, mint_fee, burn_fee, streaming_fee }
    }

    pub fn gen_fee_update(&self, cx: &mut Cx) -> Op {
        let s = &mut cx.s;
        let who = sender(s, &self.t.gov);
        ex(who, ExecuteMsg::Gov(GovMsg::UpdateFeeStrategy(self.gen_fee_payload(s))), vec![])
    }

    pub fn gen_route(&self, cx: &mut Cx) -> Op {
        let s = &mut cx.s;
        let who = sender(s, &self.t.gov);
        let r = self.t.reserve_denom.clone();
        let missing = self.missing_routes();
        let (din, mut dout) = match (&self.t.reb, s.chance(4, 5)) {
            (Some(_), true) if !missing.is_empty() && s.chance(4, 5) => s.pick(&missing).clone(),
            (Some(rb), true) => {
                if s.chance(1, 2) && !rb.deflation.is_empty() { (s.pick(&rb.deflation).0.clone(), r.clone()) } else { (r.clone(), s.pick(&rb.inflation).0.clone()) }
            }
            _ => {
                let a = s.pick(self.all).to_string();
                if s.chance(1, 3) { (r.clone(), a) } else if s.chance(1, 2) { (a, r.clone()) } else { (a, s.pick(self.all).to_string()) }
            }
        };
        if din == dout { dout = self.all.iter().find(|x| **x != din).unwrap().to_string(); }
        let mut hops = vec![];
        // one to three hops or more, last first; the contract keys a route by its first entry (the first pool traded with has two assets,
        // so that the stand-in for the intended order knows what is paid in)
        let mid: Vec<String> = self.all.iter().filter(|x| **x != din && **x != dout).map(|x| x.to_string()).collect();
        let off = s.usize(mid.len());
        let n = match s.weighted(&[24, 6, 4, 1]) { 3 => 3 + s.usize(3), k => k };
        let mut to = dout;
        for j in 0..=n {
            let from = if j == n { din.clone() } else { mid[(off + j) % mid.len()].clone() };
            hops.push(SwapRoute { pool_id: if j < n && s.chance(1, 2) { ALL_POOL } else { pair_pool(&from, &to) }, token_denom: to });
            to = from;
        }
        let cooldown = if s.chance(1, 12) { *s.pick(&[1u64 << 32, (1 << 32) + 60, 10 * 31_536_000, 1 << 16, (1 << 16) + 3600]) } else { *s.pick(&[0u64, 0, 0, 0, 1, 60, 3600, 86400]) };
        let max = match s.weighted(&[5, 3, 1]) { 0 => 1_000_000_000_000_000_000_000_000, 1 => s.log_range(1, 1_000_000_000_000), _ => s.draw(10) as u128 };
        ex(who, ExecuteMsg::Gov(GovMsg::UpdateTradeInfo { denom: din, routes: SwapRoutes(hops), cooldown, max_trade_amount: max.into() }), vec![])
    }

    pub fn gen_init(&self, cx: &mut Cx) -> Op {
        let units = self.obs.units.clone();
        let s = &mut cx.s;
        let who = sender(s, &self.t.gov);
        let manager = match s.weighted(&[3, 2, 1]) { 0 => Some("manager".to_string()), 1 => None, _ => gen_opt_addr(s) };
        let mut defl: Units = vec![];
        let mut infl: Units = vec![];
        let supply = self.obs.supply;
        if supply > 0 && E18 % supply == 0 && s.chance(2, 3) {
            // a gap of a whole number of base units for the whole supply, split evenly
            let parts = *s.pick(&[1u128, 1, 2, 4]);
            let step = E18 / supply * parts;
            for (k, u) in &units {
                if s.chance(1, 2) && !defl.is_empty() { continue; }
                let most = u / step;
                let gap = if most == 0 { 0 } else if s.chance(1, 3) { most * step } else { (1 + s.draw128(most)) * step };
                defl.push((k.clone(), u - gap.min(*u)));
            }
            let free: Vec<&&str> = self.all.iter().filter(|x| !defl.iter().any(|y| y.0 == ***x)).collect();
            let off = s.usize(free.len().max(1));
            for i in 0..parts as usize { if i < free.len() { infl.push((free[(off + i) % free.len()].to_string(), E18)); } }
            return ex(who, ExecuteMsg::Rebalance(RebalanceMsg::Init { manager, deflation: du(&defl), inflation: du(&infl) }), vec![]);
        }
        for (k, u) in &units {
            if s.chance(1, 2) || (defl.is_empty() && s.chance(1, 2)) {
                let tgt = match s.weighted(&[4, 2, 1, 1]) { 0 => s.draw128(u + 1), 1 => 0, 2 => *u, _ => u / 2 };
                defl.push((k.clone(), tgt));
            }
        }
        let m = 1 + s.usize(if self.all.len() > 7 { 16 } else { 3 });
        for _ in 0..m {
            let k = s.pick(self.all).to_string();
            if defl.iter().any(|x| x.0 == k) || infl.iter().any(|x| x.0 == k) { continue; }
            let wt = match s.weighted(&[5, 3, 1]) { 0 => E18 * (1 + s.draw(10) as u128), 1 => E18 / 100 * (1 + s.draw(1000) as u128), _ => s.log_range(1, 1000 * E18) };
            infl.push((k, wt));
        }
        if s.chance(1, if self.all.len() > 7 { 2 } else { 5 }) {
            match s.usize(8) {
                0 => defl.clear(),
                1 => infl.clear(),
                2 => { if !defl.is_empty() { let x = defl[s.usize(defl.len())].clone(); defl.push(x); } }
                3 => { if !infl.is_empty() { let x = infl[s.usize(infl.len())].clone(); infl.push(x); } }
                4 => { if !defl.is_empty() { let x = defl[s.usize(defl.len())].0.clone(); infl.push((x, E18)); } }
                5 => { if !defl.is_empty() { let i = s.usize(defl.len()); let x = &mut defl[i]; x.1 = uget(&units, &x.0).unwrap_or(0) + 1; } }
                6 => { defl.push(("unknown".into(), 0)); }
                _ => { if !infl.is_empty() { let i = s.usize(infl.len()); infl[i].1 = 0; } }
            }
        }
        ex(who, ExecuteMsg::Rebalance(RebalanceMsg::Init { manager, deflation: du(&defl), inflation: du(&infl) }), vec![])
    }

    fn price_out(&self, din: &str, dout: &str, x: u128) -> u128 {
        match self.t.infos.get(&(din.to_string(), dout.to_string())) {
            Some(i) => {
                let routes: Vec<(u64, String)> = i.routes.0.iter().map(|r| (r.pool_id, r.token_denom.clone())).collect();
                self.c.clone().swap_in("", &routes, din, x, false).unwrap_or(x)
            }
            None => x,
        }
    }
    fn price_in(&self, din: &str, dout: &str, y: u128) -> Option<u128> {
        let i = self.t.infos.get(&(din.to_string(), dout.to_string()))?;
        let routes: Vec<(u64, String)> = i.routes.0.iter().map(|r| (r.pool_id, r.token_denom.clone())).collect();
        self.c.clone().swap_out("", &routes, dout, y, false).ok()
    }

    /// assets of one side that a trade could move now
    fn tradable(&self, sell: bool) -> Units {
        let res = &self.t.reserve_denom;
        let all = match &self.t.reb { Some(r) => if sell { &r.deflation } else { &r.inflation }, None => &self.obs.units };
        all.iter().filter(|x| {
            let pair = if sell { (x.0.clone(), res.clone()) } else { (res.clone(), x.0.clone()) };
            let worth = if sell { uget(&self.obs.units, &x.0).unwrap_or(0) > x.1 } else { uget(&self.obs.reserve_units, &x.0).unwrap_or(0) > 0 };
            worth && (x.0 == *res || self.t.infos.get(&pair).map(|i| i.max > 0 && i.last.map(|l| l.saturating_add(i.cooldown) <= self.c.now()).unwrap_or(true)).unwrap_or(false))
        }).cloned().collect()
    }
    /// pairs the running rebalance needs a route for
    fn missing_routes(&self) -> Vec<(String, String)> {
        let r = &self.t.reserve_denom;
        match &self.t.reb {
            Some(rb) => rb.deflation.iter().map(|x| (x.0.clone(), r.clone())).chain(rb.inflation.iter().map(|x| (r.clone(), x.0.clone()))).filter(|p| p.0 != p.1 && !self.t.infos.contains_key(p)).collect(),
            None => vec![],
        }
    }

    pub fn gen_trade(&self, cx: &mut Cx) -> Op {
        let s = &mut cx.s;
        let who = self.manager(s);
        let res = self.t.reserve_denom.clone();
        let supply = self.obs.supply;
        let (defl, infl) = match &self.t.reb { Some(r) => (r.deflation.clone(), r.inflation.clone()), None => (self.obs.units.clone(), self.obs.units.clone()) };
        let sell = if self.obs.reserve_units.iter().all(|u| u.1 == 0) { s.chance(4, 5) } else { s.chance(2, 5) };
        let all = if sell { &defl } else { &infl };
        let other = if sell { &infl } else { &defl };
        // mostly assets that can be traded now
        let can = self.tradable(sell);
        if self.t.reb.is_some() && can.is_empty() && self.tradable(!sell).is_empty() && s.chance(2, 3) {
            // nothing can be traded: register a route, or finish, or wait
            if !self.missing_routes().is_empty() { return self.gen_route(cx); }
            if defl.iter().all(|x| uget(&self.obs.units, &x.0).unwrap_or(0) <= x.1) && self.obs.reserve_units.iter().all(|x| x.1 == 0) {
                return ex(who, ExecuteMsg::Rebalance(RebalanceMsg::Finalize {}), vec![]);
            }
        }
        let side = if !can.is_empty() && s.chance(4, 5) { &can } else { all };
        let k = if side.is_empty() || s.chance(1, 15) { if other.is_empty() || s.chance(1, 2) { s.pick(self.all).to_string() } else { s.pick(other).0.clone() } } else { s.pick(side).0.clone() };
        let msg = if sell {
            let tgt = uget(&defl, &k).unwrap_or(0);
            let cur = uget(&self.obs.units, &k).unwrap_or(0);
            let gap = unit_mul(cur.saturating_sub(tgt), supply).unwrap_or(u128::MAX / 4);
            let max = self.t.infos.get(&(k.clone(), res.clone())).map(|i| i.max).unwrap_or(u128::MAX);
            let mut out = match s.weighted(&[4, 3, 2, 1, 1, 1]) {
                0 => self.price_out(&k, &res, gap),
                1 => self.price_out(&k, &res, 1 + s.draw128(gap.max(1))),
                2 => self.price_out(&k, &res, s.log_range(1, gap.max(1))),
                3 => self.price_out(&k, &res, gap.saturating_add(2)).saturating_add(1),
                4 => max.saturating_add(s.draw(2) as u128),
                _ => s.draw(5) as u128,
            };
            if out > max && s.chance(3, 4) { out = max; }
            let need = self.price_in(&k, &res, out).unwrap_or(out);
            let max_in = match s.weighted(&[3, 4, 1]) { 0 => need, 1 => need.saturating_add(s.log_range(0, 1_000_000_000)), _ => need.saturating_sub(1) };
            RebalanceTradeMsg::Deflate { target_denom: k, amount_out: out.into(), max_amount_in: max_in.into() }
        } else {
            let ru = uget(&self.obs.reserve_units, &k).unwrap_or(0);
            let avail = unit_mul(ru, supply).unwrap_or(u128::MAX / 4);
            let max = self.t.infos.get(&(res.clone(), k.clone())).map(|i| i.max).unwrap_or(u128::MAX);
            let mut x = match s.weighted(&[4, 3, 2, 1, 1]) { 0 => avail, 1 => 1 + s.draw128(avail.max(1)), 2 => s.log_range(1, avail.max(1)), 3 => avail.saturating_add(1), _ => max.saturating_add(s.draw(2) as u128) };
            if x > max && s.chance(3, 4) { x = max; }
            let y = self.price_out(&res, &k, x);
            let min = match s.weighted(&[3, 4, 1]) { 0 => y, 1 => y - y.min(s.log_range(0, 1_000_000_000)), _ => y.saturating_add(1) };
            RebalanceTradeMsg::Inflate { target_denom: k, amount_in: x.into(), min_amount_out: min.into() }
        };
        ex(who, ExecuteMsg::Rebalance(RebalanceMsg::Trade(msg)), vec![])
    }

    fn gen_big(s: &mut Src) -> u128 { *s.pick(&[0u128, 1, u64::MAX as u128, 1 << 100, u128::MAX - 1, u128::MAX, E18, RICH]) }
    fn gen_denom(s: &mut Src, w: &World) -> String {
        let idx = w.t.index_denom.clone();
        match s.usize(6) { 0 => "".into(), 1 => idx, 2 => "unknown".into(), 3 => "UATOM".into(), 4 => "a b\n".into(), _ => s.pick(w.all).to_string() }
    }

    pub fn gen_raw(&self, cx: &mut Cx) -> Op {
        let s = &mut cx.s;
        let who = if s.chance(1, 2) { self.t.gov.clone() } else { gen_user(s) };
        let now = self.c.now();
        let big = |s: &mut Src| Self::gen_big(s).to_string();
        let bigdec = |s: &mut Src| dec(Self::gen_big(s));
        let j = match s.usize(15) {
            0 => json!({"mint": {"amount": big(s), "receiver": gen_addr(s), "refund_to": null}}),
            1 => json!({"burn": {"redeem_to": gen_addr(s)}}),
            2 => json!({"gov": {"pause": {"expires_at": *s.pick(&[0u64, 1, now - 1, now, u64::MAX])}}}),
            3 => json!({"gov": {"update_gov": gen_addr(s)}}),
            4 => json!({"gov": {"update_fee_strategy": {"collector": gen_addr(s), "mint_fee": bigdec(s), "burn_fee": null, "streaming_fee": {"rate": bigdec(s), "freeze": false}}}}),
            5 => json!({"gov": {"update_reserve_denom": Self::gen_denom(s, self)}}),
            6 => {
                let n = s.usize(3);
                let mut v = vec![];
                for _ in 0..n { v.push(json!({"pool_id": *s.pick(&[0u64, 1, 3, u64::MAX]), "token_denom": Self::gen_denom(s, self)})); }
                json!({"gov": {"update_trade_info": {"denom": Self::gen_denom(s, self), "routes": v, "cooldown": *s.pick(&[0u64, u64::MAX]), "max_trade_amount": big(s)}}})
            }
            7 => json!({"rebalance": {"init": {"manager": gen_addr(s), "deflation": [[Self::gen_denom(s, self), bigdec(s)]], "inflation": [[Self::gen_denom(s, self), bigdec(s)]]}}}),
            8 => json!({"rebalance": {"trade": {"deflate": {"target_denom": Self::gen_denom(s, self), "amount_out": big(s), "max_amount_in": big(s)}}}}),
            9 => json!({"rebalance": {"trade": {"inflate": {"target_denom": Self::gen_denom(s, self), "amount_in": big(s), "min_amount_out": big(s)}}}}),
            10 => json!({"rebalance": {"finalize": {}}}),
            11 => json!({"realize": {}}),
            12 => json!({"mint": {"amount": *s.pick(&["-1", "abc", "", "1.5", "340282366920938463463374607431768211456"])}}),
            13 => json!({"nonsense": {"a": 1}}),
            _ => json!({"gov": {"update_rebalance_manager": gen_addr(s)}}),
        };
        let mut funds: Vec<Coin> = vec![];
        if s.chance(1, 3) {
            funds.push(coin(1 + s.draw(1000) as u128, s.pick(self.all).to_string()));
        }
        if s.chance(1, 6) && self.c.bal(&who, &self.t.index_denom) > 0 { funds.push(coin(1, &self.t.index_denom)); }
        Op::Raw { sender: who, json: j.to_string(), funds }
    }

    /// Performs op.  Err only when the contract can no longer be queried.
    pub fn perform(&mut self, op: &Op) -> Result<(bool, String, Chain, Obs, Track), String> {
        let c0 = self.c.clone();
        let t0 = self.t.clone();
        let pre = self.obs.clone();
        let r = match op {
            Op::Advance(s, n) => { self.c.nanos += s * 1_000_000_000 + n; self.c.height += 1 + s / 5; self.c.swaps.clear(); self.c.sends.clear(); Ok(()) }
            Op::Exec { sender, msg, funds } => self.c.execute(sender, CORE, msg, funds),
            Op::Raw { sender, json, funds } => self.c.execute_raw(sender, CORE, json.as_bytes(), funds),
            Op::Transfer { from, to, amount } => { let dn = self.t.index_denom.clone(); self.c.tx(|c| c.transfer(from, to, &dn, *amount)) }
        };
        let (ok, err) = match r { Ok(()) => (true, String::new()), Err(e) => (false, e) };
        self.obs = observe(&self.c).map_err(|e| format!("{e} (after {})", op.show()))?;
        if ok { self.follow(op, &c0); }
        Ok((ok, err, c0, pre, t0))
    }

    /// update the history facts after a successful op
    fn follow(&mut self, op: &Op, c0: &Chain) {
        let parsed;
        let (sender, msg) = match op {
            Op::Exec { sender, msg, .. } => (sender, msg),
            Op::Raw { sender, json, .. } => match serde_json::from_str::<ExecuteMsg>(json) { Ok(m) => { parsed = m; (sender, &parsed) } Err(_) => return },
            _ => return,
        };
        let now = self.c.now();
        let t = &mut self.t;
        let supply0 = t.supply;
        // accrual (re-synchronised with what the contract now reports)
        let accrues = matches!(msg, ExecuteMsg::Mint { .. } | ExecuteMsg::Burn { .. } | ExecuteMsg::Realize {} | ExecuteMsg::Rebalance(RebalanceMsg::Init { .. }) | ExecuteMsg::Gov(GovMsg::UpdateFeeStrategy(_)));
        if accrues && t.accruing().is_some() {
            if now > t.last {
                for (k, u) in &t.units {
                    let u1 = uget(&self.obs.units, k).unwrap_or(0);
                    let f = unit_mul(u.saturating_sub(u1), supply0).unwrap_or(0);
                    if f > 0 { *t.owed.entry(k.clone()).or_insert(0) += f; }
                }
            }
            t.last = now;
        }
        match msg {
            ExecuteMsg::Mint { amount, .. } => t.supply += amount.u128(),
            ExecuteMsg::Burn { .. } => t.supply = self.c.supply_of(&t.index_denom),
            ExecuteMsg::Realize {} => t.owed.clear(),
            ExecuteMsg::Gov(g) => match g {
                GovMsg::Pause { expires_at } => t.pause = Some(*expires_at),
                GovMsg::Release {} => t.pause = None,
                GovMsg::UpdateGov(a) => t.pending = Some(a.clone()),
                GovMsg::AcceptGov {} => { t.gov = sender.clone(); t.pending = None; }
                GovMsg::RevokeGov {} => t.pending = None,
                GovMsg::UpdateFeeStrategy(f) => {
                    // what was owed has either been paid or is still reported
                    t.owed = self.obs.stream.as_ref().map(|s| s.collected.clone()).unwrap_or_default();
                    t.collector = f.collector.clone();
                    t.mint_fee = f.mint_fee.map(|v| v.atomics().u128());
                    t.burn_fee = f.burn_fee.map(|v| v.atomics().u128());
                    t.stream = f.streaming_fee.as_ref().map(|v| (v.rate.atomics().u128(), v.freeze));
                    t.last = now;
                }
                GovMsg::UpdateRebalanceManager(m) => { if let Some(r) = t.reb.as_mut() { r.manager = m.clone(); } }
                GovMsg::UpdateReserveDenom(x) => t.reserve_denom = x.clone(),
                GovMsg::UpdateTradeInfo { denom, routes, cooldown, max_trade_amount } => {
                    if let Some(f) = routes.0.first() {
                        t.infos.insert((denom.clone(), f.token_denom.clone()), Info { routes: routes.clone(), cooldown: *cooldown, max: max_trade_amount.u128(), last: None });
                    }
                }
            },
            ExecuteMsg::Rebalance(r) => match r {
                RebalanceMsg::Init { manager, deflation, inflation } => {
                    t.reb = Some(Reb { manager: manager.clone(), deflation: un(deflation), inflation: un(inflation) });
                    if let Some(s) = t.stream.as_mut() { s.1 = true; }
                }
                RebalanceMsg::Trade(tr) => {
                    let key = match tr {
                        RebalanceTradeMsg::Deflate { target_denom, .. } => (target_denom.clone(), t.reserve_denom.clone()),
                        RebalanceTradeMsg::Inflate { target_denom, .. } => (t.reserve_denom.clone(), target_denom.clone()),
                    };
                    if key.0 != key.1 { if let Some(i) = t.infos.get_mut(&key) { i.last = Some(now); } }
                }
                RebalanceMsg::Finalize {} => {
                    t.reb = None;
                    if let Some(s) = t.stream.as_mut() { s.1 = false; }
                    t.last = now;
                }
            },
        }
        let touches_units = accrues || matches!(msg, ExecuteMsg::Rebalance(_));
        if touches_units { t.units = self.obs.units.clone(); }
        t.reserve_units = self.obs.reserve_units.clone();
        let _ = c0;
    }
}

pub fn ex(sender: String, msg: ExecuteMsg, funds: Vec<Coin>) -> Op { Op::Exec { sender, msg, funds } }

pub fn required(units: &Units, n: u128) -> Vec<(String, u128)> {
    units.iter().map(|(k, u)| (k.clone(), unit_mul(*u, n).unwrap_or(u128::MAX).max(1))).collect()
}

// -------------------------------------------------------------------------------- what must be accepted

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Expect { Ok, Err, Any }

fn open(s: &Step) -> bool { !s.t0.paused_at(s.pre.now) && s.t0.reb.is_none() }
/// the sender owns what is attached
fn affordable(s: &Step, funds: &[Coin]) -> bool {
    let who = match s.op { Op::Exec { sender, .. } | Op::Raw { sender, .. } => sender, _ => return true };
    coins_map(funds).iter().all(|(k, x)| s.c0.bal(who, k) >= *x)
}

pub fn expect_mint(s: &Step, n: u128, receiver: &Option<String>, refund_to: &Option<String>, funds: &[Coin]) -> Expect {
    if !open(s) || !affordable(s, funds) { return Expect::Err; }
    if [receiver, refund_to].iter().any(|a| a.as_ref().map(|a| !valid_addr(a)).unwrap_or(false)) { return Expect::Err; }
    let f = coins_map(funds);
    let units = &s.pre.units;
    if units.iter().any(|(k, u)| match unit_mul(*u, n) { Some(r) => cget(&f, k) < r.max(1), None => true }) { return Expect::Err; }
    if f.keys().any(|k| uget(units, k).is_none()) { return Expect::Err; }
    let fee = s.t0.mint_fee.map(|r| unit_mul(r, n).unwrap_or(u128::MAX).max(1)).unwrap_or(0);
    if fee > n || n == 0 { return Expect::Err; }
    if fee == n { return Expect::Any; } // nothing would be left for the receiver
    if s.t0.supply.checked_add(n).is_none() { return Expect::Any; }
    Expect::Ok
}

pub fn expect_burn(s: &Step, redeem_to: &Option<String>, funds: &[Coin]) -> Expect {
    if !open(s) || !affordable(s, funds) { return Expect::Err; }
    if redeem_to.as_ref().map(|a| !valid_addr(a)).unwrap_or(false) { return Expect::Err; }
    if funds.len() != 1 || funds[0].denom != s.t0.index_denom || funds[0].amount.is_zero() { return Expect::Err; }
    let r = funds[0].amount.u128();
    let burn = r - s.t0.burn_fee.map(|f| unit_mul(f, r).unwrap()).unwrap_or(0);
    let mut any = s.pre.units.is_empty();
    for (k, u) in &s.pre.units {
        let x = match unit_mul(*u, burn) { Some(x) => x, None => return Expect::Any };
        if x > 0 { any = true; }
        // the listed rounding findings can leave the contract short of the last base units
        if x > cget(&s.pre.held, k) { return Expect::Any; }
    }
    if any { Expect::Ok } else { Expect::Any }
}

pub fn fee_valid(f: &FeePayload) -> bool {
    let ok = |r: &Option<Decimal>| r.map(|v| v.atomics().u128() > 0 && v.atomics().u128() < E18).unwrap_or(true);
    valid_addr(&f.collector) && ok(&f.mint_fee) && ok(&f.burn_fee)
        && f.streaming_fee.as_ref().map(|s| s.rate.atomics().u128() > 0 && s.rate.atomics().u128() <= MAX_RATE).unwrap_or(true)
}

pub fn init_valid(units: &Units, deflation: &Units, inflation: &Units) -> bool {
    if deflation.is_empty() || inflation.is_empty() { return false; }
    let mut seen = std::collections::BTreeSet::new();
    for (k, _) in deflation.iter().chain(inflation.iter()) { if !seen.insert(k) { return false; } }
    for (k, t) in deflation { match uget(units, k) { Some(u) if *t <= u => {} _ => return false } }
    inflation.iter().all(|w| w.1 > 0) && inflation.iter().try_fold(0u128, |a, w| a.checked_add(w.1)).is_some()
}

/// acceptance of a governance / rebalance start message, from the history
pub fn expect_gov(s: &Step, sender: &str, msg: &ExecuteMsg) -> Expect {
    let t = s.t0;
    let now = s.pre.now;
    let is_gov = sender == t.gov;
    let b = |x: bool| if x { Expect::Ok } else { Expect::Err };
    match msg {
        ExecuteMsg::Gov(g) => match g {
            GovMsg::Pause { expires_at } => b(is_gov && !t.paused_at(now) && expires_at.map(|e| e > now).unwrap_or(true)),
            GovMsg::Release {} => b(is_gov && t.paused_at(now)),
            GovMsg::UpdateGov(a) => b(is_gov && t.pending.is_none() && valid_addr(a)),
            GovMsg::AcceptGov {} => b(t.pending.as_deref() == Some(sender)),
            GovMsg::RevokeGov {} => b(is_gov && t.pending.is_some()),
            GovMsg::UpdateFeeStrategy(f) => {
                // a shortfall of the last base units (listed rounding findings) can keep owed fees from being paid out
                let short = s.pre.stream.as_ref().map(|st| st.collected.iter().any(|(k, x)| cget(&s.pre.held, k) < *x)).unwrap_or(false);
                if is_gov && t.reb.is_none() && fee_valid(f) && short { Expect::Any } else { b(is_gov && t.reb.is_none() && fee_valid(f)) }
            }
            GovMsg::UpdateRebalanceManager(m) => b(is_gov && t.reb.is_some() && m.as_ref().map(|a| valid_addr(a)).unwrap_or(true)),
            // (the chain refuses events with blank values)
            GovMsg::UpdateReserveDenom(x) if x.trim().is_empty() => if is_gov && t.reb.is_none() { Expect::Any } else { Expect::Err },
            GovMsg::UpdateReserveDenom(_) => b(is_gov && t.reb.is_none()),
            GovMsg::UpdateTradeInfo { denom, routes, .. } if is_gov && (denom.trim().is_empty() || routes.0.iter().any(|r| r.token_denom.trim().is_empty())) => if routes.0.is_empty() { Expect::Err } else { Expect::Any },
            GovMsg::UpdateTradeInfo { routes, .. } => b(is_gov && !routes.0.is_empty()),
        },
        ExecuteMsg::Rebalance(RebalanceMsg::Init { manager, deflation, inflation }) => {
            b(is_gov && t.reb.is_none() && manager.as_ref().map(|a| valid_addr(a)).unwrap_or(true) && init_valid(&s.pre.units, &un(deflation), &un(inflation)))
        }
        _ => Expect::Any,
    }
}

pub fn check_expect(s: &Step, e: Expect, kind: &str) -> R {
    match e {
        Expect::Ok => ensure!(s.ok, format!("{kind}: rejected"), "{} must succeed but failed: {}", s.op.show(), s.err),
        Expect::Err => ensure!(!s.ok, format!("{kind}: accepted"), "{} must fail but succeeded", s.op.show()),
        Expect::Any => {}
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ histories

pub type Oracle = fn(&mut Cx, &Step, &mut Track) -> R;

pub fn history(cx: &mut Cx, pr: &Profile, oracle: Oracle) -> R {
    history_with(cx, pr, |_, _, _| Ok(()), oracle)
}

/// runs one generated history; `before` sees the world and the op before it is performed
pub fn history_with(cx: &mut Cx, pr: &Profile, mut before: impl FnMut(&mut Cx, &mut World, &Op) -> R, oracle: Oracle) -> R {
    let scripted = cx.s.chance(pr.script, 16);
    let plain = scripted || cx.s.chance(1, 3);
    let wide = cx.s.chance(1, pr.wide);
    if wide { cx.class("wide portfolio"); }
    let chain = new_chain(&mut cx.s, plain, wide);
    let g = gen_genesis(cx, pr, wide);
    cx.log(|| format!("instantiate {}", serde_json::to_string(&g.msg).unwrap()));
    let mut w = match World::start(chain, &g.msg) { Ok(w) => w, Err(e) => return fail("valid instantiation rejected", format!("{}: {e}", serde_json::to_string(&g.msg).unwrap())) };
    let n = 4 + cx.s.draw(pr.max_ops);
    for i in 0..n {
        let a = cx.s.begin();
        // most histories start with some supply
        let op = if i == 0 && cx.s.chance(7, 8) { w.seed_mint(cx, scripted) } else if scripted { w.gen_script(cx, pr) } else { w.gen_op(cx, pr) };
        before(cx, &mut w, &op)?;
        let (ok, err, c0, pre, t0) = match w.perform(&op) {
            Ok(v) => v,
            Err(e) if w.t.overgrown(w.c.now()) => {
                cx.class("stopped: streaming factor above 100% (K4)");
                if pr.overlong { cx.known(crate::core_props::K4, || format!("after {} nothing can be queried: {e}", op.show())); }
                return Ok(());
            }
            Err(e) => return fail("state cannot be queried", e),
        };
        cx.log(|| format!("t={} {} -> {}", w.c.now(), op.show(), if ok { "ok".to_string() } else { format!("failed: {}", err.chars().take(160).collect::<String>()) }));
        classify(cx, &op, ok, &t0);
        let post = w.obs.clone();
        let step = Step { op: &op, ok, err, pre: &pre, post: &post, t0: &t0, c0: &c0, c: &w.c };
        cx.checks += 1;
        let mut t = w.t.clone();
        let r = oracle(cx, &step, &mut t);
        w.t = t;
        r?;
        cx.s.end(a);
    }
    Ok(())
}

impl World {
    /// an ordinary mint by alice
    pub fn seed_mint(&self, cx: &mut Cx, exact: bool) -> Op {
        // powers of ten leave no remainders in a rebalance, so that some of them can be finished
        let n = if exact || cx.s.chance(1, 2) { if cx.s.chance(if exact { 3 } else { 1 }, 6) { E18 } else { 10u128.pow(3 + cx.s.draw(10) as u32) } } else { gen_amount(&mut cx.s).max(10) };
        let funds = { let mut f = self.required(n); f.sort(); f.into_iter().map(|(k, v)| coin(v, k)).collect() };
        ex("alice".into(), ExecuteMsg::Mint { amount: n.into(), receiver: None, refund_to: None }, funds)
    }
}

fn classify(cx: &mut Cx, op: &Op, ok: bool, t0: &Track) {
    let k = match op {
        Op::Advance(..) => "advance",
        Op::Transfer { .. } => "transfer",
        Op::Raw { .. } => if ok { "raw ok" } else { "raw failed" },
        Op::Exec { msg, .. } => match (msg, ok) {
            (ExecuteMsg::Mint { .. }, true) => "mint ok",
            (ExecuteMsg::Mint { .. }, false) => "mint failed",
            (ExecuteMsg::Burn { .. }, true) => "burn ok",
            (ExecuteMsg::Burn { .. }, false) => "burn failed",
            (ExecuteMsg::Realize {}, true) => if t0.owed.is_empty() { "realize ok" } else { "realize ok (owed)" },
            (ExecuteMsg::Realize {}, false) => "realize failed",
            (ExecuteMsg::Gov(g), true) => match g {
                GovMsg::Pause { .. } => "pause ok", GovMsg::Release {} => "release ok", GovMsg::UpdateGov(_) => "update_gov ok", GovMsg::AcceptGov {} => "accept_gov ok",
                GovMsg::RevokeGov {} => "revoke_gov ok", GovMsg::UpdateFeeStrategy(_) => "update_fee ok", GovMsg::UpdateRebalanceManager(_) => "manager ok",
                GovMsg::UpdateReserveDenom(_) => "reserve_denom ok", GovMsg::UpdateTradeInfo { .. } => "route ok",
            },
            (ExecuteMsg::Gov(_), false) => "gov failed",
            (ExecuteMsg::Rebalance(RebalanceMsg::Init { .. }), true) => "init ok",
            (ExecuteMsg::Rebalance(RebalanceMsg::Init { .. }), false) => "init failed",
            (ExecuteMsg::Rebalance(RebalanceMsg::Finalize {}), true) => "finalize ok",
            (ExecuteMsg::Rebalance(RebalanceMsg::Finalize {}), false) => "finalize failed",
            (ExecuteMsg::Rebalance(RebalanceMsg::Trade(RebalanceTradeMsg::Deflate { .. })), true) => "deflate ok",
            (ExecuteMsg::Rebalance(RebalanceMsg::Trade(RebalanceTradeMsg::Inflate { .. })), true) => "inflate ok",
            (ExecuteMsg::Rebalance(RebalanceMsg::Trade(_)), false) => "trade failed",
        },
    };
    cx.class(k);
}
