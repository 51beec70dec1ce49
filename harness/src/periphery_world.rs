//! Histories of the periphery contract on the miniature chain, with its own pricing of every basket, and the
//! oracles C25-C30 and C33.

use std::collections::BTreeMap;

use cosmwasm_std::{coin, Coin, Decimal, Uint128};
use ibcx_interface::core as core_api;
use ibcx_interface::periphery::*;

use crate::chain::*;
use crate::core_world::{cget, coins_map, d, gen_good_rate, gen_stream_rate, show_coins, CORE};
use crate::pbt::*;
use crate::wide::*;

pub const PERI: &str = "periphery";
const USERS: [&str; 3] = ["alice", "bob", "carol"];
/// the denoms of histories with a wide portfolio, the ordinary ones first
const ALL: [&str; 16] = ["uatom", "ujuno", "ibc/27394FB092D2ECCD56123C74F36E4C1F", "uosmo", "uusdc", "factory/x/ukrw", "uscrt", "uion", "ustars", "uakt", "ibc/0CD3A0285E1341859B5E86B6AB7682F0", "aevmos", "uregen", "udvpn", "factory/y/z", "boot"];
const DENOMS: [&str; 8] = [ALL[0], ALL[1], ALL[2], ALL[3], ALL[4], ALL[5], ALL[6], ALL[7]];
const RICH: u128 = 1_000_000_000_000_000_000_000_000_000_000_000;
const WINDOW: u128 = 5000;

const A: &[&str] = &[
    "bank, token factory and pool manager behave as modelled in harness/src/chain.rs (atomic transactions, swaps refused when a limit is missed, pools quoted on their current state)",
    "the core contract named in a message is the real index contract",
    "pool shares of stable and concentrated pools are priced by a constant product with the pool's spread factor: the periphery takes their price from the chain, whatever the curve",
];

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C25", quick: 12000, thorough: 200000, rule: "a fixed payment mint succeeded through at least one swap and one was refused", run: c25, assumptions: A },
        Prop { id: "C26", quick: 16000, thorough: 240000, rule: "a fixed amount mint succeeded through at least one swap and one was refused", run: c26, assumptions: A },
        Prop { id: "C27", quick: 16000, thorough: 240000, rule: "a fixed input burn succeeded through at least one swap and one was refused", run: c27, assumptions: A },
        Prop { id: "C28", quick: 12000, thorough: 200000, rule: "a fixed output burn succeeded through at least one swap and one was refused", run: c28, assumptions: A },
        Prop { id: "C29", quick: 14000, thorough: 240000, rule: "an operation succeeded while the periphery held coins of its own, and the payout step was called directly", run: c29, assumptions: A },
        Prop { id: "C30", quick: 12000, thorough: 200000, rule: "a simulation was followed by the execution it predicts, through at least one swap", run: c30, assumptions: A },
        Prop { id: "C33", quick: 8000, thorough: 120000, rule: "an estimate over a basket with at least two swaps, or a route of several hops, was recomputed", run: c33, assumptions: A },
    ]
}

// ------------------------------------------------------------------------------------------ world

/// one swap route of a message: hops are (pool, denom) as the message lists them
#[derive(Clone, PartialEq, Debug)]
pub struct Entry { pub from: String, pub to: String, pub hops: Vec<(u64, String)> }

fn compact(info: &[Entry]) -> SwapInfosCompact {
    SwapInfosCompact(info.iter().map(|e| SwapInfoCompact { key: format!("{},{}", e.from, e.to), routes: e.hops.iter().map(|(p, k)| format!("{p},{k}")).collect() }).collect())
}

fn route_of<'a>(info: &'a [Entry], from: &str, to: &str) -> Option<&'a Entry> { info.iter().find(|e| e.from == from && e.to == to) }

/// one priced swap: amounts of every hop in trading order, and how far a pool simulation may be off
#[derive(Clone, Debug)]
pub struct Leg { pub asset: String, pub index_side: u128, pub base_side: u128, pub hops: usize, pub err: u128, pub swapped: bool, pub strain: f64, /// worth of one unit of the asset and of every asset passed on the way
    pub step: u128 }

#[derive(Clone, Debug, Default)]
pub struct Quote { pub total: u128, pub legs: Vec<Leg> }

impl Quote {
    fn tol(&self) -> u128 { self.legs.iter().map(|l| l.err).sum() }
    fn step(&self) -> u128 { self.legs.iter().map(|l| l.step).sum() }
    fn swaps(&self) -> usize { self.legs.iter().filter(|l| l.swapped).count() }
    fn hops(&self) -> usize { self.legs.iter().filter(|l| l.swapped).map(|l| l.hops).max().unwrap_or(0) }
    /// largest share of a pool's balance that one hop uses
    fn strain(&self) -> f64 { self.legs.iter().map(|l| l.strain).fold(0.0, f64::max) }
}

/// trades beyond this multiple of a pool's balance are not generated: there the power series takes so many
/// terms that a chain runs out of gas, which the harness cannot reproduce
const STEEPNESS: u128 = 12;
const STEEP: &str = "too steep";

fn weighted(p: &ChainPool) -> bool { p.kind == PoolKind::Weighted }

fn scaled_err(err: u128, to: u128, from: u128) -> u128 { if err == 0 { 0 } else { muldiv_ceil(err.saturating_mul(4), to, from.max(1)).unwrap_or(u128::MAX / 8).min(u128::MAX / 8) } }

/// price of floor(unit * n) of every asset in `base`, one asset after the other, by the chain's own swaps
pub fn buy(c: &Chain, units: &[(String, u128)], base: &str, n: u128, info: &[Entry]) -> Res<Quote> {
    let mut m = c.clone();
    let mut q = Quote::default();
    for (asset, unit) in units {
        let need = unit_mul(*unit, n).ok_or("overflow")?;
        if asset == base {
            q.legs.push(Leg { asset: asset.clone(), index_side: need, base_side: need, hops: 0, err: 0, swapped: false, strain: 0.0, step: 1 });
            q.total = q.total.checked_add(need).ok_or("overflow")?;
            continue;
        }
        let e = route_of(info, base, asset).ok_or("no route")?;
        if e.hops.is_empty() { return Err("empty route".into()); }
        if need == 0 { return Err("nothing to buy".into()); }
        let (mut want, mut out_denom, mut err, mut strain, mut step, mut plan) = (need, asset.clone(), 0u128, 0f64, 1u128, vec![]);
        for (id, in_denom) in e.hops.iter().rev() {
            let p = m.pools.get(id).ok_or("no pool")?.clone();
            let bal = m.bal(&p.addr(), &out_denom);
            if weighted(&p) && want > bal / 10_000 * 4_998 && want < bal { return Err(STEEP.into()); }
            let x = m.in_given_out(&p, in_denom, &out_denom, want)?;
            if x == 0 { return Err("zero hop".into()); }
            strain = strain.max(want as f64 / m.bal(&p.addr(), &out_denom) as f64);
            err = scaled_err(err, x, want);
            step = muldiv_ceil(step.saturating_mul(2), x, want).unwrap_or(u128::MAX / 8).min(u128::MAX / 8) + 1;
            if weighted(&p) { err += 2 + m.bal(&p.addr(), in_denom) / 1_000_000_000_000_000; }
            plan.push((p, in_denom.clone(), x, out_denom.clone(), want));
            want = x;
            out_denom = in_denom.clone();
        }
        if out_denom != *base { return Err("route does not start at the payment asset".into()); }
        for (p, i, x, o, y) in plan { m.add(&p.addr(), &i, x)?; m.remove(&p.addr(), &o, y)?; }
        q.legs.push(Leg { asset: asset.clone(), index_side: need, base_side: want, hops: e.hops.len(), err, swapped: true, strain, step });
        q.total = q.total.checked_add(want).ok_or("overflow")?;
    }
    Ok(q)
}

/// proceeds in `base` of floor(unit * n) of every asset
pub fn sell(c: &Chain, units: &[(String, u128)], base: &str, n: u128, info: &[Entry]) -> Res<Quote> { sell_as(c, units, base, n, info, false) }

/// `est`: as an estimate does it, which accepts routes without hops and proceeds of nothing
fn sell_as(c: &Chain, units: &[(String, u128)], base: &str, n: u128, info: &[Entry], est: bool) -> Res<Quote> {
    let mut m = c.clone();
    let mut q = Quote::default();
    for (asset, unit) in units {
        let have = unit_mul(*unit, n).ok_or("overflow")?;
        if asset == base {
            q.legs.push(Leg { asset: asset.clone(), index_side: have, base_side: have, hops: 0, err: 0, swapped: false, strain: 0.0, step: 1 });
            q.total = q.total.checked_add(have).ok_or("overflow")?;
            continue;
        }
        let e = route_of(info, asset, base).ok_or("no route")?;
        if e.hops.is_empty() {
            if !est { return Err("empty route".into()); }
            q.total = q.total.checked_add(have).ok_or("overflow")?;
            continue;
        }
        if have == 0 { return Err("nothing to sell".into()); }
        let (mut x, mut in_denom, mut err, mut strain, mut step) = (have, asset.clone(), 0u128, 0f64, 1u128);
        for (id, out_denom) in &e.hops {
            let p = m.pools.get(id).ok_or("no pool")?.clone();
            if weighted(&p) && x / STEEPNESS > m.bal(&p.addr(), &in_denom) { return Err(STEEP.into()); }
            let y = m.out_given_in(&p, &in_denom, x, out_denom)?;
            if y == 0 && !(est && out_denom == base) { return Err("zero hop".into()); }
            strain = strain.max(x as f64 / m.bal(&p.addr(), &in_denom) as f64);
            err = scaled_err(err, y, x);
            step = muldiv_ceil(step.saturating_mul(2), y, x).unwrap_or(u128::MAX / 8).min(u128::MAX / 8) + 1;
            // the fee is taken from the input and rounded down to a whole unit
            if weighted(&p) { err += 2 + muldiv_ceil(2, y, x).unwrap_or(0) + m.bal(&p.addr(), out_denom) / 1_000_000_000_000_000; }
            m.add(&p.addr(), &in_denom, x)?;
            m.remove(&p.addr(), out_denom, y)?;
            x = y;
            in_denom = out_denom.clone();
        }
        if in_denom != *base { return Err("route does not end in the output asset".into()); }
        q.legs.push(Leg { asset: asset.clone(), index_side: have, base_side: x, hops: e.hops.len(), err, swapped: true, strain, step });
        q.total = q.total.checked_add(x).ok_or("overflow")?;
    }
    Ok(q)
}

/// a pool priced by the chain that occurs on several of the routes used: its quotes do not see the swaps before
fn requoted(c: &Chain, units: &[(String, u128)], base: &str, info: &[Entry], mint: bool) -> bool {
    let mut seen: BTreeMap<u64, u32> = BTreeMap::new();
    for (a, _) in units {
        if a == base { continue; }
        let e = if mint { route_of(info, base, a) } else { route_of(info, a, base) };
        if let Some(e) = e {
            for (id, _) in &e.hops {
                if c.pools.get(id).map(|p| !weighted(p)).unwrap_or(false) { *seen.entry(*id).or_insert(0) += 1; }
            }
        }
    }
    seen.values().any(|n| *n > 1)
}

/// why an estimate is known to be off: the finding that applies to these routes
fn stale(c: &Chain, units: &[(String, u128)], base: &str, info: &[Entry], mint: bool) -> Option<&'static str> {
    if requoted(c, units, base, info, mint) { return Some(REQUOTED); }
    // the chain quotes every hop of an exact-output route on the pools as they are before it, the estimate last hop first
    let twice = mint && units.iter().filter(|u| u.0 != base).filter_map(|u| route_of(info, base, &u.0)).any(|e| e.hops.iter().enumerate().any(|(i, h)| e.hops[..i].iter().any(|g| g.0 == h.0)));
    if twice { Some(TWICE) } else { None }
}

pub struct World {
    /// the denoms this history uses
    pub all: &'static [&'static str],
    pub c: Chain,
    pub index: String,
    /// one, or a power of ten: assets with many decimals, amounts beyond 64 bits
    pub scale: u128,
    pub mint_fee: Option<u128>,
    pub burn_fee: Option<u128>,
    /// (base, routes for minting from it, routes for burning into it)
    pub nets: Vec<(String, Vec<Entry>, Vec<Entry>)>,
}

pub fn units_of(c: &Chain) -> Result<Vec<(String, u128)>, Fail> {
    let r: core_api::GetPortfolioResponse = c.query(CORE, &core_api::QueryMsg::GetPortfolio { time: None }).or_else(|e| fail("portfolio cannot be queried", e))?;
    Ok(r.units.into_iter().map(|(k, v)| (k, v.atomics().u128())).collect())
}

fn gen_unit(s: &mut Src) -> u128 {
    match s.weighted(&[4, 3, 2, 2]) {
        0 => E18 / 1000 * (1 + s.draw(5000) as u128),
        1 => E18 * (1 + s.draw(20) as u128),
        2 => 1 + s.draw128(3 * E18),
        _ => s.log_range(E18 / 10_000, 200 * E18),
    }
}

fn gen_fee(s: &mut Src) -> u128 {
    match s.weighted(&[4, 2, 1, 1]) { 0 => E18 / 10_000 * (1 + s.draw(300) as u128), 1 => 0, 2 => s.draw128(E18 / 10), _ => E18 / 1000 * 3 }
}

impl World {
    fn new(cx: &mut Cx, pr: &Profile) -> World {
        let wide = cx.s.chance(1, 24);
        if wide { cx.class("wide portfolio"); }
        let scale = if cx.s.chance(1, 16) { cx.class("amounts beyond 64 bits"); 10u128.pow(5 + cx.s.draw(4) as u32) } else { 1 };
        let all: &'static [&'static str] = if wide { &ALL } else { &DENOMS };
        let s = &mut cx.s;
        let mut c = Chain::new(1_700_000_000_000_000_000);
        for u in USERS { for dn in all { c.add(u, dn, RICH).unwrap(); } }
        for dn in all { c.add("whale", dn, RICH).unwrap(); }
        let n = if wide { 5 + s.usize(8) } else { match s.weighted(&[2, 4, 4, 2]) { k => k + 1 } };
        let off = s.usize(all.len());
        let assets: Vec<&str> = (0..n).map(|i| all[(off + i) % all.len()]).collect();
        let units: Vec<(String, Decimal)> = assets.iter().map(|a| (a.to_string(), d(gen_unit(s)))).collect();
        let fee = core_api::FeePayload {
            collector: "collector".into(),
            mint_fee: if s.chance(1, 2) { Some(d(gen_good_rate(s))) } else { None },
            burn_fee: if s.chance(1, 2) { Some(d(gen_good_rate(s))) } else { None },
            streaming_fee: if s.chance(1, 4) { Some(core_api::StreamingFeePayload { rate: d(gen_stream_rate(s)), freeze: false }) } else { None },
        };
        let (mint_fee, burn_fee) = (fee.mint_fee.map(|v| v.atomics().u128()), fee.burn_fee.map(|v| v.atomics().u128()));
        let msg = core_api::InstantiateMsg { gov: "gov".into(), fee, index_denom: "uibcx".into(), index_units: units.clone(), reserve_denom: "uosmo".into() };
        c.instantiate(Kind::Core, CORE, "gov", &msg).expect("core starts");
        c.instantiate(Kind::Periphery, PERI, "gov", &InstantiateMsg {}).expect("periphery starts");
        let index = format!("factory/{CORE}/uibcx");
        let n0 = 1_000_000_000_000_000_000u128 * scale;
        let mut funds: Vec<Coin> = units.iter().map(|(k, u)| coin((Uint128::new(n0) * *u).u128().max(1), k)).collect();
        funds.sort_by(|a, b| a.denom.cmp(&b.denom));
        c.execute("whale", CORE, &core_api::ExecuteMsg::Mint { amount: n0.into(), receiver: None, refund_to: None }, &funds).expect("first mint");
        // whoever got them: with a mint fee near one the collector did
        for from in ["whale", "collector"] { let each = c.bal(from, &index) / 4; for u in USERS { if each > 0 { c.transfer(from, u, &index, each).unwrap(); } } }
        // routes from one or two payment assets to every portfolio asset, over pools made on the way
        let mut w = World { all, c, index, scale, mint_fee, burn_fee, nets: vec![] };
        let bases = 1 + s.usize(2);
        for b in 0..bases {
            let base = if b == 0 && s.chance(1, 3) { assets[s.usize(assets.len())] } else { all[s.usize(all.len())] };
            if w.nets.iter().any(|n| n.0 == base) { continue; }
            let (mut minting, mut burning) = (vec![], vec![]);
            for a in &assets {
                if *a == base { if s.chance(7, 8) { continue; } }
                let len = match s.weighted(&[12, 6, 2, 1]) { 3 => 6, k => 1 + k };
                let mut path = vec![base.to_string()];
                for _ in 1..len { let m = all[s.usize(all.len())].to_string(); if m != *a && !path.contains(&m) { path.push(m); } }
                path.push(a.to_string());
                if a == &base { continue; }
                let mut used: Vec<u64> = vec![];
                for i in 0..path.len() - 1 { let free = pr.revisit && s.chance(1, 8);
                    let id = w.pool(s, &path[i].clone(), &path[i + 1].clone(), if free { &[] } else { &used }, pr); used.push(id); }
                minting.push(Entry { from: base.into(), to: a.to_string(), hops: used.iter().enumerate().map(|(i, p)| (*p, path[i].clone())).collect() });
                burning.push(Entry { from: a.to_string(), to: base.into(), hops: used.iter().enumerate().rev().map(|(i, p)| (*p, path[i].clone())).collect() });
            }
            w.nets.push((base.to_string(), minting, burning));
        }
        w
    }

    fn pool(&mut self, s: &mut Src, x: &str, y: &str, used: &[u64], pr: &Profile) -> u64 {
        let have: Vec<u64> = self.c.pools.values().filter(|p| !used.contains(&p.id) && p.assets.iter().any(|a| a.0 == x) && p.assets.iter().any(|a| a.0 == y)).map(|p| p.id).collect();
        if !have.is_empty() && s.chance(1, 2) { return *s.pick(&have); }
        let id = match s.draw(4) { 0 => 1 + s.draw(2000), _ => self.c.pools.len() as u64 + 1 };
        let id = if self.c.pools.contains_key(&id) { 5000 + self.c.pools.len() as u64 } else { id };
        let kind = match s.weighted(&[pr.weighted, 1, 1]) { 0 => PoolKind::Weighted, 1 => PoolKind::Stable, _ => PoolKind::Concentrated };
        let mut assets = vec![x.to_string(), y.to_string()];
        if s.chance(1, 2) { assets.reverse(); }
        if kind == PoolKind::Weighted { for _ in 0..s.weighted(&[5, 2, 1]) { let z = self.all[s.usize(self.all.len())].to_string(); if !assets.contains(&z) { assets.insert(s.usize(assets.len() + 1), z); } } }
        let equal = s.chance(1, 2);
        let depth = s.log_range(10_000_000, 100_000_000_000_000);
        let pool = ChainPool { id, kind, fee: gen_fee(s), assets: assets.into_iter().map(|a| { let w = if equal { 1 } else { 1 + s.draw(10) as u128 }; (a, w) }).collect() };
        for (a, _) in &pool.assets {
            let b = if s.chance(3, 4) { muldiv(depth, 1 + s.draw(2000) as u128, 1000).unwrap() } else { s.log_range(1_000_000, 1_000_000_000_000_000) };
            self.c.add(&pool.addr(), a, b.max(1_000_000) * self.scale).unwrap();
        }
        self.c.pools.insert(id, pool);
        id
    }
}

// ------------------------------------------------------------------------------------------ operations

#[derive(Clone, Copy)]
pub struct Profile { pub mint_in: u32, pub mint_out: u32, pub burn_in: u32, pub burn_out: u32, pub finish: u32, pub donate: u32, pub shift: u32, pub advance: u32, pub ops: u64, pub weighted: u32, pub faulty: u64, /* routes may visit a pool again */ pub revisit: bool }
const P: Profile = Profile { mint_in: 4, mint_out: 4, burn_in: 4, burn_out: 4, finish: 1, donate: 1, shift: 2, advance: 1, ops: 4, weighted: 6, faulty: 12, revisit: false };

#[derive(Clone, Debug)]
pub enum Op {
    MintIn { user: String, base: String, pay: u128, min: u128, info: Vec<Entry> },
    MintOut { user: String, base: String, pay: u128, n: u128, info: Vec<Entry> },
    BurnIn { user: String, base: String, n: u128, min: u128, info: Vec<Entry> },
    BurnOut { user: String, base: String, pay: u128, out: u128, info: Vec<Entry> },
    Finish { sender: String, to: String, denom: String },
    Donate { from: String, denom: String, amount: u128 },
    /// somebody else trades against a pool
    Shift { pool: u64, from: String, to: String, amount: u128 },
    Advance(u64),
}

impl Op {
    fn call(&self, index: &str) -> Option<(String, ExecuteMsg, Vec<Coin>)> {
        let core_addr = CORE.to_string();
        Some(match self.clone() {
            Op::MintIn { user, base, pay, min, info } => (user, ExecuteMsg::MintExactAmountIn { core_addr, input_asset: base.clone(), min_output_amount: min.into(), swap_info: compact(&info) }, vec![coin(pay, base)]),
            Op::MintOut { user, base, pay, n, info } => (user, ExecuteMsg::MintExactAmountOut { core_addr, output_amount: n.into(), input_asset: base.clone(), swap_info: compact(&info) }, vec![coin(pay, base)]),
            Op::BurnIn { user, base, n, min, info } => (user, ExecuteMsg::BurnExactAmountIn { core_addr, output_asset: base, min_output_amount: min.into(), swap_info: compact(&info) }, vec![coin(n, index)]),
            Op::BurnOut { user, base, pay, out, info } => (user, ExecuteMsg::BurnExactAmountOut { core_addr, output_asset: coin(out, base), swap_info: compact(&info) }, vec![coin(pay, index)]),
            Op::Finish { sender, to, denom } => (sender, ExecuteMsg::FinishOperation { refund_to: to, refund_asset: denom }, vec![]),
            _ => return None,
        })
    }
    fn show(&self, index: &str) -> String {
        match self {
            Op::Donate { from, denom, amount } => format!("{from} sends {amount}{denom} to the periphery"),
            Op::Shift { pool, from, to, amount } => format!("somebody swaps {amount}{from} for {to} in pool {pool}"),
            Op::Advance(t) => format!("{t}s pass"),
            _ => { let (u, m, f) = self.call(index).unwrap(); format!("{u}: {} funds={}", serde_json::to_string(&m).unwrap(), show_coins(&f)) }
        }
    }
    fn parts(&self) -> Option<(&str, &str, &[Entry])> {
        match self {
            Op::MintIn { user, base, info, .. } | Op::MintOut { user, base, info, .. } | Op::BurnIn { user, base, info, .. } | Op::BurnOut { user, base, info, .. } => Some((user, base, info)),
            _ => None,
        }
    }
    fn minting(&self) -> bool { matches!(self, Op::MintIn { .. } | Op::MintOut { .. }) }
}

fn vary(s: &mut Src, x: u128) -> u128 {
    match s.weighted(&[4, 3, 2, 2, 2, 2]) {
        0 => x,
        1 => x + x / 100 * (1 + s.draw(50) as u128),
        2 => x.saturating_sub(1),
        3 => x + s.draw(20) as u128,
        4 => muldiv(x, 500 + s.draw(1000) as u128, 1000).unwrap_or(x),
        _ => x.saturating_sub(s.draw(20) as u128),
    }
}

pub fn fee_of(rate: Option<u128>, n: u128) -> u128 { rate.map(|r| unit_mul(r, n).unwrap_or(0)).unwrap_or(0) }
/// the core contract takes a mint fee of at least one unit
pub fn mint_fee_of(rate: Option<u128>, n: u128) -> u128 { rate.map(|r| unit_mul(r, n).unwrap_or(0).max(1)).unwrap_or(0) }

/// an index amount the pools can serve
fn gen_n(s: &mut Src, w: &World, units: &[(String, u128)], base: &str, info: &[Entry], mint: bool) -> u128 {
    let c = &w.c;
    let mut cap = 1_000_000_000_000 * w.scale;
    for (a, u) in units {
        let e = match if mint { route_of(info, base, a) } else { route_of(info, a, base) } { Some(e) => e, None => continue };
        let id = if mint { e.hops.last() } else { e.hops.first() };
        if let Some(p) = id.and_then(|h| c.pools.get(&h.0)) {
            cap = cap.min(muldiv(c.bal(&p.addr(), a), E18, *u).unwrap_or(cap));
        }
    }
    let share = match s.weighted(&[6, 4, 1]) { 0 => 50 + s.draw(1000) as u128, 1 => 50 + s.draw(3500) as u128, _ => 1 + s.draw(12_000) as u128 };
    let top = muldiv(cap, share, 10_000).unwrap_or(1).max(1);
    if s.chance(2, 3) { top } else { s.log_range(1, top) }
}

/// with amounts near the pools' resolution the steps of the search for an output are not bounded by its start and the
/// amount sought: follow them
fn followable(c: &Chain, units: &[(String, u128)], base: &str, start: u128, out: u128, info: &[Entry]) -> bool {
    let mut x = start;
    for _ in 0..32 {
        let got = match sell_as(c, units, base, x, info, true) { Ok(q) => q.total, Err(e) if e == STEEP || e.starts_with("route does") => return false, Err(_) => return true };
        if got <= out && out - got < WINDOW { return true; }
        x = match muldiv(x, out, got.max(1)) { Some(v) if v < RICH => v, _ => return false };
    }
    true
}

fn spoil(s: &mut Src, c: &Chain, info: &mut Vec<Entry>) {
    if info.is_empty() { return; }
    let i = s.usize(info.len());
    match s.draw(7) {
        0 => { info.remove(i); }
        1 => { let k = s.usize(info[i].hops.len()); info[i].hops[k].0 = match s.draw(3) { 0 => 99_999, _ => { let ids: Vec<u64> = c.pools.keys().copied().collect(); *s.pick(&ids) } }; }
        2 => { let k = s.usize(info[i].hops.len()); info[i].hops[k].1 = ALL[s.usize(ALL.len())].into(); }
        3 => info[i].hops.reverse(),
        4 => info[i].hops.clear(),
        5 => { let e = info[i].clone(); let at = s.usize(info.len() + 1); info.insert(at, Entry { hops: e.hops.iter().rev().cloned().collect(), ..e }); }
        _ => { let e = &mut info[i]; std::mem::swap(&mut e.from, &mut e.to); }
    }
}

fn gen_op(cx: &mut Cx, w: &World, units: &[(String, u128)], pr: &Profile) -> Op {
    let s = &mut cx.s;
    let user = USERS[s.usize(USERS.len())].to_string();
    let kind = s.weighted(&[pr.mint_in, pr.mint_out, pr.burn_in, pr.burn_out, pr.finish, pr.donate, pr.shift, pr.advance]);
    if kind >= 4 {
        let denoms: Vec<String> = w.all.iter().map(|x| x.to_string()).chain([w.index.clone()]).collect();
        return match kind {
            4 => Op::Finish { sender: if s.chance(1, 6) { CORE.into() } else { user }, to: s.pick(&USERS).to_string(), denom: s.pick(&denoms).clone() },
            5 => Op::Donate { from: user, denom: s.pick(&denoms).clone(), amount: s.log_range(1, 1_000_000_000 * w.scale) },
            6 => {
                let ids: Vec<u64> = w.c.pools.keys().copied().collect();
                if ids.is_empty() { return Op::Advance(1); }
                let p = &w.c.pools[s.pick(&ids)];
                let i = s.usize(p.assets.len());
                let j = (i + 1 + s.usize(p.assets.len() - 1)) % p.assets.len();
                let amount = w.c.bal(&p.addr(), &p.assets[i].0) / 1000 * (1 + s.draw(200) as u128);
                Op::Shift { pool: p.id, from: p.assets[i].0.clone(), to: p.assets[j].0.clone(), amount }
            }
            _ => Op::Advance(1 + s.draw(3_000_000)),
        };
    }
    let (base, minting, burning) = w.nets[s.usize(w.nets.len())].clone();
    let mint = kind < 2;
    let mut info = if mint { minting } else { burning };
    // routes that are not needed
    for (b, m, r) in &w.nets { if s.chance(1, 6) { let extra = if *b != base { m } else { r }; let at = s.usize(info.len() + 1); for e in extra.iter().rev() { info.insert(at, e.clone()); } } }
    let n = gen_n(s, w, units, &base, &info, mint);
    let at = base.clone();
    let op = match kind {
        0 => {
            let q = buy(&w.c, units, &base, n, &info).map(|q| q.total).unwrap_or(1_000_000);
            let net = n - fee_of(w.mint_fee, n);
            let min = match s.weighted(&[5, 3, 2, 1, 2]) { 0 => net - net / 1000 * s.draw(200) as u128, 1 => net / 2, 2 => vary(s, net), 4 => s.draw(2) as u128, _ => s.log_range(0, 2 * net.max(1)) };
            Op::MintIn { user, pay: vary(s, q).max(1), base, min, info: vec![] }
        }
        1 => { let q = buy(&w.c, units, &base, n, &info).map(|q| q.total).unwrap_or(1_000_000); Op::MintOut { user, pay: vary(s, q).max(1), base, n, info: vec![] } }
        2 => {
            let net = n - fee_of(w.burn_fee, n);
            let q = sell(&w.c, units, &base, net, &info).map(|q| q.total).unwrap_or(1_000_000);
            Op::BurnIn { user, n, min: vary(s, q), base, info: vec![] }
        }
        _ => {
            let net = n - fee_of(w.burn_fee, n);
            let q = sell(&w.c, units, &base, net, &info).map(|q| q.total).unwrap_or(1_000_000);
            let out = match s.weighted(&[4, 2, 1]) { 0 => q, 1 => q / 2, _ => vary(s, q) };
            let pay = match s.weighted(&[3, 3, 2]) { 0 => n + n / 50 + 2, 1 => n * 2, _ => vary(s, n) };
            Op::BurnOut { user, pay: pay.max(1), out: out.max(1), base, info: vec![] }
        }
    };
    if s.chance(1, pr.faulty) { spoil(s, &w.c, &mut info); }
    // the search of a fixed output burn moves between its start (the payment) and the amount sought
    if let Op::BurnOut { pay, out, .. } = &op {
        let ok = |n: u128| match sell_as(&w.c, units, &at, n, &info, true) { Ok(q) => Some(q.total), Err(e) if e.starts_with("no ") => Some(u128::MAX), Err(_) => None };
        match (ok(*pay), ok(n)) { (Some(a), Some(b)) if *out <= a.max(b) => {} _ => return Op::Advance(1) }
        if !followable(&w.c, units, &at, *pay, *out, &info) { return Op::Advance(1); }
    }
    if let Op::BurnIn { n, .. } = &op { if matches!(sell_as(&w.c, units, &at, *n, &info, true), Err(e) if e == STEEP || e.starts_with("route does")) { return Op::Advance(1); } }
    match op {
        Op::MintIn { user, base, pay, min, .. } => Op::MintIn { user, base, pay, min, info },
        Op::MintOut { user, base, pay, n, .. } => Op::MintOut { user, base, pay, n, info },
        Op::BurnIn { user, base, n, min, .. } => Op::BurnIn { user, base, n, min, info },
        Op::BurnOut { user, base, pay, out, .. } => Op::BurnOut { user, base, pay, out, info },
        o => o,
    }
}

// ------------------------------------------------------------------------------------------ histories

pub struct Step<'a> { pub op: &'a Op, pub ok: bool, pub err: &'a str, pub w: &'a World, pub c0: &'a Chain, pub c: &'a Chain, pub units: &'a [(String, u128)] }

impl Step<'_> {
    fn delta(&self, who: &str, denom: &str) -> i128 { self.c.bal(who, denom) as i128 - self.c0.bal(who, denom) as i128 }
    fn what(&self) -> String { format!("{} -> {}", self.op.show(&self.w.index), if self.ok { "ok".into() } else { format!("failed: {}", self.err) }) }
    fn supply(&self) -> i128 { self.c.supply_of(&self.w.index) as i128 - self.c0.supply_of(&self.w.index) as i128 }
}

fn history(cx: &mut Cx, pr: &Profile, mut before: impl FnMut(&mut Cx, &World, &[(String, u128)]) -> R, mut oracle: impl FnMut(&mut Cx, &Step) -> R) -> R {
    let mut w = World::new(cx, pr);
    cx.log(|| {
        let pools: Vec<String> = w.c.pools.values().map(|p| format!("{} {:?} fee {} {:?}", p.id, p.kind, dec(p.fee), p.assets.iter().map(|a| format!("{}{} w{}", w.c.bal(&p.addr(), &a.0), a.0, a.1)).collect::<Vec<_>>())).collect();
        format!("units {:?} mint fee {:?} burn fee {:?}; pools {}", units_of(&w.c).unwrap_or_default(), w.mint_fee.map(dec), w.burn_fee.map(dec), pools.join("; "))
    });
    let n = 1 + cx.s.draw(pr.ops);
    for _ in 0..n {
        let a = cx.s.begin();
        let units = units_of(&w.c)?;
        before(cx, &w, &units)?;
        let op = gen_op(cx, &w, &units, pr);
        let c0 = w.c.clone();
        w.c.height += 1;
        let (mut ok, mut err) = (true, String::new());
        match &op {
            Op::Donate { from, denom, amount } => { if w.c.tx(|c| c.transfer(from, PERI, denom, *amount)).is_err() { ok = false; } }
            Op::Shift { pool, from, to, amount } => { let (p, x) = (*pool, *amount); if let Err(e) = w.c.tx(|c| { c.add("trader", from, x)?; c.swap_in("trader", &[(p, to.clone())], from, x, true).map(|_| ()) }) { ok = false; err = e; } }
            Op::Advance(t) => w.c.nanos += t * 1_000_000_000,
            _ => { let (user, msg, funds) = op.call(&w.index).unwrap(); if let Err(e) = w.c.execute(&user, PERI, &msg, &funds) { ok = false; err = e; } }
        }
        cx.log(|| format!("{} -> {}", op.show(&w.index), if ok { "ok".to_string() } else { format!("failed: {}", err.chars().take(160).collect::<String>()) }));
        cx.class(match (&op, ok) {
            (Op::MintIn { .. }, true) => "mint for payment", (Op::MintIn { .. }, false) => "mint for payment refused", (Op::MintOut { .. }, true) => "mint amount", (Op::MintOut { .. }, false) => "mint amount refused",
            (Op::BurnIn { .. }, true) => "burn amount", (Op::BurnIn { .. }, false) => "burn amount refused", (Op::BurnOut { .. }, true) => "burn for output", (Op::BurnOut { .. }, false) => "burn for output refused",
            (Op::Finish { .. }, _) => "direct payout call", _ => "other",
        });
        if ok && op.parts().is_some() {
            if w.scale > 1 { cx.class("operation in a world of large amounts"); }
            if w.all.len() > DENOMS.len() { cx.class("operation on a wide portfolio"); }
        }
        cx.checks += 1;
        let st = Step { op: &op, ok, err: &err, w: &w, c0: &c0, c: &w.c, units: &units };
        if !ok { ensure!(w.c.bank == c0.bank && w.c.contracts == c0.contracts && w.c.supply == c0.supply, "periphery: trace of a failed operation", "{} changed something", st.what()); }
        oracle(cx, &st)?;
        cx.s.end(a);
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ oracles

/// what every operation has to respect: (payment, output and index assets) leave nothing behind, outsiders untouched
fn settled(s: &Step) -> R {
    let (user, base, info) = match s.op.parts() { Some(p) if s.ok => p, _ => return Ok(()) };
    ensure!(s.c.bal(PERI, base) == 0, "periphery: keeps coins", "after {} the periphery holds {}{base}", s.what(), s.c.bal(PERI, base));
    let left = s.c.bal(PERI, &s.w.index);
    let before = if matches!(s.op, Op::BurnOut { .. }) { 0 } else { s.c0.bal(PERI, &s.w.index) };
    ensure!(left <= before, "periphery: keeps index tokens", "after {} the periphery holds {left} index tokens", s.what());
    let ids: Vec<String> = info.iter().flat_map(|e| e.hops.iter().map(|h| format!("pool{}", h.0))).collect();
    let mut accounts: Vec<&String> = s.c.bank.keys().chain(s.c0.bank.keys()).collect();
    accounts.sort();
    accounts.dedup();
    for a in accounts {
        if a == user || a == PERI || a == CORE || ids.contains(a) { continue; }
        let (x, y) = (s.c0.balances(a), s.c.balances(a));
        for k in x.keys().chain(y.keys()) {
            let (u, v) = (cget(&x, k), cget(&y, k));
            if a == "collector" {
                // fees only; streaming fees that are due are not paid out by minting or burning
                ensure!(v >= u && (v == u || *k == s.w.index), "periphery: collector's balance", "{} changed the collector's {k} from {u} to {v}", s.what());
            } else {
                ensure!(u == v, "periphery: outsider's balance", "{} changed {a}'s {k} from {u} to {v}", s.what());
            }
        }
    }
    // the user pays with the payment asset only
    for (k, v) in s.c0.balances(user) {
        let pays = if s.op.minting() { k == base } else { k == s.w.index };
        ensure!(pays || s.c.bal(user, &k) >= v, "periphery: takes another asset", "{} took {}{k} from {user}", s.what(), v - s.c.bal(user, &k));
    }
    Ok(())
}

/// leftovers of portfolio assets: below one index unit's worth of each (rounding)
fn leftovers(s: &Step) -> R {
    if !s.ok { return Ok(()); }
    let (_, base, _) = match s.op.parts() { Some(p) => p, None => return Ok(()) };
    for (k, u) in s.units {
        if k == base { continue; }
        let d = s.delta(PERI, k);
        let allow = if s.op.minting() { 0 } else { (*u / E18) as i128 * 2 + 3 };
        ensure!(d <= allow, "periphery: keeps portfolio assets", "{} left {d}{k} in the periphery", s.what());
    }
    for k in ALL { if !s.units.iter().any(|u| u.0 == k) && k != base { ensure!(s.delta(PERI, k) <= 0, "periphery: keeps intermediate assets", "{} left {}{k} in the periphery", s.what(), s.delta(PERI, k)); } }
    Ok(())
}

struct Seen { yes: bool, no: bool }
impl Seen {
    fn note(&mut self, cx: &mut Cx, s: &Step) {
        if s.ok { if !s.c.swaps.is_empty() { self.yes = true; } } else { self.no = true; }
        if self.yes && self.no { cx.nontrivial(); }
    }
}

fn c25(cx: &mut Cx) -> R {
    let pr = Profile { mint_in: 24, ops: 5, ..P };
    let mut seen = Seen { yes: false, no: false };
    history(cx, &pr, |_, _, _| Ok(()), |cx, s| {
        let (user, base, pay, min) = match s.op { Op::MintIn { user, base, pay, min, .. } => (user, base, *pay, *min), _ => return Ok(()) };
        seen.note(cx, s);
        if !s.ok { return Ok(()); }
        let got = s.delta(user, &s.w.index);
        ensure!(got >= min as i128, "mint for payment: below the minimum", "{}: received {got} index tokens, at least {min} were demanded", s.what());
        let spent = -s.delta(user, base);
        // coins the periphery held before are paid out with the change
        ensure!(spent <= pay as i128, "mint for payment: above the payment", "{}: spent {spent} of {pay}", s.what());
        let minted = s.supply();
        ensure!(minted >= got && minted - got == s.delta("collector", &s.w.index), "mint for payment: index tokens astray", "{}: {minted} minted, {got} received, collector got {}", s.what(), s.delta("collector", &s.w.index));
        settled(s)?;
        leftovers(s)
    })
}

fn c26(cx: &mut Cx) -> R {
    let pr = Profile { mint_out: 24, donate: 3, ops: 5, ..P };
    let mut seen = Seen { yes: false, no: false };
    history(cx, &pr, |_, _, _| Ok(()), |cx, s| {
        let (user, base, pay, n, info) = match s.op { Op::MintOut { user, base, pay, n, info } => (user, base, *pay, *n, info), _ => return Ok(()) };
        seen.note(cx, s);
        if !s.ok { return Ok(()); }
        let fee = mint_fee_of(s.w.mint_fee, n);
        ensure!(s.supply() == n as i128, "mint amount: other amount minted", "{}: {} minted", s.what(), s.supply());
        ensure!(s.delta(user, &s.w.index) == n as i128 - fee as i128, "mint amount: other amount received", "{}: received {}, fee {fee}", s.what(), s.delta(user, &s.w.index));
        let spent = -s.delta(user, base);
        ensure!(spent <= pay as i128, "mint amount: above the payment", "{}: spent {spent} of {pay}", s.what());
        if let Ok(q) = buy(s.c0, s.units, base, n, info) {
            ensure!(pay >= q.total.saturating_sub(q.tol()), "mint amount: insufficient payment accepted", "{}: costs {}", s.what(), q.total);
            let held = s.c0.bal(PERI, base) as i128;
            ensure!(spent <= q.total as i128 + q.tol() as i128 && spent + held >= q.total as i128 - q.tol() as i128, "mint amount: cost differs", "{}: spent {spent}, costs {} (the periphery held {held})", s.what(), q.total);
        }
        settled(s)?;
        leftovers(s)
    })
}

fn c27(cx: &mut Cx) -> R {
    let pr = Profile { burn_in: 24, ops: 5, ..P };
    let mut seen = Seen { yes: false, no: false };
    history(cx, &pr, |_, _, _| Ok(()), |cx, s| {
        let (user, base, n, min, info) = match s.op { Op::BurnIn { user, base, n, min, info } => (user, base, *n, *min, info), _ => return Ok(()) };
        seen.note(cx, s);
        if !s.ok { return Ok(()); }
        let fee = fee_of(s.w.burn_fee, n);
        ensure!(s.delta(user, &s.w.index) == -(n as i128), "burn amount: other amount taken", "{}: took {}", s.what(), -s.delta(user, &s.w.index));
        ensure!(s.supply() == -((n - fee) as i128) && s.delta("collector", &s.w.index) == fee as i128, "burn amount: other amount burned", "{}: supply changed by {}, collector got {}, fee {fee}", s.what(), s.supply(), s.delta("collector", &s.w.index));
        let got = s.delta(user, base);
        ensure!(got >= min as i128 - shares(s.units, min) as i128, "burn amount: below the minimum", "{}: received {got}, at least {min} were demanded", s.what());
        if let Ok(q) = sell(s.c0, s.units, base, n - fee, info) {
            // the periphery may leave up to one index unit's worth unsold
            let under = sell(s.c0, s.units, base, (n - fee).saturating_sub(2), info).map(|q| q.total).unwrap_or(0);
            ensure!(got >= under as i128 - q.tol() as i128, "burn amount: proceeds missing", "{}: received {got}, the basket sells for {}", s.what(), q.total);
        }
        settled(s)?;
        leftovers(s)
    })
}

fn c28(cx: &mut Cx) -> R {
    let pr = Profile { burn_out: 24, ops: 5, ..P };
    let mut seen = Seen { yes: false, no: false };
    history(cx, &pr, |_, _, _| Ok(()), |cx, s| {
        let (user, base, pay, out, info) = match s.op { Op::BurnOut { user, base, pay, out, info } => (user, base, *pay, *out, info), _ => return Ok(()) };
        seen.note(cx, s);
        if !s.ok { return Ok(()); }
        let spent = -s.delta(user, &s.w.index);
        ensure!(spent <= pay as i128, "burn for output: above the payment", "{}: spent {spent} of {pay}", s.what());
        let held = s.c0.bal(PERI, &s.w.index) as i128;
        let used = -s.supply() + s.delta("collector", &s.w.index);
        ensure!(used == spent + held, "burn for output: index tokens astray", "{}: {used} burned or paid as fee, {spent} spent and {held} held before", s.what());
        let net = (-s.supply()) as u128;
        ensure!(s.delta("collector", &s.w.index) == fee_of(s.w.burn_fee, used as u128) as i128, "burn for output: other fee", "{}: fee {}", s.what(), s.delta("collector", &s.w.index));
        let got = s.delta(user, base) - s.c0.bal(PERI, base) as i128;
        // what three more index units, and one more unit of every asset on the way, sell for
        let grain = match (sell(s.c0, s.units, base, net, info), sell(s.c0, s.units, base, net + 3, info)) {
            (Ok(a), Ok(b)) => b.total - a.total.min(b.total) + a.tol() + b.tol() + 2 * (a.step() + b.step()) + 3,
            _ => u128::MAX / 4,
        } as i128;
        ensure!(got + WINDOW as i128 + grain > out as i128, "burn for output: short", "{}: received {got} of {out}, one rounding step is worth {grain}", s.what());
        if got > out as i128 + grain && requoted(s.c0, s.units, base, info, false) { cx.known(REQUOTED, || format!("{}: received {got}, asked for {out}", s.what())); return settled(s); }
        ensure!(got <= out as i128 + grain, "burn for output: burned too much", "{}: received {got}, asked for {out}, one rounding step is worth {grain}", s.what());
        settled(s)?;
        leftovers(s)
    })
}

fn c29(cx: &mut Cx) -> R {
    let pr = Profile { finish: 6, donate: 5, ops: 8, ..P };
    let (mut direct, mut rich) = (false, false);
    history(cx, &pr, |_, _, _| Ok(()), |cx, s| {
        if let Op::Finish { sender, .. } = s.op {
            direct = true;
            ensure!(!s.ok, "periphery: payout step called from outside", "{} by {sender}", s.what());
        }
        if s.ok && s.op.parts().is_some() {
            if !s.c0.balances(PERI).is_empty() { rich = true; }
            if let Some((user, ..)) = s.op.parts() {
                for (from, to, k, x) in &s.c.sends { if from == PERI { ensure!(to == user, "periphery: pays somebody else", "{} sent {x}{k} to {to}", s.what()); } }
            }
        }
        if direct && rich { cx.nontrivial(); }
        settled(s)?;
        leftovers(s)
    })
}

// ---- simulations

#[derive(serde::Deserialize, Clone, Debug)]
pub struct MintSim { pub mint_amount: Uint128, pub mint_spend_amount: Vec<Coin>, pub swap_result_amount: Coin }
#[derive(serde::Deserialize, Clone, Debug)]
pub struct BurnSim { pub burn_amount: Uint128, pub burn_redeem_amount: Vec<Coin>, pub swap_result_amount: Coin }

fn sim_mint_in(c: &Chain, base: &str, pay: u128, info: &[Entry]) -> Res<MintSim> { c.query(PERI, &QueryMsg::SimulateMintExactAmountIn { core_addr: CORE.into(), input_asset: coin(pay, base), swap_info: compact(info) }) }
fn sim_mint_out(c: &Chain, base: &str, n: u128, info: &[Entry]) -> Res<MintSim> { c.query(PERI, &QueryMsg::SimulateMintExactAmountOut { core_addr: CORE.into(), output_amount: n.into(), input_asset: base.into(), swap_info: compact(info) }) }
fn sim_burn_in(c: &Chain, base: &str, n: u128, info: &[Entry]) -> Res<BurnSim> { c.query(PERI, &QueryMsg::SimulateBurnExactAmountIn { core_addr: CORE.into(), input_amount: n.into(), output_asset: base.into(), swap_info: compact(info) }) }
/// can the search for this output (it starts from a million index tokens) be followed?
fn searchable(c: &Chain, units: &[(String, u128)], base: &str, out: u128, n: u128, info: &[Entry]) -> bool {
    let f = |n: u128| sell(c, units, base, n, info).map(|q| q.total).ok();
    matches!((f(1_000_000), f(n)), (Some(a), Some(b)) if out <= a.max(b)) && followable(c, units, base, 1_000_000, out, info)
}
fn sim_burn_out(c: &Chain, base: &str, out: u128, info: &[Entry]) -> Res<BurnSim> { c.query(PERI, &QueryMsg::SimulateBurnExactAmountOut { core_addr: CORE.into(), output_asset: coin(out, base), swap_info: compact(info) }) }

fn basket(units: &[(String, u128)], n: u128) -> Coins { coins_map(&units.iter().map(|(k, u)| coin(unit_mul(*u, n).unwrap_or(0), k)).collect::<Vec<_>>()) }

const TWICE: &str = "a fixed-amount purchase over a route that visits one pool twice";
const REQUOTED: &str = "a stable or concentrated pool on several routes of one operation is quoted without the swaps before";

/// run a predicted operation on a copy of the state
fn run(w: &World, op: &Op) -> (Res<()>, Chain) {
    let mut c = w.c.clone();
    let (user, msg, funds) = op.call(&w.index).unwrap();
    let r = c.execute(&user, PERI, &msg, &funds);
    (r, c)
}

fn c30(cx: &mut Cx) -> R {
    let pr = Profile { ops: 4, shift: 4, revisit: true, ..P };
    history(cx, &pr, |cx, w, units| {
        let user = USERS[cx.s.usize(3)].to_string();
        let (base, minting, burning) = w.nets[cx.s.usize(w.nets.len())].clone();
        match cx.s.draw(4) {
            0 => predict_mint_out(cx, w, units, user, base, minting),
            1 => predict_burn_in(cx, w, units, user, base, burning),
            2 => predict_mint_in(cx, w, units, user, base, minting),
            _ => predict_burn_out(cx, w, units, user, base, burning),
        }
    }, |_, _| Ok(()))
}

fn predict_mint_out(cx: &mut Cx, w: &World, units: &[(String, u128)], user: String, base: String, info: Vec<Entry>) -> R {
    let n = gen_n(&mut cx.s, w, units, &base, &info, true);
    let sim = sim_mint_out(&w.c, &base, n, &info);
    let q = buy(&w.c, units, &base, n, &info);
    let (sim, q) = match (sim, q) {
        (Ok(s), Ok(q)) => (s, q),
        (Err(e), Ok(q)) => { let dust = n < 1000 || q.legs.iter().any(|l| l.index_side < 100 || (l.swapped && l.base_side / 50 < l.step)); ensure!(dust || q.strain() > 0.45 || stale(&w.c, units, &base, &info, true).is_some(), "simulation refuses what works", "minting {n} for {base} costs {}: {e}", q.total); return Ok(()); }
        _ => return Ok(()),
    };
    let fee = mint_fee_of(w.mint_fee, n);
    let total = sim.swap_result_amount.amount.u128();
    // nothing can be told about costs below the resolution of a pool
    if w.scale > 1 && q.legs.iter().any(|l| l.swapped && l.base_side <= 2 * l.err) { return Ok(()); }
    if total == 0 || fee >= n || q.legs.iter().any(|l| l.index_side == 0) { return Ok(()); }
    let shared = stale(&w.c, units, &base, &info, true);
    // room for one rounding step in every swap
    let least = q.legs.iter().filter(|l| l.swapped).map(|l| l.base_side).min().unwrap_or(1).max(1);
    let room = if q.tol() == 0 { 0 } else { muldiv_ceil(total, q.legs.iter().map(|l| l.err).max().unwrap_or(0) + 2, least).unwrap_or(0) + q.tol() + 2 };
    let op = Op::MintOut { user: user.clone(), base: base.clone(), pay: total + room, n, info };
    let (r, c) = run(w, &op);
    cx.checks += 1;
    cx.class("predicted: mint amount");
    if q.swaps() > 0 { cx.nontrivial(); }
    cx.log(|| format!("simulated {} -> {total}{base} for {} index tokens; execution: {:?}", op.show(&w.index), sim.mint_amount, r));
    if let Some(sig) = shared {
        let off = r.is_err() || (w.c.bal(&user, &base) as i128 - c.bal(&user, &base) as i128).abs_diff(total as i128) > q.tol();
        if off { cx.known(sig, || format!("simulated {total}{base} for {n} index tokens, execution: {}", match &r { Ok(_) => format!("{}", w.c.bal(&user, &base) as i128 - c.bal(&user, &base) as i128), Err(e) => e.clone() })); }
        return Ok(());
    }
    ensure!(r.is_ok(), "simulated mint amount fails", "{} (simulated payment {total}, room {room}): {}", op.show(&w.index), r.unwrap_err());
    let got = (c.bal(&user, &w.index) - w.c.bal(&user, &w.index)) as i128;
    let spent = w.c.bal(&user, &base) as i128 - c.bal(&user, &base) as i128 + w.c.bal(PERI, &base) as i128;
    ensure!((0..=1).contains(&(got - sim.mint_amount.u128() as i128)), "simulated mint amount: other amount received", "{}: simulated {}, received {got}", op.show(&w.index), sim.mint_amount);
    ensure!(spent.abs_diff(total as i128) <= q.tol(), "simulated mint amount: other cost", "{}: simulated {total}, spent {spent} (tolerance {})", op.show(&w.index), q.tol());
    ensure!(sim.swap_result_amount.denom == base && coins_map(&sim.mint_spend_amount) == basket(units, n), "simulated mint amount: other basket", "{}: simulated basket {}", op.show(&w.index), show_coins(&sim.mint_spend_amount));
    Ok(())
}

fn predict_burn_in(cx: &mut Cx, w: &World, units: &[(String, u128)], user: String, base: String, info: Vec<Entry>) -> R {
    let n = gen_n(&mut cx.s, w, units, &base, &info, false);
    let net = n - fee_of(w.burn_fee, n);
    if matches!(sell(&w.c, units, &base, n, &info), Err(e) if e == STEEP) { return Ok(()); }
    let sim = sim_burn_in(&w.c, &base, n, &info);
    let q = sell(&w.c, units, &base, net, &info);
    let (sim, q) = match (sim, q) {
        (Ok(s), Ok(q)) => (s, q),
        (Err(e), Ok(q)) => {
            // the simulation rounds the fee up: one index unit less has to work as well, by more than rounding
            let low = net.checked_sub(1).map(|n| sell(&w.c, units, &base, n, &info));
            let works = matches!(&low, Some(Ok(l)) if l.legs.iter().all(|l| l.base_side > 2 * l.err + 2 && l.strain < 0.4));
            ensure!(!works, "simulation refuses what works", "burning {n} for {base} yields {}: {e}", q.total);
            return Ok(());
        }
        _ => return Ok(()),
    };
    let total = sim.swap_result_amount.amount.u128();
    // the periphery sells the basket of the amount less the fee rounded up, at most one unit less than is burned
    let low = sell(&w.c, units, &base, sim.burn_amount.u128(), &info);
    ensure!(net.abs_diff(sim.burn_amount.u128()) <= 1 && sim.burn_amount.u128() <= net, "simulated burn amount: other amount burned", "{n} index tokens: simulated {}, really {net}", sim.burn_amount);
    let low = match low { Ok(l) => l, Err(_) => return Ok(()) };
    if low.legs.iter().any(|l| l.index_side == 0 || l.base_side <= 2 * l.err + 2) || total == 0 { return Ok(()); }
    let shared = requoted(&w.c, units, &base, &info, false);
    let least = low.legs.iter().filter(|l| l.swapped).map(|l| l.base_side).min().unwrap_or(1).max(1);
    let room = if low.tol() == 0 { 0 } else { muldiv_ceil(total, low.legs.iter().map(|l| l.err).max().unwrap_or(0) + 2, least).unwrap_or(0) + low.tol() + 2 };
    if room >= total { return Ok(()); }
    let op = Op::BurnIn { user: user.clone(), base: base.clone(), n, min: total - room, info };
    // a limit of zero is not a valid swap
    let min_limit = low.legs.iter().filter(|l| l.swapped).map(|l| muldiv(l.base_side - l.err, total - room, total).unwrap_or(0)).min().unwrap_or(1);
    if min_limit <= 1 { return Ok(()); }
    let (r, c) = run(w, &op);
    cx.checks += 1;
    cx.class("predicted: burn amount");
    if q.swaps() > 0 { cx.nontrivial(); }
    cx.log(|| format!("simulated {} -> {total}{base}; execution: {:?}", op.show(&w.index), r));
    let got = c.bal(&user, &base) as i128 - w.c.bal(&user, &base) as i128 - w.c.bal(PERI, &base) as i128;
    let extra = if units.iter().any(|u| u.0 == base) { unit_of(units, &base) as i128 + 2 } else { 0 };
    if shared {
        if r.is_err() || got.abs_diff(total as i128) > low.tol() + extra as u128 { cx.known(REQUOTED, || format!("simulated {total}{base} for burning {n} index tokens, execution: {}", match &r { Ok(_) => got.to_string(), Err(e) => e.clone() })); }
        return Ok(());
    }
    ensure!(r.is_ok(), "simulated burn amount fails", "{} (simulated {total}): {}", op.show(&w.index), r.unwrap_err());
    ensure!(got >= total as i128 - low.tol() as i128 && got <= total as i128 + low.tol() as i128 + extra, "simulated burn amount: other proceeds", "{}: simulated {total}, received {got} (tolerance {})", op.show(&w.index), low.tol());
    ensure!(sim.swap_result_amount.denom == base && coins_map(&sim.burn_redeem_amount) == basket(units, sim.burn_amount.u128()), "simulated burn amount: other basket", "{}: simulated basket {}", op.show(&w.index), show_coins(&sim.burn_redeem_amount));
    Ok(())
}

/// what is lost when an amount is shared out: one base unit per share, and the 18 digits of a share's ratio
fn shares(units: &[(String, u128)], x: u128) -> u128 { units.len() as u128 * (1 + x.div_ceil(E18)) }

fn unit_of(units: &[(String, u128)], k: &str) -> u128 { units.iter().find(|u| u.0 == k).map(|u| u.1 / E18 + 1).unwrap_or(0) }

/// index tokens between two steps of the basket's whole amounts
fn step_of(units: &[(String, u128)]) -> u128 { units.iter().map(|u| E18 / u.1.max(1) + 1).sum() }

/// the search steps by average prices: it settles when the price moves little between its steps
fn calm(a: &Quote, b: &Quote, more_n: u128, less_n: u128) -> bool {
    // elasticity of the average price below one half
    let (pa, pb) = (a.total as f64 / less_n as f64, b.total as f64 / more_n as f64);
    let r = pb / pa;
    let span = (more_n as f64 / less_n as f64).ln();
    a.total > 0 && (r.ln() / span).abs() < 0.4 && a.strain() < 0.3 && b.strain() < 0.35
}

/// a plain search by average prices, from where the simulations start, settles well within the pools' reach,
/// with direct swaps of amounts far above the smallest ones a pool can tell apart
fn settles(target: u128, q: impl Fn(u128) -> Res<Quote>) -> bool {
    let mut x = 1_000_000u128;
    for _ in 0..60 {
        let r = match q(x) { Ok(r) if r.strain() < 0.35 && r.tol() < 50 && r.step() < 50 && r.total > 1000 && target > 100_000 && target / E18 < 200 => r, _ => return false };
        if r.legs.iter().any(|l| l.swapped && (l.hops > 1 || l.base_side < 1000 || l.index_side < 1000)) { return false; }
        if r.total <= target && target - r.total < WINDOW / 4 { return true; }
        x = match muldiv(x, target, r.total) { Some(v) if v > 0 => v, _ => return false };
    }
    false
}

fn predict_mint_in(cx: &mut Cx, w: &World, units: &[(String, u128)], user: String, base: String, info: Vec<Entry>) -> R {
    let n = gen_n(&mut cx.s, w, units, &base, &info, true);
    let q = match buy(&w.c, units, &base, n, &info) { Ok(q) if q.total > 0 => q, _ => return Ok(()) };
    let pay = q.total;
    let sim = match sim_mint_in(&w.c, &base, pay, &info) {
        Ok(s) => s,
        Err(e) => {
            let due = n > 10_000 && w.mint_fee.unwrap_or(0) < E18 / 2 && stale(&w.c, units, &base, &info, true).is_none() && settles(pay, |x| buy(&w.c, units, &base, x, &info));
            ensure!(!due, "simulation refuses what works", "{pay}{base} buy {n} index tokens, a search by average prices settles: {e}");
            return Ok(());
        }
    };
    if settles(pay, |x| buy(&w.c, units, &base, x, &info)) { cx.class("search bound to settle: mint for payment"); }
    let more = buy(&w.c, units, &base, n + n / 5 + 1, &info);
    let m = sim.mint_amount.u128();
    cx.checks += 1;
    if stale(&w.c, units, &base, &info, true).is_some() { return Ok(()); }
    // prices per index token below the window and no steep curve: the search settles from any nearby start
    let steady = matches!(&more, Ok(b) if calm(&q, b, n + n / 5 + 1, n)) && pay / n.max(1) < 500 && n > 10_000 && pay > 100_000;
    if !steady || m < 1000 { return Ok(()); }
    // the simulated amount is within the error of what the payment buys
    let net = n - mint_fee_of(w.mint_fee, n).min(n);
    ensure!(m <= net + 2 + 2 * step_of(units) + net / pay.max(1) * (q.tol() + 2) + muldiv_ceil(net, 2 * (q.tol() + q.step() + 2), pay).unwrap_or(0), "simulated mint for payment: too much", "{pay}{base} buy {net} index tokens after fees, simulated {m}");
    let short = muldiv_ceil(net, WINDOW + q.tol() + 2 * q.step() + 2, pay).unwrap_or(net) + 100 + 4 + 2 * step_of(units);
    ensure!(m + short >= net, "simulated mint for payment: too little", "{pay}{base} buy {net} index tokens after fees, simulated {m}, documented error {short}");
    let min = m.saturating_sub(short + 2);
    // the search starts from the demanded amount; the swaps need room for their rounding
    if min < m / 2 || q.step() + q.tol() + shares(units, pay) > WINDOW / 4 || q.legs.iter().any(|l| l.swapped && l.base_side <= 4 * l.err + 4) { return Ok(()); }
    let op = Op::MintIn { user: user.clone(), base: base.clone(), pay, min, info };
    let (r, c) = run(w, &op);
    cx.class("predicted: mint for payment");
    if q.swaps() > 0 { cx.nontrivial(); }
    cx.log(|| format!("simulated minting for {pay}{base} -> {m} index tokens; {}: {:?}", op.show(&w.index), r));
    if let Err(e) = &r {
        // a cap on one of the swaps may be one rounding step short (caps are shared out in proportion)
        ensure!(q.tol() > 0 && e.starts_with("swap input"), "simulated mint for payment fails", "{} (simulated {m}): {e}", op.show(&w.index));
        return Ok(());
    }
    let got = c.bal(&user, &w.index).saturating_sub(w.c.bal(&user, &w.index));
    ensure!(got >= min, "simulated mint for payment: received less", "{}: simulated {m}, received {got}", op.show(&w.index));
    Ok(())
}

fn predict_burn_out(cx: &mut Cx, w: &World, units: &[(String, u128)], user: String, base: String, info: Vec<Entry>) -> R {
    let n = gen_n(&mut cx.s, w, units, &base, &info, false);
    let q = match sell(&w.c, units, &base, n, &info) { Ok(q) if q.total > 0 => q, _ => return Ok(()) };
    let out = q.total;
    if !searchable(&w.c, units, &base, out, n, &info) { return Ok(()); }
    let sim = match sim_burn_out(&w.c, &base, out, &info) {
        Ok(s) => s,
        Err(e) => {
            let due = n > 10_000 && w.burn_fee.unwrap_or(0) < E18 / 2 && stale(&w.c, units, &base, &info, false).is_none() && settles(out, |x| sell(&w.c, units, &base, x, &info));
            ensure!(!due, "simulation refuses what works", "{n} index tokens sell for {out}{base}, a search by average prices settles: {e}");
            return Ok(());
        }
    };
    if settles(out, |x| sell(&w.c, units, &base, x, &info)) { cx.class("search bound to settle: burn for output"); }
    cx.checks += 1;
    if requoted(&w.c, units, &base, &info, false) { return Ok(()); }
    let more = sell(&w.c, units, &base, n + n / 5 + 1, &info);
    let steady = matches!(&more, Ok(b) if calm(&q, b, n + n / 5 + 1, n)) && out / n.max(1) < 500 && n > 10_000 && out > 100_000;
    if !steady { return Ok(()); }
    // gross amount that leaves n after the fee
    let gross = match w.burn_fee { Some(r) => { if r > E18 / 2 { return Ok(()); } muldiv_ceil(n, E18, E18 - r).unwrap_or(n) } None => n };
    let b = sim.burn_amount.u128();
    let slack = muldiv_ceil(gross, 2 * (WINDOW + q.tol() + 2 * q.step() + 2), out).unwrap_or(gross) + 4 + 2 * step_of(units);
    ensure!(b <= gross + slack && b + slack >= gross, "simulated burn for output: other amount", "{out}{base} need {gross} index tokens, simulated {b}, documented error {slack}");
    if q.step() + q.tol() + shares(units, out) > WINDOW / 4 || q.legs.iter().any(|l| l.swapped && l.base_side <= 4 * l.err + 4) || slack > gross / 4 { return Ok(()); }
    if sell(&w.c, units, &base, b + 2 * slack, &info).is_err() { return Ok(()); }
    let op = Op::BurnOut { user: user.clone(), base: base.clone(), pay: b + 2 * slack, out, info };
    let (r, c) = run(w, &op);
    cx.class("predicted: burn for output");
    if q.swaps() > 0 { cx.nontrivial(); }
    cx.log(|| format!("simulated burning for {out}{base} -> {b} index tokens; {}: {:?}", op.show(&w.index), r));
    if let Err(e) = &r {
        ensure!(q.tol() > 0 && e.starts_with("swap output"), "simulated burn for output fails", "{} (simulated {b}): {e}", op.show(&w.index));
        return Ok(());
    }
    // index tokens the periphery held before are paid out with the change
    let spent = w.c.bal(&user, &w.index) as i128 - c.bal(&user, &w.index) as i128 + w.c.bal(PERI, &w.index) as i128;
    ensure!(spent <= (b + 2 * slack) as i128, "simulated burn for output: spent more", "{}: simulated {b}, spent {spent}", op.show(&w.index));
    Ok(())
}

fn c33(cx: &mut Cx) -> R {
    let pr = Profile { ops: 4, shift: 3, revisit: true, ..P };
    history(cx, &pr, |cx, w, units| {
        let (base, minting, burning) = w.nets[cx.s.usize(w.nets.len())].clone();
        estimates(cx, w, units, &base, &minting, &burning)?;
        decoys(cx, w, units, &base, &minting, &burning)
    }, |_, s| {
        // the messages built from an estimate
        let (user, base, info) = match s.op.parts() { Some(p) if s.ok => p, _ => return Ok(()) };
        let mint = s.op.minting();
        let swaps: Vec<&Swap> = s.c.swaps.iter().filter(|x| x.sender == PERI).collect();
        let need: Vec<&(String, u128)> = s.units.iter().filter(|u| u.0 != base).collect();
        ensure!(swaps.len() == need.len(), "estimate: other number of swaps", "{}: {} swaps for {} assets", s.what(), swaps.len(), need.len());
        let n = s.supply().unsigned_abs();
        let mut limits = 0u128;
        for (k, u) in &need {
            let e = if mint { route_of(info, base, k) } else { route_of(info, k, base) };
            let e = match e { Some(e) => e, None => return fail("estimate: swap without a route", format!("{}: {k}", s.what())) };
            let x = swaps.iter().find(|x| x.denom == *k && x.exact_in != mint);
            let x = match x { Some(x) => x, None => return fail("estimate: asset not swapped", format!("{}: {k}", s.what())) };
            ensure!(x.routes == e.hops, "estimate: other route", "{}: {k} went over {:?}, given was {:?}", s.what(), x.routes, e.hops);
            let exact = unit_mul(*u, n).unwrap_or(0);
            let least = if mint { exact } else { unit_mul(*u, n.saturating_sub(2)).unwrap_or(0) };
            ensure!(x.amount <= exact && x.amount >= least, "estimate: other amount swapped", "{}: swapped {}{k}, {n} index tokens hold {exact}", s.what(), x.amount);
            limits += x.limit;
        }
        let own = s.units.iter().find(|u| u.0 == base).map(|u| unit_mul(u.1, n).unwrap_or(0)).unwrap_or(0);
        match s.op {
            Op::MintOut { pay, .. } => ensure!(limits <= *pay, "estimate: swaps may spend more than the payment", "{}: caps add up to {limits}", s.what()),
            Op::BurnIn { min, .. } => ensure!(limits + own + shares(s.units, s.c.bal(user, base).saturating_sub(s.c0.bal(user, base)).max(*min)) >= *min, "estimate: swaps may yield less than the minimum", "{}: demanded outputs add up to {limits}, own share {own}", s.what()),
            _ => {}
        }
        Ok(())
    })
}

fn estimates(cx: &mut Cx, w: &World, units: &[(String, u128)], base: &str, minting: &[Entry], burning: &[Entry]) -> R {
    let n = gen_n(&mut cx.s, w, units, base, minting, true);
    let sig = stale(&w.c, units, base, minting, true);
    let shared = sig.is_some();
    if let (Ok(sim), Ok(q)) = (sim_mint_out(&w.c, base, n, minting), buy(&w.c, units, base, n, minting)) {
        let got = sim.swap_result_amount.amount.u128();
        cx.checks += 1;
        cx.class("estimate: mint amount");
        if q.swaps() > 1 || q.hops() > 1 { cx.nontrivial(); }
        cx.log(|| format!("estimate of {n} index tokens in {base}: {got}, priced one by one: {}", q.total));
        if got.abs_diff(q.total) > q.tol() {
            if !shared { return fail("estimate: cost differs", format!("{n} index tokens in {base} are estimated at {got}, the swaps cost {} (tolerance {}) {:?}", q.total, q.tol(), q.legs)); }
            cx.known(sig.unwrap(), || format!("{n} index tokens in {base} are estimated at {got}, the swaps cost {}", q.total));
        }
    }
    let pay = match buy(&w.c, units, base, n, minting) { Ok(q) => { let v = vary(&mut cx.s, q.total); v.max(1) } Err(_) => 1_000_000 };
    if let Ok(sim) = sim_mint_in(&w.c, base, pay, minting) {
        let spent = sim.swap_result_amount.amount.u128();
        cx.checks += 1;
        cx.class("estimate: mint for payment");
        ensure!(spent <= pay && pay - spent < WINDOW, "estimate: search outside its window", "a payment of {pay}{base} is estimated to spend {spent}");
        // the amount whose basket is reported costs what is reported
        if let Some((lo, hi)) = amount_between(units, &sim.mint_spend_amount) {
            let (a, b) = (buy(&w.c, units, base, lo, minting), buy(&w.c, units, base, hi, minting));
            if let (Ok(a), Ok(b), false) = (a, b, shared) {
                ensure!(spent + a.tol() >= a.total && spent <= b.total + b.tol(), "estimate: search result costs something else", "the basket {} is reported to cost {spent}{base}, it costs {} to {}", show_coins(&sim.mint_spend_amount), a.total, b.total);
            }
        }
    }
    let n = gen_n(&mut cx.s, w, units, base, burning, false);
    let shared = requoted(&w.c, units, base, burning, false);
    if matches!(sell(&w.c, units, base, n, burning), Err(e) if e == STEEP) { return Ok(()); }
    if let Ok(sim) = sim_burn_in(&w.c, base, n, burning) {
        if let Ok(q) = sell(&w.c, units, base, sim.burn_amount.u128(), burning) {
            let got = sim.swap_result_amount.amount.u128();
            cx.checks += 1;
            cx.class("estimate: burn amount");
            if q.swaps() > 1 || q.hops() > 1 { cx.nontrivial(); }
            cx.log(|| format!("estimate of burning {n} index tokens for {base}: {got}, priced one by one: {}", q.total));
            if got.abs_diff(q.total) > q.tol() {
                if !shared { return fail("estimate: proceeds differ", format!("{n} index tokens in {base} are estimated at {got}, the swaps yield {} (tolerance {}) {:?}", q.total, q.tol(), q.legs)); }
                cx.known(REQUOTED, || format!("burning {n} index tokens for {base} is estimated at {got}, the swaps yield {}", q.total));
            }
        }
    }
    let out = match sell(&w.c, units, base, n, burning) { Ok(q) => { let v = vary(&mut cx.s, q.total); v.max(1) } Err(_) => 1_000_000 };
    if !searchable(&w.c, units, base, out, n, burning) { return Ok(()); }
    if let Ok(sim) = sim_burn_out(&w.c, base, out, burning) {
        let got = sim.swap_result_amount.amount.u128();
        cx.checks += 1;
        cx.class("estimate: burn for output");
        ensure!(got <= out && out - got < WINDOW, "estimate: search outside its window", "an output of {out}{base} is estimated to yield {got}");
    }
    Ok(())
}

/// entries of other pairs change nothing, and none of them stands in for a missing one
fn decoys(cx: &mut Cx, w: &World, units: &[(String, u128)], base: &str, minting: &[Entry], burning: &[Entry]) -> R {
    let need: Vec<&(String, u128)> = units.iter().filter(|u| u.0 != base).collect();
    if need.is_empty() || !cx.s.chance(1, 2) { return Ok(()); }
    let mint = cx.s.chance(1, 2);
    let info = if mint { minting } else { burning };
    let k = cx.s.pick(&need).0.clone();
    let n = gen_n(&mut cx.s, w, units, base, info, mint);
    if units.iter().any(|u| unit_mul(u.1, n).unwrap_or(0) == 0) { return Ok(()); }
    let hops = cx.s.pick(info).hops.clone();
    let pair = |a: &str, b: &str| if mint { (a.to_string(), b.to_string()) } else { (b.to_string(), a.to_string()) };
    let mut extra: Vec<Entry> = vec![];
    for (a, b) in [pair(base, "uother"), pair("uother", &k), pair(&k, base), pair("uother", "uelse"), pair(base, base)] {
        if cx.s.chance(1, 2) { extra.push(Entry { from: a, to: b, hops: hops.clone() }); }
    }
    let quote = |info: &[Entry]| -> [Res<u128>; 2] {
        let x = n.min(1 << 100);
        if mint { [sim_mint_out(&w.c, base, x, info).map(|r| r.swap_result_amount.amount.u128()), sim_mint_in(&w.c, base, x, info).map(|r| r.swap_result_amount.amount.u128())] }
        else { [sim_burn_in(&w.c, base, x, info).map(|r| r.swap_result_amount.amount.u128()), Err(String::new())] }
    };
    let front = cx.s.chance(1, 2);
    let with = |v: &[Entry]| -> Vec<Entry> { if front { extra.iter().chain(v).cloned().collect() } else { v.iter().chain(&extra).cloned().collect() } };
    cx.checks += 1;
    cx.log(|| format!("{} {n} for {base} with other routes {extra:?}, then without the one of {k}", if mint { "mint" } else { "burn" }));
    if !extra.is_empty() {
        let (a, b) = (quote(info), quote(&with(info)));
        for (a, b) in a.iter().zip(&b) { ensure!(a.as_ref().ok() == b.as_ref().ok(), "estimate: changed by other routes", "{a:?} became {b:?} with {extra:?}"); }
    }
    let left: Vec<Entry> = info.iter().filter(|e| e.from != k && e.to != k).cloned().collect();
    for v in [left.clone(), with(&left), vec![Entry { from: if mint { base.into() } else { k.clone() }, to: "uother".into(), hops: hops.clone() }], vec![Entry { from: if mint { "uother".into() } else { k.clone() }, to: if mint { k.clone() } else { "uother".into() }, hops: hops.clone() }]] {
        let q = quote(&v);
        ensure!(q[0].is_err() && q[1].is_err(), "estimate: asset without a route priced", "no route for {k} in {v:?}, estimated {q:?}");
    }
    cx.class("other and missing routes");
    Ok(())
}

/// index amounts whose basket is the given one
fn amount_between(units: &[(String, u128)], spend: &[Coin]) -> Option<(u128, u128)> {
    let m = coins_map(spend);
    let (mut lo, mut hi) = (0u128, u128::MAX);
    for (k, u) in units {
        let x = cget(&m, k);
        lo = lo.max(muldiv_ceil(x, E18, *u)?);
        hi = hi.min(muldiv_ceil(x + 1, E18, *u)?.checked_sub(1)?);
    }
    if lo <= hi { Some((lo, hi)) } else { None }
}

/// what every successful operation says about itself (C36)
pub fn events(cx: &mut Cx) -> R {
    let mut n = 0;
    history(cx, &P, |_, _, _| Ok(()), |cx, s| {
        let (user, base, info) = match s.op.parts() { Some(p) if s.ok => p, _ => return Ok(()) };
        n += 1;
        cx.class("event judged");
        if n >= 2 { cx.nontrivial(); }
        let what = s.what();
        let idx = &s.w.index;
        let me = ("executor", user.to_string());
        let got = s.delta(user, idx);
        // the amounts worked out beforehand hold within a unit
        let near = |key: &str, name: &str| -> R {
            let v = told_value(s.c, PERI, name, key).unwrap_or_default();
            let x = v.strip_suffix(idx.as_str()).and_then(|a| a.parse::<i128>().ok());
            ensure!(x.map(|x| (x - got).abs() <= 1).unwrap_or(false), format!("event: {name} {key}"), "{what}: the event says {key} = {v}, {user} received {got}{idx}");
            Ok(())
        };
        match s.op {
            Op::MintIn { pay, .. } => {
                told(s.c, PERI, "mint_exact_amount_in", &[me, ("input", format!("{pay}{base}"))], &what)?;
                near("min_output", "mint_exact_amount_in")?;
            }
            Op::MintOut { pay, n, .. } => {
                told(s.c, PERI, "mint_exact_amount_out", &[me, ("max_input", format!("{pay}{base}"))], &what)?;
                near("output", "mint_exact_amount_out")?;
                if let Ok(q) = buy(s.c0, s.units, base, *n, info) {
                    let r = told_value(s.c, PERI, "mint_exact_amount_out", "refund").and_then(|v| v.parse::<i128>().ok()).unwrap_or(-1);
                    if r < 0 || (r - (*pay as i128 - q.total as i128)).abs() > 2 * q.tol() as i128 {
                        let why = || format!("{what}: the event says {r} is paid back, {pay} was paid and it costs {}", q.total);
                        match stale(s.c0, s.units, base, info, true) { Some(sig) if r >= 0 => cx.known(sig, why), _ => return fail("event: mint_exact_amount_out refund", why()) }
                    }
                }
            }
            Op::BurnIn { n, min, .. } => told(s.c, PERI, "burn_exact_amount_in", &[me, ("input_amount", format!("{n}{idx}")), ("min_output_amount", format!("{min}{base}"))], &what)?,
            Op::BurnOut { pay, out, .. } => told(s.c, PERI, "burn_exact_amount_out", &[me, ("max_input", format!("{pay}{idx}")), ("output", format!("{out}{base}"))], &what)?,
            _ => {}
        }
        // every payout names its recipient, asset and amount
        let outs: Vec<(String, String, u128)> = s.c.events.iter().filter(|e| e.0 == PERI && e.1.iter().any(|a| a.0 == "method" && a.1 == "finish_operation")).map(|e| {
            let g = |k: &str| e.1.iter().find(|a| a.0 == k).map(|a| a.1.clone()).unwrap_or_default();
            (g("refund_to"), g("refund_asset"), g("amount").parse().unwrap_or(u128::MAX))
        }).filter(|x| x.2 > 0).collect();
        let sent: Vec<(String, String, u128)> = s.c.sends.iter().filter(|x| x.0 == PERI).map(|x| (x.1.clone(), x.2.clone(), x.3)).collect();
        ensure!(outs == sent, "event: finish_operation", "{what}: the events say {outs:?} was paid out, it was {sent:?}");
        // and the index contract names the periphery as the one who mints or burns
        let moved = s.supply();
        if s.op.minting() { told(s.c, CORE, "mint", &[("executor", PERI.to_string()), ("receiver", user.to_string()), ("amount", moved.to_string())], &what)?; }
        else { told(s.c, CORE, "burn", &[("executor", PERI.to_string()), ("amount", (-moved).to_string())], &what)?; }
        Ok(())
    })
}

// ------------------------------------------------------------------------------------------ answers (C37)

/// short histories, with simulations before the operations
pub fn answers(cx: &mut Cx, judge: &mut dyn FnMut(&mut Cx, &Chain, serde_json::Value) -> R) -> R {
    use serde_json::json;
    history(cx, &Profile { ops: 2, ..P }, |cx, w, units| {
        let (base, minting, burning) = w.nets[cx.s.usize(w.nets.len())].clone();
        let n = gen_n(&mut cx.s, w, units, &base, &minting, true).min(1_000_000_000_000);
        let (mint, burn) = (json!(compact(&minting)), json!(compact(&burning)));
        let q = match cx.s.draw(2) {
            0 => json!({ "simulate_mint_exact_amount_out": { "core_addr": CORE, "output_amount": n.to_string(), "input_asset": base, "swap_info": mint } }),
            _ => match sell(&w.c, units, &base, n, &burning) {
                Ok(_) => json!({ "simulate_burn_exact_amount_in": { "core_addr": CORE, "input_amount": n.to_string(), "output_asset": base, "swap_info": burn } }),
                Err(_) => return Ok(()),
            },
        };
        judge(cx, &w.c, q)?;
        // the searches, where they are known to end
        if let Ok(q) = sell(&w.c, units, &base, n, &burning) {
            if q.total > 0 && searchable(&w.c, units, &base, q.total, n, &burning) {
                judge(cx, &w.c, json!({ "simulate_burn_exact_amount_out": { "core_addr": CORE, "output_asset": { "denom": base, "amount": q.total.to_string() }, "swap_info": burn } }))?;
            }
        }
        if let Ok(q) = buy(&w.c, units, &base, n, &minting) {
            if q.total > 0 { judge(cx, &w.c, json!({ "simulate_mint_exact_amount_in": { "core_addr": CORE, "input_asset": { "denom": base, "amount": q.total.to_string() }, "swap_info": mint } }))?; }
        }
        Ok(())
    }, |_, s| {
        let _ = s;
        Ok(())
    })
}
