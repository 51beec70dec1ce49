//! Pool arithmetic, the power function, route and pool decoding, and migration: C31, C32, C34, C35.

use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};

use cosmwasm_std::{coin, Decimal, Decimal256, Uint256, Uint512};
use ibcx_interface::{airdrop as airdrop_api, core as core_api, periphery::*};

use crate::chain::*;
use crate::pbt::*;
use crate::periphery_world::{BurnSim, MintSim, PERI};
use crate::wide::*;

const A31: &[&str] = &[
    "quotes are taken through the periphery's simulation queries for a portfolio of one token per index unit, without fees, so that they are the pool estimates themselves",
    "trades that leave a power base within 0.02 of 0 or 2 are not generated: the series takes too many terms there for a chain to run",
];
const A32: &[&str] = &["bases within 0.001 of 0 or 2 are not generated with a fractional exponent: the series takes too many terms there for a chain to run", "the reference is the C library's double precision exp and log (relative error below 1e-13 on the generated range)"];
const A34: &[&str] = &["pool records look as the poolmanager module's JSON encoding prints them"];
const A35: &[&str] = &["a migration runs as the chain runs it: it is rolled back when it fails"];

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C31", quick: 50000, thorough: 1000000, rule: "a quote with a fractional weight ratio was given, or two quotes depend on each other", run: c31, assumptions: A31 },
        Prop { id: "C32", quick: 400000, thorough: 10000000, rule: "an exponent with a fractional part and a base other than one", run: c32, assumptions: A32 },
        Prop { id: "C34", quick: 100000, thorough: 2000000, rule: "a list of at least two routes with a pool in common or several hops was decoded, or records of several kinds were loaded", run: c34, assumptions: A34 },
        Prop { id: "C35", quick: 250000, thorough: 4000000, rule: "a stored version that is well-formed, other than the contract's own, or a forced migration", run: c35, assumptions: A35 },
    ]
}

// ------------------------------------------------------------------------------------------ C31

const D: [&str; 4] = ["uatom", "ibc/27394FB092D2ECCD56123C74F36E4C1F", "uusdc", "factory/x/ukrw"];

thread_local! { static BEDS: RefCell<BTreeMap<Vec<&'static str>, Chain>> = const { RefCell::new(BTreeMap::new()) }; }

/// a chain with an index of one token of each of `assets`, free of fees
fn bed(assets: &[&'static str]) -> Chain {
    BEDS.with(|b| {
        b.borrow_mut().entry(assets.to_vec()).or_insert_with(|| {
            let mut c = Chain::new(1_700_000_000_000_000_000);
            let fee = core_api::FeePayload { collector: "collector".into(), mint_fee: None, burn_fee: None, streaming_fee: None };
            let units = assets.iter().map(|a| (a.to_string(), Decimal::one())).collect();
            c.instantiate(Kind::Core, "core", "gov", &core_api::InstantiateMsg { gov: "gov".into(), fee, index_denom: "uibcx".into(), index_units: units, reserve_denom: "uosmo".into() }).expect("core starts");
            c.instantiate(Kind::Periphery, PERI, "gov", &InstantiateMsg {}).expect("periphery starts");
            c
        }).clone()
    })
}

fn hops(h: &[(u64, &str)]) -> Vec<String> { h.iter().map(|(p, d)| format!("{p},{d}")).collect() }

/// what the pools give for x of each of `from`, sold for `to` along the routes
fn sell_quote(pools: &Chain, from: &[&'static str], to: &str, x: u128, routes: &[Vec<(u64, &str)>]) -> Res<u128> {
    let mut c = bed(from);
    c.pools = pools.pools.clone();
    for p in pools.pools.values() { c.bank.insert(p.addr(), pools.balances(&p.addr())); }
    let info = from.iter().zip(routes).map(|(f, r)| SwapInfoCompact { key: format!("{f},{to}"), routes: hops(r) }).collect();
    let r: BurnSim = c.query(PERI, &QueryMsg::SimulateBurnExactAmountIn { core_addr: "core".into(), input_amount: x.into(), output_asset: to.into(), swap_info: SwapInfosCompact(info) })?;
    Ok(r.swap_result_amount.amount.u128())
}

/// what y of each of `to` costs in `from`
fn buy_quote(pools: &Chain, from: &str, to: &[&'static str], y: u128, routes: &[Vec<(u64, &str)>]) -> Res<u128> {
    let mut c = bed(to);
    c.pools = pools.pools.clone();
    for p in pools.pools.values() { c.bank.insert(p.addr(), pools.balances(&p.addr())); }
    let info = to.iter().zip(routes).map(|(t, r)| SwapInfoCompact { key: format!("{from},{t}"), routes: hops(r) }).collect();
    let r: MintSim = c.query(PERI, &QueryMsg::SimulateMintExactAmountOut { core_addr: "core".into(), output_amount: y.into(), input_asset: from.into(), swap_info: SwapInfosCompact(info) })?;
    Ok(r.swap_result_amount.amount.u128())
}

/// error of the power function for base 1 +- x and exponent r, absolute
fn pow_err(x: f64, sign: f64, r: f64) -> f64 {
    let b = 1.0 + sign * x;
    let n = r.floor();
    let ip = b.powf(n);
    let series = if r == n { 0.0 } else { 1e-8 * (1.0 + x / (1.0 - x)) + 2e-15 / (1.0 - x) };
    ip * series + (ip + 1.0) * (n + 2.0) * 4e-18 + 1e-18
}

struct Pair { bi: u128, bo: u128, wi: u128, wo: u128, fee: u128 }

impl Pair {
    fn r_sell(&self) -> f64 { self.wi as f64 / self.wo as f64 }
    /// range of acceptable outputs for x: real value between the two roundings of the amount after fees, and the error
    fn sell_range(&self, x: u128) -> (f64, f64, f64) {
        let net = muldiv(x, E18 - self.fee, E18).unwrap() as f64;
        let (bi, bo, r) = (self.bi as f64, self.bo as f64, self.r_sell());
        let f = |n: f64| -bo * (-r * (n / bi).ln_1p()).exp_m1();
        let b = bi / (bi + net);
        let tol = bo * (pow_err(1.0 - b, -1.0, r) + r * 1e-17 * (1.0 + 1.0 / b)) + bo * 1e-15 + f(net) * (4e-15 + r * 2e-15) + 1.0;
        (f(net), f(net + 1.0), tol)
    }
    fn buy_range(&self, y: u128) -> (f64, f64) {
        let (bi, bo) = (self.bi as f64, self.bo as f64);
        let r = self.wo as f64 / self.wi as f64;
        let keep = (E18 - self.fee) as f64 / 1e18;
        // 1 - y/bo without cancellation
        let left = (self.bo - y) as f64 / bo;
        let b = 1.0 / left;
        let l = if y as f64 / bo < 0.1 { -(-(y as f64) / bo).ln_1p() } else { -left.ln() };
        let v = bi * (r * l).exp_m1() / keep;
        let tol = bi / keep * (pow_err(b - 1.0, 1.0, r) + b.powf(r) * r * 3e-18 * (1.0 + b)) + bi / keep * 1e-15 + v * (4e-15 + r * 2e-15) + 1.0;
        (v, tol)
    }
}

fn w4(a: u128, b: Uint512) -> Uint512 { w(a) * b }

/// for equal weights the quotes are rational: exact rounding against the trader, up to one part in 1e18 of the pool
fn exact_sell(p: &Pair, x: u128, out: u128) -> R {
    let s = wmul(x, E18 - p.fee); // amount after fees, times 1e18
    let den = wmul(p.bi, E18) + s;
    ensure!(w4(out, den) * w(E18) <= w4(p.bo, s) * w(E18) + w4(2 * p.bo, den), "sell quote: favours the trader", "{x} for {out}, {} / {} fee {}", p.bi, p.bo, dec(p.fee));
    let net = muldiv(x, E18 - p.fee, E18).unwrap();
    ensure!(wmul(out + 1, p.bi + net) > wmul(p.bo, net), "sell quote: rounds down twice", "{x} for {out}, {} / {} fee {}", p.bi, p.bo, dec(p.fee));
    Ok(())
}
fn exact_buy(p: &Pair, y: u128, cost: u128) -> R {
    // cost * (1 - fee) >= bi * y / (bo - y), up to bi * 1e-18 * small
    let left = p.bo - y;
    let exact = wmul(p.bi, y) * w(E18);
    let paid = wmul(cost, E18 - p.fee) * w(left);
    let slack = wmul(4 * p.bi, left);
    ensure!(paid + slack >= exact, "buy quote: favours the trader", "{y} for {cost}, {} / {} fee {}", p.bi, p.bo, dec(p.fee));
    ensure!(cost == 0 || wmul(cost - 1, E18 - p.fee) * w(left) <= exact + slack, "buy quote: rounds up twice", "{y} for {cost}, {} / {} fee {}", p.bi, p.bo, dec(p.fee));
    Ok(())
}

fn gen_weight_pool(s: &mut Src, c: &mut Chain, id: u64) {
    let n = 2 + s.usize(3);
    let style = s.weighted(&[4, 3, 3]);
    let base = s.log_range(1_000, 1_000_000_000_000_000_000_000_000);
    let fee = match s.weighted(&[3, 4, 2, 1, 1]) { 0 => 0, 1 => E18 / 10_000 * (1 + s.draw(500) as u128), 2 => s.draw128(E18 / 5), 3 => E18 - 1 - s.draw128(E18 / 2), _ => 1 + s.draw(10) as u128 };
    let assets: Vec<(String, u128)> = (0..n).map(|i| (D[i].to_string(), match style { 0 => 1, 1 => 1 << s.draw(4), _ => { let top = if s.chance(1, 8) { 1_000_000 } else { 30 }; 1 + s.draw(top) as u128 } })).collect();
    let p = ChainPool { id, kind: PoolKind::Weighted, assets, fee };
    for i in 0..n {
        let b = if s.chance(2, 3) { muldiv(base, 1 + s.draw(10_000) as u128, 1_000).unwrap().max(10) } else { s.log_range(10, 1_000_000_000_000_000_000_000_000) };
        c.add(&p.addr(), D[i], b).unwrap();
    }
    c.pools.insert(id, p);
}

fn c31(cx: &mut Cx) -> R {
    let mut c = Chain::new(0);
    let id = 1 + cx.s.draw(2000);
    gen_weight_pool(&mut cx.s, &mut c, id);
    let p = c.pools[&id].clone();
    let n = p.assets.len();
    let i = cx.s.usize(n);
    let o = (i + 1 + cx.s.usize(n - 1)) % n;
    let (di, dd) = (D[i], D[o]);
    let addr = p.addr();
    let pr = Pair { bi: c.bal(&addr, di), bo: c.bal(&addr, dd), wi: p.assets[i].1, wo: p.assets[o].1, fee: p.fee };
    cx.log(|| format!("pool {id} fee {} {:?}", dec(p.fee), p.assets.iter().map(|a| format!("{}{} w{}", c.bal(&addr, &a.0), a.0, a.1)).collect::<Vec<_>>()));
    for _ in 0..1 + cx.s.draw(2) {
        let a = cx.s.begin();
        match cx.s.weighted(&[4, 4, 2, 2, 2, 1]) {
            0 => selling(cx, &c, id, &pr, di, dd)?,
            1 => buying(cx, &c, id, &pr, di, dd)?,
            2 => round_trip(cx, &c, id, &pr, di, dd)?,
            3 => sequence(cx, &c, id)?,
            4 => impossible(cx, &c, id, &pr, di, dd)?,
            _ => double_hop(cx, &c, id)?,
        }
        cx.s.end(a);
    }
    Ok(())
}

fn gen_sale(s: &mut Src, p: &Pair) -> u128 {
    let net = match s.weighted(&[5, 3, 2]) { 0 => p.bi / 1000 * (s.draw(2000) as u128 + 1) + s.draw128(p.bi / 1000 + 1), 1 => s.log_range(1, p.bi), _ => s.draw128(p.bi.saturating_mul(40)) };
    // the pool sees the amount after fees
    muldiv(net.max(1).min(p.bi.saturating_mul(40)), E18, E18 - p.fee).unwrap_or(1).min(1 << 120)
}
fn gen_buy(s: &mut Src, p: &Pair) -> u128 {
    let top = p.bo / 1000 * 494;
    let y = match s.weighted(&[5, 3]) { 0 => muldiv(p.bo, 1 + s.draw(494) as u128, 1000).unwrap(), _ => s.log_range(1, top.max(1)) };
    y.max(1)
}
fn fits(p: &Pair) -> bool { (p.wi as f64 / p.wo as f64) < 40.0 && (p.wo as f64 / p.wi as f64) < 40.0 }
fn trade_note(cx: &mut Cx, p: &Pair, what: &'static str) { cx.checks += 1; cx.class(what); if p.wi % p.wo != 0 || p.wo % p.wi != 0 { cx.nontrivial(); } }

fn judge_sell(p: &Pair, x: u128, got: u128) -> R {
    let (lo, hi, tol) = p.sell_range(x);
    let g = got as f64;
    ensure!(g >= lo - tol - 1.0 && g <= hi + tol, "sell quote: off the invariant", "{x} into {} (weight {}) for {got} of {} (weight {}) fee {}: the invariant gives {lo}..{hi}, tolerance {tol}", p.bi, p.wi, p.bo, p.wo, dec(p.fee));
    ensure!(got <= p.bo, "sell quote: more than the pool has", "{x} into {} for {got} of {}", p.bi, p.bo);
    if p.wi == p.wo { exact_sell(p, x, got)?; }
    Ok(())
}
fn judge_buy(p: &Pair, y: u128, cost: u128) -> R {
    let (v, tol) = p.buy_range(y);
    let g = cost as f64;
    ensure!(g >= v - tol && g <= v + tol + 1.0, "buy quote: off the invariant", "{y} of {} (weight {}) for {cost} into {} (weight {}) fee {}: the invariant gives {v}, tolerance {tol}", p.bo, p.wo, p.bi, p.wi, dec(p.fee));
    if p.wi == p.wo { exact_buy(p, y, cost)?; }
    Ok(())
}

fn selling(cx: &mut Cx, c: &Chain, id: u64, p: &Pair, di: &'static str, dd: &'static str) -> R {
    let x = gen_sale(&mut cx.s, p);
    let q = sell_quote(c, &[di], dd, x, &[vec![(id, dd)]]);
    cx.log(|| format!("sell {x}{di} for {dd}: {q:?}"));
    let net = muldiv(x, E18 - p.fee, E18).unwrap();
    let got = match q {
        Ok(g) => g,
        Err(e) => {
            // refused only when nothing remains of the input, or the power is too small for 18 decimals
            let change = -(-p.r_sell() * (net as f64 / p.bi as f64).ln_1p()).exp_m1();
            ensure!(net == 0 || change < 1e-6 || !fits(p) || change > 0.999_999, "sell quote: refused", "{x} into {} for a share {change} of {}: {e}", p.bi, p.bo);
            return Ok(());
        }
    };
    trade_note(cx, p, "sell quote");
    judge_sell(p, x, got)?;
    // selling more never yields less
    let more = x + match cx.s.draw(3) { 0 => 1, 1 => x / 100 + 1, _ => x / 2 + 1 };
    if muldiv(more, E18 - p.fee, E18).unwrap() / 40 < p.bi {
        if let Ok(g2) = sell_quote(c, &[di], dd, more, &[vec![(id, dd)]]) {
            let tol = if p.wi % p.wo == 0 { 0.0 } else { 2.0 * p.sell_range(more).2 };
            ensure!(g2 as f64 >= got as f64 - tol, "sell quote: not monotone", "{x} sells for {got}, {more} for {g2}");
        }
    }
    Ok(())
}

fn buying(cx: &mut Cx, c: &Chain, id: u64, p: &Pair, di: &'static str, dd: &'static str) -> R {
    let y = gen_buy(&mut cx.s, p);
    let q = buy_quote(c, di, &[dd], y, &[vec![(id, di)]]);
    cx.log(|| format!("buy {y}{dd} for {di}: {q:?}"));
    let cost = match q {
        Ok(g) => g,
        Err(e) => {
            ensure!(!fits(p) || (y as f64 / p.bo as f64) < 1e-6 || y >= p.bo / 2, "buy quote: refused", "{y} of {}: {e}", p.bo);
            return Ok(());
        }
    };
    if y >= p.bo / 2 { return Ok(()); }
    trade_note(cx, p, "buy quote");
    judge_buy(p, y, cost)?;
    let more = y + match cx.s.draw(3) { 0 => 1, 1 => y / 100 + 1, _ => y / 2 + 1 };
    if more < p.bo / 1000 * 494 {
        if let Ok(c2) = buy_quote(c, di, &[dd], more, &[vec![(id, di)]]) {
            let tol = if p.wo % p.wi == 0 { 0.0 } else { 2.0 * p.buy_range(more).1 };
            ensure!(c2 as f64 >= cost as f64 - tol, "buy quote: not monotone", "{y} costs {cost}, {more} costs {c2}");
        }
    }
    Ok(())
}

/// buying what was just sold, or selling what was just bought, yields no profit
fn round_trip(cx: &mut Cx, c: &Chain, id: u64, p: &Pair, di: &'static str, dd: &'static str) -> R {
    let addr = c.pools[&id].addr();
    let mut m = c.clone();
    let (x, y, err1) = if cx.s.chance(1, 2) {
        let x = gen_sale(&mut cx.s, p).min(p.bi);
        match sell_quote(c, &[di], dd, x, &[vec![(id, dd)]]) { Ok(y) if y > 0 && y < p.bo => (x, y, p.sell_range(x).2 * p.bi as f64 * p.wo as f64 / (p.bo as f64 * p.wi as f64) * ((p.bi + x) as f64 / p.bi as f64) * (p.bo as f64 / (p.bo - y) as f64)), _ => return Ok(()) }
    } else {
        let y = gen_buy(&mut cx.s, p);
        if y >= p.bo / 2 { return Ok(()); }
        match buy_quote(c, di, &[dd], y, &[vec![(id, di)]]) { Ok(x) if x > 0 && x < p.bi.saturating_mul(30) => (x, y, p.buy_range(y).1), _ => return Ok(()) }
    };
    m.add(&addr, di, x).unwrap();
    m.remove(&addr, dd, y).unwrap();
    let back = Pair { bi: p.bo - y, bo: p.bi + x, wi: p.wo, wo: p.wi, fee: p.fee };
    if !fits(p) || y / 40 > back.bi { return Ok(()); }
    let got = match sell_quote(&m, &[dd], di, y, &[vec![(id, di)]]) { Ok(g) => g, Err(_) => return Ok(()) };
    cx.checks += 1;
    cx.class("round trip");
    cx.nontrivial();
    cx.log(|| format!("{x}{di} become {y}{dd}, these become {got}{di}"));
    let tol = 2.0 * err1 + back.sell_range(y).2 + 2.0;
    ensure!(got as f64 <= x as f64 + tol, "round trip makes a profit", "{x}{di} become {y}{dd}, these become {got}{di} (tolerance {tol})");
    if p.wi == p.wo {
        let unit = (p.bo.max(p.bi + x)) / E18;
        ensure!(got <= x + 4 * (unit + muldiv(unit, (p.bi + x).max(1), (p.bo - y).max(1)).unwrap_or(0)) , "round trip makes a profit at equal weights", "{x}{di} become {y}{dd}, these become {got}{di}");
    }
    Ok(())
}

/// two assets traded through one pool: the second quote sees the amounts of the first and nothing else
fn sequence(cx: &mut Cx, c: &Chain, id: u64) -> R {
    let p = &c.pools[&id];
    if p.assets.len() < 3 { return Ok(()); }
    let k = cx.s.usize(p.assets.len());
    let a = (k + 1) % p.assets.len();
    let b = (k + 2) % p.assets.len();
    let (da, db, dk) = (D[a], D[b], D[k]);
    let addr = p.addr();
    if cx.s.chance(1, 2) {
        let x = cx.s.log_range(1, c.bal(&addr, da).min(c.bal(&addr, db)));
        // the second asset sometimes takes the way over the first one
        let over = if cx.s.chance(1, 2) { vec![(id, da), (id, dk)] } else { vec![(id, dk)] };
        let routes = [vec![(id, dk)], over];
        let both = sell_quote(c, &[da, db], dk, x, &routes);
        let mut sums = vec![];
        for order in [[(da, 0), (db, 1)], [(db, 1), (da, 0)]] {
            let (mut m, mut sum) = (c.clone(), Ok(0u128));
            for (from, r) in order {
                let (mut have, mut amt) = (from, Ok(x));
                for (_, to) in &routes[r] {
                    let got = amt.and_then(|v| if v / 40 > m.bal(&addr, have) { Err("steep".to_string()) } else { sell_quote(&m, &[have], to, v, &[vec![(id, to)]]).map(|y| (v, y)) });
                    amt = got.and_then(|(v, y)| { m.add(&addr, have, v)?; m.remove(&addr, to, y)?; Ok(y) });
                    have = to;
                }
                sum = sum.and_then(|a| amt.map(|y| a + y));
            }
            sums.push(sum);
        }
        if sums.iter().any(|s| s.as_ref().err().map(|e| e == "steep").unwrap_or(false)) { return Ok(()); }
        cx.log(|| format!("sell {x} of {da} and {db} for {dk}: {both:?}, one after the other {sums:?}"));
        judge_sequence(cx, both, sums)
    } else {
        let top = c.bal(&addr, da).min(c.bal(&addr, db)) / 5 * 2;
        let y = cx.s.log_range(1, top.max(1));
        let both = buy_quote(c, dk, &[da, db], y, &[vec![(id, dk)], vec![(id, dk)]]);
        let mut sums = vec![];
        for (f, g) in [(da, db), (db, da)] {
            let one = buy_quote(c, dk, &[f], y, &[vec![(id, dk)]]);
            let sum = one.and_then(|x| { let mut m = c.clone(); m.add(&addr, dk, x)?; m.remove(&addr, f, y)?; Ok(x + buy_quote(&m, dk, &[g], y, &[vec![(id, dk)]])?) });
            sums.push(sum);
        }
        cx.log(|| format!("buy {y} of {da} and {db} for {dk}: {both:?}, one after the other {sums:?}"));
        judge_sequence(cx, both, sums)
    }
}

fn judge_sequence(cx: &mut Cx, both: Res<u128>, sums: Vec<Res<u128>>) -> R {
    cx.checks += 1;
    cx.class("dependent quotes");
    match both {
        Ok(v) => { cx.nontrivial(); ensure!(sums.iter().any(|s| *s == Ok(v)), "dependent quotes: pool state not carried over", "both together {v}, one after the other {sums:?}"); }
        Err(e) => ensure!(sums.iter().any(|s| s.is_err()), "dependent quotes: refused", "both together {e}, one after the other {sums:?}"),
    }
    Ok(())
}

/// a route through the same pool twice
fn double_hop(cx: &mut Cx, c: &Chain, id: u64) -> R {
    let p = &c.pools[&id];
    if p.assets.len() < 3 { return Ok(()); }
    let k = cx.s.usize(p.assets.len());
    let (a, m, z) = (D[k], D[(k + 1) % p.assets.len()], D[(k + 2) % p.assets.len()]);
    let addr = p.addr();
    let x = cx.s.log_range(1, c.bal(&addr, a));
    let whole = sell_quote(c, &[a], z, x, &[vec![(id, m), (id, z)]]);
    let parts = sell_quote(c, &[a], m, x, &[vec![(id, m)]]).and_then(|y| { let mut n = c.clone(); n.add(&addr, a, x)?; n.remove(&addr, m, y)?; if y / 40 > n.bal(&addr, m) { return Err("steep".into()); } sell_quote(&n, &[m], z, y, &[vec![(id, z)]]) });
    cx.checks += 1;
    cx.class("route through one pool twice");
    cx.log(|| format!("sell {x}{a} over {m} for {z}: {whole:?}, hop by hop {parts:?}"));
    match (whole, parts) {
        (Ok(v), Ok(u)) => { cx.nontrivial(); ensure!(u == v, "route through one pool twice: other amount", "{v}, hop by hop {u}"); }
        (Err(e), Ok(u)) => return fail("route through one pool twice: refused", format!("hop by hop {u}: {e}")),
        (Ok(v), Err(e)) if e != "steep" => return fail("route through one pool twice: accepted", format!("{v}, hop by hop {e}")),
        _ => {}
    }
    Ok(())
}

fn impossible(cx: &mut Cx, c: &Chain, id: u64, p: &Pair, di: &'static str, dd: &'static str) -> R {
    cx.checks += 1;
    cx.class("impossible trade");
    match cx.s.draw(3) {
        0 => {
            let y = p.bo + if cx.s.chance(1, 3) { 0 } else { cx.s.log_range(0, p.bo) };
            let q = buy_quote(c, di, &[dd], y, &[vec![(id, di)]]);
            cx.log(|| format!("buy {y} of {}{dd}: {q:?}", p.bo));
            ensure!(q.is_err(), "impossible trade priced", "{y} of {}{dd} for {q:?}", p.bo);
        }
        1 => {
            // a token the pool does not have
            if c.pools[&id].assets.len() == 4 { return Ok(()); }
            let x = cx.s.log_range(1, p.bi);
            let (q, r) = (sell_quote(c, &[di], D[3], x, &[vec![(id, D[3])]]), buy_quote(c, D[3], &[dd], cx.s.log_range(1, p.bo / 3 + 1), &[vec![(id, D[3])]]));
            ensure!(q.is_err() && r.is_err(), "impossible trade priced", "pool without {}: {q:?} {r:?}", D[3]);
        }
        _ => {
            // far more than half: refused or priced right
            let y = p.bo / 2 + cx.s.draw128(p.bo - p.bo / 2);
            if y == 0 || y >= p.bo { return Ok(()); }
            if (p.bo as f64 / (p.bo - y) as f64) < 2.0 { return Ok(()); }
            if let Ok(v) = buy_quote(c, di, &[dd], y, &[vec![(id, di)]]) {
                let (e, tol) = p.buy_range(y);
                ensure!(!tol.is_finite() || (v as f64) >= e - tol.abs() - 1.0, "impossible trade mispriced", "{y} of {}{dd} for {v}, the invariant gives {e}", p.bo);
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C32

fn d256(v: u128) -> Decimal256 { Decimal256::from_atomics(v, 18).unwrap() }

fn c32(cx: &mut Cx) -> R {
    let s = &mut cx.s;
    let dist = match s.weighted(&[3, 4, 2, 2]) { 0 => E18 / 1000 * s.draw(990) as u128, 1 => s.draw128(E18 / 1000 * 990), 2 => s.log_range(0, E18 / 10), _ => s.draw128(E18 / 1000 * 999) };
    let base = if s.chance(1, 2) { E18 + dist } else { E18 - dist };
    let whole = match s.weighted(&[4, 3, 2, 1]) { 0 => 0, 1 => s.draw(4) as u128, 2 => s.draw(20) as u128, _ => s.draw(100) as u128 };
    let frac = match s.weighted(&[4, 2, 2, 1]) { 0 => s.draw128(E18), 1 => E18 / 100 * s.draw(100) as u128, 2 => 0, _ => s.log_range(0, E18 / 1000) };
    let exp = whole * E18 + frac;
    cx.log(|| format!("{} ^ {}", dec(base), dec(exp)));
    cx.checks += 1;
    match cx.s.draw(24) {
        0 => {
            // outside the domain (exponent zero and one included)
            let b = match cx.s.draw(4) { 0 => 0, 1 => 2 * E18, 2 => 2 * E18 + cx.s.draw128(10 * E18), _ => cx.s.log_range(2 * E18, u128::MAX) };
            let e = match cx.s.draw(3) { 0 => exp, 1 => E18, _ => 0 };
            let r = guarded(|| ibcx_math::pow(d256(b), d256(e)));
            cx.class("outside the domain");
            ensure!(!matches!(r, Ok(Ok(_))), "power: base outside the domain accepted", "{} ^ {} = {r:?}", dec(b), dec(e));
            return Ok(());
        }
        1 => {
            cx.class("exponent zero or one");
            ensure!(run_pow(base, 0)? == Decimal256::one(), "power: exponent zero", "{} ^ 0", dec(base));
            ensure!(run_pow(base, E18)? == d256(base), "power: exponent one", "{} ^ 1 = {}", dec(base), run_pow(base, E18)?);
            return Ok(());
        }
        _ => {}
    }
    let got = run_pow(base, exp)?;
    cx.log(|| format!("= {got}"));
    if frac != 0 && dist != 0 { cx.nontrivial(); cx.class("fractional exponent"); } else { cx.class("whole exponent or base one"); }
    let x = dist as f64 / 1e18;
    let sign = if base >= E18 { 1.0 } else { -1.0 };
    let e = exp as f64 / 1e18;
    let real = (e * (sign * x).ln_1p()).exp();
    // the integer part by repeated multiplication on wide integers
    let ip = int_pow(base, whole);
    let series = if frac == 0 { 0.0 } else { 1e-8 * (1.0 + x / (1.0 - x)) + 1e-13 };
    let tol = ip * series + real * 1e-13 + (1.0 + ip) * 1e-17 * (whole as f64 + 2.0);
    let g: f64 = got.to_string().parse().unwrap();
    ensure!((g - real).abs() <= tol, "power: inaccurate", "{} ^ {} = {g}, really {real}, tolerance {tol:e}", dec(base), dec(exp));
    if frac == 0 && ip < 1e15 {
        let exact = int_pow_exact(base, whole);
        let off = if got.atomics() > exact { got.atomics() - exact } else { exact - got.atomics() };
        let allow = Uint256::from(((2.0 * whole as f64 + 2.0) * (ip + 1.0)) as u128 + 1);
        ensure!(off <= allow, "power: whole exponent inaccurate", "{} ^ {whole} = {got}, exactly {}e-18", dec(base), exact);
    }
    Ok(())
}

fn run_pow(b: u128, e: u128) -> Result<Decimal256, Fail> {
    match guarded(|| ibcx_math::pow(d256(b), d256(e))) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(x)) => fail("power: refused", format!("{} ^ {}: {x:?}", dec(b), dec(e))),
        Err(x) => fail("power: refused", format!("{} ^ {}: {x}", dec(b), dec(e))),
    }
}

fn int_pow(b: u128, n: u128) -> f64 { let x = b as f64 / 1e18; x.powi(n as i32) }

/// floor(b^n * 1e18), carried with 18 more digits
fn int_pow_exact(b: u128, n: u128) -> Uint256 {
    let e36 = Uint512::from(Uint256::from(E18)) * Uint512::from(Uint256::from(E18));
    let b36 = wmul(b, E18);
    let mut v = e36;
    for _ in 0..n { v = v * b36 / e36; }
    let v = v / w(E18);
    Uint256::try_from(v).unwrap_or(Uint256::MAX)
}

// ------------------------------------------------------------------------------------------ C34

fn gen_denom(s: &mut Src) -> String {
    match s.draw(5) {
        0 => format!("u{}", s.pick(&["atom", "osmo", "juno", "usdc"])),
        1 => format!("ibc/{:016X}{:08X}", s.full(), s.draw(1 << 32)),
        2 => format!("factory/osmo1{:x}/u{}", s.full(), s.draw(10)),
        3 => format!("gamm/pool/{}", s.draw(3000)),
        // every character the chain admits in a denom
        4 if s.chance(1, 2) => { let n = 3 + s.usize(125); let t: String = (1..n).map(|_| *s.pick(&['a', 'Z', '0', '9', '/', ':', '.', '_', '-', 'k'])).collect(); format!("{}{t}", s.pick(&['u', 'X'])) }
        _ => s.pick(&D).to_string(),
    }
}

fn c34(cx: &mut Cx) -> R {
    match cx.s.weighted(&[3, 3, 2]) { 0 => decoding(cx), 1 => loading(cx), _ => asking(cx) }
}

fn decoding(cx: &mut Cx) -> R {
    let many = cx.s.chance(1, 12);
    let n = cx.s.usize(if many { 24 } else { 6 });
    let mut written = vec![];
    for _ in 0..n {
        let (a, b) = (gen_denom(&mut cx.s), gen_denom(&mut cx.s));
        let k = cx.s.usize(if many { 16 } else { 5 });
        let r: Vec<(u64, String)> = (0..k).map(|_| (match cx.s.draw(4) { 0 => cx.s.full(), 1 => cx.s.draw(6), _ => cx.s.draw(3000) }, gen_denom(&mut cx.s))).collect();
        written.push((a, b, r));
    }
    let list = SwapInfosCompact(written.iter().map(|(a, b, r)| SwapInfoCompact { key: format!("{a},{b}"), routes: r.iter().map(|(p, d)| format!("{p},{d}")).collect() }).collect());
    // over the wire and back
    let bin = serde_json::to_vec(&list).unwrap();
    let list: SwapInfosCompact = match serde_json::from_slice(&bin) { Ok(l) => l, Err(e) => return fail("routes: not readable", e.to_string()) };
    let decoded: Vec<SwapInfo> = match guarded(|| list.into()) { Ok(d) => d, Err(e) => return fail("routes: decoding fails", format!("{}: {e}", String::from_utf8_lossy(&bin))) };
    cx.checks += 1;
    cx.class("routes decoded");
    cx.log(|| format!("decode {}", String::from_utf8_lossy(&bin)));
    ensure!(decoded.len() == written.len(), "routes: other number", "{} decoded of {}", decoded.len(), written.len());
    for (SwapInfo((RouteKey((a, b)), r)), (wa, wb, wr)) in decoded.iter().zip(&written) {
        ensure!(a == wa && b == wb, "routes: other assets", "{wa} to {wb} decoded as {a} to {b}");
        let got: Vec<(u64, String)> = r.0.iter().map(|x| (x.pool_id, x.token_denom.clone())).collect();
        ensure!(got == *wr, "routes: other hops", "{wr:?} decoded as {got:?}");
    }
    let ids = extract_pool_ids(decoded);
    let set: BTreeSet<u64> = written.iter().flat_map(|x| x.2.iter().map(|h| h.0)).collect();
    let mut sorted = ids.clone();
    sorted.sort();
    ensure!(sorted == set.iter().copied().collect::<Vec<_>>(), "routes: other pools to load", "{ids:?}, routes have {set:?}");
    let total: usize = written.iter().map(|x| x.2.len()).sum();
    if n >= 2 && (total > set.len() || written.iter().any(|x| x.2.len() > 1)) { cx.nontrivial(); }
    Ok(())
}

const STRANGE: [&str; 6] = [
    "/osmosis.cosmwasmpool.v1beta1.CosmWasmPool", "/osmosis.gamm.v1beta1.PoolParams", "/osmosis.gamm.v2.Pool",
    "/osmosis.gamm.poolmodels.balancer.v1beta1.Pool", "/osmosis.concentratedliquidity.v2.Pool", "/osmosis.gamm.poolmodels.stableswap.v2.Pool",
];

/// a chain with pools of every kind and records of kinds not supported; the kinds by id
fn pool_zoo(s: &mut Src) -> (Chain, BTreeMap<u64, &'static str>) {
    let mut c = Chain::new(0);
    let mut kinds = BTreeMap::new();
    let many = if s.chance(1, 16) { 40 } else { 6 };
    for _ in 0..1 + s.usize(many) {
        let id = match s.draw(6) { 0 => s.full(), _ => 1 + s.draw(2000) };
        if kinds.contains_key(&id) { continue; }
        let kind = s.usize(4);
        let fee = match s.draw(3) { 0 => 0, 1 => E18 / 10_000 * s.draw(500) as u128, _ => s.draw128(E18 / 2) };
        let pk = match kind { 0 => PoolKind::Weighted, 1 => PoolKind::Stable, 2 => PoolKind::Concentrated, _ => PoolKind::Weighted };
        let n = if kind == 2 { 2 } else { 2 + s.usize(3) };
        let p = ChainPool { id, kind: pk, fee, assets: (0..n).map(|i| (D[i].to_string(), 1 + s.draw(10) as u128)).collect() };
        for i in 0..n { c.add(&p.addr(), D[i], s.log_range(1_000, 1_000_000_000_000_000_000_000_000)).unwrap(); }
        if kind == 3 {
            let t = *s.pick(&STRANGE);
            let rec = match s.draw(3) {
                0 => format!("{{\"pool\":{{\"@type\":\"{t}\",\"contract_address\":\"osmo1x\",\"pool_id\":\"{id}\",\"code_id\":\"148\",\"instantiate_msg\":\"e30=\"}}}}"),
                // the fields of a weighted pool under another name
                1 => c.pool_json(&p).replace("/osmosis.gamm.v1beta1.Pool", t),
                _ => format!("{{\"pool\":{{\"@type\":\"{t}\",\"id\":\"{id}\",\"note\":\"/osmosis.gamm.v1beta1.Pool\"}}}}"),
            };
            c.records.insert(id, rec);
        } else if kind == 0 && s.chance(1, 4) {
            // weights that change over time
            let asset = |d: &str| format!("{{\"token\":{{\"denom\":\"{d}\",\"amount\":\"0\"}},\"weight\":\"1073741824\"}}");
            let smooth = format!("{{\"start_time\":\"2024-01-01T00:00:00Z\",\"duration\":\"86400s\",\"initial_pool_weights\":[{}],\"target_pool_weights\":[{}]}}", asset(D[0]), asset(D[1]));
            let rec = c.pool_json(&p).replace("\"smooth_weight_change_params\":null", &format!("\"smooth_weight_change_params\":{smooth}"));
            c.records.insert(id, rec);
        } else if kind < 2 && s.chance(1, 2) {
            // leaving the pool costs a fee of its own
            let exit = if s.chance(1, 2) { fee / 2 + 1 } else { (fee + s.draw128(E18 / 2)).min(E18) };
            let rec = c.pool_json(&p).replace("\"exit_fee\":\"0.000000000000000000\"", &format!("\"exit_fee\":\"{}\"", dec(exit)));
            c.records.insert(id, rec);
        }
        kinds.insert(id, ["weighted_pool", "stable_pool", "concentrated_liquidity_pool", ""][kind]);
        c.pools.insert(id, p);
    }
    (c, kinds)
}

fn loading(cx: &mut Cx) -> R {
    let (c, kinds) = pool_zoo(&mut cx.s);
    let mut ids: Vec<u64> = kinds.keys().copied().filter(|_| cx.s.chance(5, 6)).collect();
    if ids.is_empty() { ids.push(*kinds.keys().next().unwrap()); }
    cx.log(|| format!("load {:?}", ids.iter().map(|i| (i, kinds[i])).collect::<Vec<_>>()));
    let want: Vec<u64> = ids.iter().copied().filter(|i| !kinds[i].is_empty()).collect();
    let asked = ids.clone();
    let sums = [cx.s.log_range(1, 20_000), cx.s.log_range(1, 20_000)];
    let loaded: Vec<(u64, String, u128, Vec<(u128, Res<u128>)>)> = match c.with_deps(|deps| {
        let ps = ibcx_pool::query_pools(&deps, asked).map_err(|e| e.to_string())?;
        ps.into_iter().map(|p| {
            let fee = p.get_spread_factor().map_err(|e| e.to_string())?;
            let mut quotes = vec![];
            if p.get_type() == "weighted_pool" {
                for x in sums {
                    let mut q = p.clone();
                    let r = guarded(|| q.swap_exact_amount_in(&deps, coin(x, D[0]), D[1].into(), Uint256::zero(), fee).map_err(|e| e.to_string())).and_then(|r| r).map(|v| to_u128(v).unwrap_or(u128::MAX));
                    quotes.push((x, r));
                }
            }
            Ok((p.get_id(), p.get_type().to_string(), fee.atomics().u128(), quotes))
        }).collect()
    }) { Ok(v) => v, Err(e) => return fail("pools: not loaded", format!("{ids:?}: {e}")) };
    cx.checks += 1;
    cx.class("pools loaded");
    if ids.iter().map(|i| kinds[i]).collect::<BTreeSet<_>>().len() > 1 { cx.nontrivial(); }
    let got: BTreeSet<u64> = loaded.iter().map(|l| l.0).collect();
    ensure!(got == want.iter().copied().collect() && loaded.len() == want.len(), "pools: other set loaded", "asked for {ids:?}, loaded {got:?}, supported are {want:?}");
    for (id, kind, fee, quotes) in loaded {
        let p = &c.pools[&id];
        ensure!(kind == kinds[&id], "pools: other kind", "pool {id} is a {}, loaded as {kind}", kinds[&id]);
        ensure!(fee == p.fee, "pools: other fee", "pool {id} has fee {}, loaded with {}", dec(p.fee), dec(fee));
        let pr = Pair { bi: c.bal(&p.addr(), D[0]), bo: c.bal(&p.addr(), D[1]), wi: p.assets[0].1, wo: p.assets[1].1, fee };
        for (x, r) in quotes { if let Ok(y) = r { judge_sell(&pr, x, y)?; } }
    }
    Ok(())
}

/// the pools a simulation asks the chain for, and routes over pools that cannot be used
fn asking(cx: &mut Cx) -> R {
    let (zoo, kinds) = pool_zoo(&mut cx.s);
    let mut c = bed(&[D[0]]);
    c.pools = zoo.pools.clone();
    c.records = zoo.records.clone();
    for p in zoo.pools.values() { c.bank.insert(p.addr(), zoo.balances(&p.addr())); }
    let ids: Vec<u64> = kinds.keys().copied().collect();
    let first = *cx.s.pick(&ids);
    let mut list = vec![SwapInfoCompact { key: format!("{},{}", D[0], D[1]), routes: hops(&[(first, D[1])]) }];
    let more = if ids.len() > 8 { 30 } else { 4 };
    for _ in 0..cx.s.usize(more) {
        let k = 1 + cx.s.usize(3);
        let e = SwapInfoCompact { key: format!("{},{}", gen_denom(&mut cx.s), "uother"), routes: (0..k).map(|_| format!("{},{}", cx.s.pick(&ids), gen_denom(&mut cx.s))).collect() };
        let at = cx.s.usize(list.len() + 1);
        list.insert(at, e);
    }
    let set: BTreeSet<u64> = list.iter().flat_map(|e| e.routes.iter().map(|r| r.split(',').next().unwrap().parse::<u64>().unwrap())).collect();
    let x = zoo.bal(&zoo.pools[&first].addr(), D[0]) / 100 + 1;
    let shown = serde_json::to_string(&list).unwrap();
    let msg = QueryMsg::SimulateBurnExactAmountIn { core_addr: "core".into(), input_amount: x.into(), output_asset: D[1].into(), swap_info: SwapInfosCompact(list) };
    take_asked();
    let r: Res<BurnSim> = c.query(PERI, &msg);
    let mut asked = take_asked();
    asked.sort();
    cx.checks += 1;
    cx.class("pools asked for");
    if set.len() > 1 { cx.nontrivial(); }
    cx.log(|| format!("{shown}: asked for {asked:?}, {}", match &r { Ok(v) => v.swap_result_amount.to_string(), Err(e) => e.clone() }));
    ensure!(asked == set.iter().copied().collect::<Vec<_>>(), "routes: other pools asked for", "{shown}: asked for {asked:?}");
    let supported = !kinds[&first].is_empty();
    if !supported { ensure!(r.is_err(), "pools: unknown kind taken for a supported one", "{shown} with pool {first}: {}", r.unwrap().swap_result_amount); return Ok(()); }
    // routes that are not needed do no harm, whatever pools they name
    let p = &zoo.pools[&first];
    let alone = { let mut m = zoo.clone(); m.records.clear(); m.pools.retain(|k, _| *k == first); m };
    let one = sell_quote(&alone, &[D[0]], D[1], x, &[vec![(first, D[1])]]);
    match (&r, &one) {
        (Ok(v), Ok(u)) => ensure!(v.swap_result_amount.amount.u128() == *u, "routes: unused routes change a quote", "{shown}: {} instead of {u}", v.swap_result_amount),
        (Err(e), Ok(u)) => return fail("routes: unused routes forbid a quote", format!("{shown}: {e} instead of {u} (pool fee {})", dec(p.fee))),
        _ => {}
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C35

#[derive(Clone, PartialEq, Debug)]
struct Ver { core: [u64; 3], pre: Vec<String> }

fn num(s: &str) -> Option<u64> {
    if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit()) || (s.len() > 1 && s.starts_with('0')) { return None; }
    s.parse().ok()
}
fn ids(s: &str, strict: bool) -> Option<Vec<String>> {
    s.split('.').map(|p| {
        let ok = !p.is_empty() && p.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'-');
        let digits = p.bytes().all(|b| b.is_ascii_digit());
        if !ok || (strict && digits && p.len() > 1 && p.starts_with('0')) { None } else { Some(p.to_string()) }
    }).collect()
}
/// semver.org 2.0.0
fn semver(s: &str) -> Option<Ver> {
    let (s, build) = match s.split_once('+') { Some((a, b)) => (a, Some(b)), None => (s, None) };
    if let Some(b) = build { ids(b, false)?; }
    let (core, pre) = match s.split_once('-') { Some((a, b)) => (a, ids(b, true)?), None => (s, vec![]) };
    let n: Vec<&str> = core.split('.').collect();
    if n.len() != 3 { return None; }
    Some(Ver { core: [num(n[0])?, num(n[1])?, num(n[2])?], pre })
}
fn precedence(a: &Ver, b: &Ver) -> Ordering {
    a.core.cmp(&b.core).then_with(|| match (a.pre.is_empty(), b.pre.is_empty()) {
        (true, true) => Ordering::Equal,
        (true, false) => Ordering::Greater,
        (false, true) => Ordering::Less,
        _ => {
            for (x, y) in a.pre.iter().zip(&b.pre) {
                let big = |s: &str| s.bytes().all(|b| b.is_ascii_digit());
                let o = match (big(x), big(y)) {
                    (true, true) => x.len().cmp(&y.len()).then_with(|| x.cmp(y)),
                    (true, false) => Ordering::Less,
                    (false, true) => Ordering::Greater,
                    _ => x.cmp(y),
                };
                if o != Ordering::Equal { return o; }
            }
            a.pre.len().cmp(&b.pre.len())
        }
    })
}

const INFO: &[u8] = b"contract_info";

fn stored(c: &Chain, addr: &str) -> Option<(String, String)> {
    let raw = c.contracts[addr].store.0.get(INFO)?;
    let v: serde_json::Value = serde_json::from_slice(raw).ok()?;
    Some((v["contract"].as_str()?.to_string(), v["version"].as_str()?.to_string()))
}

thread_local! { static STARTED: RefCell<Option<Chain>> = const { RefCell::new(None) }; }

fn started() -> Chain {
    STARTED.with(|c| {
        c.borrow_mut().get_or_insert_with(|| {
            let mut c = bed(&[D[0], D[1]]);
            c.instantiate(Kind::Airdrop, "airdrop", "gov", &airdrop_api::InstantiateMsg {}).expect("airdrop starts");
            c
        }).clone()
    })
}

fn gen_version(s: &mut Src, own: &str) -> String {
    let v = semver(own).unwrap_or(Ver { core: [0, 1, 0], pre: vec![] });
    let n = |s: &mut Src, x: u64| match s.draw(5) { 0 => x.saturating_sub(1), 1 => x + 1, 2 => s.draw(30), 3 => x + 9, _ => x };
    let core = format!("{}.{}.{}", n(s, v.core[0]), n(s, v.core[1]), n(s, v.core[2]));
    match s.weighted(&[6, 4, 2, 3, 1]) {
        0 => core,
        1 => format!("{}-{}", if s.chance(1, 2) { own.to_string() } else { core }, s.pick(&["rc.1", "alpha", "alpha.1", "0", "rc.10", "beta-2", "x.7.z.92", "99999999999999999999"])),
        2 => format!("{}+{}", if s.chance(1, 2) { own.to_string() } else { core }, s.pick(&["build.1", "001", "exp-sha"])),
        3 => s.pick(&["", "1", "1.2", "1.2.3.4", "v0.0.1", "0.0.01", "00.1.0", "a.b.c", "0.1.-1", " 0.0.1", "0.0.1 ", "0.0.1-", "0.0.1+", "0.0.1-01", "0.0.1-a..b", "0.0.18446744073709551616", "0.0.18446744073709551615", "0,0,1", "0.0.1-é", "*", "^0.0.1"]).to_string(),
        _ => own.to_string(),
    }
}

fn c35(cx: &mut Cx) -> R {
    let mut c = started();
    let (addr, _) = *cx.s.pick(&[("core", Kind::Core), (PERI, Kind::Periphery), ("airdrop", Kind::Airdrop)]);
    let (name, version) = match stored(&c, addr) { Some(v) => v, None => return fail("migration: no version recorded at creation", addr) };
    let others: Vec<String> = ["core", PERI, "airdrop"].iter().filter_map(|a| stored(&c, a)).map(|v| v.0).collect();
    let n0 = match cx.s.weighted(&[8, 2, 1, 1, 2]) { 0 => name.clone(), 1 => cx.s.pick(&others).clone(), 2 => format!("{name} "),
        4 => match cx.s.usize(6) { 0 => format!("crates.io:{name}"), 1 => format!("{name}:x"), 2 => name.to_uppercase(), 3 => name.replace('-', "_"), 4 => name[1..].to_string(), _ => name[..name.len() - 1].to_string() },
        _ => cx.s.pick(&["", "crates.io:x", "ibcx", "crates.io:ibcx-core-dev"]).to_string() };
    let v0 = gen_version(&mut cx.s, &version);
    let missing = cx.s.chance(1, 20);
    {
        let store = &mut c.contracts.get_mut(addr).unwrap().store.0;
        if missing { store.remove(INFO); } else { store.insert(INFO.to_vec(), serde_json::to_vec(&serde_json::json!({ "contract": n0, "version": v0 })).unwrap()); }
    }
    let force = match cx.s.weighted(&[4, 2, 2]) { 0 => None, 1 => Some(false), _ => Some(true) };
    let before = c.clone();
    let r = match addr {
        "core" => c.migrate(addr, &core_api::MigrateMsg { force }),
        "airdrop" => c.migrate(addr, &airdrop_api::MigrateMsg { force }),
        _ => c.migrate(addr, &MigrateMsg { force }),
    };
    cx.checks += 1;
    cx.class(match (&r, force) { (Ok(()), Some(true)) => "forced", (Err(_), Some(true)) => "forced, refused", (Ok(()), _) => "accepted", (Err(_), _) => "refused" });
    cx.log(|| format!("{addr} ({name} {version}) migrated from {} force {force:?}: {r:?}", if missing { "no record".to_string() } else { format!("{n0:?} {v0:?}") }));
    let lower = semver(&v0).zip(semver(&version)).map(|(a, b)| precedence(&a, &b) == Ordering::Less).unwrap_or(false);
    let allowed = force == Some(true) || (!missing && n0 == name && lower);
    if !missing && (semver(&v0).is_some() && v0 != version || force == Some(true)) { cx.nontrivial(); }
    if allowed { ensure!(r.is_ok(), "migration: refused", "{addr} from {n0:?} {v0:?} to {name} {version}: {}", r.unwrap_err()); } else { ensure!(r.is_err(), "migration: accepted", "{addr} from {n0:?} {v0:?} to {name} {version}, force {force:?}"); }
    if r.is_ok() {
        ensure!(stored(&c, addr) == Some((name.clone(), version.clone())), "migration: other record", "{addr}: {:?} instead of {name} {version}", stored(&c, addr));
        let mut x = c.contracts.clone();
        let mut y = before.contracts.clone();
        x.get_mut(addr).unwrap().store.0.remove(INFO);
        y.get_mut(addr).unwrap().store.0.remove(INFO);
        ensure!(x == y && c.bank == before.bank && c.supply == before.supply, "migration: alters other state", "{addr} from {n0:?} {v0:?}");
    } else {
        ensure!(c.contracts == before.contracts && c.bank == before.bank, "migration: trace of a refusal", "{addr} from {n0:?} {v0:?}");
    }
    Ok(())
}
