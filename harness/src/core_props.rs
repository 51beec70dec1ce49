//! Oracles for the properties of the index contract.

use std::collections::{BTreeMap, BTreeSet};

use cosmwasm_std::{coin, Coin, Uint128, Uint512};
use ibcx_interface::core::*;
use ibcx_interface::types::{RangeOrder, SwapRoute, SwapRoutes};

use crate::chain::*;
use crate::core_world::*;
use crate::pbt::*;
use crate::wide::*;

const A: &[&str] = &[
    "the bank, tokenfactory and swap modules behave as modelled in harness/src/chain.rs (atomic transactions, no zero sends)",
    "rebalance routes are executed in the order the contract stores them (last hop first); C16 judges the order itself under the chain's own rules",
];

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C01", quick: 24_000, thorough: 1_000_000, rule: "at least 3 state-changing operations succeeded, among them a mint", run: c01, assumptions: A },
        Prop { id: "C02", quick: 24_000, thorough: 1_000_000, rule: "a burn succeeded after a mint", run: c02, assumptions: A },
        Prop { id: "C03", quick: 24_000, thorough: 1_000_000, rule: "at least one mint succeeded and one was refused, or a mint with excess funds succeeded", run: c03, assumptions: A },
        Prop { id: "C04", quick: 24_000, thorough: 1_000_000, rule: "at least one burn succeeded", run: c04, assumptions: A },
        Prop { id: "C05", quick: 16_000, thorough: 600_000, rule: "a simulation or a report was compared with an operation that succeeded", run: c05, assumptions: A },
        Prop { id: "C06", quick: 16_000, thorough: 600_000, rule: "an accrual over at least one second moved a unit", run: c06, assumptions: A },
        Prop { id: "C07", quick: 20_000, thorough: 800_000, rule: "a positive amount of fees was paid to a collector", run: c07, assumptions: A },
        Prop { id: "C08", quick: 24_000, thorough: 1_000_000, rule: "a creation or fee update was judged", run: c08, assumptions: A },
        Prop { id: "C09", quick: 24_000, thorough: 1_000_000, rule: "governance changed hands or a stranger's attempt was refused", run: c09, assumptions: A },
        Prop { id: "C10", quick: 24_000, thorough: 1_000_000, rule: "a pause was in force or had ended when a mint or burn was attempted", run: c10, assumptions: A },
        Prop { id: "C11", quick: 20_000, thorough: 800_000, rule: "an operation was attempted during a running rebalance", run: c11, assumptions: A },
        Prop { id: "C12", quick: 20_000, thorough: 800_000, rule: "a trade succeeded", run: c12, assumptions: A },
        Prop { id: "C13", quick: 20_000, thorough: 800_000, rule: "a trade succeeded", run: c13, assumptions: A },
        Prop { id: "C14", quick: 20_000, thorough: 800_000, rule: "a finalisation was judged during a running rebalance", run: c14, assumptions: A },
        Prop { id: "C15", quick: 16_000, thorough: 600_000, rule: "a started rebalance needed at least two trades", run: c15, assumptions: A },
        Prop { id: "C16", quick: 20_000, thorough: 800_000, rule: "a trade sent a swap", run: c16, assumptions: A },
        Prop { id: "C17", quick: 12_000, thorough: 500_000, rule: "at least 3 routes were registered", run: c17, assumptions: A },
        Prop { id: "C36", quick: 16_000, thorough: 600_000, rule: "at least three operations succeeded and their events were judged", run: c36, assumptions: A },
        Prop { id: "C18", quick: 6_000, thorough: 250_000, rule: "a hostile message was sent and the ordinary operations probed afterwards", run: c18, assumptions: A },
    ]
}

// ---------------------------------------------------------------------------------------------- helpers

fn held(o: &Obs, k: &str) -> Uint512 { wmul(cget(&o.held, k), E18) }

fn denoms(os: &[&Obs]) -> BTreeSet<String> {
    let mut v = BTreeSet::new();
    for o in os {
        v.extend(o.held.keys().cloned());
        v.extend(o.units.iter().map(|u| u.0.clone()));
        v.insert(o.reserve_denom.clone());
        if let Some(s) = &o.stream { v.extend(s.collected.keys().cloned()); }
    }
    v
}

/// what holders, collector and rebalance can claim of one asset, in 1e-18 base units
fn claims(k: &str, units: &Units, owed: &Coins, reserve: &Units, reserve_denom: &str, supply: u128) -> Uint512 {
    let mut v = wmul(uget(units, k).unwrap_or(0), supply) + wmul(cget(owed, k), E18);
    if k == reserve_denom { for r in reserve { v += wmul(r.1, supply); } }
    v
}
fn claims_of(k: &str, o: &Obs, circulating: u128) -> Uint512 {
    let none = Coins::new();
    let owed = o.stream.as_ref().map(|s| &s.collected).unwrap_or(&none);
    claims(k, &o.units, owed, &o.reserve_units, &o.reserve_denom, circulating)
}

/// every balance change between two states
fn moves(a: &Chain, b: &Chain) -> BTreeMap<(String, String), i128> {
    let mut m = BTreeMap::new();
    let accts: BTreeSet<&String> = a.bank.keys().chain(b.bank.keys()).collect();
    for acct in accts {
        let (x, y) = (a.bank.get(acct), b.bank.get(acct));
        if x == y { continue; }
        let ds: BTreeSet<&String> = x.iter().flat_map(|m| m.keys()).chain(y.iter().flat_map(|m| m.keys())).collect();
        for dn in ds {
            let v = b.bal(acct, dn) as i128 - a.bal(acct, dn) as i128;
            if v != 0 { m.insert((acct.clone(), dn.clone()), v); }
        }
    }
    m
}
fn add_move(m: &mut BTreeMap<(String, String), i128>, a: &str, k: &str, v: i128) {
    let e = m.entry((a.to_string(), k.to_string())).or_insert(0);
    *e += v;
    if *e == 0 { m.remove(&(a.to_string(), k.to_string())); }
}
fn show_moves(m: &BTreeMap<(String, String), i128>) -> String {
    m.iter().map(|((a, k), v)| format!("{a}:{v:+}{k}")).collect::<Vec<_>>().join(" ")
}

fn nothing_moved(s: &Step, kind: &str) -> R {
    if !s.ok {
        ensure!(s.c0.bank == s.c.bank && s.c0.supply == s.c.supply && s.c0.contracts[CORE] == s.c.contracts[CORE], format!("{kind}: failed with effect"), "{} failed but changed state", s.op.show());
    }
    Ok(())
}

fn nz(v: &[Coin]) -> Coins {
    let mut m = Coins::new();
    for c in v { if !c.amount.is_zero() { *m.entry(c.denom.clone()).or_insert(0) += c.amount.u128(); } }
    m
}

fn units_map(u: &Units) -> BTreeMap<String, u128> { u.iter().cloned().collect() }

fn mint_fee(rate: Option<u128>, n: u128) -> u128 { rate.map(|r| unit_mul(r, n).unwrap_or(u128::MAX).max(1)).unwrap_or(0) }
fn burn_fee(rate: Option<u128>, n: u128) -> u128 { rate.map(|r| unit_mul(r, n).unwrap_or(u128::MAX)).unwrap_or(0) }

// ------------------------------------------------------------------------------------------------- C01

fn c01(cx: &mut Cx) -> R {
    let mut pr = BASE;
    pr.trade = 8;
    pr.init = 4;
    history(cx, &pr, |cx, s, t| {
        let (pre, post) = (s.pre, s.post);
        if let Op::Advance(..) = s.op {
            // time alone: what is reported must be covered by what was recorded
            for k in denoms(&[pre, post]) {
                let stored = claims(&k, &s.t0.units, &s.t0.owed, &s.t0.reserve_units, &s.t0.reserve_denom, s.t0.supply);
                let now = claims_of(&k, post, s.c.supply_of(&s.t0.index_denom));
                ensure!(now <= stored, "backing: claims grow with time", "reported claims on {k} after {} are {now}e-18, above the recorded {stored}e-18", s.op.show());
            }
            return Ok(());
        }
        if !s.ok { return Ok(()); }
        let mut slack: BTreeMap<String, (Uint512, &str)> = BTreeMap::new();
        if let Some((_, msg, _)) = s.msg() {
            match msg {
                ExecuteMsg::Mint { amount, .. } => {
                    for (k, u) in &pre.units {
                        if unit_mul(*u, amount.u128()).unwrap_or(0) >= 1 { slack.insert(k.clone(), (w(mulmod(*u, amount.u128(), E18)), "m:")); }
                    }
                }
                ExecuteMsg::Rebalance(RebalanceMsg::Trade(tr)) => {
                    let k = match tr { RebalanceTradeMsg::Deflate { target_denom, .. } => target_denom.clone(), RebalanceTradeMsg::Inflate { .. } => s.t0.reserve_denom.clone() };
                    slack.insert(k, (w(pre.supply), "t:"));
                }
                _ => {}
            }
        }
        if s.c.supply_of(&s.t0.index_denom) != s.c0.supply_of(&s.t0.index_denom) || matches!(s.msg(), Some((_, ExecuteMsg::Rebalance(_), _))) { cx.class("backing judged"); }
        let (sa, sb) = (s.c0.supply_of(&s.t0.index_denom), s.c.supply_of(&s.t0.index_denom));
        for k in denoms(&[pre, post]) {
            let allow = slack.get(&k).map(|v| v.0).unwrap_or_default();
            // held_post - claims_post + allowed rounding >= held_pre - claims_pre
            let left = held(post, &k) + allow + claims_of(&k, pre, sa);
            let right = claims_of(&k, post, sb) + held(pre, &k);
            ensure!(left >= right, "backing: value leaks", "{} makes the backing of {k} shrink by {}e-18 base units (at most {allow}e-18 is rounding); held {} -> {}", s.op.show(), right - left + allow, cget(&pre.held, &k), cget(&post.held, &k));
            if let Some((v, tag)) = slack.get(&k) { *t.slack.entry(format!("{tag}{k}")).or_default() += *v; }
            let (h, c) = (held(post, &k), claims_of(&k, post, sb));
            if c > h {
                let by_mint = t.slack.get(&format!("m:{k}")).copied().unwrap_or_default();
                let by_trade = t.slack.get(&format!("t:{k}")).copied().unwrap_or_default();
                let short = c - h;
                ensure!(short <= by_mint + by_trade, "backing: shortfall", "{k} is short by {short}e-18 base units, rounding explains only {}e-18", by_mint + by_trade);
                let sig = if short <= by_mint { "mint rounds the required amount down" } else { "a trade rounds the unit it deducts down" };
                cx.known(sig, || format!("after {} the contract holds {} {k}, {short}e-18 base units short of all claims", s.op.show(), cget(&post.held, &k)));
            }
        }
        if s.t0.supply > 0 { cx.nontrivial(); }
        Ok(())
    })
}

// ------------------------------------------------------------------------------------------------- C02

fn c02(cx: &mut Cx) -> R {
    let mut pr = BASE;
    pr.burn = 14;
    history(cx, &pr, |cx, s, _| {
        let circulating = s.c.supply_of(&s.t0.index_denom);
        ensure!(s.post.total_supply == circulating && s.post.supply == circulating, "supply: differs from circulation", "after {} GetTotalSupply says {}, GetPortfolio {}, but {circulating} index tokens exist", s.op.show(), s.post.total_supply, s.post.supply);
        let (a, b) = (s.pre.total_supply, s.post.total_supply);
        match s.msg() {
            Some((_, ExecuteMsg::Mint { amount, .. }, _)) if s.ok => ensure!(b == a + amount.u128(), "supply: mint", "minting {amount} moved the supply from {a} to {b}"),
            Some((_, ExecuteMsg::Burn { .. }, funds)) if s.ok => {
                let r = funds[0].amount.u128();
                let fee = burn_fee(s.t0.burn_fee, r);
                ensure!(a >= b && a - b == r - fee, "supply: burn", "burning {r} (fee {fee}) moved the supply from {a} to {b}");
                cx.nontrivial();
            }
            _ => ensure!(a == b, "supply: moved by another operation", "{} (ok={}) moved the supply from {a} to {b}", s.op.show(), s.ok),
        }
        nothing_moved(s, "supply")
    })
}

// ------------------------------------------------------------------------------------------------- C03

fn c03(cx: &mut Cx) -> R {
    let mut pr = BASE;
    pr.mint = 30;
    history(cx, &pr, |cx, s, _| {
        let (who, amount, receiver, refund_to, funds) = match s.msg() {
            Some((who, ExecuteMsg::Mint { amount, receiver, refund_to }, funds)) => (who, amount.u128(), receiver, refund_to, funds),
            _ => return Ok(()),
        };
        check_expect(s, expect_mint(s, amount, receiver, refund_to, funds), "mint")?;
        nothing_moved(s, "mint")?;
        if !s.ok { return Ok(()); }
        let f = nz(funds);
        let req: Coins = required(&s.pre.units, amount).into_iter().collect();
        let to = receiver.clone().unwrap_or_else(|| who.to_string());
        let back = refund_to.clone().unwrap_or_else(|| who.to_string());
        let fee = mint_fee(s.t0.mint_fee, amount);
        let mut exp = BTreeMap::new();
        let mut excess = false;
        for (k, x) in &f {
            add_move(&mut exp, who, k, -(*x as i128));
            let r = cget(&req, k);
            add_move(&mut exp, CORE, k, r as i128);
            add_move(&mut exp, &back, k, (x - r) as i128);
            excess |= *x > r;
        }
        add_move(&mut exp, &to, &s.t0.index_denom, (amount - fee) as i128);
        add_move(&mut exp, &s.t0.collector, &s.t0.index_denom, fee as i128);
        let got = moves(s.c0, s.c);
        ensure!(got == exp, "mint: wrong amounts", "{}: expected {}, but {}", s.op.show(), show_moves(&exp), show_moves(&got));
        if excess || cx.classes.contains_key("mint failed") { cx.nontrivial(); }
        Ok(())
    })
}

// ------------------------------------------------------------------------------------------------- C04

fn c04(cx: &mut Cx) -> R {
    let mut pr = BASE;
    pr.burn = 30;
    history(cx, &pr, |cx, s, _| {
        let (who, redeem_to, funds) = match s.msg() { Some((who, ExecuteMsg::Burn { redeem_to }, funds)) => (who, redeem_to, funds), _ => return Ok(()) };
        check_expect(s, expect_burn(s, redeem_to, funds), "burn")?;
        nothing_moved(s, "burn")?;
        if !s.ok { return Ok(()); }
        let r = funds[0].amount.u128();
        let fee = burn_fee(s.t0.burn_fee, r);
        let to = redeem_to.clone().unwrap_or_else(|| who.to_string());
        let mut exp = BTreeMap::new();
        add_move(&mut exp, who, &s.t0.index_denom, -(r as i128));
        add_move(&mut exp, &s.t0.collector, &s.t0.index_denom, fee as i128);
        for (k, u) in &s.pre.units {
            let x = unit_mul(*u, r - fee).unwrap_or(0) as i128;
            add_move(&mut exp, CORE, k, -x);
            add_move(&mut exp, &to, k, x);
        }
        let got = moves(s.c0, s.c);
        ensure!(got == exp, "burn: wrong amounts", "{}: expected {}, but {}", s.op.show(), show_moves(&exp), show_moves(&got));
        let gone = s.c0.supply_of(&s.t0.index_denom) - s.c.supply_of(&s.t0.index_denom);
        ensure!(gone == r - fee, "burn: wrong amount destroyed", "{}: {gone} tokens were destroyed, expected {}", s.op.show(), r - fee);
        cx.nontrivial();
        Ok(())
    })
}

// ------------------------------------------------------------------------------------------------- C05

fn c05(cx: &mut Cx) -> R {
    let mut pr = BASE;
    pr.mint = 20;
    pr.burn = 16;
    history(cx, &pr, |cx, s, _| {
        c05_sims(cx, s)?;
        c05_reports(cx, s)
    })
}

fn c05_sims(cx: &mut Cx, s: &Step) -> R {
    let q = s.c0; // the state the operation met, at the same instant
    let idx = &s.t0.index_denom;
    match s.msg() {
        Some((who, ExecuteMsg::Mint { amount, receiver, refund_to }, funds)) => {
            let n = amount.u128();
            if n == 0 { return Ok(()); }
            let f = nz(funds);
            let fee = mint_fee(s.t0.mint_fee, n);
            let covered = s.pre.units.iter().all(|(k, u)| unit_mul(*u, n).map(|r| cget(&f, k) >= r.max(1)).unwrap_or(false)) && f.keys().all(|k| uget(&s.pre.units, k).is_some());
            let sim: Result<SimulateMintResponse, String> = q.query(CORE, &QueryMsg::SimulateMint { amount: *amount, funds: Some(funds.to_vec()), time: None });
            let bare: Result<SimulateMintResponse, String> = q.query(CORE, &QueryMsg::SimulateMint { amount: *amount, funds: None, time: None });
            if !covered { ensure!(sim.is_err(), "simulate_mint: accepts funds a mint refuses", "simulated mint of {n} with {} succeeded", show_coins(funds)); }
            if !s.ok {
                if covered && fee <= n { ensure!(sim.is_ok(), "simulate_mint: refuses valid funds", "simulated mint of {n} with {}: {}", show_coins(funds), sim.unwrap_err()); }
                return Ok(());
            }
            let sim = match sim { Ok(v) => v, Err(e) => return fail("simulate_mint: refuses what succeeds", format!("mint of {n} with {} succeeded but its simulation failed: {e}", show_coins(funds))) };
            let bare = match bare { Ok(v) => v, Err(e) => return fail("simulate_mint: refuses what succeeds", format!("mint of {n} succeeded but its simulation without funds failed: {e}")) };
            let mut spent = Coins::new();
            let mut refund = Coins::new();
            for (k, x) in &f {
                let kept = s.delta(CORE, k) as u128;
                if kept > 0 { spent.insert(k.clone(), kept); }
                if x - kept > 0 { refund.insert(k.clone(), x - kept); }
            }
            let to = receiver.clone().unwrap_or_else(|| who.to_string());
            let got = if to == s.t0.collector { s.delta(&to, idx) as u128 - fee.min(s.delta(&to, idx) as u128) } else { s.delta(&to, idx) as u128 };
            // (what the contract refunds to itself does not show)
            if refund_to.as_deref() == Some(CORE) { return Ok(()); }
            for (name, v) in [("with funds", &sim), ("without funds", &bare)] {
                ensure!(v.mint_amount.u128() == got, "simulate_mint: received amount", "mint of {n}: the receiver got {got}, the simulation {name} says {}", v.mint_amount);
                ensure!(nz(&v.fund_spent) == spent, "simulate_mint: spent funds", "mint of {n}: spent {spent:?}, the simulation {name} says {}", show_coins(&v.fund_spent));
            }
            ensure!(nz(&sim.refund_amount) == refund, "simulate_mint: refund", "mint of {n}: refunded {refund:?}, the simulation says {}", show_coins(&sim.refund_amount));
            ensure!(nz(&bare.refund_amount).is_empty(), "simulate_mint: refund", "mint of {n} without stated funds: the simulation refunds {}", show_coins(&bare.refund_amount));
            cx.nontrivial();
        }
        Some((who, ExecuteMsg::Burn { redeem_to }, funds)) => {
            let r = match funds.iter().find(|c| c.denom == *idx) { Some(c) => c.amount, None => return Ok(()) };
            let sim: Result<SimulateBurnResponse, String> = q.query(CORE, &QueryMsg::SimulateBurn { amount: r, time: None });
            if !s.ok { return Ok(()); }
            let sim = match sim { Ok(v) => v, Err(e) => return fail("simulate_burn: refuses what succeeds", format!("burn of {r} succeeded but its simulation failed: {e}")) };
            let gone = s.c0.supply_of(idx) - s.c.supply_of(idx);
            ensure!(sim.burn_amount.u128() == gone, "simulate_burn: destroyed amount", "burn of {r}: {gone} destroyed, the simulation says {}", sim.burn_amount);
            let to = redeem_to.clone().unwrap_or_else(|| who.to_string());
            let mut red = Coins::new();
            for k in ALL { let x = s.delta(&to, k); if x > 0 { red.insert(k.to_string(), x as u128); } }
            // (what the contract pays to itself does not show)
            ensure!(to == CORE || nz(&sim.redeem_amount) == red, "simulate_burn: redemption", "burn of {r}: redeemed {red:?}, the simulation says {}", show_coins(&sim.redeem_amount));
            cx.nontrivial();
        }
        _ => {}
    }
    Ok(())
}

fn c05_reports(cx: &mut Cx, s: &Step) -> R {
    let t = s.c;
    let who = cx.s.pick(&USERS).to_string();
    let b: Uint128 = match t.query(CORE, &QueryMsg::GetBalance { account: who.clone() }) { Ok(v) => v, Err(e) => return fail("balance: query fails", e) };
    ensure!(b.u128() == t.bal(&who, &s.t0.index_denom), "balance: wrong", "GetBalance({who}) = {b}, bank says {}", t.bal(&who, &s.t0.index_denom));
    // assets follow the reported units
    for (k, u) in &s.post.units {
        let x = unit_mul(*u, s.post.supply).unwrap_or(0);
        ensure!(cget(&s.post.assets, k) == x, "portfolio: assets", "GetPortfolio lists {} of {k}, unit x supply is {x}", cget(&s.post.assets, k));
    }
    if !cx.s.chance(1, 3) { return Ok(()); }
    // a later time, within the range in which the compound factor stays below 100%
    let later = if cx.s.chance(1, 4) { cx.s.log_range(30_000_000, 400_000_000) } else { cx.s.log_range(0, 20_000_000) } as u64;
    let track = {
        // reconstruct the accrual base after the operation
        let st = match &s.post.stream { Some(x) if !x.freeze => Some((x.rate, x.last)), _ => None };
        st
    };
    if let Some((rate, _)) = track {
        let idle = t.now() - s.t0.last.min(t.now());
        if (idle + later) as u128 * rate > 600_000_000_000_000_000 { return Ok(()); }
    }
    let at = t.now() + later;
    let mut c = t.clone();
    c.nanos = at * 1_000_000_000 + cx.s.draw(2) * 500_000_000;
    let then = match observe(&c) { Ok(v) => v, Err(e) => return fail("reports: query fails", e) };
    let pf: GetPortfolioResponse = match t.query(CORE, &QueryMsg::GetPortfolio { time: Some(at) }) { Ok(v) => v, Err(e) => return fail("portfolio: later time fails", e) };
    let u: Units = pf.units.iter().map(|(k, x)| (k.clone(), x.atomics().u128())).collect();
    ensure!(units_map(&u) == units_map(&then.units) && pf.total_supply.u128() == then.supply && nz(&pf.assets) == then.assets, "portfolio: later time", "GetPortfolio for {at} says {u:?} / {}, at that time it says {:?} / {:?}", show_coins(&pf.assets), then.units, then.assets);
    let n = gen_amount(&mut cx.s);
    let sm: Result<SimulateMintResponse, String> = t.query(CORE, &QueryMsg::SimulateMint { amount: n.into(), funds: None, time: Some(at) });
    let sb: Result<SimulateBurnResponse, String> = t.query(CORE, &QueryMsg::SimulateBurn { amount: n.into(), time: Some(at) });
    // the operations themselves, then
    if then.reb.is_none() && !then.paused && !then.units.is_empty() {
        let mut funds: Vec<Coin> = required(&then.units, n).into_iter().map(|(k, v)| coin(v, k)).collect();
        funds.sort_by(|a, b| a.denom.cmp(&b.denom));
        let mut c2 = c.clone();
        let r = c2.execute("carol", CORE, &ExecuteMsg::Mint { amount: n.into(), receiver: None, refund_to: None }, &funds);
        match r {
            Ok(()) => {
                let sm = match sm { Ok(v) => v, Err(e) => return fail("simulate_mint: later time fails", format!("mint of {n} at {at} works, simulation: {e}")) };
                let got = c2.bal("carol", &s.t0.index_denom) - c.bal("carol", &s.t0.index_denom);
                let spent: Coins = funds.iter().map(|f| (f.denom.clone(), c2.bal(CORE, &f.denom) - c.bal(CORE, &f.denom))).collect();
                if s.post.collector != "carol" { ensure!(sm.mint_amount.u128() == got, "simulate_mint: later time", "mint of {n} at {at} gives {got}, simulated {}", sm.mint_amount); }
                ensure!(nz(&sm.fund_spent) == spent, "simulate_mint: later time", "mint of {n} at {at} takes {spent:?}, simulated {}", show_coins(&sm.fund_spent));
                cx.nontrivial();
            }
            Err(e) => {
                let fee = mint_fee(then.mint_fee, n);
                ensure!(fee >= n || funds.iter().any(|f| c.bal("carol", &f.denom) < f.amount.u128()), "portfolio: later time does not price a mint", "a mint of {n} at {at} with {} (the reported price then) fails: {e}", show_coins(&funds));
            }
        }
        // burn by a holder
        if let Some(h) = USERS.iter().find(|u| c.bal(u, &s.t0.index_denom) > 0) {
            let x = n.min(c.bal(h, &s.t0.index_denom));
            let sb = if x == n { sb } else { t.query(CORE, &QueryMsg::SimulateBurn { amount: x.into(), time: Some(at) }) };
            let mut c2 = c.clone();
            if c2.execute(h, CORE, &ExecuteMsg::Burn { redeem_to: Some("mallory".into()) }, &[coin(x, &s.t0.index_denom)]).is_ok() {
                let sb = match sb { Ok(v) => v, Err(e) => return fail("simulate_burn: later time fails", e) };
                let gone = c.supply_of(&s.t0.index_denom) - c2.supply_of(&s.t0.index_denom);
                let red: Coins = ALL.iter().map(|k| (k.to_string(), c2.bal("mallory", k) - c.bal("mallory", k))).filter(|v| v.1 > 0).collect();
                ensure!(sb.burn_amount.u128() == gone && nz(&sb.redeem_amount) == red, "simulate_burn: later time", "burn of {x} at {at} destroys {gone} and redeems {red:?}, simulated {} and {}", sb.burn_amount, show_coins(&sb.redeem_amount));
                cx.nontrivial();
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------- C06

fn c06(cx: &mut Cx) -> R {
    let mut pr = BASE;
    pr.advance = 16;
    pr.realize = 6;
    pr.streaming = 8;
    pr.overlong = cx.s.chance(1, 12);
    history(cx, &pr, |cx, s, _| {
        let touched_by_trade = matches!(s.msg(), Some((_, ExecuteMsg::Rebalance(RebalanceMsg::Trade(_) | RebalanceMsg::Finalize {}), _))) && s.ok;
        if touched_by_trade { return Ok(()); }
        if s.t0.overgrown(s.post.now) {
            cx.known(K4, || format!("{} with (1+rate)^t-1 above 1: {}", s.op.show(), s.err));
            return Ok(());
        }
        accrual_matches(cx, s)?;
        if s.t0.stream.is_some() && cx.s.chance(1, 4) { later_fee(cx, s)?; }
        Ok(())
    })
}

pub const K4: &str = "streaming factor above 100%";

/// reported units and booked fees against the compound formula, from the facts before the operation
fn accrual_matches(cx: &mut Cx, s: &Step) -> R {
    let t = s.t0;
    let now = s.post.now;
    let f = t.factor(now).unwrap_or(0);
    let elapsed = if t.accruing().is_some() { now.saturating_sub(t.last) } else { 0 };
    let post = units_map(&s.post.units);
    ensure!(post.len() == s.post.units.len() && post.keys().collect::<BTreeSet<_>>() == t.units.iter().map(|u| &u.0).collect::<BTreeSet<_>>(), "accrual: assets changed", "{} changed the set of assets from {:?} to {:?}", s.op.show(), t.units, s.post.units);
    let mut booked = Coins::new();
    for (k, u0) in &t.units {
        let u1 = post[k];
        let want = unit_mul(*u0, f).unwrap_or(0);
        ensure!(u1 <= *u0, "accrual: unit grows", "unit of {k} rose from {u0} to {u1} by {}", s.op.show());
        let got = u0 - u1;
        let tol = if elapsed == 0 { 0 } else { 2 + unit_mul(*u0, elapsed as u128).unwrap_or(0) };
        ensure!(got.abs_diff(want) <= tol, "accrual: unit", "after {elapsed}s at rate {:?} the unit of {k} fell from {u0}e-18 by {got}e-18, the formula gives {want}e-18 ({})", t.stream, s.op.show());
        if got > 0 { cx.nontrivial(); }
        let x = unit_mul(got, t.supply).unwrap_or(0);
        if x > 0 { booked.insert(k.clone(), x); }
    }
    // fees booked: only operations that settle them in between are exempt
    let settles = s.ok && matches!(s.msg(), Some((_, ExecuteMsg::Realize {} | ExecuteMsg::Gov(GovMsg::UpdateFeeStrategy(_)), _)));
    if settles { return Ok(()); }
    let mut want = t.owed.clone();
    for (k, x) in booked { *want.entry(k).or_insert(0) += x; }
    let got = s.post.stream.as_ref().map(|v| v.collected.clone()).unwrap_or_default();
    ensure!(got == want, "accrual: booked fees", "after {} the fees owed are reported as {got:?}; unit reductions x supply since then and the fees owed before come to {want:?}", s.op.show());
    Ok(())
}

/// fee and portfolio queries for a later time against an accrual performed then
fn later_fee(cx: &mut Cx, s: &Step) -> R {
    let c = s.c;
    let rate = match &s.post.stream { Some(v) => v.rate, None => return Ok(()) };
    let later = cx.s.log_range(0, 20_000_000) as u64;
    if (c.now() - s.t0.last.min(c.now()) + later) as u128 * rate > 600_000_000_000_000_000 { return Ok(()); }
    let at = c.now() + later;
    let fee: GetFeeResponse = match c.query(CORE, &QueryMsg::GetFee { time: Some(at) }) { Ok(v) => v, Err(e) => return fail("fee query: fails", e) };
    let pf: GetPortfolioResponse = match c.query(CORE, &QueryMsg::GetPortfolio { time: Some(at) }) { Ok(v) => v, Err(e) => return fail("portfolio query: fails", e) };
    let said = nz(&fee.streaming_fee.map(|v| v.collected).unwrap_or_default());
    let units: BTreeMap<String, u128> = pf.units.iter().map(|(k, x)| (k.clone(), x.atomics().u128())).collect();
    let mut c2 = c.clone();
    c2.nanos = at * 1_000_000_000;
    let before = c2.clone();
    let col = s.post.collector.clone();
    if c2.execute(&col, CORE, &ExecuteMsg::Realize {}, &[]).is_ok() {
        let paid: Coins = said.keys().map(|k| (k.clone(), (c2.bal(&col, k) - before.bal(&col, k)))).collect();
        ensure!(paid == said, "fee query: differs from accrual", "GetFee for {at} says {said:?} is owed, accrual at that time pays {paid:?}");
        let o = match observe(&c2) { Ok(v) => v, Err(e) => return fail("fee query: fails", e) };
        ensure!(units_map(&o.units) == units, "portfolio query: differs from accrual", "GetPortfolio for {at} says {units:?}, accrual at that time leaves {:?}", o.units);
        // a second accrual at the same instant
        let mut c3 = c2.clone();
        let again = c3.execute(&col, CORE, &ExecuteMsg::Realize {}, &[]).is_ok();
        let o3 = match observe(&c3) { Ok(v) => v, Err(e) => return fail("fee query: fails", e) };
        ensure!(o3.units == o.units && c3.bank == c2.bank, "accrual: twice at one instant", "a second accrual at {at} (accepted: {again}) changed units or balances");
        cx.nontrivial();
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------- C07

fn owed_at(t: &Track, pre: &Obs) -> Coins {
    let mut m = t.owed.clone();
    if t.accruing().is_some() {
        for (k, u) in &t.units {
            let x = unit_mul(u.saturating_sub(uget(&pre.units, k).unwrap_or(*u)), t.supply).unwrap_or(0);
            if x > 0 { *m.entry(k.clone()).or_insert(0) += x; }
        }
    }
    m
}

fn c07(cx: &mut Cx) -> R {
    let mut pr = BASE;
    pr.realize = 14;
    pr.fee = 8;
    pr.advance = 16;
    pr.script = 5;
    pr.streaming = 8;
    history(cx, &pr, |cx, s, _| {
        nothing_moved(s, "fees")?;
        if s.ok && s.post.units.len() < s.pre.units.len() && s.t0.owed.keys().any(|k| uget(&s.post.units, k).is_none()) { cx.class("an asset left while fees in it were owed"); }
        match s.msg() {
            Some((who, ExecuteMsg::Realize {}, _)) => {
                let owed = owed_at(s.t0, s.pre);
                let solvent = owed.iter().all(|(k, x)| cget(&s.pre.held, k) >= *x);
                if who != s.t0.collector { ensure!(!s.ok, "realize: by a stranger", "{who} realised fees, the collector is {}", s.t0.collector); }
                else if !owed.is_empty() && solvent { ensure!(s.ok, "realize: refused", "{} with {owed:?} owed: {}", s.op.show(), s.err); }
                if !s.ok { return Ok(()); }
                let mut exp = BTreeMap::new();
                for (k, x) in &owed { add_move(&mut exp, CORE, k, -(*x as i128)); add_move(&mut exp, who, k, *x as i128); }
                let got = moves(s.c0, s.c);
                ensure!(got == exp, "realize: wrong amounts", "{owed:?} was owed to {who}; realising moved {}", show_moves(&got));
                let left = s.post.stream.as_ref().map(|v| v.collected.clone()).unwrap_or_default();
                ensure!(left.is_empty(), "realize: still owed", "after realising, {left:?} is still reported as owed");
                let mut c = s.c.clone();
                let again = c.execute(who, CORE, &ExecuteMsg::Realize {}, &[]).is_ok();
                ensure!(c.bank == s.c.bank, "realize: paid twice", "a second realisation at the same instant (accepted: {again}) moved {}", show_moves(&moves(s.c, &c)));
                if !owed.is_empty() { cx.nontrivial(); }
            }
            Some((_, ExecuteMsg::Gov(GovMsg::UpdateFeeStrategy(f)), _)) if s.ok => {
                let owed = owed_at(s.t0, s.pre);
                let still = if f.collector == s.t0.collector { s.post.stream.as_ref().map(|v| v.collected.clone()).unwrap_or_default() } else { Coins::new() };
                // (paying the contract itself leaves no trace)
                if s.t0.collector != CORE { for k in denoms(&[s.pre, s.post]) {
                    let paid = s.delta(&s.t0.collector, &k);
                    ensure!(paid + cget(&still, &k) as i128 == cget(&owed, &k) as i128, "fee change: accrued fees", "{} {k} was owed to {}; the change of strategy paid {paid} and leaves {} claimable", cget(&owed, &k), s.t0.collector, cget(&still, &k));
                } }
                let mut exp = BTreeMap::new();
                for (k, x) in &owed { let p = (*x - cget(&still, k).min(*x)) as i128; add_move(&mut exp, CORE, k, -p); add_move(&mut exp, &s.t0.collector, k, p); }
                let got = moves(s.c0, s.c);
                ensure!(got == exp, "fee change: wrong recipients", "{owed:?} was owed to {}, {} moved {}", s.t0.collector, s.op.show(), show_moves(&got));
                if !owed.is_empty() { cx.nontrivial(); }
            }
            _ => {
                // nobody else can take what is owed
                let rep = s.post.stream.as_ref().map(|v| v.collected.clone()).unwrap_or_default();
                for (k, x) in &s.t0.owed { ensure!(cget(&rep, k) >= *x, "fees: owed amount shrank", "{} left {} {k} owed, {x} was owed before", s.op.show(), cget(&rep, k)); }
            }
        }
        Ok(())
    })
}

// ------------------------------------------------------------------------------------------------- C08

fn fees_match(f: &FeePayload, o: &Obs, now: u64) -> bool {
    let at = |x: &Option<cosmwasm_std::Decimal>| x.map(|v| v.atomics().u128());
    o.collector == f.collector && o.mint_fee == at(&f.mint_fee) && o.burn_fee == at(&f.burn_fee)
        && match (&f.streaming_fee, &o.stream) { (None, None) => true, (Some(a), Some(b)) => a.rate.atomics().u128() == b.rate && a.freeze == b.freeze && b.last == now, _ => false }
}

fn config_ok(o: &Obs) -> R {
    let r = |n: &str, x: Option<u128>| -> R { if let Some(v) = x { ensure!(v > 0 && v < E18, "config: rate out of range", "{n} rate is {v}e-18"); } Ok(()) };
    r("mint", o.mint_fee)?;
    r("burn", o.burn_fee)?;
    if let Some(s) = &o.stream { ensure!(s.rate > 0 && s.rate <= MAX_RATE, "config: streaming rate out of range", "streaming rate is {}e-18", s.rate); }
    ensure!(valid_addr(&o.gov) && valid_addr(&o.collector), "config: invalid address", "gov {:?}, collector {:?}", o.gov, o.collector);
    ensure!(units_map(&o.units).len() == o.units.len(), "config: asset listed twice", "{:?}", o.units);
    Ok(())
}

fn c08(cx: &mut Cx) -> R {
    if cx.s.chance(1, 2) { return c08_create(cx); }
    let mut pr = BASE;
    pr.fee = 26;
    pr.handover = 3;
    history(cx, &pr, |cx, s, _| {
        config_ok(s.post)?;
        if let Some((who, msg @ ExecuteMsg::Gov(GovMsg::UpdateFeeStrategy(f)), _)) = s.msg() {
            check_expect(s, expect_gov(s, who, msg), "fee update")?;
            nothing_moved(s, "fee update")?;
            if s.ok {
                ensure!(fees_match(f, s.post, s.post.now), "fee update: reported differently", "{} is reported as collector {} mint {:?} burn {:?} streaming {:?}", s.op.show(), s.post.collector, s.post.mint_fee, s.post.burn_fee, s.post.stream);
            } else {
                ensure!(s.pre.stream == s.post.stream && s.pre.mint_fee == s.post.mint_fee && s.pre.burn_fee == s.post.burn_fee && s.pre.collector == s.post.collector, "fee update: failed with effect", "{}", s.op.show());
            }
            cx.nontrivial();
        }
        Ok(())
    })
}

fn c08_create(cx: &mut Cx) -> R {
    let s = &mut cx.s;
    let mut c = Chain::new(1_700_000_000_000_000_000 + s.draw(1_000_000_000));
    let n = if s.chance(1, 20) { s.usize(ALL.len() + 1) } else { s.usize(5) };
    let off = s.usize(ALL.len());
    let mut units: Units = (0..n).map(|i| (ALL[(off + i) % ALL.len()].to_string(), 0)).collect();
    for u in units.iter_mut() { u.1 = if s.chance(1, 20) { 0 } else { gen_unit(s) }; }
    if !units.is_empty() && s.chance(1, 5) { let i = s.usize(units.len()); let mut x = units[i].clone(); if s.chance(1, 2) { x.1 = gen_unit(s); } let at = s.usize(units.len() + 1); units.insert(at, x); }
    let wild = s.chance(1, 2);
    let rate = |s: &mut Src| if s.chance(1, 3) { None } else { Some(d(if wild { gen_rate(s) } else { gen_good_rate(s) })) };
    let mint_fee = rate(s);
    let burn_fee = rate(s);
    let streaming_fee = if s.chance(1, 4) { None } else {
        let r = if wild { match s.usize(6) { 0 => 0, 1 => MAX_RATE + 1, 2 => MAX_RATE, 3 => E18, 4 => s.log_range(1, E18), _ => gen_stream_rate(s) } } else { gen_stream_rate(s) };
        Some(StreamingFeePayload { rate: d(r), freeze: s.chance(1, 4) })
    };
    let fee = FeePayload { collector: gen_addr(s), mint_fee, burn_fee, streaming_fee };
    let msg = InstantiateMsg { gov: gen_addr(s), fee, index_denom: "uibcx".into(), index_units: du(&units), reserve_denom: s.pick(&DENOMS).to_string() };
    let ok = fee_valid(&msg.fee) && valid_addr(&msg.gov) && units_map(&units).len() == units.len();
    let r = c.instantiate(Kind::Core, CORE, "creator", &msg);
    let now = c.now();
    cx.log(|| format!("instantiate {} -> {:?}", serde_json::to_string(&msg).unwrap(), r));
    cx.class(if r.is_ok() { "creation accepted" } else { "creation refused" });
    cx.nontrivial();
    cx.checks += 1;
    ensure!(r.is_ok() == ok, if ok { "creation: rejected" } else { "creation: accepted" }, "{} -> {:?}", serde_json::to_string(&msg).unwrap(), r);
    if ok {
        let o = match observe(&c) { Ok(o) => o, Err(e) => return fail("creation: cannot be queried", e) };
        config_ok(&o)?;
        ensure!(o.gov == msg.gov && o.pending.is_none() && !o.paused && o.reserve_denom == msg.reserve_denom && o.index_denom == format!("factory/{CORE}/uibcx") && fees_match(&msg.fee, &o, now) && o.units == units && o.supply == 0 && o.reb.is_none(), "creation: reported differently", "{} is reported as {o:?}", serde_json::to_string(&msg).unwrap());
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------- C09

fn c09(cx: &mut Cx) -> R {
    let mut pr = BASE;
    pr.handover = 22;
    pr.pause = 5;
    pr.fee = 4;
    pr.reserve = 4;
    pr.manager = 3;
    pr.init = 5;
    pr.advance = 4;
    history(cx, &pr, |cx, s, _| {
        nothing_moved(s, "governance")?;
        if let Some((who, msg, _)) = s.msg() {
            let entitled = match msg {
                ExecuteMsg::Gov(GovMsg::AcceptGov {}) => s.t0.pending.as_deref() == Some(who),
                ExecuteMsg::Gov(_) | ExecuteMsg::Rebalance(RebalanceMsg::Init { .. }) => who == s.t0.gov,
                _ => true,
            };
            if !entitled {
                ensure!(!s.ok, "governance: stranger accepted", "{} succeeded; governance is {}, proposed {:?}", s.op.show(), s.t0.gov, s.t0.pending);
                cx.nontrivial();
            } else if matches!(msg, ExecuteMsg::Gov(GovMsg::UpdateGov(_) | GovMsg::AcceptGov {} | GovMsg::RevokeGov {})) {
                check_expect(s, expect_gov(s, who, msg), "handover")?;
                if s.ok && matches!(msg, ExecuteMsg::Gov(GovMsg::AcceptGov {})) { cx.nontrivial(); }
            }
        }
        let handover = match s.msg() { Some((who, ExecuteMsg::Gov(g), _)) if s.ok => match g {
            GovMsg::UpdateGov(a) => Some((s.t0.gov.clone(), Some(a.clone()))),
            GovMsg::AcceptGov {} => Some((who.to_string(), None)),
            GovMsg::RevokeGov {} => Some((s.t0.gov.clone(), None)),
            _ => None,
        }, _ => None };
        let (gov, pending) = handover.unwrap_or((s.t0.gov.clone(), s.t0.pending.clone()));
        ensure!(s.post.gov == gov && s.post.pending == pending, "governance: reported differently", "after {} governance is {} (proposed {:?}), expected {gov} ({pending:?})", s.op.show(), s.post.gov, s.post.pending);
        Ok(())
    })
}

// ------------------------------------------------------------------------------------------------- C10

fn c10(cx: &mut Cx) -> R {
    let mut pr = BASE;
    pr.pause = 24;
    pr.advance = 20;
    pr.mint = 14;
    pr.burn = 12;
    pr.handover = 1;
    pr.init = 1;
    history(cx, &pr, |cx, s, _| {
        nothing_moved(s, "pause")?;
        let now = s.pre.now;
        match s.msg() {
            Some((who, msg @ ExecuteMsg::Gov(GovMsg::Pause { .. } | GovMsg::Release {}), _)) if who == s.t0.gov => check_expect(s, expect_gov(s, who, msg), "pause")?,
            Some((_, ExecuteMsg::Mint { amount, receiver, refund_to }, funds)) => {
                if s.t0.paused_at(now) { ensure!(!s.ok, "pause: mint got through", "{} succeeded at {now}, paused {:?}", s.op.show(), s.t0.pause); }
                else { check_expect(s, expect_mint(s, amount.u128(), receiver, refund_to, funds), "not paused: mint")?; }
                if s.t0.pause.is_some() { cx.nontrivial(); }
            }
            Some((_, ExecuteMsg::Burn { redeem_to }, funds)) => {
                if s.t0.paused_at(now) { ensure!(!s.ok, "pause: burn got through", "{} succeeded at {now}, paused {:?}", s.op.show(), s.t0.pause); }
                else { check_expect(s, expect_burn(s, redeem_to, funds), "not paused: burn")?; }
                if s.t0.pause.is_some() { cx.nontrivial(); }
            }
            _ => {}
        }
        // reported state, now and for any queried time
        let pause = match s.msg() { Some((_, ExecuteMsg::Gov(GovMsg::Pause { expires_at }), _)) if s.ok => Some(*expires_at), Some((_, ExecuteMsg::Gov(GovMsg::Release {}), _)) if s.ok => None, _ => s.t0.pause };
        let in_force = |t: u64| match pause { None => false, Some(None) => true, Some(Some(e)) => t < e };
        let e = match pause { Some(Some(e)) => e, _ => s.post.now };
        let times = [s.post.now, s.post.now + cx.s.draw(200_000), e.saturating_sub(1), e, e.saturating_add(1)];
        for t in times {
            // block times are 64-bit nanoseconds: later instants cannot be
            if t > u64::MAX / 1_000_000_000 { continue; }
            let r: GetConfigResponse = match s.c.query(CORE, &QueryMsg::GetConfig { time: Some(t) }) { Ok(v) => v, Err(e) => return fail("pause: query fails", e) };
            ensure!(r.paused.paused == in_force(t), "pause: reported state", "after {} GetConfig for {t} says paused={}, the pause is {pause:?}", s.op.show(), r.paused.paused);
            if in_force(t) { ensure!(r.paused.expires_at == pause.unwrap(), "pause: reported expiry", "GetConfig for {t} says expiry {:?}, the pause is {pause:?}", r.paused.expires_at); }
        }
        ensure!(s.post.paused || s.post.expires.is_none(), "pause: expiry of no pause", "after {} GetConfig says not paused, expiring at {:?}", s.op.show(), s.post.expires);
        ensure!(s.post.paused == in_force(s.post.now), "pause: reported state", "after {} GetConfig says paused={}, the pause is {pause:?}", s.op.show(), s.post.paused);
        Ok(())
    })
}

// ------------------------------------------------------------------------------------------------- C11

fn c11(cx: &mut Cx) -> R {
    let mut pr = BASE;
    pr.init = 14;
    pr.mint = 14;
    pr.burn = 12;
    pr.fee = 5;
    pr.reserve = 4;
    pr.manager = 3;
    pr.pause = 1;
    pr.handover = 1;
    pr.wide = 8;
    pr.streaming = 7;
    history(cx, &pr, |cx, s, _| {
        nothing_moved(s, "rebalance")?;
        let on = s.t0.reb.is_some();
        if let Some((who, msg, _)) = s.msg() {
            if on { cx.nontrivial(); }
            let locked = matches!(msg, ExecuteMsg::Mint { .. } | ExecuteMsg::Burn { .. } | ExecuteMsg::Gov(GovMsg::UpdateFeeStrategy(_) | GovMsg::UpdateReserveDenom(_)) | ExecuteMsg::Rebalance(RebalanceMsg::Init { .. }));
            let only_on = matches!(msg, ExecuteMsg::Gov(GovMsg::UpdateRebalanceManager(_)) | ExecuteMsg::Rebalance(RebalanceMsg::Trade(_) | RebalanceMsg::Finalize {}));
            if on && locked { ensure!(!s.ok, "rebalance: portfolio not locked", "{} succeeded during a rebalance", s.op.show()); }
            if !on && only_on { ensure!(!s.ok, "rebalance: possible outside", "{} succeeded without a rebalance", s.op.show()); }
            if who == s.t0.gov && matches!(msg, ExecuteMsg::Gov(GovMsg::UpdateRebalanceManager(_) | GovMsg::UpdateReserveDenom(_)) | ExecuteMsg::Rebalance(RebalanceMsg::Init { .. })) {
                check_expect(s, expect_gov(s, who, msg), "rebalance start/administration")?;
            }
            if let (ExecuteMsg::Gov(GovMsg::UpdateReserveDenom(x)), true) = (msg, s.ok) { ensure!(s.post.reserve_denom == *x, "reserve asset: reported differently", "{} -> {}", s.op.show(), s.post.reserve_denom); }
            if s.ok && matches!(msg, ExecuteMsg::Rebalance(RebalanceMsg::Init { .. })) {
                ensure!(s.post.reserve_units.iter().all(|u| u.1 == 0), "rebalance: starts with proceeds", "{:?}", s.post.reserve_units);
            }
        }
        // the reported rebalance follows the history
        let mut want = s.t0.reb.clone();
        if s.ok { if let Some((_, msg, _)) = s.msg() { match msg {
            ExecuteMsg::Rebalance(RebalanceMsg::Init { manager, deflation, inflation }) => want = Some(Reb { manager: manager.clone(), deflation: deflation.iter().map(|(k, v)| (k.clone(), v.atomics().u128())).collect(), inflation: inflation.iter().map(|(k, v)| (k.clone(), v.atomics().u128())).collect() }),
            ExecuteMsg::Rebalance(RebalanceMsg::Finalize {}) => want = None,
            ExecuteMsg::Gov(GovMsg::UpdateRebalanceManager(m)) => { if let Some(r) = want.as_mut() { r.manager = m.clone(); } }
            _ => {}
        } } }
        ensure!(s.post.reb == want, "rebalance: reported differently", "after {} GetRebalance says {:?}, expected {want:?}", s.op.show(), s.post.reb);
        // no accrual while it runs, none for that period afterwards
        let trade = s.ok && matches!(s.msg(), Some((_, ExecuteMsg::Rebalance(RebalanceMsg::Trade(_) | RebalanceMsg::Finalize {}), _)));
        if s.t0.stream.is_some() && !trade {
            if on {
                ensure!(units_map(&s.post.units) == units_map(&s.t0.units), "rebalance: fee accrues", "units went from {:?} to {:?} during a rebalance ({})", s.t0.units, s.post.units, s.op.show());
                let rep = s.post.stream.as_ref().map(|v| v.collected.clone()).unwrap_or_default();
                let realized = s.ok && matches!(s.msg(), Some((_, ExecuteMsg::Realize {}, _)));
                ensure!(realized || rep == s.t0.owed, "rebalance: fee accrues", "fees owed went from {:?} to {rep:?} during a rebalance ({})", s.t0.owed, s.op.show());
            } else {
                let f = s.t0.factor(s.post.now).unwrap_or(0);
                let el = s.post.now.saturating_sub(s.t0.last) as u128;
                for (k, u0) in &s.t0.units {
                    let got = u0.saturating_sub(uget(&s.post.units, k).unwrap_or(0));
                    let max = unit_mul(*u0, f).unwrap_or(0) + if el == 0 { 0 } else { 2 + unit_mul(*u0, el).unwrap_or(0) };
                    ensure!(got <= max, "rebalance: charged afterwards", "unit of {k} fell by {got}e-18, at most {max}e-18 can have accrued in {el}s ({})", s.op.show());
                }
            }
        }
        Ok(())
    })
}

// ------------------------------------------------------------------------------------------- C12, C13, C16

struct Trade<'a> { sell: bool, target: &'a str, amount: u128, limit: u128, reserve: bool, who: &'a str }

fn trade_of<'a>(s: &Step<'a>) -> Option<Trade<'a>> {
    match s.msg() {
        Some((who, ExecuteMsg::Rebalance(RebalanceMsg::Trade(t)), _)) => Some(match t {
            RebalanceTradeMsg::Deflate { target_denom, amount_out, max_amount_in } => Trade { sell: true, target: target_denom, amount: amount_out.u128(), limit: max_amount_in.u128(), reserve: *target_denom == s.t0.reserve_denom, who },
            RebalanceTradeMsg::Inflate { target_denom, amount_in, min_amount_out } => Trade { sell: false, target: target_denom, amount: amount_in.u128(), limit: min_amount_out.u128(), reserve: *target_denom == s.t0.reserve_denom, who },
        }),
        _ => None,
    }
}

fn trading() -> Profile {
    Profile { advance: 8, mint: 6, burn: 4, realize: 1, transfer: 0, pause: 0, handover: 0, fee: 0, reserve: 1, route: 7, init: 12, trade: 20, finalize: 3, manager: 2, raw: 0, streaming: 3, max_ops: 40, script: 3, overlong: false, wide: 24 }
}

fn c12(cx: &mut Cx) -> R {
    history(cx, &trading(), |cx, s, _| {
        let t = match trade_of(s) { Some(t) => t, None => return Ok(()) };
        nothing_moved(s, "trade")?;
        if !s.ok { return Ok(()); }
        cx.nontrivial();
        let res = &s.t0.reserve_denom;
        let reb = match &s.t0.reb { Some(r) => r, None => return fail("trade: outside a rebalance", s.op.show()) };
        if let Some(m) = &reb.manager { ensure!(t.who == m, "trade: not the manager", "{} traded, the manager is {m}", t.who); }
        let side = if t.sell { &reb.deflation } else { &reb.inflation };
        ensure!(uget(side, t.target).is_some(), "trade: undeclared asset", "{}: declared {side:?}", s.op.show());
        let supply = s.pre.supply;
        let gap = if t.sell {
            let cur = uget(&s.pre.units, t.target).unwrap_or(0);
            unit_mul(cur.saturating_sub(uget(side, t.target).unwrap()), supply).unwrap_or(u128::MAX)
        } else { unit_mul(uget(&s.pre.reserve_units, t.target).unwrap_or(0), supply).unwrap_or(u128::MAX) };
        let mv = moves(s.c0, s.c);
        if t.reserve {
            cx.class("reserve asset converted");
            ensure!(mv.is_empty(), "trade: reserve conversion moves coins", "{}: {}", s.op.show(), show_moves(&mv));
            if t.sell {
                let cur = uget(&s.pre.units, t.target).unwrap_or(0);
                let post = uget(&s.post.units, t.target).unwrap_or(0);
                ensure!(post >= uget(side, t.target).unwrap() && post <= cur, "trade: sold beyond the target", "{}: unit {cur} -> {post}", s.op.show());
            }
        } else {
            let (din, dout) = if t.sell { (t.target, res.as_str()) } else { (res.as_str(), t.target) };
            let spent = -s.delta(CORE, din);
            let got = s.delta(CORE, dout);
            ensure!(spent >= 0 && got >= 0, "trade: wrong direction", "{}: {}", s.op.show(), show_moves(&mv));
            let (spent, got) = (spent as u128, got as u128);
            let i = match s.t0.infos.get(&(din.to_string(), dout.to_string())) { Some(i) => i, None => return fail("trade: unregistered route", s.op.show()) };
            if let Some(l) = i.last { ensure!(s.pre.now as u128 >= l as u128 + i.cooldown as u128, "trade: within the cooldown", "{} at {}, last trade {l}, cooldown {}", s.op.show(), s.pre.now, i.cooldown); }
            let size = if t.sell { got } else { spent };
            ensure!(size <= i.max && t.amount <= i.max, "trade: above the size limit", "{}: {size} traded, the limit is {}", s.op.show(), i.max);
            ensure!(spent <= gap, "trade: more than available", "{}: spent {spent}, available {gap}", s.op.show());
            if t.sell { ensure!(spent <= t.limit, "trade: above the caller's maximum", "{}: spent {spent}", s.op.show()); }
            else { ensure!(got >= t.limit, "trade: below the caller's minimum", "{}: got {got}", s.op.show()); }
            for (a, k) in mv.keys() {
                ensure!(a != CORE || k == din || k == dout, "trade: touches another asset", "{}: {}", s.op.show(), show_moves(&mv));
                ensure!(a == CORE || a.starts_with("pool"), "trade: pays somebody", "{}: {}", s.op.show(), show_moves(&mv));
            }
            for sw in &s.c.swaps {
                let p: Vec<u64> = sw.routes.iter().map(|r| r.0).collect();
                let q: Vec<u64> = i.routes.0.iter().map(|r| r.pool_id).collect();
                ensure!(p == q, "trade: not the registered route", "{}: swapped over pools {p:?}, registered {q:?}", s.op.show());
            }
        }
        for (k, u) in &s.pre.units {
            if k != t.target { ensure!(uget(&s.post.units, k) == Some(*u), "trade: touches another unit", "{}: unit of {k} {u} -> {:?}", s.op.show(), uget(&s.post.units, k)); }
        }
        Ok(())
    })
}

fn near(a: u128, b: u128, tol: u128) -> bool { a.abs_diff(b) <= tol }

fn c13(cx: &mut Cx) -> R {
    history(cx, &trading(), |cx, s, _| {
        let t = match trade_of(s) { Some(t) if s.ok => t, _ => {
            // apart from trades and streaming fees, only an end of the rebalance moves proceeds
            if !s.ok || s.msg().is_none() { ensure!(s.pre.reserve_units == s.post.reserve_units, "bookkeeping: proceeds changed", "{}: {:?} -> {:?}", s.op.show(), s.pre.reserve_units, s.post.reserve_units); }
            return Ok(());
        } };
        cx.nontrivial();
        let reb = match &s.t0.reb { Some(r) => r, None => return Ok(()) };
        let supply = s.pre.supply;
        let res = &s.t0.reserve_denom;
        let u = |o: &Obs, k: &str| uget(&o.units, k).unwrap_or(0);
        let rv = |o: &Obs, k: &str| uget(&o.reserve_units, k).unwrap_or(0);
        for k in s.pre.units.iter().chain(s.post.units.iter()).map(|x| &x.0) {
            if k != t.target { ensure!(uget(&s.pre.units, k) == uget(&s.post.units, k), "bookkeeping: another unit changed", "{}: unit of {k} {:?} -> {:?}", s.op.show(), uget(&s.pre.units, k), uget(&s.post.units, k)); }
        }
        ensure!(units_map(&s.post.units).len() == s.post.units.len() && units_map(&s.post.reserve_units).len() == s.post.reserve_units.len(), "bookkeeping: duplicate entry", "{:?} {:?}", s.post.units, s.post.reserve_units);
        let per = |x: u128| muldiv(x, E18, supply).unwrap_or(u128::MAX);
        if t.sell {
            let down = match u(s.pre, t.target).checked_sub(u(s.post, t.target)) { Some(v) => v, None => return fail("bookkeeping: sale raises the unit", s.op.show()) };
            let total: u128 = s.post.reserve_units.iter().map(|x| x.1).sum::<u128>().checked_sub(s.pre.reserve_units.iter().map(|x| x.1).sum()).unwrap_or(u128::MAX);
            let credit = if t.reserve {
                let gap = u(s.pre, t.target).saturating_sub(uget(&reb.deflation, t.target).unwrap_or(0));
                ensure!(down == gap, "bookkeeping: reserve conversion", "{}: unit fell by {down}, the gap is {gap}", s.op.show());
                ensure!(total == down, "bookkeeping: proceeds do not add up", "{}: unit fell by {down}, proceeds rose by {total}", s.op.show());
                down
            } else {
                let spent = (-s.delta(CORE, t.target)).max(0) as u128;
                let got = s.delta(CORE, res).max(0) as u128;
                ensure!(near(down, per(spent), 1), "bookkeeping: unit sold", "{}: spent {spent} of {supply} tokens, the unit fell by {down}e-18", s.op.show());
                ensure!(near(total, per(got), 1), "bookkeeping: proceeds do not add up", "{}: received {got} per {supply} tokens, proceeds rose by {total}e-18 in total", s.op.show());
                total
            };
            let wsum: u128 = reb.inflation.iter().map(|x| x.1).sum();
            let n = reb.inflation.len() as u128;
            for (k, wt) in &reb.inflation {
                let share = muldiv(credit, *wt, wsum).unwrap_or(0);
                let got = match rv(s.post, k).checked_sub(rv(s.pre, k)) { Some(v) => v, None => return fail("bookkeeping: sale lowers proceeds", s.op.show()) };
                ensure!(near(got, share, n + 1), "bookkeeping: split by weight", "{}: {k} (weight {wt} of {wsum}) was credited {got}e-18 of {credit}e-18, its share is {share}e-18", s.op.show());
            }
            for (k, v) in &s.post.reserve_units { if uget(&reb.inflation, k).is_none() { ensure!(*v == rv(s.pre, k), "bookkeeping: proceeds of an undeclared asset", "{k}"); } }
        } else {
            let up = match u(s.post, t.target).checked_sub(u(s.pre, t.target)) { Some(v) => v, None => return fail("bookkeeping: purchase lowers the unit", s.op.show()) };
            let down = match rv(s.pre, t.target).checked_sub(rv(s.post, t.target)) { Some(v) => v, None => return fail("bookkeeping: purchase raises proceeds", s.op.show()) };
            for k in s.pre.reserve_units.iter().chain(s.post.reserve_units.iter()).map(|x| &x.0) {
                if k != t.target { ensure!(rv(s.pre, k) == rv(s.post, k), "bookkeeping: other proceeds changed", "{}: {k} {} -> {}", s.op.show(), rv(s.pre, k), rv(s.post, k)); }
            }
            if t.reserve {
                ensure!(up == down, "bookkeeping: reserve conversion", "{}: proceeds fell by {down}, the unit rose by {up}", s.op.show());
            } else {
                let spent = (-s.delta(CORE, res)).max(0) as u128;
                let got = s.delta(CORE, t.target).max(0) as u128;
                ensure!(near(down, per(spent), 1), "bookkeeping: proceeds spent", "{}: spent {spent} of {supply} tokens, proceeds fell by {down}e-18", s.op.show());
                ensure!(near(up, per(got), 1), "bookkeeping: unit bought", "{}: received {got} per {supply} tokens, the unit rose by {up}e-18", s.op.show());
            }
        }
        Ok(())
    })
}

const K3A: &str = "deflate: the first hop's input is the reserve asset";
const K3B: &str = "inflate: a route of several hops is sent last hop first";

fn c16(cx: &mut Cx) -> R {
    history(cx, &trading(), |cx, s, _| {
        let t = match trade_of(s) { Some(t) => t, None => {
            ensure!(s.c.swaps.is_empty() || !s.ok, "swap: by another operation", "{} sent {:?}", s.op.show(), s.c.swaps);
            return Ok(());
        } };
        if !s.ok { return Ok(()); }
        if t.reserve { ensure!(s.c.swaps.is_empty(), "swap: for the reserve asset", "{} sent {:?}", s.op.show(), s.c.swaps); return Ok(()); }
        let res = s.t0.reserve_denom.as_str();
        ensure!(s.c.swaps.len() == 1, "swap: not exactly one", "{} sent {:?}", s.op.show(), s.c.swaps);
        cx.nontrivial();
        let sw = &s.c.swaps[0];
        let (din, dout) = if t.sell { (t.target, res) } else { (res, t.target) };
        let i = match s.t0.infos.get(&(din.to_string(), dout.to_string())) { Some(i) => i, None => return fail("swap: unregistered pair", s.op.show()) };
        ensure!(sw.sender == CORE, "swap: wrong sender", "{sw:?}");
        // the pools of the registered route, in one direction or the other
        let p: Vec<u64> = sw.routes.iter().map(|r| r.0).collect();
        let mut q: Vec<u64> = i.routes.0.iter().map(|r| r.pool_id).collect();
        let same = p == q;
        q.reverse();
        ensure!(same || p == q, "swap: other pools", "{}: {p:?}, registered {:?}", s.op.show(), i.routes);
        let spent = (-s.delta(CORE, din)).max(0) as u128;
        let got = s.delta(CORE, dout).max(0) as u128;
        if t.sell && !sw.exact_in {
            ensure!(sw.denom == res && sw.amount == t.amount, "swap: wrong output", "{}: asks for {} {}", s.op.show(), sw.amount, sw.denom);
            ensure!(sw.limit <= t.limit && sw.limit <= spent, "swap: input limit above the quote", "{}: allows {} in, quoted {spent}, caller's maximum {}", s.op.show(), sw.limit, t.limit);
        } else if !t.sell && sw.exact_in {
            ensure!(sw.denom == res && sw.amount == t.amount, "swap: wrong input", "{}: spends {} {}", s.op.show(), sw.amount, sw.denom);
            ensure!(sw.limit >= t.limit && sw.limit >= got, "swap: output limit below the quote", "{}: demands {}, quoted {got}, caller's minimum {}", s.op.show(), sw.limit, t.limit);
        } else {
            return fail("swap: wrong kind", format!("{}: {sw:?}", s.op.show()));
        }
        // how the chain itself would execute it
        let mut hops: Vec<(u64, String, String)> = vec![];
        if sw.exact_in {
            let mut x = sw.denom.clone();
            for (id, o) in &sw.routes { hops.push((*id, x.clone(), o.clone())); x = o.clone(); }
        } else {
            for (j, (id, a)) in sw.routes.iter().enumerate() { hops.push((*id, a.clone(), sw.routes.get(j + 1).map(|r| r.1.clone()).unwrap_or(sw.denom.clone()))); }
        }
        let right = hops.first().map(|h| h.1 == din).unwrap_or(false) && hops.last().map(|h| h.2 == dout).unwrap_or(false)
            && hops.iter().all(|(id, a, b)| a != b && s.c.pools.get(id).map(|p| p.assets.iter().any(|x| x.0 == *a) && p.assets.iter().any(|x| x.0 == *b)).unwrap_or(false));
        if right { cx.class("swap correct under the chain's rules"); return Ok(()); }
        if t.sell && sw.routes[0].1 == res && i.routes.0[0].token_denom == res {
            cx.known(K3A, || format!("{} sends exact-out routes {:?} for {}: the chain would spend {res}, not {din}", s.op.show(), sw.routes, sw.denom));
        } else if !t.sell && sw.routes.len() > 1 && same && sw.routes[0].1 == dout {
            cx.known(K3B, || format!("{} sends exact-in routes {:?} for {}", s.op.show(), sw.routes, sw.denom));
        } else {
            return fail("swap: wrong assets under the chain's rules", format!("{}: hops {hops:?}, wanted {din} -> {dout}", s.op.show()));
        }
        Ok(())
    })
}

// ------------------------------------------------------------------------------------------------- C14

fn c14(cx: &mut Cx) -> R {
    let mut pr = trading();
    pr.finalize = 14;
    pr.streaming = 6;
    pr.init = 16;
    history(cx, &pr, |cx, s, _| {
        let who = match s.msg() { Some((who, ExecuteMsg::Rebalance(RebalanceMsg::Finalize {}), _)) => who, _ => {
            // nothing else ends a rebalance or drops an asset
            if s.t0.reb.is_some() { ensure!(s.post.reb.is_some(), "finalise: ended otherwise", "{} ended the rebalance", s.op.show()); }
            for (k, _) in &s.pre.units { ensure!(uget(&s.post.units, k).is_some(), "finalise: asset dropped otherwise", "{} dropped {k}", s.op.show()); }
            return Ok(());
        } };
        nothing_moved(s, "finalise")?;
        let ready = match &s.t0.reb {
            None => false,
            Some(r) => {
                cx.nontrivial();
                r.manager.as_deref().map(|m| m == who).unwrap_or(true)
                    && r.deflation.iter().all(|(k, t)| uget(&s.pre.units, k).unwrap_or(0) <= *t)
                    && s.pre.reserve_units.iter().all(|x| x.1 == 0)
            }
        };
        check_expect(s, if ready { Expect::Ok } else { Expect::Err }, "finalise")?;
        if !s.ok { return Ok(()); }
        ensure!(s.post.reb.is_none() && s.post.reserve_units.iter().all(|x| x.1 == 0), "finalise: rebalance still there", "{:?}", s.post.reb);
        let want: BTreeMap<String, u128> = s.pre.units.iter().filter(|u| u.1 > 0).cloned().collect();
        if s.pre.units.iter().any(|u| u.1 == 0 && s.t0.reb.as_ref().unwrap().inflation.iter().any(|x| x.0 == u.0)) { cx.class("finalised with a bought asset of unit zero"); }
        ensure!(units_map(&s.post.units) == want, "finalise: units", "{:?} became {:?}", s.pre.units, s.post.units);
        ensure!(s.c.bank == s.c0.bank, "finalise: moves coins", "{}", show_moves(&moves(s.c0, s.c)));
        if let (Some(a), Some(b)) = (&s.pre.stream, &s.post.stream) {
            ensure!(a.rate == b.rate && a.collected == b.collected, "finalise: fees", "{a:?} became {b:?}");
            // accrual resumes now: nothing at this instant, the formula a while later
            let later = 1 + cx.s.log_range(0, 5_000_000) as u64;
            let mut c = s.c.clone();
            c.nanos += later * 1_000_000_000;
            let f = factor(b.rate, later).unwrap_or(0);
            if f < E18 {
                let o = match observe(&c) { Ok(o) => o, Err(e) => return fail("finalise: cannot be queried", e) };
                for (k, u0) in &s.post.units {
                    let got = u0.saturating_sub(uget(&o.units, k).unwrap_or(0));
                    let wantf = unit_mul(*u0, f).unwrap_or(0);
                    ensure!(near(got, wantf, 2 + unit_mul(*u0, later as u128).unwrap_or(0)), "finalise: fee accrual afterwards", "{later}s after finalising the unit of {k} fell by {got}e-18 from {u0}e-18, the formula gives {wantf}e-18");
                }
            }
        }
        cx.class("finalised and judged");
        Ok(())
    })
}

// ------------------------------------------------------------------------------------------------- C15

const K2B: &str = "finalisation needs an exact zero, the last base units are missing after rounding";
const K2: &str = "finalisation needs an exact zero, amounts too small to swap remain";

/// start a rebalance with any valid payload and drive it to completion
fn c15(cx: &mut Cx) -> R {
    let exact = cx.s.chance(1, 2);
    let plain = exact || cx.s.chance(1, 2);
    let wide = cx.s.chance(1, 12);
    let chain = new_chain(&mut cx.s, plain, wide);
    let mut pr = BASE;
    pr.streaming = if exact { 3 } else { 6 };
    let g = gen_genesis(cx, &pr, wide);
    cx.log(|| format!("instantiate {}", serde_json::to_string(&g.msg).unwrap()));
    let mut wd = match World::start(chain, &g.msg) { Ok(v) => v, Err(e) => return fail("valid instantiation rejected", e) };
    if wd.obs.units.is_empty() { return Ok(()); }
    fn run(cx: &mut Cx, wd: &mut World, op: Op) -> Result<(bool, String), Fail> {
        let (ok, err, ..) = match wd.perform(&op) { Ok(v) => v, Err(e) => return fail("state cannot be queried", e) };
        cx.log(|| format!("t={} {} -> {}", wd.c.now(), op.show(), if ok { "ok".into() } else { err.clone() }));
        Ok((ok, err))
    }
    // some supply (none in a few histories: a freshly created index can be rebalanced too)
    let k = 3 + cx.s.draw(13) as u32;
    let supply = 10u128.pow(k);
    let fund = |wd: &World, n: u128| { let mut f: Vec<Coin> = wd.required(n).into_iter().map(|(k, v)| coin(v, k)).collect(); f.sort_by(|a, b| a.denom.cmp(&b.denom)); f };
    if exact || cx.s.chance(9, 10) {
        let n = if exact { supply } else { gen_amount(&mut cx.s).max(10) };
        let f = fund(&wd, n);
        let (ok, err) = run(cx, &mut wd, ex("alice".into(), ExecuteMsg::Mint { amount: n.into(), receiver: None, refund_to: None }, f))?;
        if !ok { return if f_over(&wd, n) { Ok(()) } else { fail("mint refused", err) }; }
    }
    let adv = wd.gen_advance(cx, &pr);
    run(cx, &mut wd, adv)?;
    // start payload
    let mut even = 1u128;
    let (deflation, inflation) = if exact {
        let s = &mut cx.s;
        let step = E18 / supply; // one base unit for the whole supply
        let m = 1 + s.usize(if wide { 12 } else { 3 });
        let small: Vec<u128> = (0..m).map(|_| 1 + s.draw(9) as u128).collect();
        let wsum: u128 = small.iter().sum();
        even = wsum;
        let scale = *s.pick(&[1u128, 1000, E18 / 1000, E18, 7 * E18, 1_000_000 * E18, 10_000_000_000_000_000_000 * E18]);
        let mut defl: Units = vec![];
        for (k, u) in wd.obs.units.clone() {
            if s.chance(1, 4) && !defl.is_empty() { continue; }
            // a gap of a whole number of base units that splits evenly
            let most = u / (step * wsum);
            let gap = if most == 0 { 0 } else { (1 + s.draw128(most)) * step * wsum };
            defl.push((k, u - gap.min(u)));
        }
        let free: Vec<String> = wd.all.iter().map(|x| x.to_string()).filter(|x| !defl.iter().any(|y| y.0 == *x)).collect();
        let mut infl: Units = vec![];
        let off = s.usize(free.len().max(1));
        for (i, wt) in small.iter().enumerate() { if i < free.len() { infl.push((free[(off + i) % free.len()].clone(), wt * scale)); } }
        if infl.len() < m { return Ok(()); }
        (defl, infl)
    } else {
        match wd.gen_init(cx) { Op::Exec { msg: ExecuteMsg::Rebalance(RebalanceMsg::Init { deflation, inflation, .. }), .. } => {
            let mut infl: Units = inflation.iter().map(|(k, v)| (k.clone(), v.atomics().u128())).collect();
            // weights of any magnitude
            if cx.s.chance(1, 4) { for x in infl.iter_mut() { if cx.s.chance(1, 2) { x.1 = *cx.s.pick(&[1u128, u128::MAX / 4, u128::MAX / 2, u128::MAX - 1, 1_000_000_000_000_000_000_000_000_000_000, E18]); } } }
            (deflation.iter().map(|(k, v)| (k.clone(), v.atomics().u128())).collect(), infl)
        }, _ => return Ok(()) }
    };
    let gov = wd.t.gov.clone();
    let (ok, err) = run(cx, &mut wd, ex(gov.clone(), ExecuteMsg::Rebalance(RebalanceMsg::Init { manager: Some("manager".into()), deflation: du(&deflation), inflation: du(&inflation) }), vec![]))?;
    if !ok {
        let total_fits = inflation.iter().try_fold(0u128, |a, x| a.checked_add(x.1)).is_some();
        ensure!(!(exact && total_fits && init_valid(&wd.obs.units, &deflation, &inflation)), "start refused", "{err}");
        return Ok(());
    }
    // routes for every pair, with a size limit and a cooldown
    let res = wd.t.reserve_denom.clone();
    let mut limit = if cx.s.chance(1, 2) { RICH } else { 1 + cx.s.log_range(1, 1_000_000_000_000) };
    // in the exact mode every partial sale must split evenly too
    if exact && limit < RICH { limit *= even; }
    let max = limit;
    let cooldown = *cx.s.pick(&[0u64, 1, 60, 86_400]);
    let pairs: Vec<(String, String)> = deflation.iter().map(|x| (x.0.clone(), res.clone())).chain(inflation.iter().map(|x| (res.clone(), x.0.clone()))).filter(|(a, b)| a != b).collect();
    for (a, b) in pairs {
        let m = GovMsg::UpdateTradeInfo { denom: a.clone(), routes: route(pair_pool(&a, &b), &b), cooldown, max_trade_amount: max.into() };
        let (ok, err) = run(cx, &mut wd, ex(gov.clone(), ExecuteMsg::Gov(m), vec![]))?;
        ensure!(ok, "route refused", "{err}");
    }
    let manager = if cx.s.chance(1, 3) {
        let m = if cx.s.chance(1, 2) { None } else { Some("mgr2".to_string()) };
        run(cx, &mut wd, ex(gov.clone(), ExecuteMsg::Gov(GovMsg::UpdateRebalanceManager(m.clone())), vec![]))?;
        m.unwrap_or("mallory".into())
    } else { "manager".to_string() };
    let mut trades = 0u64;
    let budget = 40;
    // sell everything that is to be reduced, then buy with all proceeds
    for sell in [true, false] {
        let list = if sell { &deflation } else { &inflation };
        for (k, _) in list {
            let mut n = 0;
            let mut max = max;
            loop {
                let supply = wd.obs.supply;
                let left = if sell {
                    let cur = uget(&wd.obs.units, k).unwrap_or(0);
                    cur - uget(&deflation, k).unwrap().min(cur)
                } else { uget(&wd.obs.reserve_units, k).unwrap_or(0) };
                if left == 0 { break; }
                if trades >= budget || n >= 12 { cx.class("stopped: many small trades"); return Ok(()); }
                let (din, dout) = if sell { (k.clone(), res.clone()) } else { (res.clone(), k.clone()) };
                let whole = unit_mul(left, supply).unwrap_or(u128::MAX / 4).min(wd.c.bal(CORE, &din));
                if whole == 0 && *k != res { break; }
                let msg = if *k == res {
                    if sell { RebalanceTradeMsg::Deflate { target_denom: k.clone(), amount_out: 0u128.into(), max_amount_in: 0u128.into() } } else { RebalanceTradeMsg::Inflate { target_denom: k.clone(), amount_in: 0u128.into(), min_amount_out: 0u128.into() } }
                } else {
                    let routes = vec![(pair_pool(&din, &dout), dout.clone())];
                    let ask = |c: &Chain, x: u128| c.clone().swap_in("", &routes, &din, x, false).unwrap_or(0);
                    if sell {
                        let out = ask(&wd.c, whole).min(max);
                        if out == 0 { break; }
                        let need = wd.c.clone().swap_out("", &routes, &dout, out, false).unwrap_or(0);
                        if need == 0 || need > whole { break; }
                        RebalanceTradeMsg::Deflate { target_denom: k.clone(), amount_out: out.into(), max_amount_in: need.into() }
                    } else {
                        let x = whole.min(max);
                        let out = ask(&wd.c, x);
                        if out == 0 {
                            if x == whole || ask(&wd.c, whole) == 0 { break; }
                            // the size limit is below the price of one unit: governance raises it
                            max = RICH;
                            let m = GovMsg::UpdateTradeInfo { denom: din.clone(), routes: route(pair_pool(&din, &dout), &dout), cooldown, max_trade_amount: max.into() };
                            let (ok, err) = run(cx, &mut wd, ex(gov.clone(), ExecuteMsg::Gov(m), vec![]))?;
                            ensure!(ok, "route refused", "{err}");
                            continue;
                        }
                        RebalanceTradeMsg::Inflate { target_denom: k.clone(), amount_in: x.into(), min_amount_out: out.into() }
                    }
                };
                let (ok, err) = run(cx, &mut wd, ex(manager.clone(), ExecuteMsg::Rebalance(RebalanceMsg::Trade(msg.clone())), vec![]))?;
                cx.checks += 1;
                ensure!(ok, "stuck: an allowed trade fails", "{} by {manager}: {err}", serde_json::to_string(&msg).unwrap());
                trades += 1;
                n += 1;
                if *k != res && cooldown > 0 { run(cx, &mut wd, Op::Advance(cooldown, 0))?; }
            }
        }
    }
    cx.class(if exact { "driven, exact amounts" } else { "driven, any amounts" });
    if trades >= 2 { cx.nontrivial(); }
    let fin = ex(manager.clone(), ExecuteMsg::Rebalance(RebalanceMsg::Finalize {}), vec![]);
    let (ok, err) = run(cx, &mut wd, fin)?;
    if !ok {
        // what remains?
        let supply = wd.obs.supply;
        let mut dust = true;
        let mut missing = false;
        let mut rest = vec![];
        // what rounding can have cost the contract (listed under C01)
        let lost = 1 + trades as u128 * (1 + supply / E18);
        let mut left_over: Vec<(String, u128, bool)> = deflation.iter().map(|(k, t)| (k.clone(), uget(&wd.obs.units, k).unwrap_or(0).saturating_sub(*t), true)).collect();
        left_over.extend(wd.obs.reserve_units.iter().map(|(k, l)| (k.clone(), *l, false)));
        for (k, left, sell) in left_over {
            if left == 0 { continue; }
            rest.push(if sell { format!("{left}e-18 per token of {k} to sell") } else { format!("{left}e-18 per token set aside for {k}") });
            let (din, dout) = if sell { (k.clone(), res.clone()) } else { (res.clone(), k.clone()) };
            let whole = unit_mul(left, supply).unwrap_or(u128::MAX);
            let held = wd.c.bal(CORE, &din);
            if whole > held { missing = true; dust &= whole - held <= lost; }
            let x = whole.min(held);
            dust &= k != res && (x == 0 || wd.c.clone().swap_in("", &[(pair_pool(&din, &dout), dout.clone())], &din, x, false).is_err());
        }
        ensure!(dust && !rest.is_empty(), "stuck: finalisation fails", "{err}; remaining: {rest:?}");
        ensure!(!exact, "stuck: exact amounts leave a rest", "{err}; remaining: {rest:?}");
        cx.known(if missing { K2B } else { K2 }, || format!("supply {supply}, {}; no trade can be made with it and finalisation fails", rest.join(", ")));
        return Ok(());
    }
    // and mint and burn work again
    let n = 1_000_000u128;
    let f = fund(&wd, n);
    let open = ex("bob".into(), ExecuteMsg::Mint { amount: n.into(), receiver: None, refund_to: None }, f);
    if wd.obs.units.is_empty() { return Ok(()); }
    let (ok, err) = run(cx, &mut wd, open)?;
    ensure!(ok || f_over(&wd, n), "closed after completion", "mint: {err}");
    let have = wd.c.bal("bob", &wd.t.index_denom);
    if have > 0 {
        let o = ex("bob".into(), ExecuteMsg::Burn { redeem_to: None }, vec![coin(have, &wd.t.index_denom)]);
        let fee = burn_fee(wd.t.burn_fee, have);
        let worth = wd.obs.units.iter().any(|u| unit_mul(u.1, have - fee).unwrap_or(0) > 0);
        let covered = wd.obs.units.iter().all(|u| unit_mul(u.1, have - fee).unwrap_or(u128::MAX) <= cget(&wd.obs.held, &u.0));
        let (ok, err) = run(cx, &mut wd, o)?;
        ensure!(ok || !worth || !covered, "closed after completion", "burn: {err}");
    }
    Ok(())
}

/// the mint fee would swallow everything
fn f_over(wd: &World, n: u128) -> bool { mint_fee(wd.t.mint_fee, n) >= n }

// ------------------------------------------------------------------------------------------------- C17

fn c17(cx: &mut Cx) -> R {
    let chain = new_chain(&mut cx.s, true, false);
    let g = gen_genesis(cx, &BASE, false);
    let mut wd = match World::start(chain, &g.msg) { Ok(v) => v, Err(e) => return fail("valid instantiation rejected", e) };
    let n = 6 + cx.s.draw(40);
    let mut registered = 0;
    let mut pr = trading();
    pr.max_ops = 0;
    for i in 0..n {
        let a = cx.s.begin();
        let op = if i == 0 { wd.seed_mint(cx, false) } else if cx.s.chance(3, 5) {
            let s = &mut cx.s;
            let names = |s: &mut Src| -> String { match s.usize(4) { 0 => s.pick(&["a", "aa", "ab", "b", "a/b", "", "B", "é", "a\u{0}", "zz"]).to_string(), 1 => format!("d{:02}", s.draw(35)), _ => s.pick(&DENOMS).to_string() } };
            let who = if s.chance(1, 12) { gen_user(s) } else { wd.t.gov.clone() };
            let din = if s.chance(2, 3) { s.pick(&["a", "uosmo", "aa"]).to_string() } else { names(s) };
            let hops = 1 + s.usize(3);
            let mut r: Vec<SwapRoute> = vec![];
            for _ in 0..hops { r.push(SwapRoute { pool_id: s.log_range(0, u64::MAX as u128) as u64, token_denom: names(s) }); }
            if s.chance(1, 40) { r.clear(); }
            let cooldown = s.log_range(0, u64::MAX as u128) as u64;
            let max = s.log_range(0, u128::MAX);
            ex(who, ExecuteMsg::Gov(GovMsg::UpdateTradeInfo { denom: din, routes: SwapRoutes(r), cooldown, max_trade_amount: max.into() }), vec![])
        } else { wd.gen_op(cx, &pr) };
        let (ok, err, c0, pre, t0) = match wd.perform(&op) { Ok(v) => v, Err(e) => return fail("state cannot be queried", e) };
        cx.log(|| format!("t={} {} -> {}", wd.c.now(), op.show(), if ok { "ok" } else { &err }));
        let step = Step { op: &op, ok, err, pre: &pre, post: &wd.obs.clone(), t0: &t0, c0: &c0, c: &wd.c.clone() };
        if let Some((who, msg @ ExecuteMsg::Gov(GovMsg::UpdateTradeInfo { .. }), _)) = step.msg() {
            if who == t0.gov { check_expect(&step, expect_gov(&step, who, msg), "route")?; }
            if ok { registered += 1; }
        }
        cx.checks += 1;
        if cx.s.chance(1, 3) || i + 1 == n { routes_match(cx, &wd)?; }
        cx.s.end(a);
    }
    if registered >= 3 { cx.nontrivial(); }
    Ok(())
}

fn routes_match(cx: &mut Cx, wd: &World) -> R {
    let mut by_in: BTreeMap<String, Vec<(String, Info)>> = BTreeMap::new();
    for ((a, b), i) in &wd.t.infos { by_in.entry(a.clone()).or_default().push((b.clone(), i.clone())); }
    let same = |p: &TradeInfoPayload, a: &str, b: &str, i: &Info| p.denom_in == a && p.denom_out == b && p.routes == i.routes && p.cooldown == i.cooldown && p.max_trade_amount.u128() == i.max && p.last_traded_at == i.last;
    for ((a, b), i) in &wd.t.infos {
        let r: GetTradeInfoResponse = match wd.c.query(CORE, &QueryMsg::GetTradeInfo { denom_in: a.clone(), denom_out: b.clone() }) { Ok(v) => v, Err(e) => return fail("route: lookup fails", e) };
        ensure!(r.trade_info.as_ref().map(|p| same(p, a, b, i)).unwrap_or(false), "route: reported differently", "({a:?}, {b:?}) registered as {i:?}, reported as {:?}", r.trade_info);
    }
    let absent = ("a".to_string(), "never".to_string());
    let r: GetTradeInfoResponse = match wd.c.query(CORE, &QueryMsg::GetTradeInfo { denom_in: absent.0.clone(), denom_out: absent.1.clone() }) { Ok(v) => v, Err(e) => return fail("route: lookup fails", e) };
    ensure!(r.trade_info.is_none(), "route: unknown pair reported", "{:?}", r.trade_info);
    by_in.entry("never".into()).or_default();
    for (a, mut list) in by_in {
        list.sort_by(|x, y| x.0.as_bytes().cmp(y.0.as_bytes()));
        let desc = cx.s.chance(1, 2);
        if desc { list.reverse(); }
        let order = if desc { Some(RangeOrder::Desc) } else if cx.s.chance(1, 2) { Some(RangeOrder::Asc) } else { None };
        let limit = if cx.s.chance(1, 3) { None } else { Some(1 + cx.s.draw(30) as u32) };
        let page = limit.unwrap_or(10) as usize;
        let mut got: Vec<TradeInfoPayload> = vec![];
        let mut after: Option<String> = None;
        for _ in 0..100 {
            let r: ListTradeInfoResponse = match wd.c.query(CORE, &QueryMsg::ListTradeInfo { denom_in: a.clone(), start_after: after.clone(), limit: limit.map(|x| x as _), order: order.clone() }) { Ok(v) => v, Err(e) => return fail("route: listing fails", e) };
            ensure!(r.0.len() <= page, "route: page limit", "{} items on a page of {page}", r.0.len());
            if r.0.is_empty() { break; }
            ensure!(r.0.len() == page.min(list.len().saturating_sub(got.len())), "route: short page", "{} items, expected {}", r.0.len(), page.min(list.len() - got.len().min(list.len())));
            after = r.0.last().map(|p| p.denom_out.clone());
            got.extend(r.0);
            if got.len() > list.len() { break; }
        }
        ensure!(got.len() == list.len() && got.iter().zip(&list).all(|(p, (b, i))| same(p, &a, b, i)), "route: listing", "listing of {a:?} (limit {limit:?}, descending {desc}) gives {:?}, registered {:?}", got.iter().map(|p| &p.denom_out).collect::<Vec<_>>(), list.iter().map(|p| &p.0).collect::<Vec<_>>());
    }
    let big: Result<ListTradeInfoResponse, String> = wd.c.query(CORE, &QueryMsg::ListTradeInfo { denom_in: "a".into(), start_after: None, limit: Some(31 + cx.s.draw(1000) as u32).map(|x| x as _), order: None });
    let none: Result<ListTradeInfoResponse, String> = wd.c.query(CORE, &QueryMsg::ListTradeInfo { denom_in: wd.t.reserve_denom.clone(), start_after: None, limit: Some(0), order: None });
    if let Ok(r) = none { ensure!(r.0.is_empty(), "route: page limit", "a page of {} items with limit 0", r.0.len()); }
    if let Ok(r) = big { ensure!(r.0.len() <= 30, "route: page limit", "a page of {} items", r.0.len()); }
    Ok(())
}

// ------------------------------------------------------------------------------------------------- C18

fn c18(cx: &mut Cx) -> R {
    let mut pr = BASE;
    pr.raw = 60;
    pr.max_ops = 20;
    pr.trade = 8;
    pr.finalize = 6;
    history(cx, &pr, |cx, s, _| {
        if !s.ok {
            ensure!(s.c0.bank == s.c.bank && s.c0.contracts[CORE] == s.c.contracts[CORE], "failed operation: left a trace", "{}", s.op.show());
            let mut a = s.pre.clone();
            a.now = s.post.now;
            ensure!(a == *s.post, "failed operation: visible effect", "{}: {:?} became {:?}", s.op.show(), s.pre, s.post);
            return Ok(());
        }
        if let Op::Raw { .. } = s.op { cx.nontrivial(); }
        probes(cx, s)
    })
}

/// the ordinary operations, each on a copy of the state
fn probes(cx: &mut Cx, s: &Step) -> R {
    let o = s.post;
    let idx = &o.index_denom;
    let now = o.now;
    // facts after the operation
    let (gov, collector) = (o.gov.clone(), o.collector.clone());
    let on = o.reb.is_some();
    if s.t0.overgrown(now) { return Ok(()); }
    let attempt = |who: &str, msg: &ExecuteMsg, funds: &[Coin]| -> Result<Chain, String> { let mut c = s.c.clone(); c.execute(who, CORE, msg, funds)?; observe(&c)?; Ok(c) };
    macro_rules! must { ($name:expr, $r:expr) => { match $r { Ok(c) => c, Err(e) => return fail(format!("no longer possible: {}", $name), format!("after {}: {e}", s.op.show())) } }; }
    cx.checks += 1;
    let open = !on && !o.paused;
    if open && !o.units.is_empty() {
        let n = 1_000_000u128;
        let mut funds: Vec<Coin> = required(&o.units, n).into_iter().map(|(k, v)| coin(v, k)).collect();
        funds.sort_by(|a, b| a.denom.cmp(&b.denom));
        let payable = funds.iter().all(|f| s.c.bal("alice", &f.denom) >= f.amount.u128()) && s.c.supply_of(idx).checked_add(n).is_some();
        if payable && mint_fee(o.mint_fee, n) < n { must!("mint", attempt("alice", &ExecuteMsg::Mint { amount: n.into(), receiver: None, refund_to: None }, &funds)); }
        if let Some(h) = USERS.iter().find(|u| s.c.bal(u, idx) > 0) {
            let x = s.c.bal(h, idx);
            let burn = x - burn_fee(o.burn_fee, x);
            let worth = o.units.iter().any(|u| unit_mul(u.1, burn).unwrap_or(0) > 0);
            let covered = o.units.iter().all(|u| unit_mul(u.1, burn).map(|v| v <= cget(&o.held, &u.0)).unwrap_or(false));
            if worth && covered { must!("burn", attempt(h, &ExecuteMsg::Burn { redeem_to: None }, &[coin(x, idx)])); }
        }
    }
    if let Some(st) = &o.stream {
        if !st.collected.is_empty() && st.collected.iter().all(|(k, x)| cget(&o.held, k) >= *x) { must!("realise fees", attempt(&collector, &ExecuteMsg::Realize {}, &[])); }
    }
    let g = |m: GovMsg| ExecuteMsg::Gov(m);
    if o.paused { must!("release", attempt(&gov, &g(GovMsg::Release {}), &[])); }
    else {
        let c = must!("pause", attempt(&gov, &g(GovMsg::Pause { expires_at: Some(now + 10) }), &[]));
        let mut c = c;
        must!("release", c.execute(&gov, CORE, &g(GovMsg::Release {}), &[]));
    }
    let dn = o.units.first().map(|u| u.0.clone()).unwrap_or("uatom".into());
    let other = ALL.iter().find(|x| **x != dn && !o.units.iter().any(|u| u.0 == **x)).map(|x| x.to_string());
    must!("register a route", attempt(&gov, &g(GovMsg::UpdateTradeInfo { denom: dn.clone(), routes: route(1, "uosmo"), cooldown: 0, max_trade_amount: 1u128.into() }), &[]));
    if o.pending.is_none() {
        let mut c = must!("propose governance", attempt(&gov, &g(GovMsg::UpdateGov("gov2".into())), &[]));
        must!("accept governance", c.execute("gov2", CORE, &g(GovMsg::AcceptGov {}), &[]));
    } else { must!("revoke governance", attempt(&gov, &g(GovMsg::RevokeGov {}), &[])); }
    if on {
        let mut c = must!("change the manager", attempt(&gov, &g(GovMsg::UpdateRebalanceManager(None)), &[]));
        let r = o.reb.as_ref().unwrap();
        let ready = r.deflation.iter().all(|(k, t)| uget(&o.units, k).unwrap_or(0) <= *t) && o.reserve_units.iter().all(|x| x.1 == 0);
        if ready { must!("finalise", c.execute("mallory", CORE, &ExecuteMsg::Rebalance(RebalanceMsg::Finalize {}), &[])); }
    } else {
        let solvent = o.stream.as_ref().map(|st| st.collected.iter().all(|(k, x)| cget(&o.held, k) >= *x)).unwrap_or(true);
        if solvent { must!("change fees", attempt(&gov, &g(GovMsg::UpdateFeeStrategy(FeePayload { collector: "coll2".into(), mint_fee: Some(d(E18 / 100)), burn_fee: None, streaming_fee: Some(StreamingFeePayload { rate: d(1), freeze: false }) })), &[])); }
        must!("change the reserve asset", attempt(&gov, &g(GovMsg::UpdateReserveDenom("uosmo".into())), &[]));
        if let (Some(u), Some(x)) = (o.units.first(), other) {
            let c = must!("start a rebalance", attempt(&gov, &ExecuteMsg::Rebalance(RebalanceMsg::Init { manager: None, deflation: du(&vec![u.clone()]), inflation: du(&vec![(x, E18)]) }), &[]));
            let mut c = c;
            must!("finalise", c.execute("mallory", CORE, &ExecuteMsg::Rebalance(RebalanceMsg::Finalize {}), &[]));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------- events

/// what every successful operation says about itself
fn c36(cx: &mut Cx) -> R {
    match cx.s.weighted(&[5, 3, 2]) { 0 => events_core(cx), 1 => crate::airdrop_world::events(cx), _ => crate::periphery_world::events(cx) }
}

fn events_core(cx: &mut Cx) -> R {
    let mut pr = BASE;
    pr.handover = 6;
    pr.route = 6;
    pr.init = 6;
    pr.script = 5;
    pr.max_ops = 32;
    history(cx, &pr, |cx, s, _| {
        if !s.ok { ensure!(s.c.events.is_empty() || s.c.events == s.c0.events, "event: of a failed operation", "{}: {:?}", s.op.show(), s.c.events); return Ok(()); }
        let (who, msg, funds) = match s.msg() { Some(m) => m, None => return Ok(()) };
        let what = s.op.show();
        let me = ("executor", who.to_string());
        let or = |a: &Option<String>| a.clone().unwrap_or_else(|| who.to_string());
        let idx = &s.t0.index_denom;
        cx.class("event judged");
        if s.t0.supply > 0 { cx.nontrivial(); }
        match msg {
            ExecuteMsg::Mint { receiver, refund_to, .. } => {
                let made = s.c.supply_of(idx) - s.c0.supply_of(idx);
                told(s.c, CORE, "mint", &[me, ("receiver", or(receiver)), ("refund_to", or(refund_to)), ("amount", made.to_string())], &what)
            }
            ExecuteMsg::Burn { redeem_to } => {
                let _ = funds;
                let gone = s.c0.supply_of(idx) - s.c.supply_of(idx);
                told(s.c, CORE, "burn", &[me, ("redeem_to", or(redeem_to)), ("amount", gone.to_string())], &what)
            }
            ExecuteMsg::Realize {} => told(s.c, CORE, "realize", &[me], &what),
            ExecuteMsg::Gov(g) => match g {
                GovMsg::Pause { expires_at } => told(s.c, CORE, "gov::pause", &[me, ("expires_at", expires_at.map(|v| v.to_string()).unwrap_or("never".into()))], &what),
                GovMsg::Release {} => told(s.c, CORE, "gov::release", &[me], &what),
                GovMsg::UpdateGov(_) => told(s.c, CORE, "gov::update_gov", &[me, ("pending_gov", s.post.pending.clone().unwrap_or_default())], &what),
                GovMsg::AcceptGov {} => told(s.c, CORE, "gov::accept_gov", &[me, ("gov", s.post.gov.clone())], &what),
                GovMsg::RevokeGov {} => told(s.c, CORE, "gov::revoke_gov", &[me, ("pending_gov", s.t0.pending.clone().unwrap_or_default())], &what),
                GovMsg::UpdateFeeStrategy(_) => told(s.c, CORE, "gov::update_fee", &[me], &what),
                GovMsg::UpdateRebalanceManager(_) => {
                    let now = s.post.reb.as_ref().and_then(|r| r.manager.clone()).unwrap_or("none".into());
                    told(s.c, CORE, "gov::update_rebalance_manager", &[me, ("new_manager", now)], &what)
                }
                GovMsg::UpdateReserveDenom(_) => told(s.c, CORE, "gov::update_reserve_denom", &[me, ("new_denom", s.post.reserve_denom.clone())], &what),
                GovMsg::UpdateTradeInfo { denom, cooldown, max_trade_amount, .. } => {
                    told(s.c, CORE, "gov::update_trade_info", &[me, ("denom_in", denom.clone()), ("cooldown", cooldown.to_string()), ("max_trade_amount", max_trade_amount.to_string())], &what)
                }
            },
            ExecuteMsg::Rebalance(RebalanceMsg::Init { .. }) => {
                let now = s.post.reb.as_ref().and_then(|r| r.manager.clone()).unwrap_or("none".into());
                told(s.c, CORE, "rebalance::init", &[me, ("manager", now)], &what)
            }
            ExecuteMsg::Rebalance(RebalanceMsg::Finalize {}) => told(s.c, CORE, "rebalance::finalize", &[me, ("finalized_at", s.c.height.to_string())], &what),
            ExecuteMsg::Rebalance(RebalanceMsg::Trade(_)) => {
                let t = trade_of(s).unwrap();
                let name = if t.sell { "deflate" } else { "inflate" };
                let res = &s.t0.reserve_denom;
                let (x, y) = if t.reserve {
                    // nothing is swapped; this many reserve tokens change their purpose
                    let (a, b) = (uget(&s.pre.units, res).unwrap_or(0), uget(&s.post.units, res).unwrap_or(0));
                    let v = unit_mul(a.max(b) - a.min(b), s.t0.supply).unwrap_or(0);
                    (v as i128, v as i128)
                } else if t.sell { (-s.delta(CORE, t.target), s.delta(CORE, res)) } else { (-s.delta(CORE, res), s.delta(CORE, t.target)) };
                told(s.c, CORE, name, &[me, ("denom", t.target.to_string()), ("amount_in", x.to_string()), ("amount_out", y.to_string()), ("is_reserve", t.reserve.to_string())], &what)
            }
        }
    })
}
