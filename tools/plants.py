"""Planted bugs (seeded/<id>), beyond the first six; run from /verif: python3 tools/plants.py [ID...]"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant as P
only = sys.argv[1:]
def plant(id, *a, **k):
    if not only or id in only: P.plant(id, *a, **k)
C = 'contracts/core/src/'; A = 'contracts/airdrop/src/'; Q = 'contracts/periphery/src/'; L = 'packages/pool/src/'

plant('c10-release-keeps-expiry', 'C10',
 'a pause with an expiry, released before it, then an operation between the release and a later pause without expiry is looked at, or the report of the pause after the release',
 'releasing a pause leaves its expiry time behind, so the contract reports an expiry although nothing is paused',
 [(C + 'execute/gov/pause.rs', '            paused: Default::default(),\n            ..config', '            paused: PauseInfo {\n                paused: false,\n                expires_at: config.paused.expires_at,\n            },\n            ..config')],
 '''
    let mut c = core(&[("ua", "1.5")], "ures", None, None, None);
    let t = c.now();
    run(&mut c, "gov", CORE, json!({"gov": {"pause": {"expires_at": t + 1000}}}), &[]).unwrap();
    run(&mut c, "gov", CORE, json!({"gov": {"release": {}}}), &[]).unwrap();
    let v = q(&c, CORE, json!({"get_config": {"time": null}}));
    eprintln!("{v}");
    assert_eq!(v["paused"]["paused"], json!(false));
    assert!(v["paused"]["expires_at"].is_null());
''')

plant('c07-drop-owed-with-asset', 'C07',
 'a streaming fee with amounts owed in an asset which a rebalance then sells completely, and another accrual before the collector is paid',
 'amounts owed to the collector in an asset that has left the portfolio are forgotten at the next accrual',
 [(C + 'state/fee.rs', '        self.last_collected_at = now_in_sec;\n\n', '        self.last_collected_at = now_in_sec;\n        self.collected\n            .retain(|c| new_units.get_key(&c.denom).is_some());\n\n')],
 '''
    let mut c = core(&[("ua", "1.5"), ("ub", "1")], "ures", None, None, Some("0.00000002"));
    c.lenient = true;
    pool(&mut c, 1, PoolKind::Fixed { num: 1, den: 1 }, 0, &[("ua", 10 * E18), ("ures", 10 * E18)]);
    pool(&mut c, 2, PoolKind::Fixed { num: 1, den: 1 }, 0, &[("ures", 10 * E18), ("ub", 10 * E18)]);
    mint(&mut c, "alice", E18, &[(15 * E18 / 10, "ua"), (E18, "ub")]).unwrap();
    later(&mut c, 100_000);
    for (a, r) in [("ua", json!([{"pool_id": 1, "token_denom": "ures"}])), ("ures", json!([{"pool_id": 2, "token_denom": "ub"}]))] {
        run(&mut c, "gov", CORE, json!({"gov": {"update_trade_info": {"denom": a, "routes": r, "cooldown": 0, "max_trade_amount": "100000000000000000000"}}}), &[]).unwrap();
    }
    run(&mut c, "gov", CORE, json!({"rebalance": {"init": {"manager": null, "deflation": [["ua", "0"]], "inflation": [["ub", "1"]]}}}), &[]).unwrap();
    let owed = q(&c, CORE, json!({"get_fee": {"time": null}}));
    let owed = owed["streaming_fee"]["collected"].as_array().unwrap().iter().find(|x| x["denom"] == "ua").map(|x| num(&x["amount"])).unwrap();
    assert!(owed > 0);
    // sell all of it and buy with the proceeds; with 10^18 tokens a unit's last digit is a base unit
    let p = q(&c, CORE, json!({"get_portfolio": {"time": null}}));
    let u = p["units"].as_array().unwrap().iter().find(|u| u[0] == "ua").unwrap()[1].as_str().unwrap().parse::<Decimal>().unwrap().atomics();
    run(&mut c, "x", CORE, json!({"rebalance": {"trade": {"deflate": {"target_denom": "ua", "amount_out": u, "max_amount_in": u}}}}), &[]).unwrap();
    run(&mut c, "x", CORE, json!({"rebalance": {"trade": {"inflate": {"target_denom": "ub", "amount_in": u, "min_amount_out": "1"}}}}), &[]).unwrap();
    run(&mut c, "x", CORE, json!({"rebalance": {"finalize": {}}}), &[]).unwrap();
    later(&mut c, 1000);
    run(&mut c, "collector", CORE, json!({"realize": {}}), &[]).unwrap();
    assert_eq!(c.bal("collector", "ua"), owed);
''')

plant('c03-refund-follows-receiver', 'C03',
 'a mint that names another receiver but no refund address, paying more than required',
 'the change of a mint for somebody else goes to the receiver instead of the payer',
 [(C + 'execute/token.rs', 'let refund_to = unwrap_addr(deps.api, refund_to, &info.sender)?;', 'let refund_to = unwrap_addr(deps.api, refund_to, &receiver)?;')],
 '''
    let mut c = core(&[("ua", "1.5")], "ures", None, None, None);
    run(&mut c, "alice", CORE, json!({"mint": {"amount": "1000", "receiver": "bob", "refund_to": null}}), &[(1600, "ua")]).unwrap();
    assert_eq!((c.bal("alice", "ua"), c.bal("bob", "ua"), c.bal("bob", &idx())), (100, 0, 1000));
''')

plant('c12-gap-of-rounded-amounts', 'C12',
 'a sale down to a target at which the two amounts round differently than their difference, for exactly the last unit',
 'the amount still to be sold is the difference of two rounded amounts, which can exceed the unit gap by one base unit, so a trade takes the asset below its target',
 [(C + 'execute/rebalance/trade/deflate.rs', '    let unit_gap = current_unit.checked_sub(target_unit)?;\n    let amount_gap = unit_gap * total_supply;\n\n    // simulate', '    let unit_gap = current_unit.checked_sub(target_unit)?;\n    let amount_gap = if unit_gap.is_zero() {\n        Uint128::zero()\n    } else {\n        current_unit * total_supply - target_unit * total_supply\n    };\n\n    // simulate')],
 '''
    // 1.0 to 0.55 of 9 tokens: 4.05 may be sold, while 9 - floor(4.95) = 5
    let mut c = core(&[("ua", "1"), ("ub", "1")], "ures", None, None, None);
    c.lenient = true;
    pool(&mut c, 1, PoolKind::Fixed { num: 1, den: 1 }, 0, &[("ua", 1000), ("ures", 1000)]);
    mint(&mut c, "alice", 9, &[(9, "ua"), (9, "ub")]).unwrap();
    run(&mut c, "gov", CORE, json!({"gov": {"update_trade_info": {"denom": "ua", "routes": [{"pool_id": 1, "token_denom": "ures"}], "cooldown": 0, "max_trade_amount": "1000000"}}}), &[]).unwrap();
    run(&mut c, "gov", CORE, json!({"rebalance": {"init": {"manager": null, "deflation": [["ua", "0.55"]], "inflation": [["ub", "1"]]}}}), &[]).unwrap();
    assert!(run(&mut c, "x", CORE, json!({"rebalance": {"trade": {"deflate": {"target_denom": "ua", "amount_out": "5", "max_amount_in": "5"}}}}), &[]).is_err());
    run(&mut c, "x", CORE, json!({"rebalance": {"trade": {"deflate": {"target_denom": "ua", "amount_out": "4", "max_amount_in": "4"}}}}), &[]).unwrap();
''')

plant('c16-pool-used-twice', 'C16',
 'a registered sale route that passes through the same pool twice in a row (a pool of three assets)',
 'the swap sent for a sale leaves out a hop when two hops use the same pool',
 [(C + 'execute/rebalance/trade/deflate.rs', '    let routes = trade_info.routes.clone();', '    let mut routes = trade_info.routes.clone();\n    routes.0.dedup_by_key(|v| v.pool_id);')],
 '''
    let mut c = core(&[("ua", "1"), ("ub", "1")], "ures", None, None, None);
    c.lenient = true;
    pool(&mut c, 1, PoolKind::Fixed { num: 1, den: 1 }, 0, &[("ua", 1_000_000), ("ub", 1_000_000), ("ures", 1_000_000)]);
    mint(&mut c, "alice", 100_000, &[(100_000, "ua"), (100_000, "ub")]).unwrap();
    run(&mut c, "gov", CORE, json!({"gov": {"update_trade_info": {"denom": "ua", "routes": [{"pool_id": 1, "token_denom": "ures"}, {"pool_id": 1, "token_denom": "ub"}], "cooldown": 0, "max_trade_amount": "1000000"}}}), &[]).unwrap();
    run(&mut c, "gov", CORE, json!({"rebalance": {"init": {"manager": null, "deflation": [["ua", "0.5"]], "inflation": [["ub", "1"]]}}}), &[]).unwrap();
    run(&mut c, "x", CORE, json!({"rebalance": {"trade": {"deflate": {"target_denom": "ua", "amount_out": "400", "max_amount_in": "500"}}}}), &[]).unwrap();
    assert_eq!(c.swaps.iter().map(|s| s.routes.len()).collect::<Vec<_>>(), [2]);
''')

plant('c19-each-claim-alone', 'C19',
 'a bearer airdrop whose funds run out while another airdrop of the same asset still holds coins',
 'a bearer claim is only compared with the total funding, not with what is left of it, so it is paid out of other airdrops',
 [(A + 'execute/claim.rs', '        return Err(ContractError::invalid_signature("claim_bearer"));\n    }\n\n    // claim\n    airdrop.total_claimed = airdrop.total_claimed.checked_add(amount)?;\n    if airdrop.total_claimed > airdrop.total_amount {',
   '        return Err(ContractError::invalid_signature("claim_bearer"));\n    }\n\n    // claim\n    airdrop.total_claimed = airdrop.total_claimed.checked_add(amount)?;\n    if amount > airdrop.total_amount {')],
 '''
    let mut c = airdrop();
    let (x, y) = (leaf("code1", 60), leaf("code2", 60));
    bearer(&mut c, "carol", node(x, y), None, &[(100, "uosmo")]).unwrap();
    open(&mut c, "dave", leaf("erin", 500), None, &[(500, "uosmo")]).unwrap();
    claim(&mut c, "alice", bearer_payload(0, "code1", "alice", 60, &[y])).unwrap();
    assert!(claim(&mut c, "bob", bearer_payload(0, "code2", "bob", 60, &[x])).is_err());
    assert_eq!(c.bal(AIR, "uosmo"), 540);
''')

plant('c20-log-key-trimmed', 'C20',
 'a bearer list with a code that begins or ends with white space, claimed twice',
 'the claim log keeps the code without surrounding white space while the check looks for it with, so such a code can be claimed again and again',
 [(A + 'execute/claim.rs', 'CLAIM_LOGS.save(deps.storage, (airdrop_id, &claim_hash), &amount)?;', 'CLAIM_LOGS.save(deps.storage, (airdrop_id, claim_hash.trim()), &amount)?;')],
 '''
    let mut c = airdrop();
    bearer(&mut c, "carol", leaf("gift ", 10), None, &[(100, "uosmo")]).unwrap();
    claim(&mut c, "alice", bearer_payload(0, "gift ", "alice", 10, &[])).unwrap();
    assert!(claim(&mut c, "alice", bearer_payload(0, "gift ", "alice", 10, &[])).is_err());
    assert_eq!(c.bal("alice", "uosmo"), 10);
''')

plant('c21-key-trimmed', 'C21',
 'a bearer claim that appends a colon to a listed code (signed by the signer)',
 'a code with trailing colons proves like the code without, although it is not on the list, and counts as another one',
 [(A + 'verify.rs', 'let user_input = format!("{claim_proof}:{amount}");', 'let user_input = format!("{}:{amount}", claim_proof.trim_end_matches(\':\'));')],
 '''
    let mut c = airdrop();
    bearer(&mut c, "carol", leaf("gift", 10), None, &[(100, "uosmo")]).unwrap();
    assert!(claim(&mut c, "alice", bearer_payload(0, "gift:", "alice", 10, &[])).is_err());
    claim(&mut c, "alice", bearer_payload(0, "gift", "alice", 10, &[])).unwrap();
''')

plant('c22-closed-in-first-block', 'C22',
 'an airdrop closed in the block it was registered in, then claimed',
 'an airdrop closed at the height of its registration still pays claims, out of other airdrops\' coins',
 [(A + 'execute/claim.rs', '    let mut airdrop = airdrop.unwrap_open()?;\n    if airdrop.closed_at.is_some() {', '    let mut airdrop = airdrop.unwrap_open()?;\n    if airdrop.closed_at.map(|h| h > airdrop.created_at).unwrap_or(false) {')],
 '''
    let mut c = airdrop();
    open(&mut c, "dave", leaf("erin", 500), None, &[(500, "uosmo")]).unwrap();
    open(&mut c, "carol", leaf("alice", 10), None, &[(100, "uosmo")]).unwrap();
    close(&mut c, "carol", 1).unwrap();
    assert!(claim(&mut c, "alice", open_payload(1, "alice", 10, &[])).is_err());
    assert_eq!(c.bal(AIR, "uosmo"), 500);
''')

plant('c23-verify-drained', 'C23',
 'the verification query for a bearer claim of an airdrop that was claimed completely and then closed',
 'the query calls a claim valid that its execution refuses, because the airdrop is closed',
 [(A + 'query/claim.rs', '            let airdrop = airdrop.unwrap_bearer()?;\n            if airdrop.closed_at.is_some() {', '            let airdrop = airdrop.unwrap_bearer()?;\n            if airdrop.closed_at.is_some() && airdrop.total_claimed < airdrop.total_amount {')],
 '''
    let mut c = airdrop();
    bearer(&mut c, "carol", leaf("gift", 100), None, &[(100, "uosmo")]).unwrap();
    let p = bearer_payload(0, "gift", "alice", 100, &[]);
    claim(&mut c, "alice", p.clone()).unwrap();
    close(&mut c, "carol", 0).unwrap();
    let v: Result<Value, String> = c.query(AIR, &json!({"verify_claim": {"claim": p}}));
    eprintln!("{v:?}");
    assert!(v.map(|v| v["valid"] != json!(true)).unwrap_or(true));
''')

plant('c24-label-of-closed', 'C24',
 'a label registered again after the airdrop that has it was closed',
 'a label already taken is given to another airdrop, so the first one is no longer found by it',
 [(A + 'state.rs', 'if LABELS.has(storage, label) {', 'let taken = LABELS\n        .may_load(storage, label)?\n        .and_then(|id| airdrops().load(storage, id).ok())\n        .map(|v| match v {\n            Airdrop::Open(v) => v.closed_at.is_none(),\n            Airdrop::Bearer(v) => v.closed_at.is_none(),\n        });\n    if taken.unwrap_or_default() {')],
 '''
    let mut c = airdrop();
    open(&mut c, "carol", leaf("alice", 10), Some("spring"), &[(100, "uosmo")]).unwrap();
    close(&mut c, "carol", 0).unwrap();
    assert!(open(&mut c, "carol", leaf("alice", 10), Some("spring"), &[(100, "uosmo")]).is_err());
''')

PERI_WORLD = '''
    let mut c = core(&[("ua", "1.5"), ("ub", "0.7")], "ures", %s);
    c.instantiate(Kind::Periphery, PERI, "gov", &json!({})).unwrap();
    mint(&mut c, "whale", 1_000_000_000, &[(1_500_000_000, "ua"), (700_000_000, "ub")]).unwrap();
'''

plant('c33-fresh-pools-for-sales', 'C33',
 'a basket of several assets sold through the same weighted pool in one operation',
 'each asset of a basket is quoted on the pools as they were before the operation, so proceeds are overestimated',
 [(L + 'sim/index_in.rs', 'self.estimate_out_given_in(token_in, output_asset, &mut pools_map)', 'self.estimate_out_given_in(token_in, output_asset, &mut pools_map.clone())')],
 PERI_WORLD % 'None, None, None' + '''
    pool(&mut c, 1, PoolKind::Weighted, 0, &[("ua", 3_000_000), ("uosmo", 3_000_000), ("ub", 3_000_000)]);
    let r = routes(&[("ua,uosmo", &[(1, "uosmo")]), ("ub,uosmo", &[(1, "uosmo")])]);
    let v = q(&c, PERI, json!({"simulate_burn_exact_amount_in": {"core_addr": CORE, "input_amount": "1000000", "output_asset": "uosmo", "swap_info": r}}));
    let said = num(&q(&c, CORE, json!({"get_total_supply": {}})));
    let real = c.swap_in("whale", &[(1, "uosmo".into())], "ua", 1_500_000, true).unwrap_or_else(|_| { give(&mut c, "whale", &[(1_500_000, "ua"), (700_000, "ub")]); c.swap_in("whale", &[(1, "uosmo".into())], "ua", 1_500_000, true).unwrap() });
    let real = real + c.swap_in("whale", &[(1, "uosmo".into())], "ub", 700_000, true).unwrap();
    eprintln!("{said} {real}");
    assert!(said.abs_diff(real) <= 10);
''')

plant('c31-output-rounded-up', 'C31',
 'any weighted pool quote that is not a whole number; the difference of one base unit matters for repeated small trades',
 'the output of a swap is rounded up, in the trader\'s favour and away from what the pool pays',
 [(L + 'weighted.rs', 'Ok(token_amount_out.to_uint_floor())', 'Ok(token_amount_out.to_uint_ceil())')],
 PERI_WORLD % 'None, None, None' + '''
    pool(&mut c, 1, PoolKind::Weighted, 0, &[("ua", 3_000_000), ("uosmo", 3_000_000)]);
    pool(&mut c, 2, PoolKind::Weighted, 0, &[("ub", 3_000_000), ("uosmo", 3_000_000)]);
    let r = routes(&[("ua,uosmo", &[(1, "uosmo")]), ("ub,uosmo", &[(2, "uosmo")])]);
    let v = q(&c, PERI, json!({"simulate_burn_exact_amount_in": {"core_addr": CORE, "input_amount": "100000", "output_asset": "uosmo", "swap_info": r}}));
    // 3000000 * x / (3000000 + x) for x = 150000 and 70000: 142857.14 and 68403.9
    assert_eq!(num(&v["swap_result_amount"]["amount"]), 142_857 + 68_403);
''')

plant('c34-first-sixteen-pools', 'C34',
 'an operation whose routes name more than sixteen different pools',
 'only the first sixteen pools are loaded, so baskets with many pools cannot be traded',
 [(L + 'query.rs', '    let pool_resps = pool_ids\n        .into_iter()', '    let pool_resps = pool_ids\n        .into_iter()\n        .take(16)')],
 PERI_WORLD % 'None, None, None' + '''
    for i in 1..=20 { pool(&mut c, i, PoolKind::Weighted, 0, &[(if i == 19 { "ua" } else { "ub" }, 3_000_000), ("uosmo", 3_000_000)]); }
    let mut v: Vec<Value> = (1..=18).map(|i| json!({"key": format!("uother{i},uosmo"), "routes": [format!("{i},uosmo")]})).collect();
    v.push(json!({"key": "ua,uosmo", "routes": ["19,uosmo"]}));
    v.push(json!({"key": "ub,uosmo", "routes": ["20,uosmo"]}));
    let r: Result<Value, String> = c.query(PERI, &json!({"simulate_burn_exact_amount_in": {"core_addr": CORE, "input_amount": "100000", "output_asset": "uosmo", "swap_info": v}}));
    eprintln!("{r:?}");
    assert!(r.is_ok());
''')

plant('c35-prerelease-as-release', 'C35',
 'a stored pre-release of the version being installed (such as 1.2.3-rc.1 before 1.2.3)',
 'versions are compared without their pre-release part, so a contract on a release candidate cannot be migrated to the release',
 [('packages/utils/src/lib.rs', 'if cv >= nv {', 'if (cv.major, cv.minor, cv.patch) >= (nv.major, nv.minor, nv.patch) {')],
 '''
    let mut c = core(&[("ua", "1.5")], "ures", None, None, None);
    let k = b"contract_info".to_vec();
    let rec: Value = serde_json::from_slice(&c.contracts[CORE].store.0[&k]).unwrap();
    let v = rec["version"].as_str().unwrap().to_string();
    let mut old = rec.clone();
    old["version"] = json!(format!("{v}-rc.1"));
    c.contracts.get_mut(CORE).unwrap().store.0.insert(k.clone(), serde_json::to_vec(&old).unwrap());
    c.migrate(CORE, &json!({"force": false})).unwrap();
    let rec: Value = serde_json::from_slice(&c.contracts[CORE].store.0[&k]).unwrap();
    assert_eq!(rec["version"].as_str().unwrap(), v);
''')

plant('c36-claim-event-sum', 'C36',
 'a second claim of the same open airdrop (compare the event with the payment)',
 'the event of a claim names the sum of all claims of the airdrop instead of the amount paid',
 [(A + 'execute/claim.rs', '        AirdropType::Open,\n        airdrop_id,\n        claimer.clone(),\n        amount,', '        AirdropType::Open,\n        airdrop_id,\n        claimer.clone(),\n        airdrop.total_claimed,')],
 '''
    let mut c = airdrop();
    let (x, y) = (leaf("alice", 10), leaf("bob", 20));
    open(&mut c, "carol", node(x, y), None, &[(100, "uosmo")]).unwrap();
    for (who, n, proof) in [("alice", 10, y), ("bob", 20, x)] {
        claim(&mut c, who, open_payload(0, who, n, &[proof])).unwrap();
        let said: Vec<_> = c.events.iter().filter(|e| e.0 == AIR).flat_map(|e| e.1.iter().filter(|a| a.0 == "amount").map(|a| a.1.clone())).collect();
        assert_eq!(said, [c.bal(who, "uosmo").to_string()]);
    }
''')

plant('c02-last-burn-forgets-fee', 'C02',
 'an index with a burn fee whose whole circulation is burned at once: the fee is paid in index tokens, so some remain',
 'after such a burn the reported supply is zero although the collector holds index tokens, which no burn can redeem any more',
 [(C + 'execute/token.rs', 'TOTAL_SUPPLY.save(deps.storage, &(total_supply - burn_amount))?;', 'let left = if received == total_supply {\n        Uint128::zero()\n    } else {\n        total_supply - burn_amount\n    };\n    TOTAL_SUPPLY.save(deps.storage, &left)?;')],
 '''
    let mut c = core(&[("ua", "1.5")], "ures", None, Some("0.01"), None);
    mint(&mut c, "alice", 1_000_000, &[(1_500_000, "ua")]).unwrap();
    burn(&mut c, "alice", 1_000_000).unwrap();
    let said = num(&q(&c, CORE, json!({"get_total_supply": {}})));
    assert_eq!(said, c.supply_of(&idx()));
    burn(&mut c, "collector", 10_000).unwrap();
''')

plant('c04-collector-redeems-free', 'C04',
 'a burn that names the fee collector as the address to redeem to',
 'such a burn pays no fee: more is destroyed and redeemed than the share after fees',
 [(C + 'execute/token.rs', 'let burn_fee = fee.burn_fee.map(|v| v * received);', 'let burn_fee = fee\n        .burn_fee\n        .filter(|_| redeem_to != fee.collector)\n        .map(|v| v * received);')],
 '''
    let mut c = core(&[("ua", "1.5")], "ures", None, Some("0.01"), None);
    mint(&mut c, "alice", 1_000_000, &[(1_500_000, "ua")]).unwrap();
    run(&mut c, "alice", CORE, json!({"burn": {"redeem_to": "collector"}}), &[]).unwrap_err();
    let r = c.execute("alice", CORE, &json!({"burn": {"redeem_to": "collector"}}), &[coin(100_000, idx())]);
    r.unwrap();
    assert_eq!(c.bal("collector", &idx()), 1_000);
    assert_eq!(c.bal("collector", "ua"), 148_500);
''')

plant('c08-max-rate-of-running-fees', 'C08',
 'a fee update that sets a streaming fee above the maximum rate and frozen, to be unfrozen by a rebalance or its end',
 'the maximum rate is not enforced for frozen streaming fees, and every rebalance unfreezes them at its end',
 [(C + 'state/fee.rs', '        if let Some(streaming_fee) = &self.streaming_fee {', '        if let Some(streaming_fee) = self.streaming_fee.as_ref().filter(|v| !v.freeze) {')],
 '''
    let mut c = core(&[("ua", "1.5")], "ures", None, None, None);
    let r = run(&mut c, "gov", CORE, json!({"gov": {"update_fee_strategy": {"collector": "collector", "mint_fee": null, "burn_fee": null, "streaming_fee": {"rate": "0.5", "freeze": true}}}}), &[]);
    eprintln!("{}", q(&c, CORE, json!({"get_fee": {"time": null}})));
    assert!(r.is_err());
''')

plant('c14-sold-out-goal-stays', 'C14',
 'a rebalance with an asset to be bought that ends with a unit of zero: its proceeds were below one base unit, or none came',
 'finalisation keeps assets with unit zero that were on the list of assets to buy',
 [(C + 'execute/rebalance/finalize.rs', '            .filter(|(_, current_unit)| !current_unit.is_zero())', '            .filter(|(denom, current_unit)| {\n                !current_unit.is_zero() || rebalance.inflation.get_key(denom).is_some()\n            })')],
 '''
    let mut c = core(&[("ures", "1"), ("ub", "1")], "ures", None, None, None);
    c.lenient = true;
    mint(&mut c, "alice", 5 * E18, &[(5 * E18, "ures"), (5 * E18, "ub")]).unwrap();
    pool(&mut c, 1, PoolKind::Fixed { num: 1, den: E18 }, 0, &[("ures", 1000 * E18), ("uc", 1000)]);
    run(&mut c, "gov", CORE, json!({"gov": {"update_trade_info": {"denom": "ures", "routes": [{"pool_id": 1, "token_denom": "uc"}], "cooldown": 0, "max_trade_amount": "100000000000000000000"}}}), &[]).unwrap();
    run(&mut c, "gov", CORE, json!({"rebalance": {"init": {"manager": null, "deflation": [["ures", "0.8"]], "inflation": [["uc", "1"]]}}}), &[]).unwrap();
    run(&mut c, "x", CORE, json!({"rebalance": {"trade": {"deflate": {"target_denom": "ures", "amount_out": "1", "max_amount_in": "1"}}}}), &[]).unwrap();
    // one unit of uc for five tokens: nothing per token
    run(&mut c, "x", CORE, json!({"rebalance": {"trade": {"inflate": {"target_denom": "uc", "amount_in": E18.to_string(), "min_amount_out": "1"}}}}), &[]).unwrap();
    run(&mut c, "x", CORE, json!({"rebalance": {"finalize": {}}}), &[]).unwrap();
    let p = q(&c, CORE, json!({"get_portfolio": {"time": null}}));
    eprintln!("{p}");
    assert_eq!(p["units"].as_array().unwrap().len(), 2);
''')

plant('c13-first-six-share', 'C13',
 'a rebalance that buys more than six assets with the proceeds of one sale',
 'the proceeds of a sale are shared out to the first six assets to buy only, the rest is set aside for nobody',
 [(C + 'execute/rebalance/trade/deflate.rs', '    for (denom, weight) in inflations {', '    for (denom, weight) in inflations.into_iter().take(6) {')],
 '''
    let mut c = core(&[("ures", "1"), ("ub", "1")], "ures", None, None, None);
    mint(&mut c, "alice", E18, &[(E18, "ures"), (E18, "ub")]).unwrap();
    let goals: Vec<_> = (0..8).map(|i| json!([format!("uc{i}"), "1"])).collect();
    run(&mut c, "gov", CORE, json!({"rebalance": {"init": {"manager": null, "deflation": [["ures", "0.2"]], "inflation": goals}}}), &[]).unwrap();
    run(&mut c, "x", CORE, json!({"rebalance": {"trade": {"deflate": {"target_denom": "ures", "amount_out": "1", "max_amount_in": "1"}}}}), &[]).unwrap();
    // each of the eight is due a tenth
    pool(&mut c, 1, PoolKind::Fixed { num: 1, den: 1 }, 0, &[("uc7", 10 * E18), ("ures", 10 * E18)]);
    run(&mut c, "gov", CORE, json!({"gov": {"update_trade_info": {"denom": "ures", "routes": [{"pool_id": 1, "token_denom": "uc7"}], "cooldown": 0, "max_trade_amount": "100000000000000000000"}}}), &[]).unwrap();
    c.lenient = true;
    run(&mut c, "x", CORE, json!({"rebalance": {"trade": {"inflate": {"target_denom": "uc7", "amount_in": (E18 / 10).to_string(), "min_amount_out": "1"}}}}), &[]).unwrap();
    assert_eq!(c.bal(CORE, "uc7"), E18 / 10);
''')

plant('c25-estimate-capped-by-wish', 'C25',
 'a mint for a payment that buys more than the minimum stated: the difference is the whole benefit of a price moved in the user\'s favour',
 'just the stated minimum is minted, before the fee, so with a mint fee the user ends up below the minimum or the mint fails',
 [(Q + 'execute.rs', '            amount: sim_res.est_min_token_out,\n', '            amount: sim_res.est_min_token_out.min(min_index_amount),\n')],
 PERI_WORLD % 'Some("0.01"), None, None' + '''
    pool(&mut c, 1, PoolKind::Weighted, 0, &[("ua", 3_000_000_000), ("uosmo", 3_000_000_000)]);
    pool(&mut c, 2, PoolKind::Weighted, 0, &[("ub", 3_000_000_000), ("uosmo", 3_000_000_000)]);
    let r = routes(&[("uosmo,ua", &[(1, "uosmo")]), ("uosmo,ub", &[(2, "uosmo")])]);
    let r = run(&mut c, "alice", PERI, json!({"mint_exact_amount_in": {"core_addr": CORE, "input_asset": "uosmo", "min_output_amount": "1000000", "swap_info": r}}), &[(2_300_000, "uosmo")]);
    let got = c.bal("alice", &idx());
    eprintln!("{r:?} {got}");
    assert!(r.is_err() || got >= 1_000_000);
''')

plant('c28-best-effort-burn', 'C28',
 'a burn for a fixed output paid with somewhat too few index tokens',
 'the tokens paid are burned although they do not suffice, and less than the requested output arrives, instead of a refusal',
 [(Q + 'execute.rs', '    if index_asset.amount < burn_amount {\n        return Err(ContractError::TradeAmountExceeded {});\n    }\n', '    // never more than was paid\n    let burn_amount = burn_amount.min(index_asset.amount);\n')],
 PERI_WORLD % 'None, Some("0.1"), None' + '''
    pool(&mut c, 1, PoolKind::Weighted, 0, &[("ua", 3_000_000_000), ("uosmo", 3_000_000_000)]);
    pool(&mut c, 2, PoolKind::Weighted, 0, &[("ub", 3_000_000_000), ("uosmo", 3_000_000_000)]);
    let r = routes(&[("ua,uosmo", &[(1, "uosmo")]), ("ub,uosmo", &[(2, "uosmo")])]);
    // about 1 009 000 index tokens are needed, net of the fee
    let out = 2_200_000u128;
    let r = c.execute("whale", PERI, &json!({"burn_exact_amount_out": {"core_addr": CORE, "output_asset": {"denom": "uosmo", "amount": out.to_string()}, "swap_info": r}}), &[coin(1_050_000, idx())]);
    eprintln!("{r:?} {}", c.bal("whale", "uosmo"));
    assert!(r.is_err() || c.bal("whale", "uosmo") + 5_000 > out);
''')

plant('c27-minimum-unless-held', 'C27',
 'a burn for an output asset that is itself part of the portfolio, with a minimum that is not reached',
 'the minimum is enforced only when every asset of the basket is swapped',
 [(L + 'sim/route.rs', '        if total_receive_amount < min_output {', '        if total_receive_amount < min_output && self.0.iter().all(|v| v.routes.is_some()) {')],
 '''
    let mut c = core(&[("ua", "1.5")], "ures", None, None, None);
    c.instantiate(Kind::Periphery, PERI, "gov", &json!({})).unwrap();
    mint(&mut c, "whale", 1_000_000, &[(1_500_000, "ua")]).unwrap();
    let r = c.execute("whale", PERI, &json!({"burn_exact_amount_in": {"core_addr": CORE, "output_asset": "ua", "min_output_amount": "2000000", "swap_info": []}}), &[coin(1_000_000, idx())]);
    eprintln!("{r:?} {}", c.bal("whale", "ua"));
    assert!(r.is_err());
''')

plant('c29-own-payout', 'C29',
 'a direct call of the internal payout by anyone, for themselves, while the periphery holds something (a donation, or the rest of a basket)',
 'anyone can take what the periphery holds by calling the payout step for themselves',
 [(Q + 'execute.rs', '    assert_eq!(info.sender, env.contract.address, "internal function");', '    if info.sender != refund_to {\n        assert_eq!(info.sender, env.contract.address, "internal function");\n    }')],
 PERI_WORLD % 'None, None, None' + '''
    give(&mut c, PERI, &[(1_000, "ua")]);
    let r = run(&mut c, "alice", PERI, json!({"finish_operation": {"refund_to": "alice", "refund_asset": "ua"}}), &[]);
    assert!(r.is_err());
    assert_eq!(c.bal(PERI, "ua"), 1_000);
''')

plant('c30-fee-added-once', 'C30',
 'an index with a sizeable burn fee: the difference is the fee on the fee',
 'the simulation of a burn for a fixed output adds the fee to the net amount, so burning what it says yields too little',
 [(Q + 'query.rs', 'let burn_amount = sim_res.est_min_token_in * expand_fee(core_fee.burn_fee)?;', 'let burn_amount = sim_res.est_min_token_in\n        + sim_res.est_min_token_in * core_fee.burn_fee.unwrap_or_default();')],
 PERI_WORLD % 'None, Some("0.2"), None' + '''
    pool(&mut c, 1, PoolKind::Weighted, 0, &[("ua", 3_000_000_000), ("uosmo", 3_000_000_000)]);
    pool(&mut c, 2, PoolKind::Weighted, 0, &[("ub", 3_000_000_000), ("uosmo", 3_000_000_000)]);
    let r = routes(&[("ua,uosmo", &[(1, "uosmo")]), ("ub,uosmo", &[(2, "uosmo")])]);
    let out = 2_200_000u128;
    let v = q(&c, PERI, json!({"simulate_burn_exact_amount_out": {"core_addr": CORE, "output_asset": {"denom": "uosmo", "amount": out.to_string()}, "swap_info": r}}));
    let n = num(&v["burn_amount"]) + 5_000;
    let r = c.execute("whale", PERI, &json!({"burn_exact_amount_out": {"core_addr": CORE, "output_asset": {"denom": "uosmo", "amount": out.to_string()}, "swap_info": r}}), &[coin(n, idx())]);
    eprintln!("{v} {r:?}");
    r.unwrap();
''')

plant('c32-next-to-one', 'C32',
 'a base within 1e-7 of one and an exponent other than one, such as a swap that is tiny next to its pool',
 'bases very close to one are returned as they are, which is the power for exponent 1 only: wrong for large exponents',
 [('packages/math/src/pow.rs', '    if exp == Decimal256::one() {', '    let (distance, _) = abs_diff_with_sign(base, Decimal256::one());\n    if exp == Decimal256::one() || distance < Decimal256::from_ratio(1u64, 10_000_000u64) {')],
 '''
    use cosmwasm_std::Decimal256;
    use std::str::FromStr;
    let b = Decimal256::from_str("1.00000005").unwrap();
    let r = ibcx_math::pow(b, Decimal256::from_str("400").unwrap()).unwrap();
    eprintln!("{r}");
    // e^(400 x 5e-8) = 1.0000200002
    assert!(r > Decimal256::from_str("1.00001999").unwrap());
''')

plant('c26-small-change-of-index', 'C26',
 'a mint of a fixed amount for exactly the estimated payment: whatever the swaps leave is refunded by the last step',
 'when the payment equals the estimate the last step refunds index tokens instead of the payment asset, so what is left stays with the contract',
 [(Q + 'execute.rs', '            refund_asset: input_asset.denom.clone(),\n', '            refund_asset: if sim_refund.is_zero() {\n                core_config.index_denom.clone()\n            } else {\n                input_asset.denom.clone()\n            },\n')],
 PERI_WORLD % 'None, None, None' + '''
    pool(&mut c, 1, PoolKind::Weighted, 0, &[("ua", 3_000_000_000), ("uosmo", 3_000_000_000)]);
    pool(&mut c, 2, PoolKind::Weighted, 0, &[("ub", 3_000_000_000), ("uosmo", 3_000_000_000)]);
    let r = routes(&[("uosmo,ua", &[(1, "uosmo")]), ("uosmo,ub", &[(2, "uosmo")])]);
    let v = q(&c, PERI, json!({"simulate_mint_exact_amount_out": {"core_addr": CORE, "output_amount": "1000000", "input_asset": "uosmo", "swap_info": r}}));
    let pay = num(&v["swap_result_amount"]["amount"]);
    give(&mut c, PERI, &[(7, "uosmo")]);
    let r = run(&mut c, "alice", PERI, json!({"mint_exact_amount_out": {"core_addr": CORE, "output_amount": "1000000", "input_asset": "uosmo", "swap_info": r}}), &[(pay, "uosmo")]);
    eprintln!("{v} {r:?}");
    r.unwrap();
    assert_eq!(c.bal(PERI, "uosmo"), 0);
''')

plant('c37-minimum-by-default', 'C37',
 'a fixed-input mint through the periphery whose message leaves out the minimum (or spells it otherwise under a lenient encoder)',
 'a message without the required minimum output is read as one with the minimum zero, so the sender trades without any protection',
 [('packages/interface/src/periphery.rs', '        input_asset: String,\n        min_output_amount: Uint128,', '        input_asset: String,\n        #[serde(default)]\n        min_output_amount: Uint128,')],
 '''
    use ibcx_interface::periphery::ExecuteMsg;
    let full = json!({"mint_exact_amount_in": {"core_addr": "core", "input_asset": "uosmo", "min_output_amount": "5", "swap_info": []}});
    let m: ExecuteMsg = cosmwasm_std::from_json(full.to_string().as_bytes()).unwrap();
    assert_eq!(serde_json::from_slice::<serde_json::Value>(&cosmwasm_std::to_json_vec(&m).unwrap()).unwrap(), full);
    let without = json!({"mint_exact_amount_in": {"core_addr": "core", "input_asset": "uosmo", "swap_info": []}});
    assert!(cosmwasm_std::from_json::<ExecuteMsg>(without.to_string().as_bytes()).is_err());
''')

plant('c37-nothing-owed-nothing-said', 'C37',
 'a fee query of an index with a streaming fee at a moment when nothing is owed to the collector',
 'the answer to the fee query leaves out the list of amounts owed when it is empty, a field the published type promises',
 [('packages/interface/src/core.rs', '    pub collected: Vec<Coin>,', '    #[serde(default, skip_serializing_if = "Vec::is_empty")]\n    pub collected: Vec<Coin>,')],
 '''
    let mut c = core(&[("ua", "1.5")], "ures", None, None, Some("0.00000002"));
    let fee = q(&c, CORE, json!({"get_fee": {"time": null}}));
    assert_eq!(fee["streaming_fee"]["collected"], json!([]));
    mint(&mut c, "alice", 1_000_000_000, &[(1_500_000_000, "ua")]).unwrap();
    later(&mut c, 1000);
    let fee = q(&c, CORE, json!({"get_fee": {"time": c.now()}}));
    assert_eq!(fee["streaming_fee"]["collected"].as_array().unwrap().len(), 1);
''')
