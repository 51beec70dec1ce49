#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the table below"""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
HIST = "stateful property-based testing: random operation histories (shrunk choice sequences) against the real contract entry points on a miniature chain"
T = {
 'C01': HIST + "; invariant: exact 512-bit backing balance before and after every operation",
 'C02': HIST + "; invariant: reported supply = bank supply, changed only by mint and burn",
 'C03': HIST + "; oracle: acceptance rule and complete expected coin movement of each mint",
 'C04': HIST + "; oracle: acceptance rule and complete expected coin movement of each burn",
 'C05': HIST + "; differential: simulation / report against the operation executed on a copy of the state, now and at later times",
 'C06': HIST + "; oracle: closed compound formula over history facts; differential of later-time queries against later accrual",
 'C07': HIST + "; reference model of fees owed, complete coin movement on payout",
 'C08': "property-based testing of creation payloads and " + HIST + "; oracle: validity rule restated from the property",
 'C09': HIST + "; reference model of governance and its handover",
 'C10': HIST + "; reference model of pauses, probed around expiry instants",
 'C11': HIST + "; reference model of the rebalance lock",
 'C12': HIST + " with sized trades on price pools; oracle: limits from the history and coin movement",
 'C13': HIST + " with sized trades on price pools; oracle: bookkeeping recomputed from coins moved",
 'C14': HIST + "; oracle: finalisation condition restated from the property, both directions",
 'C15': "generated rebalances driven to completion by a greedy trading strategy on the real contract",
 'C16': HIST + "; oracle: hop-by-hop interpretation of the sent swap under the chain's route rules",
 'C17': HIST + "; reference model of registered routes, paged listings in both orders",
 'C18': HIST + " with hostile messages; whole-state comparison after failures and probes of ordinary operations on copies",
 'C19': HIST + "; ledger of every airdrop's inflow and outflow against reports and holdings",
 'C20': HIST + " with repeated claims; ledger of payments per entitlement, flag and claim listing compared after every step",
 'C21': HIST + " with forged, swapped, truncated and replayed proofs and signatures; oracle: independent Merkle tree and signer",
 'C22': HIST + "; reference model of airdrop registration, funding and closing",
 'C23': "property-based testing: generated payloads and near misses through the query and through execution; oracle: independent Merkle tree and signer",
 'C24': HIST + "; reference model of records and labels, paged listings in both orders",
 'C25': HIST + " over generated pool networks; oracle: payment and minimum limits, complete coin movement",
 'C26': HIST + " over generated pool networks; oracle: exact amount, cost re-priced swap by swap on a copy of the pools",
 'C27': HIST + " over generated pool networks; oracle: exact burn, fee and proceeds re-priced swap by swap on a copy of the pools",
 'C28': HIST + " over generated pool networks; oracle: limits, complete coin movement and output within the documented error",
 'C29': HIST + " with donations and direct calls of the payout step; invariant: holdings and third parties' balances",
 'C30': HIST + "; differential: simulation against the predicted operation executed on a copy of the state",
 'C33': HIST + "; differential: estimates against re-pricing swap by swap on a copy of the pools, oracle on the swap messages sent",
 'C31': "property-based testing of weighted pool quotes taken through the contract's simulation queries; oracle: real-valued invariant, exact rational rounding at equal weights, metamorphic relations (monotone, round trip, one after the other on an updated pool)",
 'C32': "property-based testing of the power function; oracle: double precision exp/log and exact wide-integer powers",
 'C34': "property-based testing: round trip of generated route lists, loading of generated pool records, pools asked for by a simulation",
 'C36': HIST + " of each of the three contracts; oracle: the chain's acceptance rule for events, and attributes compared with the coins moved and the state after",
 'C37': "property-based testing: messages generated from the published client types (grammar-based, with spoiled variants), round trip through the contracts' decoders; answers of running contracts over stateful random histories checked against the published types",
 'C35': "property-based testing of migrations from generated stored names and versions; oracle: independent semantic version precedence, whole-state comparison",
}
NOTE = "random search with fixed seeds: no claim beyond the generated cases; quick and thorough differ in the number of cases"
checks = []
for p in props:
    i = p['id']
    if i not in T: continue
    checks.append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough", "technique": T[i], "level": "exploration", "level_note": NOTE})
na = [{"property": p['id'], "reason": "not built yet"} for p in props if p['id'] not in T]
json.dump({"version": 1, "setup_cmd": "bash tools/build.sh", "checks": checks, "not_applicable": na}, open(here + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), "checks", len(na), "not claimed")
