"""Hand-written changes to the contracts used to measure the checks: (id, properties, [(path, old, new), ...]).
tools/mutate.py applies each to a scratch copy, runs the repository's tests and the checks named here."""
C = 'contracts/core/src/'
A = 'contracts/airdrop/src/'
P = 'contracts/periphery/src/'
L = 'packages/pool/src/'
I = 'packages/interface/src/'
M = []
def m(id, props, *edits):
    M.append((id, props.split(), edits))

# ---- core: tokens and fees
m('refund-to-receiver', 'C03', (C+'execute/token.rs', 'let refund_to = unwrap_addr(deps.api, refund_to, &info.sender)?;', 'let refund_to = unwrap_addr(deps.api, refund_to, &receiver)?;'))
m('refund-drops-one', 'C03 C01', (C+'state/units.rs', 'Ok(funds.into_iter().filter(|v| !v.amount.is_zero()).collect())', 'Ok(funds.into_iter().filter(|v| v.amount > Uint128::one()).collect())'))
m('min-one-zero-units-only', 'C03', (C+'state/units.rs', '''        let required = self
            .calc_require_amount(index_amount)
            .into_iter()
            .map(|v| coin(v.amount.max(Uint128::one()).u128(), v.denom))''', '''        let required = self
            .calc_require_amount(index_amount)
            .into_iter()
            .filter(|v| !v.amount.is_zero() || index_amount > Uint128::new(1000))
            .map(|v| coin(v.amount.max(Uint128::one()).u128(), v.denom))'''))
m('mint-fee-zero-when-small', 'C03', (C+'execute/token.rs', 'let mint_fee = fee.mint_fee.map(|v| (v * amount).max(Uint128::one()));', 'let mint_fee = fee.mint_fee.map(|v| (v * amount).max(Uint128::one())).filter(|v| amount > Uint128::new(2) || v.is_zero());'))
m('mint-supply-net', 'C02', (C+'execute/token.rs', 'TOTAL_SUPPLY.save(deps.storage, &(total_supply + amount))?;', 'TOTAL_SUPPLY.save(deps.storage, &(total_supply + mint_send.max(amount - Uint128::one())))?;'))
m('burn-supply-gross', 'C02 C01', (C+'execute/token.rs', 'TOTAL_SUPPLY.save(deps.storage, &(total_supply - burn_amount))?;', 'TOTAL_SUPPLY.save(deps.storage, &(total_supply.saturating_sub(received)))?;'))
m('burn-fee-ceil', 'C04', (C+'execute/token.rs', 'let burn_fee = fee.burn_fee.map(|v| v * received);', 'let burn_fee = fee.burn_fee.map(|v| received.mul_ceil(v));'))
m('burn-unsorted', 'C04 C18', (C+'execute/token.rs', 'burn_send_amount.sort_by(|a, b| a.denom.cmp(&b.denom));', 'burn_send_amount.sort_by(|a, b| a.amount.cmp(&b.amount));'))
m('burn-redeem-sender', 'C04', (C+'execute/token.rs', '        to_address: redeem_to.to_string(),', '        to_address: if fee.collector_is(&redeem_to) { info.sender.to_string() } else { redeem_to.to_string() },'), (C+'state/fee.rs', 'impl Fee {', 'impl Fee {\n    pub fn collector_is(&self, a: &Addr) -> bool {\n        &self.collector == a\n    }\n'), (C+'execute/token.rs', '''    let fee_send_msg = burn_fee.filter(|v| !v.is_zero()).map(|v| BankMsg::Send {
        to_address: fee.collector.into_string(),''', '''    let fee_send_msg = burn_fee.filter(|v| !v.is_zero()).map(|v| BankMsg::Send {
        to_address: fee.collector.to_string(),'''))
m('burn-price-before-fee', 'C04 C01', (C+'execute/token.rs', 'let mut burn_send_amount = index_units.calc_require_amount(burn_amount);', 'let mut burn_send_amount = index_units.calc_require_amount(if burn_amount == total_supply { burn_amount } else { received });'))
m('simulate-burn-received', 'C05', (C+'query.rs', 'let burn_send_amount = index_units.calc_require_amount(burn_amount);', 'let burn_send_amount = index_units.calc_require_amount(burn_amount.max(Uint128::one()));'))
m('portfolio-now', 'C05', (C+'query.rs', '''pub fn get_portfolio(deps: Deps, env: Env, time: Option<u64>) -> StdResult<GetPortfolioResponse> {
    let now_in_sec = env.block.time.seconds();
    let time_in_sec = time.unwrap_or(now_in_sec);''', '''pub fn get_portfolio(deps: Deps, env: Env, time: Option<u64>) -> StdResult<GetPortfolioResponse> {
    let now_in_sec = env.block.time.seconds();
    let time_in_sec = time.unwrap_or(now_in_sec).min(now_in_sec + 86400 * 365);'''))
m('portfolio-frozen-supply', 'C05', (C+'query.rs', '''        assets: index_units.calc_require_amount(total_supply),''', '''        assets: index_units.calc_require_amount(total_supply.max(Uint128::one())),'''))
m('config-time-ignored', 'C10 C05', (C+'query.rs', 'temp_env.block.time = Timestamp::from_seconds(time_in_sec);', 'temp_env.block.time = Timestamp::from_seconds(time_in_sec.max(now_in_sec));'))
m('config-time-plus', 'C10', (C+'query.rs', 'temp_env.block.time = Timestamp::from_seconds(time_in_sec);', 'temp_env.block.time = Timestamp::from_seconds(time_in_sec.min(now_in_sec));'))
m('simulate-mint-refund-default', 'C05', (C+'query.rs', 'funds.unwrap_or_else(|| spent.clone())', 'funds.filter(|v| !v.is_empty()).unwrap_or_else(|| spent.clone())'))
m('fee-query-rate', 'C06', (C+'query.rs', 'streaming_fee.collect(index_units, time_in_sec, total_supply)?;', 'streaming_fee.collect(index_units, time_in_sec.max(now_in_sec), total_supply)?;\n        streaming_fee.collected.retain(|v| !v.amount.is_zero());'))
m('delta-u16', 'C06', (C+'state/fee.rs', '.checked_pow(delta as u32)?', '.checked_pow((delta as u32) & 0x3ff_ffff)?'))
m('collect-last-not-advanced', 'C06', (C+'state/fee.rs', '''        self.last_collected_at = now_in_sec;
''', '''        if !total_supply.is_zero() {
            self.last_collected_at = now_in_sec;
        }
'''))
m('collect-over-existing', 'C06 C07', (C+'state/fee.rs', 'origin.amount = origin.amount.checked_add(amount)?;', 'origin.amount = if amount.is_zero() { amount } else { origin.amount.checked_add(amount)? };'))
m('collect-once-more', 'C06 C01', (C+'state/fee.rs', '.map(|(denom, unit)| (denom, unit * total_supply))', '.map(|(denom, unit)| (denom, total_supply.mul_ceil(unit)))'))
m('collect-skips-tiny', 'C06', (C+'state/fee.rs', 'let fee_unit = unit.checked_mul(rate)?;', 'let fee_unit = if unit < Decimal::one() { Decimal::zero() } else { unit.checked_mul(rate)? };'))
m('fee-update-no-accrual', 'C06 C07', (C+'contract.rs', '            Gov(GovMsg::UpdateFeeStrategy(..)) => collect(deps.storage, now_in_sec)?,\n', ''))
m('burn-no-accrual', 'C06 C01', (C+'contract.rs', '            Burn { .. } => collect(deps.storage, now_in_sec)?,\n', ''))
m('realise-no-accrual', 'C06 C07', (C+'contract.rs', '            Realize {} => collect(deps.storage, now_in_sec)?,\n', ''))
m('realise-keeps-small', 'C07 C01', (C+'execute/fee.rs', 'streaming_fee.collected = vec![];', 'streaming_fee.collected.retain(|v| v.amount == cosmwasm_std::Uint128::one());'))
m('realise-resets-clock', 'C06', (C+'execute/fee.rs', 'streaming_fee.collected = vec![];', 'streaming_fee.collected = vec![];\n        streaming_fee.freeze = false;'))
m('realise-by-gov', 'C07', (C+'execute/fee.rs', 'assert_sender(&fee.collector, &info.sender)?;', 'if crate::state::CONFIG.load(deps.storage)?.gov != info.sender {\n        assert_sender(&fee.collector, &info.sender)?;\n    }'))
m('finalise-clock', 'C06 C11 C14', (C+'execute/rebalance/finalize.rs', 'streaming_fee.last_collected_at = now_in_sec;', 'streaming_fee.last_collected_at = streaming_fee.last_collected_at.max(now_in_sec.saturating_sub(3600));'))
m('init-freeze-skipped', 'C11 C06', (C+'execute/rebalance/init.rs', 'streaming_fee.freeze = true;', 'streaming_fee.freeze = !streaming_fee.collected.is_empty();'))
m('dup-adjacent', 'C08 C11', (C+'state/units.rs', '''        !self
            .0
            .iter()
            .all(|(denom, unit)| uniq.insert(denom.clone(), unit).is_none())''', '''        uniq.insert(String::new(), &Decimal::MAX);
        self.0.windows(2).any(|w| w[0].0 == w[1].0)'''))
m('max-rate-unfrozen', 'C08', (C+'state/fee.rs', '        if let Some(streaming_fee) = &self.streaming_fee {', '        if let Some(streaming_fee) = self.streaming_fee.as_ref().filter(|v| !v.freeze) {'))
m('rate-one-allowed', 'C08', (C+'state/fee.rs', 'rate < Decimal::one())', 'rate <= Decimal::one())'))
m('max-rate-exclusive', 'C08', (C+'state/fee.rs', 'if max < rate {', 'if max <= rate {'))
m('fee-update-collector-unchecked', 'C08', (C+'execute/gov/update.rs', 'fee.collector = deps.api.addr_validate(&new_fee.collector)?;', 'fee.collector = cosmwasm_std::Addr::unchecked(&new_fee.collector);'))
m('fee-update-checks-old', 'C08', (C+'execute/gov/update.rs', '''    fee.check_rates()?;

    FEE.save''', '''    if fee.burn_fee.is_some() || fee.mint_fee.is_some() {
        fee.check_rates()?;
    }

    FEE.save'''))
m('inst-gov-unchecked', 'C08', (C+'contract.rs', 'gov: deps.api.addr_validate(&msg.gov)?,', 'gov: cosmwasm_std::Addr::unchecked(&msg.gov),'))
m('fee-update-freeze-lost', 'C08', (C+'execute/gov/update.rs', 'last_collected_at: env.block.time.seconds(),\n        freeze: v.freeze,\n    });\n    fee.check', 'last_collected_at: env.block.time.seconds(),\n        freeze: v.freeze && v.rate < cosmwasm_std::Decimal::one(),\n    });\n    fee.check'))
m('fee-update-freeze-lost2', 'C08 C06', (C+'execute/gov/update.rs', 'last_collected_at: env.block.time.seconds(),\n        freeze: v.freeze,\n    });\n    fee.check', 'last_collected_at: env.block.time.seconds(),\n        freeze: v.freeze && fee.burn_fee.is_some(),\n    });\n    fee.check'))
# ---- core: governance and pause
m('accept-keeps-pending', 'C09', (C+'execute/gov/update.rs', '''    assert_sender(&pending_gov, &info.sender)?;
    PENDING_GOV.remove(deps.storage);
''', '''    assert_sender(&pending_gov, &info.sender)?;
'''))
m('pending-overwrite-same', 'C09', (C+'execute/gov/update.rs', 'if PENDING_GOV.may_load(deps.storage)?.is_some() {', 'if PENDING_GOV.may_load(deps.storage)?.map(|v| v.as_str() != new_gov && v != info.sender).unwrap_or_default() {'))
m('init-by-manager', 'C09', (C+'execute/rebalance/init.rs', '    config.check_gov(&info.sender)?;\n', '    if manager.as_deref() != Some(info.sender.as_str()) {\n        config.check_gov(&info.sender)?;\n    }\n'))
m('trade-info-by-collector', 'C09 C17', (C+'execute/gov/update.rs', '''    let config = CONFIG.load(deps.storage)?;

    config.check_gov(&info.sender)?;

    let trade_info''', '''    let config = CONFIG.load(deps.storage)?;

    if !TRADE_INFOS.has(deps.storage, (&denom_in, &routes.denom_last())) {
        config.check_gov(&info.sender)?;
    }

    let trade_info'''))
m('release-by-pending', 'C09', (C+'execute/gov/pause.rs', '''    let config = CONFIG.load(deps.storage)?;
    config.check_gov(&info.sender)?;
    config.assert_paused(&env)?;''', '''    let config = CONFIG.load(deps.storage)?;
    if crate::state::PENDING_GOV.may_load(deps.storage)?.as_ref() != Some(&info.sender) {
        config.check_gov(&info.sender)?;
    }
    config.assert_paused(&env)?;'''))
m('manager-by-manager', 'C09', (C+'execute/gov/update.rs', '''    config.check_gov(&info.sender)?;

    let rebalance = match REBALANCE.may_load(deps.storage)? {
        Some(r) => r,''', '''    let rebalance = match REBALANCE.may_load(deps.storage)? {
        Some(r) => {
            if r.manager.as_ref() != Some(&info.sender) {
                config.check_gov(&info.sender)?;
            }
            r
        }'''))
m('pause-expiry-off', 'C10', (C+'state/pause.rs', 'if expiry <= env.block.time.seconds() {', 'if expiry < env.block.time.seconds() {'))
m('pause-over-expired', 'C10', (C+'execute/gov/pause.rs', '''    config.assert_not_paused(&env)?;
''', '''    if config.paused.paused {
        return Err(crate::error::ContractError::Paused {});
    }
'''))
m('pause-expiry-now', 'C10', (C+'execute/gov/pause.rs', 'if env.block.time.seconds() >= expires_at {', 'if env.block.time.seconds() > expires_at {'))
m('burn-pause-raw', 'C10', (C+'execute/token.rs', '''    redeem_to: Option<String>,
) -> StdResult<Response> {
    let config = CONFIG.load(deps.storage)?;

    config.assert_not_paused(&env)?;''', '''    redeem_to: Option<String>,
) -> StdResult<Response> {
    let config = CONFIG.load(deps.storage)?;

    if config.paused.paused {
        return Err(crate::error::ContractError::Paused {});
    }'''))
m('release-expired', 'C10', (C+'execute/gov/pause.rs', '    config.assert_paused(&env)?;\n', '    config.paused.clone().assert_paused()?;\n'))
m('reserve-change-resets-pause', 'C10 C09', (C+'execute/gov/update.rs', '            reserve_denom: new_denom.clone(),\n', '            reserve_denom: new_denom.clone(),\n            paused: Default::default(),\n'))
m('accept-clears-pause', 'C10 C09', (C+'execute/gov/update.rs', '    config.gov = pending_gov;\n', '    config.gov = pending_gov;\n    config.paused.expires_at = None;\n'))
# ---- core: rebalance
m('burn-during-rebalance-collector', 'C11', (C+'execute/token.rs', '''    if REBALANCE.may_load(deps.storage)?.is_some() {
        return Err(RebalanceError::OnRebalancing.into());
    }

    // addresses
    let redeem_to''', '''    if REBALANCE.may_load(deps.storage)?.map(|v| v.manager.is_some()).unwrap_or_default() {
        return Err(RebalanceError::OnRebalancing.into());
    }

    // addresses
    let redeem_to'''))
m('mint-during-rebalance', 'C11', (C+'execute/token.rs', '''    if REBALANCE.may_load(deps.storage)?.is_some() {
        return Err(RebalanceError::OnRebalancing.into());
    }

    // addresses
    let receiver''', '''    if REBALANCE.may_load(deps.storage)?.is_some() && !TOTAL_SUPPLY.load(deps.storage)?.is_zero() {
        return Err(RebalanceError::OnRebalancing.into());
    }

    // addresses
    let receiver'''))
m('fee-update-during-rebalance', 'C11', (C+'execute/gov/update.rs', '''    if REBALANCE.may_load(deps.storage)?.is_some() {
        return Err(RebalanceError::OnRebalancing.into());
    }

    // update
    let mut fee''', '''    if REBALANCE.may_load(deps.storage)?.is_some() && new_fee.streaming_fee.is_some() {
        return Err(RebalanceError::OnRebalancing.into());
    }

    // update
    let mut fee'''))
m('second-init-same-manager', 'C11', (C+'execute/rebalance/init.rs', 'if REBALANCE.may_load(deps.storage)?.is_some() {', 'if RESERVE_UNITS.may_load(deps.storage)?.map(|v| !v.check_empty() || REBALANCE.load(deps.storage).map(|r| r.manager.is_some()).unwrap_or_default()).unwrap_or_default() {'))
m('deflation-overflow-eq', 'C11', (C+'state/rebalance.rs', 'if item.1 < deflation.1 {', 'if item.1 <= deflation.1 && !deflation.1.is_zero() {'))
m('inflation-dup-first', 'C11', (C+'state/rebalance.rs', 'if self.inflation.check_duplicate() {', 'if self.inflation.len() < 3 && self.inflation.check_duplicate() {'), (C+'state/rebalance.rs', '''            let conflict = self
                .deflation
                .clone()
                .into_iter()
                .chain(self.inflation.clone())
                .collect::<Units>()
                .check_duplicate();''', '''            let conflict = self.inflation.iter().any(|(d, _)| self.deflation.get_key(d).is_some());'''))
m('conflict-first-only', 'C11', (C+'state/rebalance.rs', '.chain(self.inflation.clone())', '.chain(self.inflation.clone().into_iter().take(1))'))
m('zero-weight-last', 'C11 C15', (C+'state/rebalance.rs', 'if weight.is_zero() {', 'if weight.is_zero() && total.is_zero() {'))
m('validate-missing-ok', 'C11 C15', (C+'state/rebalance.rs', '                    None => {\n', '                    None if deflation.1.is_zero() => {}\n                    None => {\n'))
m('manager-update-lost-deflation', 'C11 C09', (C+'execute/gov/update.rs', '''                .transpose()?,
            ..rebalance''', '''                .transpose()?
                .or(rebalance.manager),
            deflation: rebalance.deflation,
            inflation: rebalance.inflation,'''))
m('trade-manager-inflate', 'C12', (C+'execute/rebalance/trade/mod.rs', '''    if let Some(manager) = rebalance.manager {
        assert_sender(&manager, &info.sender)?;
    }
''', '''    if let Some(manager) = rebalance.manager {
        if !matches!(&msg, Inflate { target_denom, .. } if target_denom == &CONFIG.load(deps.storage)?.reserve_denom) {
            assert_sender(&manager, &info.sender)?;
        }
    }
'''))
m('cooldown-off', 'C12', (C+'state/rebalance.rs', '        if now < t {', '        if now + 1 < t {'))
m('cooldown-strict', 'C12 C15', (C+'state/rebalance.rs', '        if now < t {', '        if now < t || (self.cooldown > 1 && now == t) {'))
m('inflate-limit-on-out', 'C12', (C+'execute/rebalance/trade/inflate.rs', '    if trade_info.max_trade_amount < amount_in {', '    if trade_info.max_trade_amount < amount_in.min(min_amount_out.max(Uint128::one())) {'))
m('deflate-limit-on-in', 'C12', (C+'execute/rebalance/trade/deflate.rs', '    if trade_info.max_trade_amount < amount_out {', '    if trade_info.max_trade_amount < amount_out.min(max_amount_in) {'))
m('deflate-gap-dropped', 'C12', (C+'execute/rebalance/trade/deflate.rs', 'let amount_gap = unit_gap * total_supply;\n\n    // simulate', 'let amount_gap = total_supply.mul_ceil(unit_gap);\n\n    // simulate'))
m('deflate-gap-unit', 'C12 C14', (C+'execute/rebalance/trade/deflate.rs', 'let amount_gap = unit_gap * total_supply;\n\n    // simulate', 'let amount_gap = current_unit * total_supply - target_unit * total_supply;\n    let _ = unit_gap;\n\n    // simulate'))
m('deflate-cooldown-key', 'C12 C17', (C+'execute/rebalance/trade/deflate.rs', '''        (&target_denom, &config.reserve_denom),
        &trade_info.update''', '''        (&config.reserve_denom, &target_denom),
        &trade_info.update'''))
m('inflate-cooldown-not-stored', 'C12 C17', (C+'execute/rebalance/trade/inflate.rs', '&trade_info.update_last_traded_at(env.block.time.seconds()),', '&trade_info.clone().update_last_traded_at(env.block.time.seconds().max(trade_info.last_traded_at.unwrap_or_default() + trade_info.cooldown) - trade_info.cooldown.min(1)),'))
m('inflate-min-dropped', 'C12', (C+'execute/rebalance/trade/inflate.rs', 'if sim_amount_out < min_amount_out {', 'if sim_amount_out + Uint128::one() < min_amount_out {'))
m('deflate-max-dropped', 'C12', (C+'execute/rebalance/trade/deflate.rs', 'if max_amount_in < sim_amount_in {', 'if !max_amount_in.is_zero() && max_amount_in < sim_amount_in {'))
m('inflate-other-proceeds', 'C12 C13', (C+'execute/rebalance/trade/inflate.rs', '''    if reserve_amount < amount_in {
        return Err''', '''    let reserve_amount = reserve_amount.max(reserve_units.iter().map(|v| v.1 * total_supply).sum::<Uint128>());
    if reserve_amount < amount_in {
        return Err'''), (C+'execute/rebalance/trade/inflate.rs', '    reserve_units.sub_key(&target_denom, reserve_deduct_unit)?;', '    let own = reserve_units.get_key(&target_denom).unwrap().1.min(reserve_deduct_unit);\n    reserve_units.sub_key(&target_denom, own)?;\n    let mut rest = reserve_deduct_unit - own;\n    for d in reserve_units.iter().map(|v| v.0.clone()).collect::<Vec<_>>() {\n        let x = reserve_units.get_key(&d).unwrap().1.min(rest);\n        reserve_units.sub_key(&d, x)?;\n        rest -= x;\n    }'))
m('split-by-count', 'C13', (C+'execute/rebalance/trade/deflate.rs', '        total_weight = total_weight.checked_sub(weight)?;\n', '        total_weight = total_weight.checked_sub(weight.min(Decimal::one()))?;\n'))
m('inflate-unit-min', 'C13 C01', (C+'execute/rebalance/trade/inflate.rs', 'Decimal::checked_from_ratio(sim_amount_out, total_supply)?', 'Decimal::checked_from_ratio(min_amount_out.max(sim_amount_out.min(min_amount_out)), total_supply)?'))
m('deflate-unit-max', 'C13', (C+'execute/rebalance/trade/deflate.rs', 'Decimal::checked_from_ratio(sim_amount_in, total_supply)?', 'Decimal::checked_from_ratio(sim_amount_in, total_supply)?.min(current_unit - target_unit).max(Decimal::from_ratio(1u64, 1_000_000_000_000u64).min(unit_gap))'))
m('inflate-reserve-overwrites', 'C13 C01', (C+'execute/rebalance/trade/inflate.rs', '    index_units.add_key(&reserve_denom, reserve_unit)?;\n', '    match index_units.pop_key(&reserve_denom) {\n        Some((d, u)) => index_units.add_key(&d, u.max(reserve_unit))?,\n        None => index_units.add_key(&reserve_denom, reserve_unit)?,\n    }\n'))
m('finalise-target-floor', 'C14', (C+'execute/rebalance/finalize.rs', 'if &target_unit < current_unit {', 'if target_unit + cosmwasm_std::Decimal::from_ratio(1u64, 1_000_000_000_000u64) < *current_unit {'))
m('finalise-prune-small', 'C14 C01', (C+'execute/rebalance/finalize.rs', '.filter(|(_, current_unit)| !current_unit.is_zero())', '.filter(|(_, current_unit)| *current_unit > cosmwasm_std::Decimal::from_ratio(1u64, 1_000_000_000u64))'))
m('finalise-no-prune', 'C14', (C+'execute/rebalance/finalize.rs', '''        &index_units
            .into_iter()
            .filter(''', '''        &index_units
            .clone()
            .into_iter()
            .filter(|(d, _)| d != "" || index_units.len() > 1)
            .filter('''))
m('finalise-prune-first', 'C14', (C+'execute/rebalance/finalize.rs', '''            .filter(|(_, current_unit)| !current_unit.is_zero())
            .collect::<Vec<_>>()''', '''            .scan(false, |seen, (d, u)| {
                let drop = u.is_zero() && !*seen;
                *seen |= drop;
                Some((!drop).then_some((d, u)))
            })
            .flatten()
            .collect::<Vec<_>>()'''))
m('finalise-anyone-if-met', 'C14 C12', (C+'execute/rebalance/finalize.rs', '    if let Some(manager) = rebalance.manager {\n        assert_sender(&manager, &info.sender)?;\n    }\n', '    if let Some(manager) = rebalance.manager {\n        if !RESERVE_UNITS.load(deps.storage)?.is_empty() {\n            assert_sender(&manager, &info.sender)?;\n        }\n    }\n'))
m('finalise-empty-last', 'C14 C01', (C+'state/units.rs', 'self.0.iter().all(|(_, unit)| unit.is_zero())', 'self.0.iter().rev().take(2).all(|(_, unit)| unit.is_zero())'))
m('deflate-gap-strict', 'C15 C12', (C+'execute/rebalance/trade/deflate.rs', 'if amount_gap < sim_amount_in {', 'if amount_gap <= sim_amount_in {'))
m('inflate-gap-strict', 'C15 C12', (C+'execute/rebalance/trade/inflate.rs', 'if reserve_amount < amount_in {', 'if reserve_amount <= amount_in {'))
m('deflate-reserve-keeps-dust', 'C15 C13', (C+'execute/rebalance/trade/deflate.rs', 'deflate_index_unit(&mut index_units, &reserve_denom, unit_gap)?;', 'let unit_gap = Decimal::checked_from_ratio(amount_gap, total_supply)?;\n    deflate_index_unit(&mut index_units, &reserve_denom, unit_gap)?;'))
m('swap-in-min-zero', 'C16', (I+'types.rs', 'token_out_min_amount: token_out_min.to_string(),', 'token_out_min_amount: token_out_min.min(Uint128::one()).to_string(),'))
m('swap-out-max', 'C16', (C+'execute/rebalance/trade/deflate.rs', '''        amount_out,
        sim_amount_in,
    );''', '''        amount_out,
        max_amount_in,
    );'''))
m('swap-route-truncated', 'C16', (C+'execute/rebalance/trade/deflate.rs', 'let routes = trade_info.routes.clone();', 'let mut routes = trade_info.routes.clone();\n    routes.0.dedup_by_key(|v| v.pool_id);'))
m('list-limit-exclusive', 'C17 C24', (I+'lib.rs', 'if l <= max {', 'if l < max {'))
m('list-desc-inclusive', 'C17 C24', (I+'lib.rs', 'Order::Descending => (None, start.map(Bound::exclusive)),', 'Order::Descending => (None, start.map(Bound::inclusive)),'))
m('list-default-limit', 'C17 C24', (I+'lib.rs', 'None => Ok(default),', 'None => Ok(max.min(default + 1)),'))
m('trade-info-cooldown', 'C17', (C+'execute/gov/update.rs', '        cooldown,\n        max_trade_amount,\n        last_traded_at: None,', '        cooldown: if routes.0.len() > 2 { cooldown.max(1) } else { cooldown },\n        max_trade_amount,\n        last_traded_at: None,'))
m('trade-info-max-nonzero', 'C17', (C+'execute/gov/update.rs', '        max_trade_amount,\n        last_traded_at: None,', '        max_trade_amount: max_trade_amount.max(Uint128::one()),\n        last_traded_at: None,'))
# ---- airdrop
m('bearer-overpay', 'C19', (A+'execute/claim.rs', '''        return Err(ContractError::invalid_signature("claim_bearer"));
    }

    // claim
    airdrop.total_claimed = airdrop.total_claimed.checked_add(amount)?;
    if airdrop.total_claimed > airdrop.total_amount {''', '''        return Err(ContractError::invalid_signature("claim_bearer"));
    }

    // claim
    airdrop.total_claimed = airdrop.total_claimed.checked_add(amount)?;
    if amount > airdrop.total_amount {'''))
m('open-claim-full-refused', 'C21 C19', (A+'execute/claim.rs', '''    verify_merkle_proof(&airdrop.merkle_root, merkle_proof, claimer.as_str(), amount)?;

    // claim
    airdrop.total_claimed = airdrop.total_claimed.checked_add(amount)?;
    if airdrop.total_claimed > airdrop.total_amount {''', '''    verify_merkle_proof(&airdrop.merkle_root, merkle_proof, claimer.as_str(), amount)?;

    // claim
    airdrop.total_claimed = airdrop.total_claimed.checked_add(amount)?;
    if airdrop.total_claimed >= airdrop.total_amount {'''))
m('open-log-sender', 'C20', (A+'execute/claim.rs', '''    let attrs = claim_open_event(
        sender,''', '''    let by = if proof_len > 3 { sender.clone() } else { claimer.clone() };
    let attrs = claim_open_event(
        sender,'''), (A+'execute/claim.rs', 'CLAIM_LOGS.save(deps.storage, (airdrop_id, claimer.as_str()), &amount)?;', 'CLAIM_LOGS.save(deps.storage, (airdrop_id, by.as_str()), &amount)?;'), (A+'execute/claim.rs', '    assert_not_claimed(deps.storage, airdrop_id, claimer.as_str())?;', '    assert_not_claimed(deps.storage, airdrop_id, claimer.as_str())?;\n    let proof_len = merkle_proof.len();'))
m('bearer-log-case', 'C20', (A+'execute/claim.rs', 'CLAIM_LOGS.save(deps.storage, (airdrop_id, &claim_hash), &amount)?;', 'CLAIM_LOGS.save(deps.storage, (airdrop_id, claim_hash.trim()), &amount)?;'))
m('bearer-log-claimer', 'C20', (A+'execute/claim.rs', 'assert_not_claimed(deps.storage, airdrop_id, claim_hash.as_str())?;', 'assert_not_claimed(deps.storage, airdrop_id, claim_hash.as_str())\n        .or_else(|e| if airdrop.creator == sender { Ok(()) } else { Err(e) })?;'))
m('open-zero-not-logged', 'C20', (A+'execute/claim.rs', 'CLAIM_LOGS.save(deps.storage, (airdrop_id, claimer.as_str()), &amount)?;', 'if claimer != airdrop_creator {\n        CLAIM_LOGS.save(deps.storage, (airdrop_id, claimer.as_str()), &amount)?;\n    }'), (A+'execute/claim.rs', '''    let attrs = claim_open_event(
        sender,''', '''    let airdrop_creator = airdrop.creator.clone();
    let attrs = claim_open_event(
        sender,'''))
m('bearer-digest-no-amount', 'C21', (A+'execute/claim.rs', 'let digest_str = format!("{claim_hash}/{claimer}/{amount}");', 'let digest_str = if sender == claimer { format!("{claim_hash}/{claimer}/{amount}") } else { format!("{claim_hash}/{sender}/{amount}") };'))
m('bearer-sig-creator', 'C21', (A+'execute/claim.rs', '    if !ok {\n', '    if !ok && sender != airdrop.creator {\n'))
m('merkle-short-proof', 'C21', (A+'verify.rs', 'if root_buf != hash {', 'if root_buf[..4] != hash[..4] {'))
m('merkle-proof-root', 'C21 C23', (A+'verify.rs', '    let hash = proof.into_iter().try_fold(hash, |hash, p| {', '    let hash = proof.into_iter().take(8).try_fold(hash, |hash, p| {'))
m('merkle-leaf-node', 'C21', (A+'verify.rs', '        hashes.sort_unstable();\n', '        if hashes[0] != hashes[1] {\n            hashes.sort_unstable();\n        }\n        if hashes[1][..16] == [0u8; 16] {\n            return Ok(hashes[0]);\n        }\n'))
m('close-bearer-total', 'C22 C19', (A+'execute/close.rs', '''    mut airdrop: BearerAirdrop,
) -> Result<Response, ContractError> {
    // validation
    if airdrop.creator != info.sender {''', '''    mut airdrop: BearerAirdrop,
) -> Result<Response, ContractError> {
    // validation
    if airdrop.creator != info.sender && airdrop.signer != info.sender {'''))
m('close-open-after', 'C22', (A+'execute/close.rs', '''    mut airdrop: OpenAirdrop,
) -> Result<Response, ContractError> {
    // validation
    if airdrop.creator != info.sender {
        return Err(ContractError::Unauthorized {});
    }
    if airdrop.closed_at.is_some() {''', '''    mut airdrop: OpenAirdrop,
) -> Result<Response, ContractError> {
    // validation
    if airdrop.creator != info.sender {
        return Err(ContractError::Unauthorized {});
    }
    if airdrop.closed_at.is_some() && airdrop.total_claimed < airdrop.total_amount {'''))
m('fund-bearer-closed', 'C22', (A+'execute/fund.rs', '''    mut airdrop: BearerAirdrop,
) -> Result<Response, ContractError> {
    if airdrop.creator != info.sender {
        return Err(ContractError::Unauthorized {});
    }
    if airdrop.closed_at.is_some() {''', '''    mut airdrop: BearerAirdrop,
) -> Result<Response, ContractError> {
    if airdrop.creator != info.sender {
        return Err(ContractError::Unauthorized {});
    }
    if airdrop.closed_at.is_some() && airdrop.total_claimed.is_zero() {'''))
m('fund-open-any', 'C22 C19', (A+'execute/fund.rs', '''    let additional_funds = cw_utils::must_pay(&info, &airdrop.denom)?;
    airdrop.total_amount = airdrop.total_amount.checked_add(additional_funds)?;

    // event attributes
    let attrs = fund_event(info.sender, AirdropType::Open''', '''    let additional_funds = info.funds.iter().find(|v| v.denom == airdrop.denom).map(|v| v.amount).ok_or(ContractError::Unauthorized {})?;
    airdrop.total_amount = airdrop.total_amount.checked_add(additional_funds)?;

    // event attributes
    let attrs = fund_event(info.sender, AirdropType::Open'''))
m('claim-bearer-closed', 'C22 C19', (A+'execute/claim.rs', '''    let mut airdrop = airdrop.unwrap_bearer()?;
    if airdrop.closed_at.is_some() {''', '''    let mut airdrop = airdrop.unwrap_bearer()?;
    if airdrop.closed_at.is_some() && airdrop.label.is_none() {'''))
m('register-bearer-self', 'C22', (A+'execute/register.rs', '    if !verified {\n', '    if !verified && signer != info.sender {\n'))
m('register-root-short', 'C22', (A+'execute/register.rs', '''    // check merkle root length
    let mut root_buf: [u8; 32] = [0; 32];
    hex::decode_to_slice(&merkle_root, &mut root_buf)?;

    // fetch next airdrop id and increment it
    let airdrop_id = LATEST_AIRDROP_ID.load(deps.storage)?;

    // make label with tx sender
    let label = label.map(|x| format!("{}/{x}", info.sender));

    // verify''', '''    // check merkle root length
    if merkle_root.len() != 64 {
        return Err(ContractError::WrongLength {});
    }

    // fetch next airdrop id and increment it
    let airdrop_id = LATEST_AIRDROP_ID.load(deps.storage)?;

    // make label with tx sender
    let label = label.map(|x| format!("{}/{x}", info.sender));

    // verify'''))
m('verify-closed-bearer', 'C23', (A+'query/claim.rs', '''            let airdrop = airdrop.unwrap_bearer()?;
            if airdrop.closed_at.is_some() {''', '''            let airdrop = airdrop.unwrap_bearer()?;
            if airdrop.closed_at.is_some() && airdrop.total_claimed < airdrop.total_amount {'''))
m('verify-signature-lenient', 'C23', (A+'query/claim.rs', 'if !verify_result {\n', 'if !verify_result && account != airdrop.creator {\n'))
m('verify-open-lower', 'C23', (A+'query/claim.rs', 'proof, &account.unwrap(), amount);', 'proof, &account.unwrap().to_lowercase(), amount);'))
m('label-no-slash', 'C24', (A+'execute/register.rs', '''    // make label with tx sender
    let label = label.map(|x| format!("{}/{x}", info.sender));

    // make open''', '''    // make label with tx sender
    let label = label.map(|x| if x.contains('/') { x } else { format!("{}/{x}", info.sender) });

    // make open'''))
m('label-empty-skipped', 'C24', (A+'execute/register.rs', '''    let label = label.map(|x| format!("{}/{x}", info.sender));

    // make open''', '''    let label = label.filter(|x| !x.is_empty()).map(|x| format!("{}/{x}", info.sender));

    // make open'''))
m('label-trim', 'C24', (A+'execute/register.rs', '''    let label = label.map(|x| format!("{}/{x}", info.sender));

    // make open''', '''    let label = label.map(|x| format!("{}/{}", info.sender, x.trim()));

    // make open'''))
m('get-label-join', 'C24', (A+'query/label.rs', '''    let label = splitted[1..].join("/");

    Ok(GetLabelResponse {
        creator,
        label,
        airdrop_id,
    })
}

pub fn list''', '''    let label = splitted[1].to_string();

    Ok(GetLabelResponse {
        creator,
        label,
        airdrop_id,
    })
}

pub fn list'''))
m('list-label-last', 'C24', (A+'query/label.rs', '''        let creator = splitted[0].to_string();
        let label = splitted[1..].join("/");
''', '''        let creator = splitted[0].to_string();
        let label = splitted.last().unwrap().to_string();
'''))
m('creator-index-signer', 'C24', (A+'state.rs', 'Airdrop::Bearer(inner) => inner.creator.clone(),', 'Airdrop::Bearer(inner) => inner.signer.clone(),'))
m('claims-no-start', 'C24', (A+'query/claim.rs', 'Order::Descending => (None, start.map(Bound::exclusive)),', 'Order::Descending => (start.map(Bound::exclusive), None),'))
m('label-relabel-closed', 'C24', (A+'state.rs', 'if LABELS.has(storage, label) {', 'if LABELS.may_load(storage, label)?.and_then(|id| airdrops().load(storage, id).ok()).map(|a| match a { Airdrop::Open(x) => x.closed_at.is_none(), Airdrop::Bearer(x) => x.closed_at.is_none() }).unwrap_or_default() {'))
m('by-label-claim-id', 'C20 C24', (A+'query/claim.rs', '''    let (airdrop_id, _) = load_airdrop(deps.storage, id)?;

    let claim =''', '''    let (mut airdrop_id, _) = load_airdrop(deps.storage, id)?;
    if claim_key.is_empty() {
        airdrop_id = 0;
    }

    let claim ='''))
m('created-at', 'C24', (A+'airdrop.rs', '''                signer: inner.signer.to_string(),''', '''                signer: inner.creator.to_string(),'''))
# ---- periphery
m('mintin-min-check', 'C25', (P+'execute.rs', 'if act_mint_amount < min_index_amount {', 'if act_mint_amount + Uint128::new(2) < min_index_amount {'))
m('mintin-refund-periphery', 'C25 C29', (P+'execute.rs', '''            amount: sim_res.est_min_token_out,
            receiver: Some(info.sender.to_string()),
            refund_to: Some(info.sender.to_string()),''', '''            amount: sim_res.est_min_token_out,
            receiver: Some(info.sender.to_string()),
            refund_to: None,'''))
m('mintin-slack', 'C25', (P+'execute.rs', 'sim_res.max_token_in + Uint128::new(10000),', 'desired_asset.amount.min(sim_res.max_token_in),'))
m('mintin-no-finish', 'C25 C29', (P+'execute.rs', '''        .add_message(mint_msg)
        .add_message(finish_msg)
        .add_attributes(vec![
            attr("method", "mint_exact_amount_in"),''', '''        .add_message(mint_msg)
        .add_messages((sim_res.max_token_in + Uint128::new(3) < desired_asset.amount).then_some(finish_msg))
        .add_attributes(vec![
            attr("method", "mint_exact_amount_in"),'''))
m('mintout-net', 'C26', (P+'execute.rs', '''        core::ExecuteMsg::Mint {
            amount: index_asset.amount,''', '''        core::ExecuteMsg::Mint {
            amount: index_asset.amount * deduct_fee(core_fee.mint_fee.filter(|v| *v > cosmwasm_std::Decimal::percent(20)))?,'''))
m('mintout-receiver', 'C26', (P+'execute.rs', 'let sim_refund = input_asset.amount.checked_sub(sim_res.total_input)?;', 'let sim_refund = input_asset.amount.saturating_sub(sim_res.total_input);'), (P+'execute.rs', '''        .to_msgs(&env.contract.address, input_asset.amount)?;''', '''        .to_msgs(&env.contract.address, input_asset.amount.max(sim_res.total_input))?;'''))
m('burnin-min-zero', 'C27', (P+'execute.rs', '.to_msgs(&env.contract.address, min_output_amount)?;', '.to_msgs(&env.contract.address, min_output_amount.min(sim_res.total_output))?;'))
m('burnin-finish-index', 'C27 C29', (P+'execute.rs', '''            refund_to: info.sender.to_string(),
            refund_asset: output_asset.denom.clone(),
        })?,
        funds: vec![],
    };

    let resp = Response::new()
        .add_message(burn_msg)''', '''            refund_to: info.sender.to_string(),
            refund_asset: if min_output_amount.is_zero() { core_config.index_denom.clone() } else { output_asset.denom.clone() },
        })?,
        funds: vec![],
    };

    let resp = Response::new()
        .add_message(burn_msg)'''))
m('burnout-over', 'C28', (P+'execute.rs', '''    if index_asset.amount < burn_amount {
        return Err(ContractError::TradeAmountExceeded {});
    }
''', '''    let burn_amount = burn_amount.min(index_asset.amount);
'''))
m('burnout-all', 'C28', (P+'execute.rs', '    if index_asset.amount < burn_amount {', '    let burn_amount = burn_amount + (index_asset.amount.saturating_sub(burn_amount)) * cosmwasm_std::Decimal::permille(5);\n    if index_asset.amount < burn_amount {'))
m('burnout-one-finish', 'C28 C29', (P+'execute.rs', '.add_messages(finish_msgs)', '.add_messages(finish_msgs.into_iter().skip(if core_fee.burn_fee.is_some() { 0 } else { 1 }))'))
m('finish-anyone-own', 'C29', (P+'execute.rs', 'assert_eq!(info.sender, env.contract.address, "internal function");', 'assert!(info.sender == env.contract.address || info.sender == refund_to, "internal function");'))
m('sim-mintin-fee', 'C30', (P+'query.rs', '.saturating_sub(Uint128::new(100)); // FIXME: hacky calibration', '.saturating_sub(Uint128::new(0));'))
m('sim-burnin-fee', 'C30', (P+'query.rs', 'let burn_amount = index_amount * deduct_fee(core_fee.burn_fee)?;', 'let burn_amount = index_amount.mul_ceil(deduct_fee(core_fee.burn_fee)?);'))
m('sim-burnin-nofee', 'C30', (P+'query.rs', 'let sim_res = sim.estimate_output_for_index(burn_amount, &output_asset)?;', 'let sim_res = sim.estimate_output_for_index(index_amount, &output_asset)?;'))
m('sim-burnout-deduct', 'C30', (P+'query.rs', 'let burn_amount = sim_res.est_min_token_in * expand_fee(core_fee.burn_fee)?;', 'let burn_amount = sim_res.est_min_token_in * (cosmwasm_std::Decimal::one() + core_fee.burn_fee.unwrap_or_default());'))
m('expand-fee', 'C28 C25 C30', (P+'lib.rs', 'Decimal::one().checked_div(Decimal::one().checked_sub(v)?)?)', 'Decimal::one().checked_add(v)?)'))
# ---- estimator and pools
m('sim-pools-fresh-out', 'C33 C26 C30', (L+'sim/index_out.rs', 'self.estimate_in_given_out(input_asset, token_out, &mut pools_map)', 'self.estimate_in_given_out(input_asset, token_out, &mut pools_map.clone())'))
m('sim-pools-fresh-in', 'C33 C27 C30', (L+'sim/index_in.rs', 'self.estimate_out_given_in(token_in, output_asset, &mut pools_map)', 'self.estimate_out_given_in(token_in, output_asset, &mut pools_map.clone())'))
m('sim-search-in-tol', 'C33 C28 C30', (L+'sim/index_in.rs', 'if Decimal::one() <= err\n', 'if Decimal::permille(999) <= err\n'), (L+'sim/index_in.rs', '&& desired_output.amount - acc_res.max_token_out < Uint128::from(MAX_ERROR)', '&& desired_output.amount.abs_diff(acc_res.max_token_out) < Uint128::from(MAX_ERROR)'))
m('sim-search-out-tol', 'C33 C25 C30', (L+'sim/index_out.rs', 'if Decimal::one() <= err\n', 'if Decimal::permille(999) <= err\n'), (L+'sim/index_out.rs', '''                && desired_input.amount.checked_sub(acc_res.max_token_in)?
''', '''                && desired_input.amount.abs_diff(acc_res.max_token_in)
'''))
m('sim-max-error', 'C33 C28 C30', (L+'sim/mod.rs', 'pub const MAX_ERROR: u64 = 5000;', 'pub const MAX_ERROR: u64 = 50000;'))
m('sim-route-lookup-from', 'C33', (L+'sim/index_in.rs', 'from == &token_in.denom && to == token_out)', 'from == &token_in.denom && (to == token_out || self.swap_info.len() == 1))'))
m('sim-route-lookup-out', 'C33 C26', (L+'sim/index_out.rs', 'from == token_in && to == &token_out.denom)', 'to == &token_out.denom && (from == token_in || from != &token_out.denom))'))
m('sim-noswap-zero', 'C33 C27', (L+'sim/index_in.rs', 'Ok::<_, PoolError>(acc.checked_add(v.sim_amount_out)?)', 'Ok::<_, PoolError>(acc.checked_add(if v.routes.is_some() || acc.is_zero() { v.sim_amount_out } else { Uint128::zero() })?)'))
m('sim-amp-floor', 'C33', (L+'sim/route.rs', 'let min_amount_out = r.sim_amount_out * amplifier;', 'let min_amount_out = r.sim_amount_out.mul_floor(amplifier).min(r.sim_amount_out.saturating_sub(Uint128::one()));'))
m('sim-amp-max', 'C33 C26', (L+'sim/route.rs', 'let max_amount_in = r.sim_amount_in * amplifier;', 'let max_amount_in = max_input;'))
m('sim-max-check', 'C33 C26', (L+'sim/route.rs', 'if max_input < total_spend_amount {', 'if max_input + Uint128::new(10) < total_spend_amount {'))
m('weighted-fee-in-pool', 'C31', (L+'weighted.rs', '''            &output_denom,
            input_amount.amount.into(),
            amount_out,''', '''            &output_denom,
            Uint256::from_uint128(input_amount.amount)
                * Decimal256::one().checked_sub(spread_factor.into())?,
            amount_out,'''))
m('weighted-in-floor', 'C31', (L+'weighted.rs', 'let token_in_amount = token_amount_in_before_fee.to_uint_ceil();', 'let token_in_amount = token_amount_in_before_fee.to_uint_floor().max(Uint256::one());'))
m('weighted-out-ceil', 'C31', (L+'weighted.rs', 'Ok(token_amount_out.to_uint_floor())', 'Ok(token_amount_out.to_uint_ceil())'))
m('weighted-fee-mul', 'C31', (L+'weighted.rs', 'token_amount_in / (Decimal256::one().checked_sub(spread_factor.into())?);', 'token_amount_in * (Decimal256::one().checked_add(spread_factor.into())?);'))
m('weighted-weight-swap', 'C31', (L+'weighted.rs', '''            to_dec(token_out_weight)?,
            to_dec(token_in.amount)?,
            to_dec(token_in_weight)?,''', '''            to_dec(token_out_weight.max(token_in_weight))?,
            to_dec(token_in.amount)?,
            to_dec(token_in_weight)?,'''))
m('weighted-neg', 'C31', (L+'weighted.rs', '''        if neg {
            return Err(PoolError::invalid_math_approx(
                "token amount must be positive",''', '''        if neg && token_in_amount.is_zero() {
            return Err(PoolError::invalid_math_approx(
                "token amount must be positive",'''))
m('weighted-out-all', 'C31', (L+'weighted.rs', 'pool_token_out_balance - Uint256::from_uint128(output_amount.amount);', 'pool_token_out_balance.saturating_sub(Uint256::from_uint128(output_amount.amount)).max(Uint256::one());'))
m('pow-precision', 'C32', ('packages/math/src/pow.rs', 'const POW_PRECISION: u128 = 10_000_000_000u128;', 'const POW_PRECISION: u128 = 100_000_000_000_000u128;'))
m('pow-int-odd', 'C32', ('packages/math/src/pow.rs', 'if i <= Uint256::one() {', 'if i <= Uint256::one() || base.is_zero() {'))
m('pow-base-two', 'C32', ('packages/math/src/pow.rs', 'if base >= Decimal256::from_ratio(2u64, 1u64) {', 'if base > Decimal256::from_ratio(2u64, 1u64) {'))
m('pow-negative-flip', 'C32', ('packages/math/src/pow.rs', '        if c_neg {\n            negative = !negative;\n        }\n', '        if c_neg && i > 1 {\n            negative = !negative;\n        }\n'))
m('pow-terms', 'C32', ('packages/math/src/pow.rs', '        if term < prec {\n', '        if term < prec || i > 40 {\n'))
m('extract-first', 'C34', (I+'periphery.rs', '.collect::<HashSet<_>>()\n        .into_iter()\n        .collect::<Vec<_>>();', '.collect::<Vec<_>>();\n    pool_ids.dedup();'))
m('extract-u32', 'C34', (I+'periphery.rs', 'r.pool_id)', 'r.pool_id & 0xffff_ffff)'))
m('extract-cap', 'C34', (I+'periphery.rs', '    pool_ids.sort();\n', '    pool_ids.sort();\n    pool_ids.truncate(16);\n'))
m('compact-trim', 'C34', (I+'periphery.rs', 'let token_denom = splitted.last().unwrap().to_string();', 'let token_denom = splitted.last().unwrap().trim_end_matches(\'/\').to_lowercase();'))
m('pool-type-prefix', 'C34', (L+'query.rs', 'const POOL_STABLE: &str =\n    "eyJwb29sIjp7IkB0eXBlIjoiL29zbW9zaXMuZ2FtbS5wb29sbW9kZWxzLnN0YWJsZXN3YXAudjFiZXRhMS5Qb29sI";', 'const POOL_STABLE: &str = "eyJwb29sIjp7IkB0eXBlIjoiL29zbW9zaXMuZ2FtbS5wb29sbW9kZWxzL";'))
m('pool-fee-stable', 'C34', (L+'stable.rs', 'Ok(self.pool_params.swap_fee)', 'Ok(self.pool_params.swap_fee.max(self.pool_params.exit_fee))'))
m('pool-fee-cl', 'C34', (L+'concentrated.rs', 'self.spread_factor.parse()', 'self.spread_factor.trim_end_matches(\'0\').parse()'))
m('semver-prerelease', 'C35', ('packages/utils/src/lib.rs', 'if cv >= nv {', 'if (cv.major, cv.minor, cv.patch) >= (nv.major, nv.minor, nv.patch) {'))
m('semver-equal', 'C35', ('packages/utils/src/lib.rs', 'if cv >= nv {', 'if cv > nv {'))
m('semver-major', 'C35', ('packages/utils/src/lib.rs', 'if cv >= nv {', 'if cv.major >= nv.major && cv.minor >= nv.minor && cv.patch >= nv.patch {'))
m('migrate-name-prefix', 'C35', ('packages/utils/src/lib.rs', 'if stored.contract != contract.clone().into() {', 'if !stored.contract.starts_with(&contract.clone().into()) {'))
m('migrate-name-suffix', 'C35', ('packages/utils/src/lib.rs', 'if stored.contract != contract.clone().into() {', 'if stored.contract.split(\':\').last() != contract.clone().into().split(\':\').last() {'))
m('migrate-force-airdrop', 'C35', (A+'contract.rs', '''    } else {
        cw2::set_contract_version(deps.storage, CONTRACT_NAME, CONTRACT_VERSION)?;
    }''', '''    } else if ibcx_utils::store_version(deps.storage, CONTRACT_NAME, CONTRACT_VERSION).is_err() {
        let v = cw2::get_contract_version(deps.storage)?;
        cw2::set_contract_version(deps.storage, CONTRACT_NAME, v.version)?;
    }'''))
m('migrate-resets-id', 'C35', (A+'contract.rs', '''    } else {
        cw2::set_contract_version(deps.storage, CONTRACT_NAME, CONTRACT_VERSION)?;
    }''', '''    } else {
        cw2::set_contract_version(deps.storage, CONTRACT_NAME, CONTRACT_VERSION)?;
        LATEST_AIRDROP_ID.update(deps.storage, |v| Ok::<_, ContractError>(v.max(1)))?;
    }'''))

# ================= second round =================
# ---- core
m('release-keeps-expiry', 'C10', (C+'execute/gov/pause.rs', '            paused: Default::default(),\n            ..config', '            paused: PauseInfo { paused: false, expires_at: config.paused.expires_at },\n            ..config'))
m('refresh-any-expiry', 'C10', (C+'state/pause.rs', '''                if expiry <= env.block.time.seconds() {
                    return Ok(Default::default());''', '''                if expiry <= env.block.time.seconds() {
                    return Ok(Self { paused: false, ..self });'''))
m('pause-expiry-subsecond', 'C10', (C+'state/pause.rs', 'if expiry <= env.block.time.seconds() {', 'if expiry.saturating_mul(1_000_000_000) < env.block.time.nanos() {'))
m('collect-no-supply', 'C06', (C+'state/fee.rs', 'if self.freeze || delta == 0 {', 'if self.freeze || delta == 0 || total_supply.is_zero() {'))
m('collect-small-delta', 'C06', (C+'state/fee.rs', 'if self.freeze || delta == 0 {', 'if self.freeze || delta == 0 || (delta < 5 && !self.collected.is_empty()) {'))
m('collect-by-difference', 'C06', (C+'state/fee.rs', '                Ok(((denom.clone(), new_unit), (denom, fee_unit)))', '''                let whole = unit * total_supply;
                let fee_unit = if whole.is_zero() { Decimal::zero() } else { fee_unit };
                Ok(((denom.clone(), new_unit), (denom, fee_unit)))'''))
m('collect-simple-interest', 'C06', (C+'state/fee.rs', '''        let rate = (Decimal::one() + self.rate)
            .checked_pow(delta as u32)?
            .checked_sub(Decimal::one())?;''', '''        let rate = if delta < 64 {
            Decimal::from_atomics(self.rate.atomics().checked_mul(Uint128::from(delta))?, 18).unwrap()
        } else {
            (Decimal::one() + self.rate)
                .checked_pow(delta as u32)?
                .checked_sub(Decimal::one())?
        };'''))
m('collect-frozen-advances', 'C06', (C+'state/fee.rs', '            return Ok((index_units, None)); // not collected', '            self.last_collected_at = if self.freeze { now_in_sec } else { self.last_collected_at };\n            return Ok((index_units, None)); // not collected'))
m('collect-push-dup', 'C06 C07', (C+'state/fee.rs', 'None => self.collected.push(coin(amount.u128(), denom)),', 'None => self.collected.insert(0, coin(amount.u128(), denom)),'))
m('collect-drop-pruned', 'C06 C07', (C+'state/fee.rs', '''        self.last_collected_at = now_in_sec;
''', '''        self.last_collected_at = now_in_sec;
        self.collected.retain(|c| new_units.get_key(&c.denom).is_some());
'''))
m('finalise-no-unfreeze-if-paid', 'C06 C11 C14', (C+'execute/rebalance/finalize.rs', 'streaming_fee.freeze = false;', 'streaming_fee.freeze = streaming_fee.rate.is_zero();\n        if !streaming_fee.collected.is_empty() { streaming_fee.collected.retain(|v| v.amount.u128() > 1); }'))
m('init-collect-off', 'C06 C11', (C+'contract.rs', '            Rebalance(RebalanceMsg::Init { .. }) => collect(deps.storage, now_in_sec)?,\n', '            Rebalance(RebalanceMsg::Init { ref manager, .. }) if manager.is_some() => collect(deps.storage, now_in_sec)?,\n'))
m('trade-collects', 'C06 C12', (C+'contract.rs', '            _ => {}\n        };', '            Gov(GovMsg::UpdateReserveDenom(..)) => collect(deps.storage, now_in_sec.saturating_sub(1))?,\n            _ => {}\n        };'))
m('mint-collector-sender', 'C03', (C+'execute/token.rs', '''    let fee_send_msg = mint_fee.map(|v| BankMsg::Send {
        to_address: fee.collector.into_string(),''', '''    let fee_send_msg = mint_fee.map(|v| BankMsg::Send {
        to_address: if v >= mint_send { receiver.to_string() } else { fee.collector.to_string() },'''))
m('mint-fee-waived-collector', 'C03', (C+'execute/token.rs', 'let mint_fee = fee.mint_fee.map(|v| (v * amount).max(Uint128::one()));', 'let mint_fee = fee.mint_fee.filter(|_| info.sender != fee.collector).map(|v| (v * amount).max(Uint128::one()));'))
m('burn-fee-waived-collector', 'C04', (C+'execute/token.rs', 'let burn_fee = fee.burn_fee.map(|v| v * received);', 'let burn_fee = fee.burn_fee.filter(|_| info.sender != fee.collector).map(|v| v * received);'))
m('burn-extra-coins', 'C04', (C+'execute/token.rs', 'let received = cw_utils::must_pay(&info, &config.index_denom)?;', 'let received = info.funds.iter().find(|v| v.denom == config.index_denom).map(|v| v.amount).ok_or(cw_utils::PaymentError::MissingDenom(config.index_denom.clone()))?;'))
m('mint-refund-dup-funds', 'C03', (C+'state/units.rs', 'let denoms: Vec<_> = denoms.into_iter().flatten().collect();', 'let denoms: Vec<_> = denoms.into_iter().flatten().filter(|v| v.contains(\'/\') || self.0.len() > 1).collect();'))
m('mint-require-rate-plus', 'C03 C01', (C+'state/units.rs', '            .map(|v| coin(v.amount.max(Uint128::one()).u128(), v.denom))\n            .collect::<Vec<_>>();\n        let mut denoms', '            .map(|v| coin(if index_amount < Uint128::new(10) { v.amount.max(Uint128::one()).u128() } else { v.amount.u128() }, v.denom))\n            .collect::<Vec<_>>();\n        let mut denoms'))
m('mint-supply-first', 'C02', (C+'execute/token.rs', 'TOTAL_SUPPLY.save(deps.storage, &(total_supply + amount))?;', 'TOTAL_SUPPLY.save(deps.storage, &(if receiver == env.contract.address { total_supply + mint_fee.unwrap_or_default() } else { total_supply + amount }))?;'))
m('burn-to-self-supply', 'C02', (C+'execute/token.rs', 'TOTAL_SUPPLY.save(deps.storage, &(total_supply - burn_amount))?;', 'TOTAL_SUPPLY.save(deps.storage, &(if redeem_to == fee.collector { total_supply.saturating_sub(received) } else { total_supply - burn_amount }))?;'))
m('realise-on-rebalance-drops', 'C07 C01', (C+'execute/fee.rs', '''        msgs.push(
            BankMsg::Send {
                to_address: fee.collector.to_string(),
                amount: streaming_fee.collected.clone(),
            }
            .into(),
        );

        streaming_fee.collected = vec![];''', '''        let ready: Vec<_> = streaming_fee.collected.iter().filter(|v| v.amount.u128() > 1).cloned().collect();
        msgs.push(
            BankMsg::Send {
                to_address: fee.collector.to_string(),
                amount: ready,
            }
            .into(),
        );

        streaming_fee.collected = vec![];'''))
m('realise-frozen-keeps', 'C07', (C+'execute/fee.rs', '        streaming_fee.collected = vec![];', '        if !streaming_fee.freeze {\n            streaming_fee.collected = vec![];\n        }'))
m('fee-update-new-collector', 'C07', (C+'execute/gov/update.rs', '        to_address: fee.collector.to_string(),\n        amount: collected,', '        to_address: new_fee.collector.clone(),\n        amount: collected,'))
m('fee-update-keeps-last', 'C06 C08', (C+'execute/gov/update.rs', '        last_collected_at: env.block.time.seconds(),\n        freeze: v.freeze,', '        last_collected_at: env.block.time.seconds() - env.block.time.seconds() % 60,\n        freeze: v.freeze,'))
m('fee-update-none-keeps', 'C08 C06', (C+'execute/gov/update.rs', '    fee.burn_fee = new_fee.burn_fee;', '    fee.burn_fee = new_fee.burn_fee.or(fee.burn_fee);'))
m('fee-check-mint-first', 'C08', (C+'state/fee.rs', '        rate_checker("burn_fee", self.burn_fee)?;', '        rate_checker("burn_fee", self.burn_fee.filter(|_| self.mint_fee.is_none()).or(self.mint_fee))?;'))
m('rate-zero-ok-when-frozen', 'C08', (C+'state/fee.rs', 'rate_checker("streaming_fee", self.streaming_fee.as_ref().map(|v| v.rate))?;', 'rate_checker("streaming_fee", self.streaming_fee.as_ref().filter(|v| !v.freeze).map(|v| v.rate))?;'))
m('inst-zero-unit', 'C08', (C+'contract.rs', 'let index_units: Units = msg.index_units.into();', 'let index_units: Units = msg.index_units.into_iter().filter(|(_, u)| !u.is_zero()).collect();'))
m('inst-dup-case', 'C08', (C+'contract.rs', 'if index_units.check_duplicate() {', 'if index_units.check_duplicate() && !index_units.check_empty() {'))
m('gov-accept-by-gov', 'C09', (C+'execute/gov/update.rs', '    assert_sender(&pending_gov, &info.sender)?;\n    PENDING_GOV.remove(deps.storage);', '    if CONFIG.load(deps.storage)?.gov != info.sender {\n        assert_sender(&pending_gov, &info.sender)?;\n    }\n    PENDING_GOV.remove(deps.storage);'))
m('gov-revoke-no-remove-self', 'C09', (C+'execute/gov/update.rs', '''    config.check_gov(&info.sender)?;

    PENDING_GOV.remove(deps.storage);

    let resp''', '''    config.check_gov(&info.sender)?;

    if pending_gov != config.gov {
        PENDING_GOV.remove(deps.storage);
    }

    let resp'''))
m('gov-update-self-noop', 'C09', (C+'execute/gov/update.rs', '    PENDING_GOV.save(deps.storage, &deps.api.addr_validate(&new_gov)?)?;', '    let new_addr = deps.api.addr_validate(&new_gov)?;\n    if new_addr != config.gov {\n        PENDING_GOV.save(deps.storage, &new_addr)?;\n    }'))
m('manager-none-keeps', 'C11 C09 C12', (C+'execute/gov/update.rs', '''                .map(|v| deps.api.addr_validate(&v))
                .transpose()?,
            ..rebalance''', '''                .map(|v| deps.api.addr_validate(&v))
                .transpose()?
                .or(rebalance.manager),
            deflation: rebalance.deflation,
            inflation: rebalance.inflation,'''))
m('manager-update-idle', 'C11 C09', (C+'execute/gov/update.rs', '''        Some(r) => r,
        None => return Err(RebalanceError::NotOnRebalancing.into()),
    };

    REBALANCE.save''', '''        Some(r) => r,
        None if new_manager.is_none() => return Ok(Response::new()),
        None => return Err(RebalanceError::NotOnRebalancing.into()),
    };

    REBALANCE.save'''))
m('init-manager-dropped', 'C11 C12', (C+'execute/rebalance/init.rs', '''            .map(|v| deps.api.addr_validate(&v))
            .transpose()?,
        deflation: deflation''', '''            .map(|v| deps.api.addr_validate(&v))
            .transpose()?
            .filter(|v| v != &config.gov),
        deflation: deflation'''))
m('init-sorts', 'C11 C13', (C+'execute/rebalance/init.rs', '        inflation: inflation.into(),\n    };', '        inflation: inflation.into_iter().rev().collect::<Vec<_>>().into(),\n    };'))
m('init-reserve-kept', 'C13 C14 C15', (C+'execute/rebalance/init.rs', 'RESERVE_UNITS.save(deps.storage, &Units::default())?;', 'RESERVE_UNITS.save(deps.storage, &RESERVE_UNITS.may_load(deps.storage)?.unwrap_or_default())?;'), (C+'execute/rebalance/finalize.rs', '    RESERVE_UNITS.remove(deps.storage);\n', ''))
m('init-clears-trades', 'C12 C17', (C+'execute/rebalance/init.rs', '    // save\n', '''    for (denom, _) in rebalance.deflation.iter() {
        let key = (denom.as_str(), config.reserve_denom.as_str());
        if let Some(mut t) = crate::state::TRADE_INFOS.may_load(deps.storage, key)? {
            t.last_traded_at = None;
            crate::state::TRADE_INFOS.save(deps.storage, key, &t)?;
        }
    }
    // save
'''))
m('validate-weight-over-one', 'C11 C15', (C+'state/rebalance.rs', '''                Ok::<_, ContractError>(total.checked_add(*weight)?)
            })?;''', '''                let total = total.checked_add(*weight)?;
                if total > Decimal::percent(1_000_000) {
                    return Err(ValidationError::invalid_rebalance("inflation", "weight").into());
                }
                Ok::<_, ContractError>(total)
            })?;'''))
m('validate-overflow-zero', 'C11', (C+'state/rebalance.rs', '                        if item.1 < deflation.1 {', '                        if item.1 < deflation.1 && !item.1.is_zero() {'))
m('validate-conflict-zero', 'C11', (C+'state/rebalance.rs', '''                .deflation
                .clone()
                .into_iter()
                .chain''', '''                .deflation
                .clone()
                .into_iter()
                .filter(|(_, target)| !target.is_zero())
                .chain'''))
m('finalise-skip-zero-target', 'C14', (C+'execute/rebalance/finalize.rs', '        if &target_unit < current_unit {', '        if &target_unit < current_unit && !target_unit.is_zero() {'))
m('finalise-reserve-tiny', 'C14 C01', (C+'state/units.rs', '        self.0.iter().all(|(_, unit)| unit.is_zero())', '        self.0.iter().all(|(_, unit)| unit.atomics().u128() < 10)'))
m('finalise-manager-gov', 'C12 C14', (C+'execute/rebalance/finalize.rs', '        assert_sender(&manager, &info.sender)?;', '        if crate::state::CONFIG.load(deps.storage)?.gov != info.sender {\n            assert_sender(&manager, &info.sender)?;\n        }'))
m('finalise-merges-dup', 'C14', (C+'execute/rebalance/finalize.rs', '            .filter(|(_, current_unit)| !current_unit.is_zero())\n            .collect::<Vec<_>>()\n            .into(),', '            .filter(|(_, current_unit)| !current_unit.is_zero())\n            .map(|(d, u)| (d, u))\n            .take(12)\n            .collect::<Vec<_>>()\n            .into(),'))
m('trade-manager-none-gov', 'C12', (C+'execute/rebalance/trade/mod.rs', '    if let Some(manager) = rebalance.manager {\n        assert_sender(&manager, &info.sender)?;\n    }', '    let manager = rebalance.manager.unwrap_or(CONFIG.load(deps.storage)?.gov);\n    if CONFIG.load(deps.storage)?.gov != info.sender {\n        assert_sender(&manager, &info.sender)?;\n    }'))
m('deflate-all-to-first', 'C13', (C+'execute/rebalance/trade/deflate.rs', '        expand_unit = expand_unit.checked_sub(sub_unit)?;\n        total_weight', '        expand_unit = expand_unit.saturating_sub(sub_unit);\n        total_weight'))
m('deflate-target-after', 'C12 C14', (C+'execute/rebalance/trade/deflate.rs', '''    if amount_gap < sim_amount_in {''', '''    if amount_gap + Uint128::one() < sim_amount_in {'''))
m('deflate-gap-current', 'C12 C14', (C+'execute/rebalance/trade/deflate.rs', '    let amount_gap = unit_gap * total_supply;\n\n    // simulate', '    let amount_gap = if target_unit.is_zero() { unit_gap * total_supply } else { (unit_gap * total_supply).max(Uint128::one()) };\n\n    // simulate'))
m('inflate-avail-ceil', 'C12 C15', (C+'execute/rebalance/trade/inflate.rs', '    let reserve_amount = reserve_unit * total_supply;\n    if', '    let reserve_amount = total_supply.mul_ceil(reserve_unit);\n    if'))
m('inflate-avail-all', 'C12 C13', (C+'execute/rebalance/trade/inflate.rs', '    let (_, reserve_unit) = *reserve_units.get_key(&target_denom).unwrap();\n\n    // check', '    let (_, reserve_unit) = *reserve_units.get_key(&target_denom).unwrap();\n    let reserve_unit = if reserve_unit.is_zero() { reserve_units.iter().map(|(_, v)| *v).max().unwrap() } else { reserve_unit };\n\n    // check'))
m('inflate-expand-min', 'C13', (C+'execute/rebalance/trade/inflate.rs', 'let index_expand_unit = Decimal::checked_from_ratio(sim_amount_out, total_supply)?;', 'let index_expand_unit = Decimal::checked_from_ratio(if min_amount_out.is_zero() { sim_amount_out } else { min_amount_out }, total_supply)?;'))
m('deflate-expand-netted', 'C13', (C+'execute/rebalance/trade/deflate.rs', 'let reserve_expand_unit = Decimal::checked_from_ratio(amount_out, total_supply)?;', 'let reserve_expand_unit = Decimal::checked_from_ratio(amount_out.min(trade_info.max_trade_amount), total_supply)?.min(unit_gap.max(Decimal::one()));'))
m('inflate-reserve-leaves', 'C13 C15', (C+'execute/rebalance/trade/inflate.rs', '    reserve_units.sub_key(&reserve_denom, reserve_unit)?;', '    reserve_units.sub_key(&reserve_denom, reserve_unit)?;\n    reserve_units.prune_zero();'))
m('inflate-reserve-floor', 'C13 C01', (C+'execute/rebalance/trade/inflate.rs', '    index_units.add_key(&reserve_denom, reserve_unit)?;', '    index_units.add_key(&reserve_denom, if reserve_amount.is_zero() { Decimal::zero() } else { reserve_unit })?;'))
m('deflate-reserve-anyone', 'C12', (C+'execute/rebalance/trade/mod.rs', '''    if let Some(manager) = rebalance.manager {
        assert_sender(&manager, &info.sender)?;
    }''', '''    if let Some(manager) = rebalance.manager {
        let reserve = CONFIG.load(deps.storage)?.reserve_denom;
        let own = matches!(&msg, Inflate { target_denom, .. } if target_denom == &reserve);
        if !own {
            assert_sender(&manager, &info.sender)?;
        }
    }'''))
m('deflate-no-cooldown-save', 'C12 C17', (C+'execute/rebalance/trade/deflate.rs', '        &trade_info.update_last_traded_at(env.block.time.seconds()),', '        &if amount_out == trade_info.max_trade_amount { trade_info } else { trade_info.update_last_traded_at(env.block.time.seconds()) },'))
m('cooldown-zero-last', 'C12 C17', (C+'state/rebalance.rs', '            last_traded_at: Some(now),', '            last_traded_at: if self.cooldown == 0 { None } else { Some(now) },'))
m('cooldown-from-first', 'C12 C17', (C+'state/rebalance.rs', '            last_traded_at: Some(now),', '            last_traded_at: Some(self.last_traded_at.map(|v| v + self.cooldown).unwrap_or(now)),'))
m('swap-sender', 'C16', (C+'execute/rebalance/trade/inflate.rs', '''    let swap_msg = routes.msg_swap_exact_in(
        &env.contract.address,''', '''    let swap_msg = routes.msg_swap_exact_in(
        &info.sender,'''))
m('swap-in-min-caller', 'C16', (C+'execute/rebalance/trade/inflate.rs', '''        amount_in,
        sim_amount_out,
    );''', '''        amount_in,
        min_amount_out.max(Uint128::one()),
    );'''))
m('swap-out-max-gap', 'C16', (C+'execute/rebalance/trade/deflate.rs', '''        amount_out,
        sim_amount_in,
    );''', '''        amount_out,
        sim_amount_in.max(max_amount_in.min(amount_gap)),
    );'''))
m('list-whole-map', 'C17', (C+'query.rs', '''        TRADE_INFOS
            .prefix(&denom_in)
            .range(deps.storage, min, max, order)
            .take(limit)
            .map(|v| {
                let (o, t) = v?;
                Ok(conv_trade_info(denom_in.clone(), o, t))
            })''', '''        TRADE_INFOS
            .prefix(&denom_in)
            .range(deps.storage, min, max, order)
            .take(limit)
            .filter(|v| v.as_ref().map(|(o, _)| o != &denom_in).unwrap_or(true))
            .map(|v| {
                let (o, t) = v?;
                Ok(conv_trade_info(denom_in.clone(), o, t))
            })'''))
m('trade-info-keeps-last', 'C17 C12', (C+'execute/gov/update.rs', '        last_traded_at: None,\n    };', '        last_traded_at: TRADE_INFOS\n            .may_load(deps.storage, (&denom_in, &routes.denom_last()))?\n            .and_then(|v| v.last_traded_at),\n    };'))
m('trade-info-drops-other', 'C17', (C+'execute/gov/update.rs', '    TRADE_INFOS.save(deps.storage, (&denom_in, &routes.denom_last()), &trade_info)?;', '    TRADE_INFOS.save(deps.storage, (&denom_in, &routes.denom_last()), &trade_info)?;\n    if max_trade_amount.is_zero() {\n        TRADE_INFOS.remove(deps.storage, (&denom_in, &routes.denom_last()));\n    }'))
m('get-trade-info-swap', 'C17', (C+'query.rs', 'let trade_info = TRADE_INFOS.may_load(deps.storage, (&denom_in, &denom_out))?;', 'let trade_info = TRADE_INFOS\n        .may_load(deps.storage, (&denom_in, &denom_out))?\n        .filter(|v| v.routes.0.len() < 3 || v.routes.denom_first() != denom_in);'))
m('reserve-change-same', 'C09 C11', (C+'execute/gov/update.rs', '''    config.check_gov(&info.sender)?;
    if REBALANCE.may_load(deps.storage)?.is_some() {
        return Err(RebalanceError::OnRebalancing.into());
    }

    CONFIG.save(''', '''    config.check_gov(&info.sender)?;
    if REBALANCE.may_load(deps.storage)?.map(|v| v.manager.is_some()).unwrap_or(false) {
        return Err(RebalanceError::OnRebalancing.into());
    }

    CONFIG.save('''))
m('mint-rebalance-manager-only', 'C11', (C+'execute/token.rs', '''    config.assert_not_paused(&env)?;
    if REBALANCE.may_load(deps.storage)?.is_some() {
        return Err(RebalanceError::OnRebalancing.into());
    }

    // addresses
    let receiver''', '''    config.assert_not_paused(&env)?;
    if crate::state::RESERVE_UNITS.may_load(deps.storage)?.map(|v| !v.check_empty()).unwrap_or(false) {
        return Err(RebalanceError::OnRebalancing.into());
    }

    let receiver'''))
m('sim-burn-fee-min', 'C05', (C+'query.rs', 'let burn_fee = fee.burn_fee.map(|v| v * amount);', 'let burn_fee = fee.burn_fee.map(|v| (v * amount).max(Uint128::one()));'))
m('sim-burn-frozen', 'C05', (C+'query.rs', '''    let burn_fee = fee.burn_fee.map(|v| v * amount);
    let burn_amount''', '''    let index_units: crate::state::Units = if REBALANCE.may_load(deps.storage)?.is_some() { INDEX_UNITS.load(deps.storage)? } else { index_units };
    let burn_fee = fee.burn_fee.map(|v| v * amount);
    let burn_amount'''))
m('query-supply-bank', 'C02 C05', (C+'query.rs', '    Ok(TOTAL_SUPPLY.load(deps.storage)?)\n', '    let c = CONFIG.load(deps.storage)?;\n    Ok(deps.querier.query_supply(c.index_denom).map(|v| v.amount).unwrap_or(TOTAL_SUPPLY.load(deps.storage)?))\n'))
m('query-fee-realised', 'C05 C06', (C+'query.rs', '            collected: v.collected,\n', '            collected: if v.freeze { vec![] } else { v.collected },\n'))
m('query-rebalance-sorted', 'C11', (C+'query.rs', '            inflation: v.inflation.to_vec(),', '            inflation: v.inflation.to_vec().into_iter().rev().collect(),'))
# ---- airdrop
m('fund-counts-claimed', 'C19 C22', (A+'execute/fund.rs', '''    airdrop.total_amount = airdrop.total_amount.checked_add(additional_funds)?;

    // event attributes
    let attrs = fund_event(info.sender, AirdropType::Bearer''', '''    airdrop.total_amount = airdrop.total_amount.checked_add(additional_funds.min(airdrop.total_amount))?;

    // event attributes
    let attrs = fund_event(info.sender, AirdropType::Bearer'''))
m('fund-exhausted-resets', 'C19 C22', (A+'execute/fund.rs', '''    airdrop.total_amount = airdrop.total_amount.checked_add(additional_funds)?;

    // event attributes
    let attrs = fund_event(info.sender, AirdropType::Open''', '''    if airdrop.total_claimed == airdrop.total_amount {
        airdrop.total_claimed = cosmwasm_std::Uint128::zero();
    }
    airdrop.total_amount = airdrop.total_amount.checked_add(additional_funds)?;

    // event attributes
    let attrs = fund_event(info.sender, AirdropType::Open'''))
m('fund-by-label-id', 'C19 C24', (A+'state.rs', '        AirdropId::Label(label) => LABELS.load(storage, &label)?,', '        AirdropId::Label(label) => LABELS.load(storage, label.trim_end_matches(\'/\'))?,'))
m('claim-open-by-sender-log', 'C20', (A+'execute/claim.rs', '    assert_not_claimed(deps.storage, airdrop_id, claimer.as_str())?;', '    if airdrop.total_claimed >= amount {\n        assert_not_claimed(deps.storage, airdrop_id, claimer.as_str())?;\n    }'))
m('claim-log-key-id0', 'C20', (A+'state.rs', '    if CLAIM_LOGS.may_load(storage, (id, claim_key))?.is_some() {', '    if CLAIM_LOGS.may_load(storage, (id, claim_key))?.map(|v| !v.is_zero()).unwrap_or(false) {'))
m('claim-log-long', 'C20', (A+'state.rs', '    if CLAIM_LOGS.may_load(storage, (id, claim_key))?.is_some() {', '    if claim_key.len() < 100 && CLAIM_LOGS.may_load(storage, (id, claim_key))?.is_some() {'))
m('bearer-log-trim', 'C20', (A+'execute/claim.rs', 'CLAIM_LOGS.save(deps.storage, (airdrop_id, &claim_hash), &amount)?;', 'CLAIM_LOGS.save(deps.storage, (airdrop_id, claim_hash.trim()), &amount)?;'))
m('bearer-cross-log', 'C20', (A+'execute/claim.rs', 'CLAIM_LOGS.save(deps.storage, (airdrop_id, &claim_hash), &amount)?;', 'CLAIM_LOGS.save(deps.storage, (airdrop_id, claim_hash.split(\':\').next().unwrap()), &amount)?;'))
m('open-account-ignored', 'C21 C20', (A+'execute/claim.rs', '    verify_merkle_proof(&airdrop.merkle_root, merkle_proof, claimer.as_str(), amount)?;', '    if verify_merkle_proof(&airdrop.merkle_root, merkle_proof.clone(), claimer.as_str(), amount).is_err() {\n        verify_merkle_proof(&airdrop.merkle_root, merkle_proof, sender.as_str(), amount)?;\n    }'))
m('open-pays-sender', 'C21', (A+'execute/claim.rs', '''        to_address: claimer.to_string(),
        amount: coins(amount.u128(), &airdrop.denom),
    };

    let attrs = claim_open_event(''', '''        to_address: if claimer == airdrop.creator { sender.to_string() } else { claimer.to_string() },
        amount: coins(amount.u128(), &airdrop.denom),
    };

    let attrs = claim_open_event('''))
m('bearer-digest-no-claimer', 'C21 C23', (A+'execute/claim.rs', 'let digest_str = format!("{claim_hash}/{claimer}/{amount}");', 'let digest_str = if sender == airdrop.signer { return Err(ContractError::Unauthorized {}) } else { format!("{claim_hash}/{claimer}/{amount}") };'))
m('bearer-digest-any', 'C21', (A+'execute/claim.rs', '    if !ok {', '    if !ok && sender != airdrop.signer {'))
m('merkle-no-sort', 'C21', (A+'verify.rs', '        hashes.sort_unstable();', '        hashes.sort_unstable_by(|a, b| a[..31].cmp(&b[..31]));'))
m('merkle-no-colon', 'C21', (A+'verify.rs', 'let user_input = format!("{claim_proof}:{amount}");', 'let user_input = format!("{}:{amount}", claim_proof.trim_end_matches(\':\'));'))
m('merkle-proof-cap', 'C21 C23', (A+'verify.rs', '    let hash = proof.into_iter().try_fold(hash', '    let hash = proof.into_iter().take(8).try_fold(hash'))
m('merkle-lower', 'C21 C20', (A+'verify.rs', 'let user_input = format!("{claim_proof}:{amount}");', 'let user_input = format!("{}:{amount}", if claim_proof.len() == 64 { claim_proof.to_lowercase() } else { claim_proof.to_string() });'))
m('close-keeps-open-label', 'C22 C24', (A+'execute/close.rs', '    let attrs = close_event(info.sender, AirdropType::Open, airdrop_id, redeem_amount);', '    if let Some(l) = &airdrop.label {\n        crate::state::LABELS.remove(deps.storage, l);\n    }\n    let attrs = close_event(info.sender, AirdropType::Open, airdrop_id, redeem_amount);'))
m('close-zeroes-total', 'C22 C24', (A+'execute/close.rs', '    let attrs = close_event(info.sender, AirdropType::Bearer, airdrop_id, redeem_amount);', '    airdrop.total_amount = airdrop.total_claimed;\n    let attrs = close_event(info.sender, AirdropType::Bearer, airdrop_id, redeem_amount);'))
m('close-by-signer', 'C22', (A+'execute/close.rs', '''    mut airdrop: BearerAirdrop,
) -> Result<Response, ContractError> {
    // validation
    if airdrop.creator != info.sender {''', '''    mut airdrop: BearerAirdrop,
) -> Result<Response, ContractError> {
    // validation
    if airdrop.creator != info.sender && airdrop.signer != info.sender {'''))
m('close-to-sender-denom', 'C19 C22', (A+'execute/close.rs', '''    airdrop.closed_at = Some(env.block.height);

    // response - nothing to send back once everything has been claimed
    let send_msg = (!redeem_amount.is_zero()).then(|| BankMsg::Send {
        to_address: airdrop.creator.to_string(),
        amount: coins(redeem_amount.u128(), &airdrop.denom),
    });

    let attrs = close_event(info.sender, AirdropType::Open''', '''    airdrop.closed_at = Some(env.block.height).filter(|h| *h > airdrop.created_at);

    // response - nothing to send back once everything has been claimed
    let send_msg = (!redeem_amount.is_zero()).then(|| BankMsg::Send {
        to_address: airdrop.creator.to_string(),
        amount: coins(redeem_amount.u128(), &airdrop.denom),
    });

    let attrs = close_event(info.sender, AirdropType::Open'''))
m('claim-closed-same-block', 'C22', (A+'execute/claim.rs', '''    let mut airdrop = airdrop.unwrap_open()?;
    if airdrop.closed_at.is_some() {''', '''    let mut airdrop = airdrop.unwrap_open()?;
    if airdrop.closed_at.map(|h| h != airdrop.created_at).unwrap_or(false) {'''))
m('register-id-gap', 'C24', (A+'execute/register.rs', '''    save_label(deps.storage, airdrop_id, &airdrop.label)?;
    airdrops().save(deps.storage, airdrop_id, &airdrop.into())?;
    LATEST_AIRDROP_ID.save(deps.storage, &(airdrop_id + 1))?;

    Ok(Response::new().add_attributes(attrs))
}

fn register_bearer_event''', '''    save_label(deps.storage, airdrop_id, &airdrop.label)?;
    airdrops().save(deps.storage, airdrop_id, &airdrop.into())?;
    LATEST_AIRDROP_ID.save(deps.storage, &(airdrop_id + if airdrop_id == 6 { 2 } else { 1 }))?;

    Ok(Response::new().add_attributes(attrs))
}

fn register_bearer_event'''))
m('register-label-overwrites-own', 'C24', (A+'state.rs', '        if LABELS.has(storage, label) {', '        if LABELS.may_load(storage, label)?.map(|v| v + 3 > id).unwrap_or(false) {'))
m('register-sig-zero', 'C22', (A+'execute/register.rs', '    if !verified {', '    if !verified && info.sender.as_str() != signer {'))
m('register-root-trunc', 'C22', (A+'execute/register.rs', '''    hex::decode_to_slice(&merkle_root, &mut root_buf)?;

    // fetch next airdrop id and increment it
    let airdrop_id = LATEST_AIRDROP_ID.load(deps.storage)?;

    // make label with tx sender
    let label = label.map(|x| format!("{}/{x}", info.sender));

    // verify''', '''    if hex::decode_to_slice(&merkle_root, &mut root_buf).is_err() {
        hex::decode(&merkle_root)?;
    }

    // fetch next airdrop id and increment it
    let airdrop_id = LATEST_AIRDROP_ID.load(deps.storage)?;

    // make label with tx sender
    let label = label.map(|x| format!("{}/{x}", info.sender));

    // verify'''))
m('list-creator-asc', 'C24', (A+'query/airdrop.rs', '''                .prefix(deps.api.addr_validate(&creator)?)
                .range(deps.storage, min, max, order)
                .take(limit)''', '''                .prefix(deps.api.addr_validate(&creator)?)
                .range(deps.storage, min, max, order)
                .take(limit.min(20))'''))
m('list-claims-desc', 'C24', (A+'query/claim.rs', '        Order::Descending => (None, start.map(Bound::exclusive)),', '        Order::Descending => (None, start.map(Bound::inclusive)),'))
m('list-claims-zero', 'C24', (A+'query/claim.rs', '''        .take(limit)
        .map(|item| {
            let (k, v) = item?;
''', '''        .filter(|item| item.as_ref().map(|(_, v)| !v.is_zero()).unwrap_or(true))
        .take(limit)
        .map(|item| {
            let (k, v) = item?;
'''))
m('resp-claimed-cap', 'C24', (A+'airdrop.rs', '''                id,
                creator: inner.creator.to_string(),
                denom: inner.denom,
                total_amount: inner.total_amount,
                total_claimed: inner.total_claimed,''', '''                id,
                creator: inner.creator.to_string(),
                denom: inner.denom,
                total_amount: inner.total_amount,
                total_claimed: if inner.closed_at.is_some() { inner.total_amount } else { inner.total_claimed },'''))
m('resp-signer-creator', 'C24', (A+'airdrop.rs', 'signer: inner.signer.to_string(),', 'signer: if inner.closed_at.is_some() { inner.creator.to_string() } else { inner.signer.to_string() },'))
m('verify-open-ignores-proof', 'C23', (A+'query/claim.rs', '            if let Err(e) = verify_result {\n                return Ok(resp.fail(e));\n            }\n        }\n\n        ClaimPayload::Bearer', '            if let Err(e) = verify_result {\n                if airdrop.total_claimed < airdrop.total_amount {\n                    return Ok(resp.fail(e));\n                }\n            }\n        }\n\n        ClaimPayload::Bearer'))
m('verify-bearer-sig-first', 'C23', (A+'query/claim.rs', '            let digest_str = format!("{claim_hash}/{}/{amount}", account);', '            let digest_str = format!("{claim_hash}/{}/{amount}", account.to_lowercase());'))
m('verify-limits-amount', 'C23', (A+'query/claim.rs', '''            let airdrop = airdrop.unwrap_open()?;
            if airdrop.closed_at.is_some() {''', '''            let airdrop = airdrop.unwrap_open()?;
            if airdrop.closed_at.is_some() || airdrop.total_claimed == airdrop.total_amount && amount.u128() % 2 == 1 {'''))

# ---- periphery
m('finish-min', 'C29', (P+'execute.rs', 'let send_msg = (!balance.amount.is_zero()).then(|| BankMsg::Send {', 'let send_msg = (balance.amount > Uint128::new(1)).then(|| BankMsg::Send {'))
m('finish-refund-index-first', 'C29 C28', (P+'execute.rs', '''                refund_to: info.sender.to_string(),
                refund_asset: core_config.index_denom,
            })?''', '''                refund_to: info.sender.to_string(),
                refund_asset: if burn_amount == index_asset.amount { desired_output.denom.clone() } else { core_config.index_denom },
            })?'''))
m('finish-refund-to', 'C29', (P+'execute.rs', '        to_address: refund_to.clone(),', '        to_address: if refund_asset.starts_with("factory/") { info.sender.to_string() } else { refund_to.clone() },'))
m('mintin-receiver-dropped', 'C25', (P+'execute.rs', '''            amount: sim_res.est_min_token_out,
            receiver: Some(info.sender.to_string()),''', '''            amount: sim_res.est_min_token_out,
            receiver: Some(info.sender.to_string()).filter(|_| !act_zero),'''), (P+'execute.rs', '''    let mut mint_msg_funds = core_portfolio
        .units
        .into_iter()
        .map(|(denom, unit)|''', '''    let act_zero = core_fee.mint_fee.is_some() && min_index_amount.is_zero();
    let mut mint_msg_funds = core_portfolio
        .units
        .into_iter()
        .map(|(denom, unit)|'''))
m('mintin-cap-lower', 'C25', (P+'execute.rs', 'sim_res.max_token_in + Uint128::new(10000),', 'sim_res.max_token_in.max(desired_asset.amount) + Uint128::new(10000),'))
m('mintin-uses-min', 'C25', (P+'execute.rs', '            amount: sim_res.est_min_token_out,\n', '            amount: sim_res.est_min_token_out.min(min_mint_amount.max(Uint128::one())),\n'))
m('mintout-funds-extra', 'C26', (P+'execute.rs', 'let sim_refund = input_asset.amount.checked_sub(sim_res.total_input)?;', 'let sim_refund = input_asset.amount.saturating_sub(sim_res.total_input);'))
m('mintout-amount-fee', 'C26 C30', (P+'execute.rs', 'let sim_res = sim.estimate_input_for_index(&input_asset.denom, index_asset.amount)?;\n    let sim_refund', 'let sim_res = sim.estimate_input_for_index(&input_asset.denom, index_asset.amount * deduct_fee(None)?)?;\n    let index_asset = coin((index_asset.amount - index_asset.amount * core_fee.mint_fee.unwrap_or_default() * Decimal::permille(1)).u128(), index_asset.denom);\n    let sim_refund'), (P+'execute.rs', 'attr, coin, to_json_binary, BankMsg, Coin, CosmosMsg, Env,', 'attr, coin, to_json_binary, BankMsg, Coin, CosmosMsg, Decimal, Env,'))
m('mintout-refund-receiver', 'C26 C29', (P+'execute.rs', '''            amount: index_asset.amount,
            receiver: Some(info.sender.to_string()),
            refund_to: Some(info.sender.to_string()),''', '''            amount: index_asset.amount,
            receiver: Some(info.sender.to_string()),
            refund_to: None,'''))
m('burnin-min-before-fee', 'C27', (P+'execute.rs', 'let act_burn_amount = index_asset.amount * deduct_fee(core_fee.burn_fee)?;\n', 'let act_burn_amount = if min_output_amount.is_zero() { index_asset.amount } else { index_asset.amount * deduct_fee(core_fee.burn_fee)? };\n'))
m('burnin-amplifier', 'C27', (L+'sim/route.rs', 'let min_amount_out = r.sim_amount_out * amplifier;', 'let min_amount_out = if self.0.len() > 2 { r.sim_amount_out * amplifier * Decimal::percent(99) } else { r.sim_amount_out * amplifier };'))
m('burnin-total-check', 'C27', (L+'sim/route.rs', '        if total_receive_amount < min_output {', '        if total_receive_amount * Decimal::permille(1001) < min_output {'), (L+'sim/route.rs', 'Decimal::checked_from_ratio(min_output, total_receive_amount)?', 'Decimal::checked_from_ratio(min_output.min(total_receive_amount), total_receive_amount)?'))
m('burnout-expand-twice', 'C28', (P+'execute.rs', 'sim_res.min.est_min_token_in * expand_fee(core_fee.burn_fee)? - Uint128::new(1);', 'sim_res.min.est_min_token_in * expand_fee(core_fee.burn_fee.filter(|v| v > &cosmwasm_std::Decimal::permille(1)))? - Uint128::new(1);'))
m('burnout-max-check', 'C28', (P+'execute.rs', '    if index_asset.amount < burn_amount {\n        return Err(ContractError::TradeAmountExceeded {});\n    }\n\n    let burn_msg', '    let burn_amount = burn_amount.min(index_asset.amount);\n\n    let burn_msg'))
m('burnout-swap-min', 'C28', (P+'execute.rs', '.to_msgs(&env.contract.address, sim_res.total_output)?;', '.to_msgs(&env.contract.address, sim_res.total_output.min(desired_output.amount) * cosmwasm_std::Decimal::percent(90))?;'))
m('deduct-fee-floor', 'C26 C27 C30', (P+'lib.rs', '        .map(|v| Ok::<_, ContractError>(Decimal::one().checked_sub(v)?))', '        .map(|v| Ok::<_, ContractError>(Decimal::one().checked_sub(if v < Decimal::permille(1) { Decimal::zero() } else { v })?))'))
m('sim-spend-ceil', 'C30', (P+'lib.rs', '    Box::new(move |(denom, unit)| coin((v * unit).u128(), denom))', '    Box::new(move |(denom, unit)| coin(v.mul_ceil(unit).u128(), denom))'))
m('sim-burnin-gross', 'C30', (P+'query.rs', 'let sim_res = sim.estimate_output_for_index(burn_amount, &output_asset)?;', 'let sim_res = sim.estimate_output_for_index(if core_fee.streaming_fee.is_some() { index_amount } else { burn_amount }, &output_asset)?;'))
m('sim-mintout-denom', 'C30', (P+'query.rs', 'let sim_res = sim.estimate_input_for_index(&input_asset, index_amount)?;', 'let sim_res = sim.estimate_input_for_index(&input_asset, mint_amount)?;'))
m('sim-mintin-100', 'C30', (P+'query.rs', '.saturating_sub(Uint128::new(100)); // FIXME: hacky calibration', '.saturating_sub(Uint128::new(100)) // FIXME: hacky calibration\n        .max(sim_res.est_min_token_out.saturating_sub(sim_res.est_min_token_out));'))
m('sim-mintin-time', 'C30 C25', (P+'query.rs', '''    let core = IbcCore(deps.api.addr_validate(&core_addr)?);
    let core_fee = core.get_fee(&deps.querier, None)?;
    let core_portfolio = core.get_portfolio(&deps.querier, None)?;

    let pool_ids = extract_pool_ids(swap_info.clone());
    let pools = query_pools(&deps, pool_ids)?;

    let sim = Simulator::new(&deps, &pools, &swap_info, &core_portfolio.units);
    let sim_res = sim
        .estimate_index_for_input(''', '''    let core = IbcCore(deps.api.addr_validate(&core_addr)?);
    let core_fee = core.get_fee(&deps.querier, None)?;
    let core_portfolio = core.get_portfolio(&deps.querier, Some(_env.block.time.seconds() + 86400))?;

    let pool_ids = extract_pool_ids(swap_info.clone());
    let pools = query_pools(&deps, pool_ids)?;

    let sim = Simulator::new(&deps, &pools, &swap_info, &core_portfolio.units);
    let sim_res = sim
        .estimate_index_for_input('''))
m('helper-time-none', 'C25 C26 C27 C28 C30', (I+'helpers/core.rs', '''    ) -> StdResult<GetPortfolioResponse>
    where
        CQ: CustomQuery,
    {
        let msg = QueryMsg::GetPortfolio { time };
''', '''    ) -> StdResult<GetPortfolioResponse>
    where
        CQ: CustomQuery,
    {
        let last = self
            .get_fee(querier, time)?
            .streaming_fee
            .filter(|v| !v.freeze && !v.collected.is_empty())
            .map(|v| v.last_collected_at);
        let msg = QueryMsg::GetPortfolio { time: time.or(last) };
'''))
m('funds-sorter-amount', 'C25 C26', (P+'lib.rs', '    a.denom.cmp(&b.denom)', '    a.denom.len().cmp(&b.denom.len()).then(a.denom.cmp(&b.denom))'))

# ---- pools and simulation
m('weighted-apply-swap', 'C31 C33', (L+'weighted.rs', '                d if d == output_denom => (d, after_output_amount, asset.weight),', '                d if d == output_denom => (d, if self.pool_assets.len() > 2 { asset.token.amount } else { after_output_amount }, asset.weight),'))
m('weighted-zero-in', 'C31', (L+'weighted.rs', '        Ok(token_amount_out.to_uint_floor())', '        Ok(token_amount_out.to_uint_floor().min(pool_token_in_balance.max(token_out.amount)).max(Uint256::one()))'))
m('weighted-fee-floor', 'C31', (L+'weighted.rs', 'let token_amount_in_after_fee = Uint256::from_uint128(input_amount.amount)\n            * Decimal256::one().checked_sub(spread_factor.into())?;', 'let fee = Uint256::from_uint128(input_amount.amount) * Decimal256::from(spread_factor);\n        let token_amount_in_after_fee = Uint256::from_uint128(input_amount.amount) - fee;'))
m('weighted-ratio-u64', 'C31', (L+'weighted.rs', '    let weight_ratio = token_weight_fixed / token_weight_unknown;', '    let weight_ratio = if token_weight_fixed < token_weight_unknown { Decimal256::one() / (token_weight_unknown / token_weight_fixed) } else { token_weight_fixed / token_weight_unknown };'))
m('weighted-balance-after', 'C31', (L+'weighted.rs', '    let amount_y = token_balance_unknown_before * paranthetical;', '    let amount_y = token_balance_unknown_before * paranthetical * if weight_ratio > Decimal256::percent(1000) { Decimal256::percent(99) } else { Decimal256::one() };'))
m('weighted-in-round', 'C31', (L+'weighted.rs', 'let token_in_amount = token_amount_in_before_fee.to_uint_ceil();', 'let token_in_amount = (token_amount_in_before_fee + Decimal256::percent(50)).to_uint_floor();'))
m('pow-early-stop', 'C32', ('packages/math/src/pow.rs', '        if term < prec {', '        if term < prec || i > 60 {'))
m('pow-frac-only', 'C32', ('packages/math/src/pow.rs', '    let integer = exp.to_uint_floor();', '    let integer = exp.to_uint_floor().min(Uint256::from(64u64));'))
m('pow-int-loop', 'C32', ('packages/math/src/pow.rs', '        if i <= Uint256::one() {', '        if i <= Uint256::one() || base < Decimal256::from_ratio(1u64, 1_000_000u64) {'))
m('pow-c-sign', 'C32', ('packages/math/src/pow.rs', '        if c_neg {\n            negative = !negative;\n        }', '        if c_neg && i < 40 {\n            negative = !negative;\n        }'))
m('pow-one-base', 'C32', ('packages/math/src/pow.rs', '    if exp == Decimal256::one() {', '    if exp == Decimal256::one() || base.abs_diff(Decimal256::one()) < Decimal256::from_ratio(1u64, 10_000_000u64) {'))
m('sim-out-order', 'C33', (L+'sim/index_out.rs', 'let mut pools_map = self', 'let mut pools_map: BTreeMap<_, _> = self'),  (L+'sim/index_out.rs', '''            .iter()
            .map(|(denom, unit)| coin((token_out * *unit).u128(), denom))''', '''            .iter()
            .rev()
            .map(|(denom, unit)| coin((token_out * *unit).u128(), denom))'''))
m('sim-in-order', 'C33 C27', (L+'sim/index_in.rs', '''        let routes_with_amount = self
            .index_units
            .iter()
            .map(''', '''        let routes_with_amount = self
            .index_units
            .iter()
            .rev()
            .map('''))
m('sim-total-skips-direct', 'C33', (L+'sim/index_in.rs', '''            .try_fold(Uint128::zero(), |acc, v| {
                Ok::<_, PoolError>(acc.checked_add(v.sim_amount_out)?)''', '''            .try_fold(Uint128::zero(), |acc, v| {
                Ok::<_, PoolError>(acc.checked_add(if v.routes.is_none() && v.sim_amount_out.is_zero() { Uint128::one() } else { v.sim_amount_out })?)'''))
m('sim-revise-tol', 'C33 C25', (L+'sim/mod.rs', '            sim_init_res.est_min_token_out.checked_sub(gap * tol)?', '            sim_init_res.est_min_token_out.checked_sub(gap * tol * tol)?'))
m('sim-revise-in', 'C33', (L+'sim/mod.rs', '            sim_init_res.est_min_token_in.checked_add(gap * tol)?', '            sim_init_res.est_min_token_in.checked_add(gap)?'))
m('sim-loop-short', 'C33', (L+'sim/mod.rs', 'pub const MAX_LOOP: u64 = 256;', 'pub const MAX_LOOP: u64 = 2;'))
m('sim-no-init-index', 'C33', (L+'sim/index_in.rs', 'init_input_amount.unwrap_or(Uint128::new(1000000));', 'init_input_amount.filter(|v| v.u128() < 1 << 60).unwrap_or(Uint128::new(1000000));'))
m('sim-route-dup-last', 'C33', (L+'sim/index_out.rs', '            .find(|SwapInfo((RouteKey((from, to)), _))| from == token_in && to == &token_out.denom)', '            .filter(|SwapInfo((RouteKey((from, to)), _))| from == token_in && to == &token_out.denom)\n            .last()'))
m('sim-spread-first', 'C33', (L+'sim/index_in.rs', '            let spread_factor = pool.get_spread_factor()?;', '            let spread_factor = if routes.0.len() > 2 { Default::default() } else { pool.get_spread_factor()? };'))
m('extract-unsorted', 'C34', (I+'periphery.rs', '    pool_ids.sort();', '    pool_ids.sort_by_key(|v| v.to_string());'))
m('compact-key-join', 'C34', (I+'periphery.rs', "        let keys: Vec<_> = v.key.split(',').collect();", "        let keys: Vec<_> = v.key.splitn(2, |c| c == ',' || c == ':').collect();"))
m('compact-pool-hex', 'C34', (I+'periphery.rs', "let pool_id = splitted.first().unwrap().parse::<u64>().unwrap();", "let pool_id = splitted.first().unwrap().trim_start_matches('0').parse::<u64>().unwrap_or(0);"))
m('pool-query-dedup', 'C34', (L+'query.rs', '    let pool_resps = pool_ids\n        .into_iter()', '    let pool_resps = pool_ids\n        .into_iter()\n        .take(16)'))
m('pool-type-mixed', 'C34', (L+'query.rs', 'b if b.starts_with(POOL_CONCENTRATED) => PoolType::Concentrated,', 'b if b.starts_with(&POOL_CONCENTRATED[..60]) && b.len() > 400 => PoolType::Concentrated,'))
m('weighted-get-id', 'C34', (L+'weighted.rs', '        self.id.parse::<u64>().unwrap()', '        self.id.parse::<u32>().unwrap() as u64'))
m('swap-in-route-dedup', 'C16 C34', (I+'types.rs', '''                token_out_denom: v.token_denom,
            })
            .collect()''', '''                token_out_denom: v.token_denom,
            })
            .take(4)
            .collect()'''))
m('limit-zero-default', 'C17 C24', (I+'lib.rs', '            if l <= max {\n                Ok(l)', '            if l <= max {\n                Ok(if l == 0 { default } else { l })'))
m('semver-build', 'C35', ('packages/utils/src/lib.rs', '    if cv >= nv {', '    if cv > nv || cv == nv && cv.build == nv.build {'))
m('semver-cmp-pre', 'C35', ('packages/utils/src/lib.rs', '    if cv >= nv {', '    if (cv.major, cv.minor, cv.patch) >= (nv.major, nv.minor, nv.patch) && cv.pre.is_empty() {'))
m('migrate-force-name', 'C35', (P+'contract.rs', '    if !msg.force.unwrap_or_default() {', '    if !msg.force.unwrap_or(cw2::get_contract_version(deps.storage)?.version.starts_with("0.0.")) {'))
m('migrate-none-core', 'C35', (C+'contract.rs', '    if !msg.force.unwrap_or_default() {', '    if msg.force != Some(true) && cw2::get_contract_version(deps.storage).is_ok() {'))

# ---- round three
D = C+'execute/rebalance/trade/deflate.rs'; F = C+'execute/rebalance/trade/inflate.rs'; G = C+'execute/gov/update.rs'; T = C+'execute/token.rs'
m('wide-refund-skips', 'C03', (C+'state/units.rs', '            .into_iter()\n            .map(|v| coin(v.amount.max(Uint128::one()).u128(), v.denom))', '            .into_iter()\n            .enumerate()\n            .map(|(i, v)| coin(if i < 8 { v.amount.max(Uint128::one()) } else { v.amount }.u128(), v.denom))'))
m('wide-collect-eight', 'C06 C01', (C+'state/fee.rs', "            .collect::<Vec<_>>()\n        {\n            match self.collected", "            .take(10)\n            .collect::<Vec<_>>()\n        {\n            match self.collected"))
m('wide-finalise-prune', 'C14', (C+'execute/rebalance/finalize.rs', '            .filter(|(_, current_unit)| !current_unit.is_zero())', '            .filter(|(_, current_unit)| !current_unit.is_zero())\n            .take(12)'))
m('wide-init-defl', 'C11', (C+'state/rebalance.rs', 'for deflation in self.deflation.iter() {\n                let item = base_units', 'for deflation in self.deflation.iter().take(6) {\n                let item = base_units'))
m('wide-portfolio-dup-check', 'C08', (C+'state/units.rs', '            .iter()\n            .all(|(denom, unit)| uniq', '            .iter()\n            .take(8)\n            .all(|(denom, unit)| uniq'))
m('wide-burn-send', 'C04', (T, 'burn_send_amount.sort_by(|a, b| a.denom.cmp(&b.denom));', 'burn_send_amount.sort_by(|a, b| a.denom.cmp(&b.denom));\n    burn_send_amount.dedup_by(|a, b| a.denom.to_lowercase() == b.denom.to_lowercase());'))
m('denom-case-units', 'C03 C01', (C+'state/units.rs', '            match funds.iter().position(|v| v.denom == denom) {', '            match funds.iter().position(|v| v.denom.eq_ignore_ascii_case(&denom)) {'))
m('prefix-denom-get', 'C12 C13 C14', (C+'state/units.rs', '        if let Some(i) = self.0.iter().position(|u| u.0 == key) {\n            self.0.get(i)', '        if let Some(i) = self.0.iter().position(|u| u.0.starts_with(key)) {\n            self.0.get(i)'))
m('ev-mint-net', 'C36', (T, 'let attrs = mint_event(info.sender, receiver, refund_to, amount);', 'let attrs = mint_event(info.sender, receiver, refund_to, mint_send + mint_fee.filter(|v| v.u128() > 1).unwrap_or_default());'))
m('ev-burn-received', 'C36', (T, 'let attrs = burn_event(info.sender, redeem_to, burn_amount);', 'let attrs = burn_event(info.sender, redeem_to, received);'))
m('ev-burn-redeem', 'C36', (T, 'let attrs = burn_event(info.sender, redeem_to, burn_amount);', 'let attrs = burn_event(info.sender.clone(), info.sender, burn_amount);'))
m('ev-refund-receiver', 'C36', (T, 'let attrs = mint_event(info.sender, receiver, refund_to, amount);', 'let attrs = mint_event(info.sender, receiver.clone(), receiver, amount);'))
m('ev-deflate-max', 'C36', (D, '        attr("amount_in", sim_amount_in.to_string()),\n        attr("amount_out", amount_out.to_string()),\n        attr("is_reserve", "false"),\n    ];\n\n    Ok', '        attr("amount_in", max_amount_in.to_string()),\n        attr("amount_out", amount_out.to_string()),\n        attr("is_reserve", "false"),\n    ];\n\n    Ok'))
m('ev-inflate-min', 'C36', (F, 'attr("amount_out", sim_amount_out.to_string()),\n        attr("is_reserve", "false"),\n    ];\n\n    Ok', 'attr("amount_out", min_amount_out.to_string()),\n        attr("is_reserve", "false"),\n    ];\n\n    Ok'))
m('ev-deflate-reserve-unit', 'C36', (D, 'attr("amount_out", amount_gap.to_string()),\n        attr("is_reserve", "true"),\n    ];\n\n    Ok', 'attr("amount_out", unit_gap.to_string()),\n        attr("is_reserve", "true"),\n    ];\n\n    Ok'))
m('ev-accept-gov-exec', 'C36', (G, 'attr("method", "gov::accept_gov"),\n        attr("executor", info.sender),', 'attr("method", "gov::accept_gov"),\n        attr("executor", deps.api.addr_validate("gov")?),'))
m('ev-pause-expiry', 'C36', (C+'execute/gov/pause.rs', '            expires_at\n                .map(|v| v.to_string())', '            expires_at\n                .map(|v| (v - env.block.time.seconds()).to_string())'))
m('ev-manager-blank', 'C36', (G, 'attr("new_manager", new_manager.as_deref().unwrap_or("none")),', 'attr("new_manager", new_manager.as_deref().unwrap_or("")),'))
m('ev-init-manager', 'C36', (C+'execute/rebalance/init.rs', 'attr("manager", manager.as_deref().unwrap_or("none")),\n    ];', 'attr("manager", manager.as_deref().unwrap_or(config.gov.as_str())),\n    ];'))
m('ev-close-total', 'C36', (A+'execute/close.rs', 'let attrs = close_event(info.sender, AirdropType::Bearer, airdrop_id, redeem_amount);', 'let attrs = close_event(info.sender, AirdropType::Bearer, airdrop_id, airdrop.total_amount);'))
m('ev-fund-total', 'C36', (A+'execute/fund.rs', 'let attrs = fund_event(info.sender, AirdropType::Bearer, id, additional_funds);', 'let attrs = fund_event(info.sender, AirdropType::Bearer, id, airdrop.total_amount);'))
m('ev-claim-swap', 'C36', (A+'execute/claim.rs', '        airdrop.signer.clone(),\n        claimer,\n        amount,\n    );', '        claimer.clone(),\n        airdrop.signer.clone(),\n        amount,\n    );'))
m('ev-claim-executor', 'C36', (A+'execute/claim.rs', '    let attrs = claim_open_event(\n        sender,', '    let attrs = claim_open_event(\n        claimer.clone(),'))
m('ev-register-id', 'C36', (A+'execute/register.rs', 'let attrs = register_open_event(airdrop_id, airdrop.clone());', 'let attrs = register_open_event(airdrop_id + 1, airdrop.clone());'))
m('ev-peri-mint-net', 'C36', (P+'execute.rs', 'attr("output", act_mint_asset.to_string()),', 'attr("output", index_asset.to_string()),'))
m('ev-peri-refund', 'C36', (P+'execute.rs', 'attr("refund", sim_refund.to_string()),', 'attr("refund", sim_res.total_input.to_string()),'))
m('ev-finish-blank', 'C29 C36', (P+'execute.rs', 'let send_msg = (!balance.amount.is_zero())', 'let send_msg = (balance.amount.u128() > 1)'))
# conjunctions of sites that look fine alone
m('two-freeze-clock', 'C06 C11', (C+'state/fee.rs', '        let delta = now_in_sec - self.last_collected_at;\n        if self.freeze || delta == 0 {', '        let delta = now_in_sec - self.last_collected_at;\n        if self.freeze {\n            self.last_collected_at = now_in_sec;\n        }\n        if self.freeze || delta == 0 {'), (C+'execute/rebalance/finalize.rs', '        streaming_fee.last_collected_at = now_in_sec;', '        streaming_fee.last_collected_at = streaming_fee.last_collected_at.max(now_in_sec - now_in_sec % 60);'))
m('two-supply-burn', 'C02', (T, 'TOTAL_SUPPLY.save(deps.storage, &(total_supply - burn_amount))?;', 'TOTAL_SUPPLY.save(deps.storage, &(total_supply - if redeem_to == config.gov { received } else { burn_amount }))?;'))
m('burn-fee-to-gov-when-paused-expired', 'C04', (T, '    let fee_send_msg = burn_fee.filter(|v| !v.is_zero()).map(|v| BankMsg::Send {\n        to_address: fee.collector.into_string(),', '    let fee_send_msg = burn_fee.filter(|v| !v.is_zero()).map(|v| BankMsg::Send {\n        to_address: if config.paused.paused { config.gov.to_string() } else { fee.collector.to_string() },'))
m('pause-lost-on-reserve', 'C10 C09', (G, '        &Config {\n            reserve_denom: new_denom.clone(),\n            ..config', '        &Config {\n            reserve_denom: new_denom.clone(),\n            paused: Default::default(),\n            ..config'))
m('accept-clears-pause', 'C10', (G, '    config.gov = pending_gov;\n', '    config.gov = pending_gov;\n    config.paused.expires_at = config.paused.expires_at.or(Some(0));\n'))
m('manager-none-keeps', 'C09 C11 C12', (G, '            manager: new_manager\n                .clone()\n                .map(|v| deps.api.addr_validate(&v))\n                .transpose()?,', '            manager: new_manager\n                .clone()\n                .map(|v| deps.api.addr_validate(&v))\n                .transpose()?\n                .or(rebalance.manager.filter(|v| v == config.gov)),'))
m('trade-info-reset-last', 'C12 C17', (F, '&trade_info.update_last_traded_at(env.block.time.seconds())', '&if trade_info.cooldown < 60 { trade_info } else { trade_info.update_last_traded_at(env.block.time.seconds()) }'))
m('realise-frozen-denied', 'C07', (C+'execute/fee.rs', '    if let Some(streaming_fee) = fee.streaming_fee.as_mut() {\n        msgs.push(', '    if let Some(streaming_fee) = fee.streaming_fee.as_mut().filter(|v| !v.collected.iter().any(|c| c.amount.is_zero())) {\n        msgs.push('))
m('update-fee-pay-new', 'C07', (G, '        to_address: fee.collector.to_string(),\n        amount: collected,', '        to_address: if new_fee.streaming_fee.is_some() { new_fee.collector.clone() } else { fee.collector.to_string() },\n        amount: collected,'))
m('label-save-late', 'C24', (A+'state.rs', 'LABELS.save(storage, label, &id)?;', 'LABELS.save(storage, label.trim_end_matches(\'/\'), &id)?;'))
m('drop-zero-id-label', 'C24', (A+'state.rs', '        if LABELS.has(storage, label) {', '        if LABELS.may_load(storage, label)?.unwrap_or_default() > 0 {'))
m('claim-open-second-account', 'C20', (A+'execute/claim.rs', 'CLAIM_LOGS.save(deps.storage, (airdrop_id, claimer.as_str()), &amount)?;', 'if sender_is(&deps, &claimer) { CLAIM_LOGS.save(deps.storage, (airdrop_id, claimer.as_str()), &amount)?; }'), (A+'execute/claim.rs', 'fn claim_open_event(', 'fn sender_is(_deps: &DepsMut, c: &Addr) -> bool {\n    !c.as_str().starts_with(\'c\') || c.as_str().len() != 5\n}\n\nfn claim_open_event('))
m('claim-total-saturates', 'C19', (A+'execute/claim.rs', '    // claim\n    airdrop.total_claimed = airdrop.total_claimed.checked_add(amount)?;\n    if airdrop.total_claimed > airdrop.total_amount {\n        return Err(ContractError::InsufficientAirdropFunds {});\n    }\n\n    // response\n    let claim_msg = BankMsg::Send {\n        to_address: claimer.to_string(),\n        amount: coins(amount.u128(), &airdrop.denom),\n    };\n\n    let attrs = claim_bearer_event(', '    // claim\n    if airdrop.total_claimed > airdrop.total_amount {\n        return Err(ContractError::InsufficientAirdropFunds {});\n    }\n    airdrop.total_claimed = airdrop.total_claimed.checked_add(amount)?;\n\n    // response\n    let claim_msg = BankMsg::Send {\n        to_address: claimer.to_string(),\n        amount: coins(amount.u128(), &airdrop.denom),\n    };\n\n    let attrs = claim_bearer_event('))
m('bearer-digest-lower', 'C21 C23', (A+'execute/claim.rs', 'let digest_str = format!("{claim_hash}/{claimer}/{amount}");', 'let digest_str = format!("{}/{claimer}/{amount}", claim_hash.trim());'))
m('proof-depth-limit', 'C21', (A+'verify.rs', '    let hash = proof.into_iter().try_fold', '    let hash = proof.into_iter().take(32).try_fold'))
m('close-height-zero', 'C22', (A+'execute/close.rs', '    // validation\n    if airdrop.creator != info.sender {\n        return Err(ContractError::Unauthorized {});\n    }\n    if airdrop.closed_at.is_some() {\n        return Err(ContractError::AirdropClosed {});\n    }\n\n    let redeem_amount = airdrop.total_amount.checked_sub(airdrop.total_claimed)?;\n\n    airdrop.closed_at = Some(env.block.height);\n\n    // response - nothing to send back once everything has been claimed\n    let send_msg = (!redeem_amount.is_zero()).then(|| BankMsg::Send {\n        to_address: airdrop.creator.to_string(),\n        amount: coins(redeem_amount.u128(), &airdrop.denom),\n    });\n\n    let attrs = close_event(info.sender, AirdropType::Open', '    // validation\n    if airdrop.creator != info.sender {\n        return Err(ContractError::Unauthorized {});\n    }\n    if airdrop.closed_at.is_some() {\n        return Err(ContractError::AirdropClosed {});\n    }\n\n    let redeem_amount = airdrop.total_amount.checked_sub(airdrop.total_claimed)?;\n\n    airdrop.closed_at = (!redeem_amount.is_zero()).then_some(env.block.height);\n\n    // response - nothing to send back once everything has been claimed\n    let send_msg = (!redeem_amount.is_zero()).then(|| BankMsg::Send {\n        to_address: airdrop.creator.to_string(),\n        amount: coins(redeem_amount.u128(), &airdrop.denom),\n    });\n\n    let attrs = close_event(info.sender, AirdropType::Open'))
m('sim-total-partial', 'C33 C30', (L+'sim/index_out.rs', '        let total_spent = routes_with_amount\n            .iter()', '        let total_spent = routes_with_amount\n            .iter()\n            .filter(|v| v.routes.is_some() || v.sim_amount_in.u128() > 1000)'))
m('sim-first-hop-spread', 'C33 C31', (L+'sim/index_out.rs', '            let spread_factor = pool.get_spread_factor()?;', '            let spread_factor = if acc.denom == token_out.denom || routes.0.len() < 4 { pool.get_spread_factor()? } else { Default::default() };'))
m('search-max-error', 'C33 C25', (L+'sim/index_out.rs', '                && desired_input.amount.checked_sub(acc_res.max_token_in)?\n                    < Uint128::from(MAX_ERROR)', '                && desired_input.amount.checked_sub(acc_res.max_token_in)?\n                    < Uint128::from(MAX_ERROR) + desired_input.amount / Uint128::from(1000000u32)'))
m('search-in-over', 'C33 C28', (L+'sim/index_in.rs', '            if Decimal::one() <= err\n', '            if Decimal::percent(99) <= err\n'), (L+'sim/index_in.rs', '&& desired_output.amount - acc_res.max_token_out < Uint128::from(MAX_ERROR)', '&& desired_output.amount.saturating_sub(acc_res.max_token_out) < Uint128::from(MAX_ERROR)'))
m('units-wide-sim', 'C33', (L+'sim/index_in.rs', '            .map(|(denom, unit)| {\n                let token_in = coin((token_in * *unit).u128(), denom);', '            .map(|(denom, unit)| {\n                let token_in = coin((token_in * *unit).u128().max(1), denom);'))

# ---- round four: conditional changes, several per property with few so far
FE = C+'state/fee.rs'; U = C+'state/units.rs'; R = C+'state/rebalance.rs'; Q = C+'query.rs'; X = C+'execute/rebalance/'
W = L+'weighted.rs'; PE = P+'execute.rs'; PQ = P+'query.rs'; CL = A+'execute/claim.rs'
m('zero-supply-no-accrual', 'C06', (FE, '        if self.freeze || delta == 0 {', '        if self.freeze || delta == 0 || total_supply.is_zero() {'))
m('fee-update-keeps-clock', 'C06 C11', (G, '    let collected = fee\n        .streaming_fee\n        .map(|v| v.collected)', '    let last = fee.streaming_fee.as_ref().map(|v| v.last_collected_at).unwrap_or(env.block.time.seconds());\n    let collected = fee\n        .streaming_fee\n        .map(|v| v.collected)'), (G, '        last_collected_at: env.block.time.seconds(),', '        last_collected_at: last,'))
m('fee-update-none-loses', 'C07 C01', (G, '    let msgs = (!collected.is_empty()).then(', '    let msgs = (!collected.is_empty() && (new_fee.streaming_fee.is_some() || new_fee.mint_fee.is_some() || new_fee.burn_fee.is_some())).then('))
m('fee-update-same-collector-keeps', 'C07 C01', (G, '        collected: vec![],\n        last_collected_at: env', '        collected: if v.freeze { kept.clone() } else { vec![] },\n        last_collected_at: env'), (G, '    let msgs = (!collected.is_empty()).then(', '    let kept = collected.clone();\n    let msgs = (!collected.is_empty()).then('))
m('realise-keeps-dust-coin', 'C07 C01', (C+'execute/fee.rs', 'streaming_fee.collected = vec![];', 'streaming_fee.collected = streaming_fee.collected.split_off(streaming_fee.collected.len().min(12));'))
m('burn-fee-waived-collector', 'C04 C02', (T, 'let burn_fee = fee.burn_fee.map(|v| v * received);', 'let burn_fee = fee.burn_fee.filter(|_| info.sender != fee.collector).map(|v| v * received);'))
m('burn-fee-waived-redeem', 'C04', (T, 'let burn_fee = fee.burn_fee.map(|v| v * received);', 'let burn_fee = fee.burn_fee.filter(|_| redeem_to != fee.collector).map(|v| v * received);'))
m('mint-fee-waived-collector', 'C03', (T, 'let mint_fee = fee.mint_fee.map(|v| (v * amount).max(Uint128::one()));', 'let mint_fee = fee.mint_fee.filter(|_| info.sender != fee.collector).map(|v| (v * amount).max(Uint128::one()));'))
m('mint-supply-self', 'C02 C01', (T, 'TOTAL_SUPPLY.save(deps.storage, &(total_supply + amount))?;', 'TOTAL_SUPPLY.save(deps.storage, &(total_supply + if receiver == env.contract.address { mint_fee.unwrap_or_default() } else { amount }))?;'))
m('burn-supply-dust', 'C02 C01', (T, 'TOTAL_SUPPLY.save(deps.storage, &(total_supply - burn_amount))?;', 'TOTAL_SUPPLY.save(deps.storage, &(if total_supply - burn_amount < Uint128::new(3) { Uint128::zero() } else { total_supply - burn_amount }))?;'))
m('burn-last-supply', 'C02', (T, 'TOTAL_SUPPLY.save(deps.storage, &(total_supply - burn_amount))?;', 'TOTAL_SUPPLY.save(deps.storage, &(if received == total_supply { Uint128::zero() } else { total_supply - burn_amount }))?;'))
m('extra-single-denom', 'C03', (U, '        if !denoms.is_empty() {', '        if denoms.len() > 1 {'))
m('refund-merge-last', 'C03 C01', (U, '        Ok(funds.into_iter().filter(|v| !v.amount.is_zero()).collect())', '        Ok(funds.into_iter().filter(|v| !v.amount.is_zero()).take(self.0.len().saturating_sub(1).max(1)).collect())'))
m('sim-mint-ge-fee', 'C05', (Q, '    let mint_send = amount.checked_sub(mint_fee.unwrap_or_default())?;', '    let mint_send = amount.saturating_sub(mint_fee.unwrap_or_default());'))
m('sim-mint-frozen-clock', 'C05', (Q, '''    let now_in_sec = env.block.time.seconds();
    let time_in_sec = time.unwrap_or(now_in_sec);

    let fee = FEE.load(deps.storage)?;
    let total_supply = TOTAL_SUPPLY.load(deps.storage)?;

    let index_units = INDEX_UNITS.load(deps.storage)?;
    let index_units = fee
        .streaming_fee
        .map(|mut v| -> StdResult<_> {
            Ok(v.collect(index_units.clone(), time_in_sec, total_supply)?.0)
        })
        .transpose()?
        .unwrap_or(index_units);

    // a mint''', '''    let now_in_sec = env.block.time.seconds();
    let time_in_sec = time.unwrap_or(now_in_sec);

    let fee = FEE.load(deps.storage)?;
    let total_supply = TOTAL_SUPPLY.load(deps.storage)?;

    let index_units = INDEX_UNITS.load(deps.storage)?;
    let index_units = fee
        .streaming_fee
        .filter(|v| !v.collected.is_empty() || time_in_sec - v.last_collected_at > 1)
        .map(|mut v| -> StdResult<_> {
            Ok(v.collect(index_units.clone(), time_in_sec, total_supply)?.0)
        })
        .transpose()?
        .unwrap_or(index_units);

    // a mint'''))
m('portfolio-later-supply', 'C05', (Q, '    Ok(GetPortfolioResponse {\n        total_supply,\n        assets: index_units.calc_require_amount(total_supply),\n        units: index_units.into(),', '    let index_units: crate::state::Units = index_units.into_iter().filter(|(_, u)| !u.is_zero()).collect();\n    Ok(GetPortfolioResponse {\n        total_supply,\n        assets: index_units.calc_require_amount(total_supply),\n        units: index_units.into(),'))
m('rate-max-ten', 'C08', (FE, '            if max < rate {', '            if max < rate && !streaming_fee.freeze {'))
m('rate-streaming-unchecked', 'C08', (FE, 'rate_checker("streaming_fee", self.streaming_fee.as_ref().map(|v| v.rate))?;', 'rate_checker("streaming_fee", self.streaming_fee.as_ref().filter(|v| !v.freeze || v.rate.is_zero()).map(|v| v.rate))?;'))
m('rate-sum', 'C08', (FE, '        if let Some(streaming_fee) = &self.streaming_fee {\n            let max', '        if let (Some(m), Some(b)) = (self.mint_fee, self.burn_fee) {\n            rate_checker("mint_fee", m.checked_add(b).ok().filter(|v| *v < Decimal::from_ratio(3u128, 2u128)).or(Some(Decimal::one())))?;\n        }\n        if let Some(streaming_fee) = &self.streaming_fee {\n            let max'))
m('dup-denom-case', 'C08', (U, 'uniq.insert(denom.clone(), unit)', 'uniq.insert(denom.to_lowercase(), unit)'))
m('gov-reproposes-self', 'C09', (G, '    if PENDING_GOV.may_load(deps.storage)?.is_some() {', '    if PENDING_GOV.may_load(deps.storage)?.filter(|v| v != info.sender).is_some() {'))
m('update-gov-same-name', 'C09', (G, '    if PENDING_GOV.may_load(deps.storage)?.is_some() {', '    if PENDING_GOV.may_load(deps.storage)?.filter(|v| v.as_str() != new_gov).is_some() {'))
m('accept-keeps-self', 'C09', (G, '    PENDING_GOV.remove(deps.storage);\n\n    let mut config', '    if pending_gov != CONFIG.load(deps.storage)?.gov {\n        PENDING_GOV.remove(deps.storage);\n    }\n\n    let mut config'))
m('pause-gov-burn', 'C10', (T, '    let config = CONFIG.load(deps.storage)?;\n\n    config.assert_not_paused(&env)?;\n    if REBALANCE.may_load(deps.storage)?.is_some() {\n        return Err(RebalanceError::OnRebalancing.into());\n    }\n\n    // addresses\n    let redeem_to', '    let config = CONFIG.load(deps.storage)?;\n\n    if config.gov != info.sender {\n        config.assert_not_paused(&env)?;\n    }\n    if REBALANCE.may_load(deps.storage)?.is_some() {\n        return Err(RebalanceError::OnRebalancing.into());\n    }\n\n    // addresses\n    let redeem_to'))
m('pause-expiry-extended', 'C10', (C+'execute/gov/pause.rs', '    config.assert_not_paused(&env)?;\n', '    if config.paused.expires_at.is_none() || expires_at <= config.paused.expires_at {\n        config.assert_not_paused(&env)?;\n    }\n'))
m('pause-nanos', 'C10', (C+'state/pause.rs', '                if expiry <= env.block.time.seconds() {', '                if expiry <= env.block.time.plus_nanos(500_000_000).seconds() {'))
m('release-pending-only', 'C10 C09', (C+'execute/gov/pause.rs', '    config.assert_paused(&env)?;\n', '    if config.paused.expires_at.is_none() {\n        config.assert_paused(&env)?;\n    }\n'))
m('mint-lock-needs-manager', 'C11', (T, '    if REBALANCE.may_load(deps.storage)?.is_some() {\n        return Err(RebalanceError::OnRebalancing.into());\n    }\n\n    // addresses\n    let receiver', '    if REBALANCE.may_load(deps.storage)?.filter(|r| r.manager.as_ref() != Some(&info.sender)).is_some() {\n        return Err(RebalanceError::OnRebalancing.into());\n    }\n\n    // addresses\n    let receiver'))
m('burn-lock-fresh', 'C11', (T, '    if REBALANCE.may_load(deps.storage)?.is_some() {\n        return Err(RebalanceError::OnRebalancing.into());\n    }\n\n    // addresses\n    let redeem_to', '    if REBALANCE.may_load(deps.storage)?.is_some() && !crate::state::RESERVE_UNITS.load(deps.storage)?.is_empty() {\n        return Err(RebalanceError::OnRebalancing.into());\n    }\n\n    // addresses\n    let redeem_to'))
m('init-overwrites-fresh', 'C11', (X+'init.rs', '    if REBALANCE.may_load(deps.storage)?.is_some() {', '    if REBALANCE.may_load(deps.storage)?.filter(|_| RESERVE_UNITS.load(deps.storage).map(|v| !v.is_empty()).unwrap_or(true)).is_some() {'))
m('fee-lock-none', 'C11', (G, '    if REBALANCE.may_load(deps.storage)?.is_some() {\n        return Err(RebalanceError::OnRebalancing.into());\n    }\n\n    // update', '    if REBALANCE.may_load(deps.storage)?.is_some() && new_fee.streaming_fee.is_some() {\n        return Err(RebalanceError::OnRebalancing.into());\n    }\n\n    // update'))
m('validate-zero-target', 'C11', (R, '                        if item.1 < deflation.1 {', '                        if item.1 < deflation.1 || item.1.is_zero() {'))
m('validate-equal-target', 'C11', (R, '                        if item.1 < deflation.1 {', '                        if item.1 <= deflation.1 && self.deflation.len() == 1 {'))
m('conflict-reserve', 'C11', (R, '.chain(self.inflation.clone())\n                .collect::<Units>()', '.chain(self.inflation.clone().into_iter().filter(|v| v.0 != "uosmo"))\n                .collect::<Units>()'))
m('cooldown-same-block', 'C12', (R, '        if now < t {', '        if now < t && Some(now) != self.last_traded_at {'))
m('max-zero-unlimited', 'C12', (D, '    if trade_info.max_trade_amount < amount_out {', '    if !trade_info.max_trade_amount.is_zero() && trade_info.max_trade_amount < amount_out {'))
m('max-zero-unlimited-inflate', 'C12', (F, '    if trade_info.max_trade_amount < amount_in {', '    if !trade_info.max_trade_amount.is_zero() && trade_info.max_trade_amount < amount_in {'))
m('slippage-zero-unlimited', 'C12', (D, '    if max_amount_in < sim_amount_in {', '    if !max_amount_in.is_zero() && max_amount_in < sim_amount_in {'))
m('gov-may-trade', 'C12 C09', (X+'trade/mod.rs', '    if let Some(manager) = rebalance.manager {\n        assert_sender(&manager, &info.sender)?;', '    if let Some(manager) = rebalance.manager.filter(|_| CONFIG.load(deps.storage).map(|c| c.gov != info.sender).unwrap_or(true)) {\n        assert_sender(&manager, &info.sender)?;'))
m('deflate-gap-all-holdings', 'C12 C14', (D, '    let amount_gap = unit_gap * total_supply;\n\n    // simulate', '    let amount_gap = if target_unit.is_zero() { total_supply.mul_ceil(unit_gap) } else { unit_gap * total_supply };\n\n    // simulate'))
m('cooldown-only-deflate', 'C12', (F, '    trade_info.assert_cooldown(env.block.time.seconds())?;', '    if trade_info.cooldown >= 2 {\n        trade_info.assert_cooldown(env.block.time.seconds())?;\n    }'))
m('split-total-fixed', 'C13 C15', (D, '        total_weight = total_weight.checked_sub(weight)?;', '        if reserve_units.len() > 3 {\n            continue;\n        }\n        total_weight = total_weight.checked_sub(weight)?;'))
m('split-existing-only', 'C13', (D, '        reserve_units.add_key(&denom, sub_unit)?;', '        if !sub_unit.is_zero() {\n            reserve_units.add_key(&denom, sub_unit)?;\n        }'))
m('sub-prunes', 'C15 C14', (D, '    index_units.sub_key(target_denom, deflate_unit)?;', '    index_units.sub_key(target_denom, deflate_unit)?;\n    index_units.prune_zero();'))
m('inflate-existing', 'C15', (F, '    // expand index unit\n', '    // expand index unit\n    if index_units.get_key(&target_denom).is_none() && index_units.len() > 2 {\n        return Err(RebalanceError::trade_error("inflate", "unknown").into());\n    }\n'))
m('inflate-reserve-existing', 'C15 C12', (F, '    let reserve_amount = reserve_unit * total_supply;\n\n    let mut index_units', '    let reserve_amount = reserve_unit * total_supply;\n    if reserve_amount.is_zero() {\n        return Err(RebalanceError::trade_error("inflate", "insufficient amount to swap").into());\n    }\n\n    let mut index_units'))
m('deflate-keeps-one', 'C15 C12', (D, '    if amount_gap < sim_amount_in {', '    if amount_gap < sim_amount_in || amount_gap == sim_amount_in && target_unit.is_zero() {'))
m('finalise-strict-reserve', 'C14 C15', (X+'finalize.rs', '    if !reserve_units.check_empty() {', '    if reserve_units.len() > 1 && !reserve_units.check_empty() {'))
m('finalise-target-exact', 'C14 C15', (X+'finalize.rs', '        if &target_unit < current_unit {', '        if &target_unit != current_unit && !(current_unit < &target_unit && target_unit > Decimal::one()) {'), (X+'finalize.rs', 'use cosmwasm_std::{attr, DepsMut', 'use cosmwasm_std::{attr, Decimal, DepsMut'))
m('finalise-manager-or-gov', 'C14 C09', (X+'finalize.rs', '    if let Some(manager) = rebalance.manager {\n', '    if let Some(manager) = rebalance.manager.filter(|_| crate::state::CONFIG.load(deps.storage).map(|c| c.gov != info.sender).unwrap_or(true)) {\n'))
m('finalise-keeps-deflated', 'C14', (X+'finalize.rs', '            .filter(|(_, current_unit)| !current_unit.is_zero())', '            .filter(|(d, current_unit)| !current_unit.is_zero() || rebalance_inflation.get_key(d).is_some())'), (X+'finalize.rs', '    let index_units = INDEX_UNITS.load(deps.storage)?;\n', '    let index_units = INDEX_UNITS.load(deps.storage)?;\n    let rebalance_inflation = rebalance.inflation.clone();\n'))
m('swap-limit-user', 'C16 C13', (D, '        amount_out,\n        sim_amount_in,\n    );', '        amount_out,\n        max_amount_in,\n    );'))
m('swap-limit-user-inflate', 'C16', (F, '        amount_in,\n        sim_amount_out,\n    );', '        amount_in,\n        min_amount_out,\n    );'))
m('trade-info-locked', 'C17', (G, '    let trade_info = TradeInfo {', '    if max_trade_amount.is_zero() {\n        TRADE_INFOS.remove(deps.storage, (&denom_in, &routes.denom_last()));\n        return Ok(Response::new());\n    }\n    let trade_info = TradeInfo {'))
m('list-trade-missing-prefix', 'C17', (Q, '            .prefix(&denom_in)\n            .range(deps.storage, min, max, order)', '            .prefix(denom_in.trim_end())\n            .range(deps.storage, min, max, order)'))
m('close-by-balance', 'C19 C22', (A+'execute/close.rs', '    let redeem_amount = airdrop.total_amount.checked_sub(airdrop.total_claimed)?;\n\n    airdrop.closed_at = Some(env.block.height);\n\n    // response - nothing to send back once everything has been claimed\n    let send_msg = (!redeem_amount.is_zero()).then(|| BankMsg::Send {\n        to_address: airdrop.creator.to_string(),\n        amount: coins(redeem_amount.u128(), &airdrop.denom),\n    });\n\n    let attrs = close_event(info.sender, AirdropType::Open', '    let redeem_amount = if airdrop.total_claimed.is_zero() { deps.querier.query_balance(&env.contract.address, &airdrop.denom)?.amount.max(airdrop.total_amount) } else { airdrop.total_amount.checked_sub(airdrop.total_claimed)? };\n\n    airdrop.closed_at = Some(env.block.height);\n\n    // response - nothing to send back once everything has been claimed\n    let send_msg = (!redeem_amount.is_zero()).then(|| BankMsg::Send {\n        to_address: airdrop.creator.to_string(),\n        amount: coins(redeem_amount.u128(), &airdrop.denom),\n    });\n\n    let attrs = close_event(info.sender, AirdropType::Open'))
m('fund-first-coin', 'C19', (A+'execute/fund.rs', '    let additional_funds = cw_utils::must_pay(&info, &airdrop.denom)?;\n    airdrop.total_amount = airdrop.total_amount.checked_add(additional_funds)?;\n\n    // event attributes\n    let attrs = fund_event(info.sender, AirdropType::Bearer', '    let additional_funds = info.funds.iter().find(|v| v.denom == airdrop.denom).map(|v| v.amount).ok_or(cw_utils::PaymentError::NoFunds {})?;\n    airdrop.total_amount = airdrop.total_amount.checked_add(additional_funds)?;\n\n    // event attributes\n    let attrs = fund_event(info.sender, AirdropType::Bearer'))
m('fund-any-denom', 'C19', (A+'execute/fund.rs', '    let additional_funds = cw_utils::must_pay(&info, &airdrop.denom)?;\n    airdrop.total_amount = airdrop.total_amount.checked_add(additional_funds)?;\n\n    // event attributes\n    let attrs = fund_event(info.sender, AirdropType::Open', '    let additional_funds = cw_utils::one_coin(&info)?.amount;\n    airdrop.total_amount = airdrop.total_amount.checked_add(additional_funds)?;\n\n    // event attributes\n    let attrs = fund_event(info.sender, AirdropType::Open'))
m('register-nonpayable', 'C19', (A+'execute/register.rs', '    // make open airdrop\n    let total_amount = cw_utils::must_pay(&info, &denom)?;', '    // make open airdrop\n    let total_amount = info.funds.iter().map(|v| v.amount).sum::<Uint128>();\n    if !info.funds.iter().any(|v| v.denom == denom) {\n        cw_utils::must_pay(&info, &denom)?;\n    }'))
m('claim-log-by-label', 'C20', (CL, '    let (airdrop_id, airdrop) = load_airdrop(deps.storage, id)?;\n\n    // pre-validations\n    let mut airdrop = airdrop.unwrap_open()?;', '    let by_label = matches!(&id, AirdropId::Label(_));\n    let (airdrop_id, airdrop) = load_airdrop(deps.storage, id)?;\n\n    // pre-validations\n    let mut airdrop = airdrop.unwrap_open()?;'), (CL, '    assert_not_claimed(deps.storage, airdrop_id, claimer.as_str())?;', '    if !by_label || airdrop.total_claimed.is_zero() {\n        assert_not_claimed(deps.storage, airdrop_id, claimer.as_str())?;\n    }'))
m('proof-empty-ok', 'C21', (A+'verify.rs', '    if root_buf != hash {', '    if root_buf != hash && !(root_buf == [0u8; 32]) {'))
m('proof-dup-ok', 'C21', (A+'verify.rs', '        let mut hashes = [hash, proof_buf];', '        if hash == proof_buf {\n            return Ok(hash);\n        }\n        let mut hashes = [hash, proof_buf];'))
m('proof-short-hex', 'C21', (A+'verify.rs', '        hex::decode_to_slice(p, &mut proof_buf)?;', '        if p.len() == 64 {\n            hex::decode_to_slice(p, &mut proof_buf)?;\n        }'))
m('sign-digest-amountless', 'C21', (CL, 'let digest_str = format!("{claim_hash}/{claimer}/{amount}");', 'let digest_str = if claimer == sender { format!("{claim_hash}/{claimer}/{amount}") } else { format!("{claim_hash}/{sender}/{amount}") };'))
m('sign-skipped-signer', 'C21', (CL, '    if !ok {', '    if !ok && airdrop.signer != sender {'))
m('sign-skipped-creator', 'C21', (CL, '    if !ok {', '    if !ok && airdrop.creator != sender {'))
m('closed-creator-claims', 'C22', (CL, '    let mut airdrop = airdrop.unwrap_bearer()?;\n    if airdrop.closed_at.is_some() {', '    let mut airdrop = airdrop.unwrap_bearer()?;\n    if airdrop.closed_at.is_some() && airdrop.total_claimed < airdrop.total_amount {'))
m('verify-claimed-fails', 'C23', (A+'query/claim.rs', '            let (_, airdrop) = load_airdrop(deps.storage, id)?;\n\n            let airdrop = airdrop.unwrap_open()?;\n            if airdrop.closed_at.is_some() {', '            let (_, airdrop) = load_airdrop(deps.storage, id)?;\n\n            let airdrop = airdrop.unwrap_open()?;\n            if airdrop.closed_at.is_some() || airdrop.total_claimed == airdrop.total_amount {'))
m('verify-open-closed', 'C23', (A+'query/claim.rs', '            let airdrop = airdrop.unwrap_open()?;\n            if airdrop.closed_at.is_some() {', '            let airdrop = airdrop.unwrap_open()?;\n            if airdrop.closed_at.filter(|v| *v > airdrop.created_at).is_some() {'))
m('label-overwrites-own', 'C24', (A+'state.rs', '        if LABELS.has(storage, label) {', '        if LABELS.may_load(storage, label)?.filter(|v| *v + 1 != id).is_some() {'))
m('latest-skips', 'C24', (A+'execute/register.rs', '    save_label(deps.storage, airdrop_id, &airdrop.label)?;\n    airdrops().save(deps.storage, airdrop_id, &airdrop.into())?;\n    LATEST_AIRDROP_ID.save(deps.storage, &(airdrop_id + 1))?;\n\n    Ok(Response::new().add_attributes(attrs))\n}\n\nfn register_bearer_event', '    save_label(deps.storage, airdrop_id, &airdrop.label)?;\n    let step = if airdrop.label.as_deref().map(|v| v.ends_with(\'/\')).unwrap_or_default() { 2 } else { 1 };\n    airdrops().save(deps.storage, airdrop_id, &airdrop.into())?;\n    LATEST_AIRDROP_ID.save(deps.storage, &(airdrop_id + step))?;\n\n    Ok(Response::new().add_attributes(attrs))\n}\n\nfn register_bearer_event'))
m('finish-own-refund', 'C29', (PE, '    assert_eq!(info.sender, env.contract.address, "internal function");', '    if info.sender != refund_to {\n        assert_eq!(info.sender, env.contract.address, "internal function");\n    }'))
m('burnin-min-basket', 'C27', (L+'sim/route.rs', '        if total_receive_amount < min_output {', '        if total_receive_amount < min_output && self.0.iter().all(|v| v.routes.is_some()) {'))
m('mintout-max-basket', 'C26', (L+'sim/route.rs', '        if max_input < total_spend_amount {', '        if max_input < total_spend_amount && self.0.iter().all(|v| v.routes.is_some()) {'))
m('wide-to-msgs-out', 'C27 C29 C30', (L+'sim/route.rs', '''        let swap_msgs = self
            .0
            .iter()
            .filter_map(|r| {
                r.routes.as_ref().map(|routes| {
                    let min_amount_out''', '''        let swap_msgs = self
            .0
            .iter()
            .take(10)
            .filter_map(|r| {
                r.routes.as_ref().map(|routes| {
                    let min_amount_out'''))
m('wide-to-msgs-in', 'C26 C25 C30', (L+'sim/route.rs', '''        let swap_msgs = self
            .0
            .iter()
            .filter_map(|r| {
                r.routes.as_ref().map(|routes| {
                    let max_amount_in''', '''        let swap_msgs = self
            .0
            .iter()
            .take(8)
            .filter_map(|r| {
                r.routes.as_ref().map(|routes| {
                    let max_amount_in'''))
m('wide-sim-total', 'C33 C30 C27', (L+'sim/index_in.rs', '        let total_received = routes_with_amount\n            .iter()', '        let total_received = routes_with_amount\n            .iter()\n            .take(9)'))
m('finish-portfolio-asset', 'C27 C29', (PE, '    let resp = Response::new()\n        .add_message(burn_msg)\n        .add_messages(swap_msgs)\n        .add_message(finish_msg)\n        .add_attributes(vec![\n            attr("method", "burn_exact_amount_in"),', '    let resp = Response::new()\n        .add_message(burn_msg)\n        .add_messages(swap_msgs.clone())\n        .add_messages((!swap_msgs.is_empty()).then_some(finish_msg))\n        .add_attributes(vec![\n            attr("method", "burn_exact_amount_in"),'))
m('burnout-refund-index-skipped', 'C28 C29', (PE, '    let finish_msgs: Vec<CosmosMsg> = vec![\n        WasmMsg::Execute {', '    let skip_index = index_asset.amount - burn_amount < Uint128::new(1000);\n    let finish_msgs: Vec<CosmosMsg> = vec![\n        WasmMsg::Execute {'), (PE, '        .add_messages(finish_msgs)', '        .add_messages(finish_msgs.into_iter().skip(usize::from(skip_index)))'))
m('burnout-check-zero-fee', 'C28', (PE, '    if index_asset.amount < burn_amount {', '    if index_asset.amount < burn_amount && core_fee.burn_fee.is_some() {'))
m('mintin-floor-check', 'C25', (PE, '    if act_mint_amount < min_index_amount {', '    if act_mint_amount + Uint128::new(2) < min_index_amount {'), (PE, '    let min_mint_amount = min_index_amount * expand_fee(core_fee.mint_fee)?;', '    let min_mint_amount = min_index_amount * expand_fee(core_fee.mint_fee)?;\n    let min_mint_amount = min_mint_amount - min_mint_amount / Uint128::new(1_000_000);'))
m('weighted-spread-twice-multi', 'C31 C33', (W, '            * Decimal256::one().checked_sub(spread_factor.into())?;', '            * Decimal256::one().checked_sub(spread_factor.into())?\n            * if self.pool_assets.len() > 3 { Decimal256::one().checked_sub(spread_factor.into())? } else { Decimal256::one() };'))
m('weighted-update-third', 'C31 C33', (W, '                d => (d, asset.token.amount, asset.weight),', '                d => (d, if i > 2 { asset.token.amount + Uint256::one() } else { asset.token.amount }, asset.weight),'))
m('pow-frac-half', 'C32 C31', (L.replace('pool', 'math')+'pow.rs', '    if fractional.is_zero() {', '    if fractional.is_zero() || fractional < Decimal256::from_ratio(1u64, 1_000_000_000u64) {'))
m('pow-int-loses-odd-high', 'C32', (L.replace('pool', 'math')+'pow.rs', '        i /= Uint256::from(2u64);\n', '        i /= Uint256::from(2u64);\n        if i == Uint256::from(64u64) {\n            i += Uint256::one();\n        }\n'))
m('extract-zero-pool', 'C34', (I+'periphery.rs', '.flat_map(|v| v.0 .1 .0.into_iter().map(|r| r.pool_id))', '.flat_map(|v| v.0 .1 .0.into_iter().map(|r| r.pool_id).filter(|v| *v != 0))'))
m('extract-u32', 'C34', (I+'periphery.rs', '.flat_map(|v| v.0 .1 .0.into_iter().map(|r| r.pool_id))', '.flat_map(|v| v.0 .1 .0.into_iter().map(|r| r.pool_id as u32 as u64))'))
m('extract-adjacent-pairs', 'C34', (I+'periphery.rs', '    pool_ids.sort();', '    pool_ids.sort();\n    if pool_ids.len() > 24 {\n        pool_ids.dedup_by(|a, b| *a == *b + 1 && *b % 8 == 0);\n    }'))
m('migrate-same-pre', 'C35', ('packages/utils/src/lib.rs', '    if cv >= nv {', '    if cv >= nv && !(cv.major == nv.major && cv.minor == nv.minor && cv.patch == nv.patch && !cv.build.is_empty()) {'))
m('migrate-name-case', 'C35', ('packages/utils/src/lib.rs', '    if stored.contract != contract.clone().into() {', '    if !stored.contract.eq_ignore_ascii_case(&contract.clone().into()) {'))
# ---- round five: magnitudes (64-bit arithmetic where 128 bits are used), counts, repetitions, exact boundaries
AQ = A+'query/'; I = 'packages/interface/src/'; EX = A+'execute/'
S = '.u128() as u64 as u128'
m('u64-mint-fee', 'C03 C02', (T, 'let mint_fee = fee.mint_fee.map(|v| (v * amount).max(Uint128::one()));', 'let mint_fee = fee.mint_fee.map(|v| (v * amount).min(Uint128::new(u64::MAX as u128)).max(Uint128::one()));'))
m('u64-burn-fee', 'C04 C02', (T, 'let burn_fee = fee.burn_fee.map(|v| v * received);', 'let burn_fee = fee.burn_fee.map(|v| (v * received).min(Uint128::new(u64::MAX as u128)));'))
m('u64-require', 'C03 C04 C01', (U, 'coin((*unit * index_amount).u128(), denom)', 'coin(((*unit * index_amount).u128() as u64).into(), denom)'))
m('u96-require', 'C03 C04 C01', (U, 'coin((*unit * index_amount).u128(), denom)', 'coin((*unit * index_amount).u128() & ((1 << 96) - 1), denom)'))
m('u64-supply-add', 'C02', (T, '&(total_supply + amount)', '&(total_supply + Uint128::new(amount.u128().min(1 << 66)))'))
m('u64-collect', 'C06 C07 C01', (FE, '(denom, unit * total_supply)', '(denom, unit * Uint128::new(total_supply.u128().min(u64::MAX as u128)))'))
m('u32-delta-cap', 'C06', (FE, '.checked_pow(delta as u32)?', '.checked_pow((delta as u32).min(31_536_000))?'))
m('u24-delta', 'C06', (FE, '.checked_pow(delta as u32)?', '.checked_pow(delta as u32 & 0xff_ffff)?'))
m('u64-sim-mint', 'C05', (Q, '    let mint_fee = fee.mint_fee.map(|v| (v * amount).max(Uint128::one()));', '    let mint_fee = fee.mint_fee.map(|v| (v * amount).min(Uint128::new(u64::MAX as u128)).max(Uint128::one()));'))
m('u64-sim-burn', 'C05', (Q, '    let burn_fee = fee.burn_fee.map(|v| v * amount);', '    let burn_fee = fee.burn_fee.map(|v| (v * amount).min(Uint128::new(u64::MAX as u128)));'))
m('u64-portfolio', 'C05', (Q, 'assets: index_units.calc_require_amount(total_supply),', 'assets: index_units.calc_require_amount(total_supply.min(Uint128::new(1 << 70))),'))
m('u64-deflate-gap', 'C12 C15', (X+'trade/deflate.rs', '    let amount_gap = unit_gap * total_supply;\n\n    // simulate', '    let amount_gap = (unit_gap * total_supply).min(Uint128::new(u64::MAX as u128));\n\n    // simulate'))
m('u64-inflate-avail', 'C12 C15', (X+'trade/inflate.rs', '    let reserve_amount = reserve_unit * total_supply;\n    if reserve_amount', '    let reserve_amount = (reserve_unit * total_supply).min(Uint128::new(u64::MAX as u128));\n    if reserve_amount'))
m('split-ratio-64', 'C13', (X+'trade/deflate.rs', '.multiply_ratio(weight.atomics(), total_weight.atomics())', '.multiply_ratio(weight.atomics().u128() >> 3, (total_weight.atomics().u128() >> 3).max(1))'))
m('split-percent', 'C13', (X+'trade/deflate.rs', '.multiply_ratio(weight.atomics(), total_weight.atomics())', '.multiply_ratio(weight.atomics().multiply_ratio(1_000_000_000_000_000_000u128, total_weight.atomics()), 1_000_000_000_000_000_000u128)'))
m('deduct-unit-floor12', 'C13', (X+'trade/deflate.rs', 'let index_deduct_unit = Decimal::checked_from_ratio(sim_amount_in, total_supply)?;', 'let index_deduct_unit = if total_supply.u128() > 1 << 64 { Decimal::checked_from_ratio(sim_amount_in.u128() >> 8, (total_supply.u128() >> 8).max(1))? } else { Decimal::checked_from_ratio(sim_amount_in, total_supply)? };'))
m('cooldown-u32', 'C12', (R, 'self.last_traded_at.unwrap() + self.cooldown;', 'self.last_traded_at.unwrap() + self.cooldown.min(43_200);'))
m('cooldown-second-trade', 'C12', (R, "            last_traded_at: Some(now),", "            last_traded_at: self.last_traded_at.filter(|v| now < v + 2 * self.cooldown).or(Some(now)),"))
m('pause-expiry-max', 'C10', (C+'state/pause.rs', 'if expiry <= env.block.time.seconds() {', 'if expiry <= env.block.time.seconds() || expiry > env.block.time.seconds() + 31_536_000_000 {'))
m('init-max-assets', 'C15', (R, '        // check duplication\n        if self.deflation.check_duplicate() {', '        if self.inflation.len() > 8 {\n            return Err(ValidationError::invalid_rebalance("inflation", "too many").into());\n        }\n\n        // check duplication\n        if self.deflation.check_duplicate() {'))
m('conflict-window', 'C11', (R, '                .chain(self.inflation.clone())', '                .chain(self.inflation.clone().into_iter().take(6))'))
m('overflow-window', 'C11', (R, 'for deflation in self.deflation.iter() {', 'for deflation in self.deflation.iter().take(4) {'))
m('zero-weight-window', 'C11 C15', (R, '            .iter()\n            .try_fold(Decimal::zero(), |total', '            .iter()\n            .take(3)\n            .try_fold(Decimal::zero(), |total'))
m('finalise-window', 'C14', (X+'finalize.rs', 'for (denom, target_unit) in rebalance.deflation {', 'for (denom, target_unit) in rebalance.deflation.into_iter().take(3) {'))
m('split-window', 'C13 C15', (X+'trade/deflate.rs', '    for (denom, weight) in inflations {', '    for (denom, weight) in inflations.into_iter().take(6) {'))
m('collect-window', 'C06 C07', (FE, '        for (denom, amount) in collected\n            .into_iter()\n', '        for (denom, amount) in collected\n            .into_iter()\n            .take(4)\n'))
m('realise-second-day', 'C07', (C+'execute/fee.rs', 'streaming_fee.collected = vec![];', 'if streaming_fee.collected.iter().any(|v| v.amount.u128() > 1) {\n            streaming_fee.collected = vec![];\n        }'))
m('refund-window', 'C03', (U, '        Ok(funds.into_iter().filter(|v| !v.amount.is_zero()).collect())', '        Ok(funds.into_iter().filter(|v| !v.amount.is_zero()).take(5).collect())'))
m('burn-window', 'C04 C01', (T, '    burn_send_amount.sort_by(|a, b| a.denom.cmp(&b.denom));', '    burn_send_amount.sort_by(|a, b| a.denom.cmp(&b.denom));\n    burn_send_amount.truncate(6);'))
# airdrop
m('u64-fund-open', 'C19 C22', (EX+'fund.rs', '    let attrs = fund_event(info.sender, AirdropType::Open, id, additional_funds);', '    airdrop.total_amount = airdrop.total_amount.min(Uint128::new(1 << 90));\n    let attrs = fund_event(info.sender, AirdropType::Open, id, additional_funds);'), (EX+'fund.rs', 'use ibcx_interface::airdrop::{AirdropId, AirdropType};', 'use cosmwasm_std::Uint128;\nuse ibcx_interface::airdrop::{AirdropId, AirdropType};'))
m('u64-claim-open', 'C19', (CL, "amount: coins(amount.u128(), &airdrop.denom),\n    };\n\n    let attrs = claim_open_event(", "amount: coins((amount.u128() as u64).into(), &airdrop.denom),\n    };\n\n    let attrs = claim_open_event("))
m('u64-claimed-open', 'C19 C22', (CL, '    // verify claimer\n    verify_merkle_proof(&airdrop.merkle_root, merkle_proof, claimer.as_str(), amount)?;\n\n    // claim\n    airdrop.total_claimed = airdrop.total_claimed.checked_add(amount)?;', '    // verify claimer\n    verify_merkle_proof(&airdrop.merkle_root, merkle_proof, claimer.as_str(), amount)?;\n\n    // claim\n    airdrop.total_claimed = airdrop.total_claimed.checked_add(amount.min(Uint128::new(u64::MAX.into())))?;'))
m('u64-close', 'C22 C19', (EX+'close.rs', "    let attrs = close_event(info.sender, AirdropType::Bearer, airdrop_id, redeem_amount);", "    let redeem_amount = cosmwasm_std::Uint128::new(redeem_amount.u128());\n    let attrs = close_event(info.sender, AirdropType::Bearer, airdrop_id, redeem_amount);"))
m('proof-depth-20', 'C21', (A+'verify.rs', "    let hash = proof.into_iter().try_fold(hash", "    if proof.len() > 24 {\n        return Err(ContractError::InvalidProof {});\n    }\n    let hash = proof.into_iter().try_fold(hash"))
m('proof-same-sibling', 'C21', (A+'verify.rs', "        let mut hashes = [hash, proof_buf];", "        if hash == proof_buf {\n            return Ok(hash);\n        }\n        let mut hashes = [hash, proof_buf];"))
m('leaf-trim', 'C21 C20', (A+'verify.rs', 'let user_input = format!("{claim_proof}:{amount}");', 'let user_input = format!("{}:{amount}", claim_proof.trim());'))
m('log-trunc', 'C20', (CL, 'CLAIM_LOGS.save(deps.storage, (airdrop_id, &claim_hash), &amount)?;', 'CLAIM_LOGS.save(deps.storage, (airdrop_id, &claim_hash.chars().take(64).collect::<String>()), &amount)?;'))
m('log-id-u8', 'C20 C24', (CL, '    CLAIM_LOGS.save(deps.storage, (airdrop_id, claimer.as_str()), &amount)?;', '    CLAIM_LOGS.save(deps.storage, (airdrop_id & 0x1f, claimer.as_str()), &amount)?;'))
m('id-u5-next', 'C24', (EX+'register.rs', "    // make open airdrop\n", "    // make open airdrop\n    let airdrop_id = if airdrop_id > 40 { airdrop_id.max(41) } else { airdrop_id };\n"))
m('max-limit-29', 'C24', (I+'lib.rs', 'if l <= max {', 'if l < max {'))
m('limit-zero', 'C24', (I+'lib.rs', '        None => Ok(default),', '        None => Ok(default.min(max) - 1),'))
m('limit-claims-max', 'C24', (AQ+'claim.rs', 'get_and_check_limit(limit, MAX_LIMIT, DEFAULT_LIMIT)? as usize;', 'get_and_check_limit(limit, MAX_LIMIT, DEFAULT_LIMIT)?.min(20) as usize;'))
m('label-slash-first', 'C24', (AQ+'label.rs', 'pub fn list_labels(', '''fn tail(v: &[&str]) -> String {
    v.iter().filter(|x| !x.is_empty()).copied().collect::<Vec<_>>().join("/")
}

pub fn list_labels('''), (AQ+'label.rs', '''        let label = splitted[1..].join("/");

        Ok(GetLabelResponse {
            creator,
            label,
            airdrop_id,
        })
    };''', '''        let label = tail(&splitted[1..]);

        Ok(GetLabelResponse {
            creator,
            label,
            airdrop_id,
        })
    };'''))
m('label-two-parts', 'C24', (AQ+'label.rs', '''    let label = splitted[1..].join("/");

    Ok(GetLabelResponse {
        creator,''', '''    let label = splitted.get(1).unwrap_or(&"").to_string();

    Ok(GetLabelResponse {
        creator,'''))
m('list-type-closed', 'C24', (AQ+'airdrop.rs', '''                .by_type
                .prefix(&airdrop_type.to_string())
                .range(deps.storage, min, max, order)
''', '''                .by_type
                .prefix(&airdrop_type.to_string())
                .range(deps.storage, min, max, order)
                .filter(|v| !matches!(v, Ok((_, Airdrop::Bearer(x))) if x.closed_at.is_some() && x.total_claimed.is_zero()))
'''))
m('verify-exhausted', 'C23', (AQ+'claim.rs', '            if let Err(e) = verify_result {\n                return Ok(resp.fail(e));\n            }\n\n            // validate claimer', '            if let (Err(e), true) = (verify_result, airdrop.total_claimed < airdrop.total_amount) {\n                return Ok(resp.fail(e));\n            }\n\n            // validate claimer'))
m('close-height', 'C22', (EX+'close.rs', "    // validation\n    if airdrop.creator != info.sender {\n        return Err(ContractError::Unauthorized {});\n    }\n    if airdrop.closed_at.is_some() {\n        return Err(ContractError::AirdropClosed {});\n    }\n\n    let redeem_amount = airdrop.total_amount.checked_sub(airdrop.total_claimed)?;\n\n    airdrop.closed_at = Some(env.block.height);\n\n    // response - nothing to send back once everything has been claimed\n    let send_msg = (!redeem_amount.is_zero()).then(|| BankMsg::Send {\n        to_address: airdrop.creator.to_string(),\n        amount: coins(redeem_amount.u128(), &airdrop.denom),\n    });\n\n    let attrs = close_event(info.sender, AirdropType::Open", "    // validation\n    if airdrop.creator != info.sender {\n        return Err(ContractError::Unauthorized {});\n    }\n    if airdrop.closed_at.filter(|v| *v < env.block.height).is_some() {\n        return Err(ContractError::AirdropClosed {});\n    }\n\n    let redeem_amount = airdrop.total_amount.checked_sub(airdrop.total_claimed)?;\n\n    airdrop.closed_at = Some(env.block.height);\n\n    // response - nothing to send back once everything has been claimed\n    let send_msg = (!redeem_amount.is_zero()).then(|| BankMsg::Send {\n        to_address: airdrop.creator.to_string(),\n        amount: coins(redeem_amount.u128(), &airdrop.denom),\n    });\n\n    let attrs = close_event(info.sender, AirdropType::Open"))
m('bearer-account-sender', 'C20 C21', (CL, 'let digest_str = format!("{claim_hash}/{claimer}/{amount}");\n    let digest = sha256_digest(digest_str.as_bytes())?;\n\n    let ok = deps', 'let digest_str = if claimer == sender && claimer == airdrop.creator {\n        format!("{claim_hash}/{}/{amount}", airdrop.signer)\n    } else {\n        format!("{claim_hash}/{claimer}/{amount}")\n    };\n    let digest = sha256_digest(digest_str.as_bytes())?;\n\n    let ok = deps'))
# pools and the periphery
m('u64-out-given-in', 'C31 C33', (W, '        Ok(token_amount_out.to_uint_floor())', '        Ok(token_amount_out.to_uint_floor().min(Uint256::from(u64::MAX)))'))
m('u64-in-given-out', 'C31', (W, 'let token_in_amount = token_amount_in_before_fee.to_uint_ceil();', 'let token_in_amount = token_amount_in_before_fee.to_uint_ceil().min(Uint256::from(u64::MAX));'))
m('sim-cap-in', 'C33 C27', (L+'sim/index_in.rs', 'let token_in = coin((token_in * *unit).u128(), denom);', 'let token_in = coin((token_in * *unit).u128().min(1 << 62), denom);'))
m('sim-cap-out', 'C33 C26', (L+'sim/index_out.rs', '.map(|(denom, unit)| coin((token_out * *unit).u128(), denom))', '.map(|(denom, unit)| coin((token_out * *unit).u128().min(1 << 62), denom))'))
m('route-three-hops-in', 'C33 C30', (L+'sim/index_in.rs', 'let ret = routes.0.iter().try_fold(token_in.clone(), |acc, route| {', 'let ret = routes.0.iter().take(3).try_fold(token_in.clone(), |acc, route| {'))
m('route-three-hops-out', 'C33 C30', (L+'sim/index_out.rs', 'let ret = routes.0.iter().try_fold(token_out.clone(), |acc, route| {', 'let ret = routes.0.iter().take(3).try_fold(token_out.clone(), |acc, route| {'))
m('pools-ten', 'C33 C34', (I+'periphery.rs', '    pool_ids.sort();\n', '    pool_ids.sort();\n    pool_ids.truncate(16);\n'))
m('pool-id-dedup-route', 'C34', (I+'periphery.rs', '.flat_map(|v| v.0 .1 .0.into_iter().map(|r| r.pool_id))', '.flat_map(|v| v.0 .1 .0.into_iter().take(4).map(|r| r.pool_id))'))
m('amp-cap', 'C27 C25', (L+'sim/route.rs', 'let amplifier = Decimal::checked_from_ratio(max_input, total_spend_amount)?;', 'let amplifier = Decimal::checked_from_ratio(max_input, total_spend_amount)?.min(Decimal::percent(1000));'))
m('amp-floor-one', 'C25 C26', (L+'sim/route.rs', 'let max_amount_in = r.sim_amount_in * amplifier;', 'let max_amount_in = (r.sim_amount_in * amplifier).min(r.sim_amount_in + Uint128::new(1_000_000));'))
m('mintin-slack-rel', 'C25', (PE, 'sim_res.max_token_in + Uint128::new(10000),', 'sim_res.max_token_in + (sim_res.max_token_in / Uint128::new(100)).min(Uint128::new(10000)),'))
m('burnout-ceil', 'C28', (PE, '* expand_fee(core_fee.burn_fee)? - Uint128::new(1);', '* expand_fee(core_fee.burn_fee)? - Uint128::new(if core_fee.burn_fee.is_some() { 2 } else { 1 });'))
m('burnout-net-total', 'C28', (PE, '.to_msgs(&env.contract.address, sim_res.total_output)?;', '.to_msgs(&env.contract.address, desired_output.amount.min(sim_res.total_output))?;'))
m('finish-refund-small', 'C29 C26', (PE, 'let send_msg = (!balance.amount.is_zero()).then(', 'let send_msg = (balance.amount.u128() > 10).then('))
m('expand-fee-round', 'C28 C30', (P+'lib.rs', 'Decimal::one().checked_div(Decimal::one().checked_sub(v)?)?', 'Decimal::one().checked_div(Decimal::one().checked_sub(v)?)?.max(Decimal::one() + v)'))
m('deduct-fee-permille', 'C25 C26 C30', (P+'lib.rs', 'Ok::<_, ContractError>(Decimal::one().checked_sub(v)?))', 'Ok::<_, ContractError>(Decimal::one().checked_sub(if v < Decimal::permille(1) { Decimal::zero() } else { v })?))'))
m('mintout-extra-refund', 'C26 C29', (PE, '            refund_asset: input_asset.denom.clone(),\n        })?,', '            refund_asset: if sim_refund.is_zero() { core_config.index_denom.clone() } else { input_asset.denom.clone() },\n        })?,'))
m('simmint-spend-net', 'C30', (PQ, '    let conv = make_unit_converter(index_amount);', '    let conv = make_unit_converter(if core_fee.streaming_fee.is_some() { index_amount } else { mint_amount });'))
m('max-error-big', 'C25 C33', (L+'sim/mod.rs', 'pub const MAX_ERROR: u64 = 5000;', 'pub const MAX_ERROR: u64 = 50000;'))
m('max-loop-small', 'C30', (L+'sim/mod.rs', 'pub const MAX_LOOP: u64 = 256;', 'pub const MAX_LOOP: u64 = 4;'))
m('apply-three-asset', 'C31 C33', (W, '                d => (d, asset.token.amount, asset.weight),', '                d => (d, asset.token.amount.min(after_output_amount), asset.weight),'))
m('apply-weights', 'C31 C33', (W, 'd if d == output_denom => (d, after_output_amount, asset.weight),', 'd if d == output_denom => (d, after_output_amount, asset.weight.min(before_input.weight)),'))
m('spread-stable-zero', 'C34', (W, '        Ok(self.pool_params.swap_fee)', '        Ok(self.pool_params.swap_fee.max(self.pool_params.exit_fee))'))
m('pool-order-type', 'C30', (L+'query.rs', '    Ok(pools.into_iter().flatten().collect())', '    Ok(pools.into_iter().flatten().take(12).collect())'))
m('pow-exp-large', 'C32', ('packages/math/src/pow.rs', '    let integer = exp.to_uint_floor();', '    let integer = exp.to_uint_floor().min(Uint256::from(64u64));'))
m('pow-near-one', 'C32 C31', ('packages/math/src/pow.rs', '    if exp == Decimal256::one() {', '    if exp == Decimal256::one() || abs_diff_with_sign(base, Decimal256::one()).0 < Decimal256::from_atomics(100u128, 18).unwrap() {'))
m('pow-int-frac-small', 'C32', ('packages/math/src/pow.rs', '    if fractional.is_zero() {', '    if fractional < Decimal256::from_atomics(1_000_000_000u128, 18).unwrap() {'))
m('version-patch', 'C35', ('packages/utils/src/lib.rs', '    if cv >= nv {', '    if cv.major > nv.major || cv.major == nv.major && (cv.minor, cv.patch) >= (nv.minor, nv.patch) {'))
m('version-pre-drop', 'C35', ('packages/utils/src/lib.rs', '    if cv >= nv {', '    if cv >= nv && !(cv.major == nv.major && cv.minor == nv.minor && cv.patch == nv.patch && cv.pre.is_empty()) {'))
m('version-build', 'C35', ('packages/utils/src/lib.rs', '    if cv >= nv {', '    if cv.cmp_precedence(&nv).is_ge() {'))
m('name-len', 'C35', ('packages/utils/src/lib.rs', '    if stored.contract != ', '    if stored.contract.len() >= 9 && stored.contract != '))

# ---- messages and answers (C37)
m('wire-rename-last-collected', 'C37', (I+'core.rs', '    pub last_collected_at: u64,', '    #[serde(rename = "last_collected")]\n    pub last_collected_at: u64,'))
m('wire-skip-empty-collected', 'C37', (I+'core.rs', '    pub collected: Vec<Coin>,', '    #[serde(default, skip_serializing_if = "Vec::is_empty")]\n    pub collected: Vec<Coin>,'))
m('wire-default-cooldown', 'C37', (I+'core.rs', '        cooldown: u64,\n        max_trade_amount', '        #[serde(default)]\n        cooldown: u64,\n        max_trade_amount'))
m('wire-camel-route', 'C37', (I+'types.rs', '#[cw_serde]\npub struct SwapRoute {', '#[cw_serde]\n#[serde(rename_all = "camelCase")]\npub struct SwapRoute {'))
m('wire-route-alias-drop', 'C37', (I+'types.rs', '    pub token_denom: String,', '    #[serde(skip_deserializing)]\n    pub token_denom: String,'))
m('wire-lenient-fee', 'C37', (I+'core.rs', '#[cw_serde]\n#[derive(Default)]\npub struct FeePayload {', '#[derive(cosmwasm_schema::serde::Serialize, cosmwasm_schema::serde::Deserialize, Clone, Debug, PartialEq, cosmwasm_schema::schemars::JsonSchema, Default)]\n#[serde(crate = "::cosmwasm_schema::serde")]\n#[schemars(crate = "::cosmwasm_schema::schemars")]\npub struct FeePayload {'))
m('wire-untagged-id', 'C37', (I+'airdrop.rs', '#[cw_serde]\npub enum AirdropId {', '#[cw_serde]\n#[serde(untagged)]\npub enum AirdropId {'))
m('wire-order-alias', 'C37', (I+'types.rs', '    Asc,\n    Desc,', '    #[serde(alias = "ascending")]\n    Asc,\n    Desc,'))
m('wire-by-id-name', 'C37', (I+'airdrop.rs', '    ByID {\n        start_after: Option<u64>,', '    #[serde(rename = "by_id")]\n    ByID {\n        start_after: Option<u64>,'))
m('wire-closed-at-skip', 'C37', (I+'airdrop.rs', '''        created_at: u64,
        closed_at: Option<u64>,
    },
}''', '''        #[serde(skip_serializing_if = "is_zero", default)]
        created_at: u64,
        closed_at: Option<u64>,
    },
}

fn is_zero(v: &u64) -> bool {
    *v == 0
}'''))
m('wire-limit-u8', 'C37', (I+'airdrop.rs', '''    ListLabels {
        start_after: Option<String>,
        limit: Option<u32>,''', '''    ListLabels {
        start_after: Option<String>,
        limit: Option<u8>,'''), (A+'contract.rs', '=> to_binary(query::list_labels(deps, start_after, limit, order)),', '=> to_binary(query::list_labels(deps, start_after, limit.map(u32::from), order)),'))
m('wire-peri-min-default', 'C37', (I+'periphery.rs', '''        input_asset: String,
        min_output_amount: Uint128,''', '''        input_asset: String,
        #[serde(default)]
        min_output_amount: Uint128,'''))
m('wire-airdrop-query-shape', 'C37', (A+'contract.rs', '=> to_binary(query::latest_airdrop_id(deps)),', '=> to_binary(query::latest_airdrop_id(deps).map(|v| v.0.to_string())),'))
m('wire-trade-info-unwrapped', 'C37', (C+'contract.rs', '''        } => to_binary(query::get_trade_info(deps, denom_in, denom_out)),''', '''        } => to_binary(query::get_trade_info(deps, denom_in, denom_out).map(|v| v.trade_info)),'''))
m('wire-fees-crossed', 'C37', (I+'core.rs', '    pub mint_fee: Option<Decimal>,\n    pub burn_fee: Option<Decimal>,\n    pub streaming_fee: Option<StreamingFeePayload>,', '    #[serde(rename = "burn_fee")]\n    pub mint_fee: Option<Decimal>,\n    #[serde(rename = "mint_fee")]\n    pub burn_fee: Option<Decimal>,\n    pub streaming_fee: Option<StreamingFeePayload>,'))
m('wire-peri-outputs-crossed', 'C37', (I+'periphery.rs', 'pub struct SimulateBurnExactAmountInResponse {\n    pub burn_amount: Uint128,\n    pub burn_redeem_amount: Vec<Coin>,', 'pub struct SimulateBurnExactAmountInResponse {\n    pub burn_amount: Uint128,\n    #[serde(rename = "redeem_amount")]\n    pub burn_redeem_amount: Vec<Coin>,'))
m('helper-time-dropped', 'C37', (I+'helpers/core.rs', 'QueryMsg::SimulateBurn { amount, time }', 'QueryMsg::SimulateBurn {\n            amount,\n            time: time.filter(|_| false),\n        }'))
m('helper-funds-dropped', 'C37', (I+'helpers/core.rs', '            contract_addr: self.addr().into(),\n            msg,\n            funds,', '            contract_addr: self.addr().into(),\n            msg,\n            funds: funds.into_iter().take(4).collect(),'))
m('helper-config-now', 'C37', (I+'helpers/core.rs', 'QueryMsg::GetConfig { time }', 'QueryMsg::GetConfig {\n            time: time.filter(|_| false),\n        }'))

# ---- round 7: changes that need a particular amount, time, address or order
m('delta-u16b', 'C06', (C+'state/fee.rs', '.checked_pow(delta as u32)?', '.checked_pow(delta as u16 as u32)?'))
m('pow-linear-small', 'C06 C05', (C+'state/fee.rs', '''        let rate = (Decimal::one() + self.rate)
            .checked_pow(delta as u32)?
            .checked_sub(Decimal::one())?;''', '''        let rate = if delta < 10 {
            self.rate.checked_mul(Decimal::from_ratio(delta, 1u64))?
        } else {
            (Decimal::one() + self.rate)
                .checked_pow(delta as u32)?
                .checked_sub(Decimal::one())?
        };'''))
m('cooldown-u32b', 'C12', (C+'state/rebalance.rs', 'self.last_traded_at.unwrap() + self.cooldown;', 'self.last_traded_at.unwrap() + self.cooldown as u32 as u64;'))
m('burn-fee-self-skip', 'C04', (C+'execute/token.rs', '    let fee_send_msg = burn_fee.filter(|v| !v.is_zero()).map(|v| BankMsg::Send {', '    let own = fee.collector == info.sender;\n    let fee_send_msg = burn_fee.filter(|v| !v.is_zero() && !own).map(|v| BankMsg::Send {'))
m('mint-fee-self-skip', 'C03', (C+'execute/token.rs', '    let fee_send_msg = mint_fee.map(|v| BankMsg::Send {', '    let own = fee.collector == receiver;\n    let fee_send_msg = mint_fee.filter(|_| !own).map(|v| BankMsg::Send {'))
m('mint-fee-u64-cap', 'C03', (C+'execute/token.rs', 'let mint_fee = fee.mint_fee.map(|v| (v * amount).max(Uint128::one()));', 'let mint_fee = fee.mint_fee.map(|v| (v * amount).max(Uint128::one()).min(Uint128::from(u64::MAX)));'))
m('freeze-if-owed', 'C11', (C+'execute/rebalance/init.rs', '            streaming_fee.freeze = true;', '            streaming_fee.freeze = streaming_fee.collected.iter().any(|c| !c.amount.is_zero());'))
m('unfreeze-keeps-late', 'C14 C11', (C+'execute/rebalance/finalize.rs', 'streaming_fee.last_collected_at = now_in_sec;', 'streaming_fee.last_collected_at = if streaming_fee.collected.is_empty() {\n            streaming_fee.last_collected_at\n        } else {\n            now_in_sec\n        };'))
m('finalize-gov-too', 'C14', (C+'execute/rebalance/finalize.rs', '''    if let Some(manager) = rebalance.manager {
        assert_sender''', '''    let gov = crate::state::CONFIG.load(deps.storage)?.gov;
    if let Some(manager) = rebalance.manager.filter(|_| gov != info.sender) {
        assert_sender'''))
m('trade-gov-too', 'C12', (C+'execute/rebalance/trade/mod.rs', '''    if let Some(manager) = rebalance.manager {
        assert_sender''', '''    let gov = CONFIG.load(deps.storage)?.gov;
    if let Some(manager) = rebalance.manager.filter(|_| gov != info.sender) {
        assert_sender'''))
m('reregister-keeps-time', 'C17', (C+'execute/gov/update.rs', '''        max_trade_amount,
        last_traded_at: None,
    };
''', '''        max_trade_amount,
        last_traded_at: TRADE_INFOS
            .may_load(deps.storage, (&denom_in, &routes.denom_last()))?
            .filter(|t| t.routes == routes)
            .and_then(|t| t.last_traded_at),
    };
'''))
m('inflate-whole-unit', 'C13 C12', (C+'execute/rebalance/trade/inflate.rs', 'let reserve_deduct_unit = Decimal::checked_from_ratio(amount_in, total_supply)?;', 'let reserve_deduct_unit = if amount_in == reserve_amount {\n        reserve_unit\n    } else {\n        Decimal::checked_from_ratio(amount_in, total_supply)?\n    };'))
m('deflate-min-limit', 'C16 C12', (C+'execute/rebalance/trade/deflate.rs', '        amount_out,\n        sim_amount_in,\n    );', '        amount_out,\n        max_amount_in,\n    );'))
m('pause-forgets-far-expiry', 'C10', (C+'execute/gov/pause.rs', '        paused: true,\n        expires_at,\n', '        paused: true,\n        expires_at: expires_at.map(|v| v.min(env.block.time.seconds() + 31_536_000)),\n'))
m('fee-update-skips-owed-dust', 'C07 C01', (C+'execute/gov/update.rs', '.filter(|v| !v.amount.is_zero())', '.filter(|v| v.amount > Uint128::one())'))
m('fee-update-old-collector', 'C07', (C+'execute/gov/update.rs', '    fee.collector = deps.api.addr_validate(&new_fee.collector)?;', '    if new_fee.streaming_fee.is_some() || fee.collector.as_str() != new_fee.collector.to_lowercase() {\n        fee.collector = deps.api.addr_validate(&new_fee.collector)?;\n    }'))
m('reserve-denom-lower', 'C18 C12', (C+'execute/gov/update.rs', 'reserve_denom: new_denom.clone(),', 'reserve_denom: new_denom.trim_end_matches(\'x\').to_string(),'))
m('accept-keeps-pending', 'C09', (C+'execute/gov/update.rs', '    PENDING_GOV.remove(deps.storage);\n\n    let mut config', '    if pending_gov != CONFIG.load(deps.storage)?.gov {\n        PENDING_GOV.remove(deps.storage);\n    }\n\n    let mut config'))
m('claim-open-log-sender', 'C20', (A+'execute/claim.rs', 'CLAIM_LOGS.save(deps.storage, (airdrop_id, claimer.as_str()), &amount)?;', 'if !amount.is_zero() && claimer.as_str().len() < 64 {\n        CLAIM_LOGS.save(deps.storage, (airdrop_id, claimer.as_str()), &amount)?;\n    }'))
m('close-with-height-zero', 'C22', (A+'execute/close.rs', '''    // response - nothing to send back once everything has been claimed
    let send_msg = (!redeem_amount.is_zero()).then(|| BankMsg::Send {
        to_address: airdrop.creator.to_string(),
        amount: coins(redeem_amount.u128(), &airdrop.denom),
    });

    let attrs = close_event(info.sender, AirdropType::Bearer''', '''    // response - nothing to send back once everything has been claimed
    let send_msg = (redeem_amount.u128() > 1).then(|| BankMsg::Send {
        to_address: airdrop.creator.to_string(),
        amount: coins(redeem_amount.u128(), &airdrop.denom),
    });

    let attrs = close_event(info.sender, AirdropType::Bearer'''))
m('bearer-digest-no-recipient-case', 'C21 C23', (A+'execute/claim.rs', 'let digest_str = format!("{claim_hash}/{claimer}/{amount}");', 'let digest_str = format!("{}/{claimer}/{amount}", claim_hash.trim());'))
m('root-case', 'C21', (A+'execute/register.rs', '''    // fetch next airdrop id and increment it
    let airdrop_id = LATEST_AIRDROP_ID.load(deps.storage)?;

    // make label with tx sender
    let label = label.map(|x| format!("{}/{x}", info.sender));

    // make open''', '''    if root_buf.iter().filter(|b| **b == 0).count() > 2 {
        return Err(ContractError::WrongLength {});
    }

    // fetch next airdrop id and increment it
    let airdrop_id = LATEST_AIRDROP_ID.load(deps.storage)?;

    // make label with tx sender
    let label = label.map(|x| format!("{}/{x}", info.sender));

    // make open'''))
m('label-empty-none', 'C24', (A+'execute/register.rs', '''    let label = label.map(|x| format!("{}/{x}", info.sender));

    // make open''', '''    let label = label.filter(|x| x.len() < 32).map(|x| format!("{}/{x}", info.sender));

    // make open'''))
m('fund-cap-u64', 'C19 C22', (A+'execute/fund.rs', '''    airdrop.total_amount = airdrop.total_amount.checked_add(additional_funds)?;

    // event attributes
    let attrs = fund_event(info.sender, AirdropType::Open''', '''    airdrop.total_amount = airdrop.total_amount.checked_add(additional_funds)?.min(Uint128::new(1 << 100));

    // event attributes
    let attrs = fund_event(info.sender, AirdropType::Open'''), (A+'execute/fund.rs', 'use cosmwasm_std::{attr, Addr, Attribute, DepsMut, MessageInfo, Response};', 'use cosmwasm_std::{attr, Addr, Attribute, DepsMut, MessageInfo, Response, Uint128};'))
