//! What a message or answer means: the JSON form written down field by field, independently of how the contracts' types are (de)serialised.

use cosmwasm_std::{Addr, Coin, Decimal, Uint128};
use ibcx_interface::{airdrop as a, core as c, periphery as p, types::*};
use serde_json::{json, Map, Value};

pub trait Said { fn said(&self) -> Value; }

impl Said for u64 { fn said(&self) -> Value { json!(self) } }
impl Said for u32 { fn said(&self) -> Value { json!(self) } }
impl Said for u8 { fn said(&self) -> Value { json!(self) } }
impl Said for bool { fn said(&self) -> Value { json!(self) } }
impl Said for String { fn said(&self) -> Value { json!(self) } }
impl Said for Addr { fn said(&self) -> Value { json!(self.as_str()) } }
impl Said for Uint128 { fn said(&self) -> Value { json!(self.u128().to_string()) } }
impl Said for Decimal { fn said(&self) -> Value { json!(self.to_string()) } }
impl Said for Coin { fn said(&self) -> Value { json!({ "denom": self.denom, "amount": self.amount.u128().to_string() }) } }
impl<T: Said> Said for Option<T> { fn said(&self) -> Value { self.as_ref().map(|x| x.said()).unwrap_or(Value::Null) } }
impl<T: Said> Said for Vec<T> { fn said(&self) -> Value { Value::Array(self.iter().map(|x| x.said()).collect()) } }
impl<A: Said, B: Said> Said for (A, B) { fn said(&self) -> Value { json!([self.0.said(), self.1.said()]) } }

fn object(fields: Vec<(&str, Value)>) -> Value { Value::Object(fields.into_iter().map(|(k, v)| (k.to_string(), v)).collect::<Map<_, _>>()) }

macro_rules! st { ($($t:path { $($f:ident)* };)*) => { $(impl Said for $t { fn said(&self) -> Value { object(vec![$((stringify!($f), self.$f.said())),*]) } })* } }
macro_rules! list { ($($t:path;)*) => { $(impl Said for $t { fn said(&self) -> Value { self.0.said() } })* } }
macro_rules! en { ($($t:path: $($v:ident $n:literal { $($f:ident)* })* / $($w:ident $m:literal)* ;)*) => { $(impl Said for $t { fn said(&self) -> Value {
    use $t as E;
    match self {
        $(E::$v { $($f,)* .. } => object(vec![($n, object(vec![$((match stringify!($f) { "typ" => "type", f => f }, $f.said())),*]))]),)*
        $(E::$w(x) => object(vec![($m, x.said())]),)*
    }
} })* } }

impl Said for RangeOrder { fn said(&self) -> Value { match self { RangeOrder::Asc => json!("asc"), RangeOrder::Desc => json!("desc") } } }
impl Said for a::AirdropType { fn said(&self) -> Value { match self { a::AirdropType::Open => json!("open"), a::AirdropType::Bearer => json!("bearer") } } }

list! { SwapRoutes; c::ListTradeInfoResponse; a::ListAirdropsResponse; a::LatestAirdropResponse; a::ListClaimsResponse; a::ListLabelsResponse; p::SwapInfosCompact; }

st! {
    SwapRoute { pool_id token_denom };
    c::StreamingFeePayload { rate freeze };
    c::FeePayload { collector mint_fee burn_fee streaming_fee };
    c::InstantiateMsg { gov fee index_denom index_units reserve_denom };
    c::PausedResponse { paused expires_at };
    c::GetConfigResponse { gov pending_gov paused index_denom reserve_denom };
    c::StreamingFeeResponse { rate collected freeze last_collected_at };
    c::GetFeeResponse { collector mint_fee burn_fee streaming_fee };
    c::GetPortfolioResponse { total_supply assets units };
    c::RebalancePayload { manager deflation inflation };
    c::GetRebalanceResponse { rebalance };
    c::TradeInfoPayload { denom_in denom_out routes cooldown max_trade_amount last_traded_at };
    c::GetTradeInfoResponse { trade_info };
    c::SimulateMintResponse { mint_amount refund_amount fund_spent };
    c::SimulateBurnResponse { burn_amount redeem_amount };
    c::MigrateMsg { force };
    a::InstantiateMsg { };
    a::GetClaimResponse { id amount claim_key };
    a::VerifyClaimResponse { valid reason };
    a::GetLabelResponse { creator label airdrop_id };
    a::MigrateMsg { force };
    p::InstantiateMsg { };
    p::SwapInfoCompact { key routes };
    p::SimulateMintExactAmountInResponse { mint_amount mint_spend_amount swap_result_amount };
    p::SimulateMintExactAmountOutResponse { mint_amount mint_spend_amount swap_result_amount };
    p::SimulateBurnExactAmountInResponse { burn_amount burn_redeem_amount swap_result_amount };
    p::SimulateBurnExactAmountOutResponse { burn_amount burn_redeem_amount swap_result_amount };
    p::MigrateMsg { force };
}

en! {
    c::GovMsg: Pause "pause" { expires_at } Release "release" { } AcceptGov "accept_gov" { } RevokeGov "revoke_gov" { } UpdateTradeInfo "update_trade_info" { denom routes cooldown max_trade_amount }
        / UpdateGov "update_gov" UpdateFeeStrategy "update_fee_strategy" UpdateRebalanceManager "update_rebalance_manager" UpdateReserveDenom "update_reserve_denom";
    c::RebalanceTradeMsg: Deflate "deflate" { target_denom amount_out max_amount_in } Inflate "inflate" { target_denom amount_in min_amount_out } /;
    c::RebalanceMsg: Init "init" { manager deflation inflation } Finalize "finalize" { } / Trade "trade";
    c::ExecuteMsg: Mint "mint" { amount receiver refund_to } Burn "burn" { redeem_to } Realize "realize" { } / Gov "gov" Rebalance "rebalance";
    c::QueryMsg: GetBalance "get_balance" { account } GetTotalSupply "get_total_supply" { } GetConfig "get_config" { time } GetFee "get_fee" { time } GetPortfolio "get_portfolio" { time } GetRebalance "get_rebalance" { }
        GetTradeInfo "get_trade_info" { denom_in denom_out } ListTradeInfo "list_trade_info" { denom_in start_after limit order } SimulateMint "simulate_mint" { amount funds time } SimulateBurn "simulate_burn" { amount time } /;
    a::AirdropId: / Id "id" Label "label";
    a::RegisterPayload: Open "open" { merkle_root denom label } Bearer "bearer" { merkle_root denom signer_pub signer_sig label } /;
    a::ClaimPayload: Open "open" { airdrop amount account merkle_proof } Bearer "bearer" { airdrop amount account claim_hash claim_sign merkle_proof } /;
    a::ExecuteMsg: / Register "register" Fund "fund" Claim "claim" Close "close";
    a::ListAirdropsQueryOptions: ByID "by_i_d" { start_after limit order } ByType "by_type" { typ start_after limit order } ByLabel "by_label" { start_after limit order } ByCreator "by_creator" { creator start_after limit order } /;
    a::QueryMsg: GetAirdrop "get_airdrop" { id } ListAirdrops "list_airdrops" { option } LatestAirdropId "latest_airdrop_id" { } GetClaim "get_claim" { airdrop claim_key } VerifyClaim "verify_claim" { claim }
        ListClaims "list_claims" { airdrop start_after limit order } GetLabel "get_label" { label } ListLabels "list_labels" { start_after limit order } /;
    a::GetAirdropResponse: Open "open" { id creator denom total_amount total_claimed merkle_root label created_at closed_at } Bearer "bearer" { id creator signer signer_pub denom total_amount total_claimed merkle_root label created_at closed_at } /;
    p::ExecuteMsg: MintExactAmountIn "mint_exact_amount_in" { core_addr input_asset min_output_amount swap_info } MintExactAmountOut "mint_exact_amount_out" { core_addr output_amount input_asset swap_info }
        BurnExactAmountIn "burn_exact_amount_in" { core_addr output_asset min_output_amount swap_info } BurnExactAmountOut "burn_exact_amount_out" { core_addr output_asset swap_info } FinishOperation "finish_operation" { refund_to refund_asset } /;
    p::QueryMsg: SimulateMintExactAmountIn "simulate_mint_exact_amount_in" { core_addr input_asset swap_info } SimulateMintExactAmountOut "simulate_mint_exact_amount_out" { core_addr output_amount input_asset swap_info }
        SimulateBurnExactAmountIn "simulate_burn_exact_amount_in" { core_addr input_amount output_asset swap_info } SimulateBurnExactAmountOut "simulate_burn_exact_amount_out" { core_addr output_asset swap_info } /;
}
