//! Exact wide arithmetic for the oracles (independent of the code under test).
use cosmwasm_std::{Uint128, Uint256, Uint512};

pub const E18: u128 = 1_000_000_000_000_000_000;

pub fn w(x: u128) -> Uint512 { Uint512::from(Uint128::new(x)) }
pub fn wmul(a: u128, b: u128) -> Uint512 { w(a) * w(b) }

/// floor(a*b/d) as u128, None when it does not fit
pub fn muldiv(a: u128, b: u128, d: u128) -> Option<u128> {
    if d == 0 { return None; }
    let q = Uint256::from(a) * Uint256::from(b) / Uint256::from(d);
    to_u128(q)
}
pub fn muldiv_ceil(a: u128, b: u128, d: u128) -> Option<u128> {
    if d == 0 { return None; }
    let n = Uint256::from(a) * Uint256::from(b);
    let d = Uint256::from(d);
    let q = n / d;
    let q = if q * d == n { q } else { q + Uint256::one() };
    to_u128(q)
}
pub fn mulmod(a: u128, b: u128, d: u128) -> u128 {
    let n = Uint256::from(a) * Uint256::from(b);
    to_u128(n % Uint256::from(d)).unwrap()
}
pub fn to_u128(v: Uint256) -> Option<u128> {
    Uint128::try_from(v).ok().map(|v| v.u128())
}
/// floor(unit * amount) for an 18 decimals unit
pub fn unit_mul(unit: u128, amount: u128) -> Option<u128> { muldiv(unit, amount, E18) }
