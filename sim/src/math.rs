//! Independent price and rounding arithmetic of the reference model.
use cosmwasm_std::Uint256;

pub type U256 = Uint256;
pub const MIN_TICK: i64 = -108_000_000;
pub const MAX_TICK: i64 = 182_402_823;
pub const ONE: u128 = 1_000_000_000_000_000_000;

/// Price of a tick in 1e-18 units, from the published geometric-additive formula.
pub fn price(tick: i64) -> u128 {
    let d = tick / 9_000_000;
    let e = -6 + d - if tick < 0 { 1 } else { 0 };
    let inc: i128 = if 18 + e < 0 { 0 } else { 10i128.pow((18 + e) as u32) };
    let n = (tick - d * 9_000_000) as i128;
    let geo: i128 = 10i128.pow((18 + d) as u32);
    // The largest price is just below 2^128: add as unsigned.
    if n < 0 {
        geo as u128 - (-n * inc) as u128
    } else {
        geo as u128 + n as u128 * inc as u128
    }
}

fn wide(a: u128) -> U256 {
    Uint256::from(a)
}

pub fn to_u128(v: U256) -> Option<u128> {
    cosmwasm_std::Uint128::try_from(v).ok().map(|x| x.u128())
}

pub fn sat_u128(v: U256) -> u128 {
    to_u128(v).unwrap_or(u128::MAX)
}

/// What `amt` of an order's deposit denomination is worth in the other one, rounded down.
pub fn value_floor(bid: bool, amt: u128, p: u128) -> U256 {
    if bid {
        wide(amt) * wide(ONE) / wide(p)
    } else {
        wide(amt) * wide(p) / wide(ONE)
    }
}

/// The same, rounded up.
pub fn value_ceil(bid: bool, amt: u128, p: u128) -> U256 {
    let (num, den) = if bid { (wide(amt) * wide(ONE), wide(p)) } else { (wide(amt) * wide(p), wide(ONE)) };
    if num.is_zero() {
        num
    } else {
        (num - U256::one()) / den + U256::one()
    }
}

/// floor(amt * rate), rate in 1e-18 units.
pub fn share(amt: U256, rate: u128) -> U256 {
    amt.multiply_ratio(wide(rate), wide(ONE))
}
