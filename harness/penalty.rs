//! The gas penalty, for all gas limits and all gas used. Decided over the integers (lib/mir.py).
use super::*;

/// The documented formula, with 9 decimal digits of the ratio.
fn formula(limit: u64, used: u64) -> u64 {
    let ratio = 1_000_000_000u128 * used as u128 / limit as u128;
    if ratio >= 100_000_000 {
        return 0;
    }
    let below = 100_000_000u128 - ratio;
    (below * below * (limit - used) as u128 / 10_000_000_000_000_000u128) as u64
}
#[cfg_attr(kani, kani::proof)]
pub fn penalty_value() {
    let (limit, used) = (vk::u64(), vk::u64());
    vk::assume(used <= limit);
    let p = calculate_gas_penalty(limit, used);
    if limit <= 210_000 {
        assert!(p == 0, "small limits are free");
    } else {
        assert!(p == formula(limit, used), "the square of what is missing to a tenth, of the unused gas");
        vk::reach!(p > 1_000_000, "a penalty");
    }
}
/// Never more than the unused gas, nothing from a tenth on, and something below (if it makes a unit).
#[cfg_attr(kani, kani::proof)]
pub fn penalty_bound() {
    let (limit, used) = (vk::u64(), vk::u64());
    vk::assume(used <= limit);
    let p = calculate_gas_penalty(limit, used);
    assert!(p <= limit - used, "never more than the unused gas");
    if used as u128 * 10 >= limit as u128 {
        assert!(p == 0, "nothing from a tenth on");
    }
    vk::reach!(limit > 210_000 && used as u128 * 10 < limit as u128, "below");
}
/// More gas used is never more penalty.
#[cfg_attr(kani, kani::proof)]
pub fn penalty_falls() {
    let (limit, used, more) = (vk::u64(), vk::u64(), vk::u64());
    vk::assume(used <= more && more <= limit);
    assert!(calculate_gas_penalty(limit, more) <= calculate_gas_penalty(limit, used), "more use, no more penalty");
}
/// Whatever it is given, it answers.
#[cfg_attr(kani, kani::proof)]
pub fn penalty_total() {
    let (limit, used) = (vk::u64(), vk::u64());
    let p = calculate_gas_penalty(limit, used);
    assert!(used <= limit || p == 0, "nothing is unused, nothing is charged");
}
