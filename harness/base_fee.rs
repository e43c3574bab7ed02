//! The base fee of the next epoch, for all fees, gas and targets. Decided over the integers (lib/mir.py).
use super::*;

const TOP: u64 = u64::MAX - u64::MAX / 8;
fn min(a: u64, b: u64) -> u64 {
    if a < b { a } else { b }
}
/// Up to an eighth up or down, in proportion to what is used above or below the target; never below the minimum.
#[cfg_attr(kani, kani::proof)]
pub fn base_fee_formula() {
    let (fee, used, target) = (vk::u64(), vk::u64(), vk::u64());
    vk::assume(target > 0 && target <= u64::MAX / 2 && fee <= TOP);
    let n = compute_next_base_fee_eip1559(fee, used, target);
    let used = min(used, 2 * target);
    let raw = if used == target {
        fee
    } else if used > target {
        let d = fee as u128 * (used - target) as u128 / (target as u128 * 8);
        fee + if d < 1 { 1 } else { d as u64 }
    } else {
        fee - (fee as u128 * (target - used) as u128 / (target as u128 * 8)) as u64
    };
    assert!(n == if raw < 7 { 7 } else { raw }, "the EIP-1559 formula");
    vk::reach!(used > target && n > fee + 1, "up");
    vk::reach!(used < target && n < fee, "down");
}
/// For whatever it is given: an answer, at least the minimum, within an eighth of the fee.
#[cfg_attr(kani, kani::proof)]
pub fn base_fee_total() {
    let (fee, used, target) = (vk::u64(), vk::u64(), vk::u64());
    let n = compute_next_base_fee_eip1559(fee, used, target);
    assert!(n >= 7, "never below the protocol's minimum");
    let f = min(fee, TOP);
    if target == 0 {
        assert!(n == if fee < 7 { 7 } else { fee }, "no target, no change");
    } else {
        assert!(n <= f + f / 8 + 1 || n == 7, "an eighth up at most");
        assert!(n >= f - f / 8, "an eighth down at most");
        if used > target && target <= u64::MAX / 2 {
            assert!(n > f || n == 7, "above the target it rises");
        }
        if used < target && target <= u64::MAX / 2 {
            assert!(n <= f || n == 7, "below it does not");
        }
    }
}
/// A fixed fee stays what governance set; the other strategy is the formula.
#[cfg_attr(kani, kani::proof)]
pub fn base_fee_strategy() {
    let (fee, used, x) = (vk::u64(), vk::u64(), vk::u64());
    assert!(next_base_fee_for_config(WorkerFeeConfig::Static { fee: x }, fee, used) == x, "a fixed fee");
    assert!(next_base_fee_for_config(WorkerFeeConfig::Eip1559 { target_gas: x }, fee, used) == compute_next_base_fee_eip1559(fee, used, x), "the formula");
}
