//! The parts of a nonce.
use super::*;

#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(2))]
pub fn slots_nonce() {
    let (e, r) = (vk::u32(), vk::u32());
    assert!(deconstruct_nonce(((e as u64) << 32) | r as u64) == (e, r), "the epoch above, the round below");
    let n = vk::u64();
    let (e, r) = deconstruct_nonce(n);
    assert!(((e as u64) << 32) + r as u64 == n, "no bit is lost");
    vk::reach!(e > 0 && r > e, "both parts");
}
