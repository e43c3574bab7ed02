//! Bloom: no false negatives.
use super::*;

fn hash() -> B256 {
    B256(vk::bytes())
}
/// Whatever is added is contained from then on, also in what the bytes are loaded into.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn bloom_no_false_negative() {
    let mut b = Bloom::new();
    let (x, y) = (hash(), hash());
    assert!(!b.contains(x), "empty at first");
    b.accrue(x);
    assert!(b.contains(x), "what was added is contained");
    b.accrue(y);
    assert!(b.contains(x) && b.contains(y), "and stays so");
    vk::reach!(x != y, "two");
    std::mem::forget(b);
}
/// The bytes are all there is to it.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn bloom_reloaded() {
    let mut b = Bloom::new();
    let x = hash();
    b.accrue(x);
    let mut v = Vec::new();
    v.extend_from_slice(b.data());
    let c = Bloom::try_from(v).expect("load");
    assert!(c.contains(x), "what was added is contained");
    let y = hash();
    assert!(c.contains(y) == b.contains(y), "the same filter");
    vk::reach!(c.contains(y), "another");
    std::mem::forget((b, c));
}
/// Only exactly as many bytes as a filter has.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(66))]
pub fn bloom_size() {
    let v = vstd::vec::from_elem(0u8, BLOOM_SIZE_BYTES - 1);
    let r = Bloom::try_from(v);
    assert!(r.is_err(), "too few bytes");
    std::mem::forget(r);
    let v = vstd::vec::from_elem(0u8, 0);
    let r = Bloom::try_from(v);
    assert!(r.is_err(), "no bytes");
    std::mem::forget(r);
    vk::reach!(true, "sizes");
}
