//! The first error is the one that is kept.
use super::*;

#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn latch_first() {
    let (tx, mut rx) = watch::channel::<Option<u32>>(None);
    let e: [u32; 3] = [vk::u32(), vk::u32(), vk::u32()];
    let mut i = 0;
    while i < 3 {
        latch_first_error(&tx, e[i]);
        let told = rx.has_changed() == Ok(true);
        assert!(told == (i == 0), "a reader is told of the first error and of nothing else");
        assert!(*rx.borrow_and_update() == Some(e[0]), "the first error stays");
        assert!(*tx.borrow() == Some(e[0]), "the first error stays");
        i += 1;
    }
    vk::reach!(e[0] != e[1], "different errors");
    std::mem::forget((tx, rx));
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(6))]
pub fn latch_empty_name() {
    let (tx, rx) = watch::channel::<Option<Option<u8>>>(None);
    let e = if vk::bool() { Some(vk::u8()) } else { None };
    latch_first_error(&tx, e);
    latch_first_error(&tx, Some(vk::u8()));
    assert!(*rx.borrow() == Some(e), "the first error stays");
    vk::reach!(e.is_none(), "an error without content");
    std::mem::forget((tx, rx));
}
