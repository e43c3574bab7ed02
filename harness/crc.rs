//! Checksums of short buffers.
use super::*;

/// What was stamped checks, and a changed burst of up to 32 bits does not.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(20))]
pub fn crc_detects() {
    let mut b = vk::bytes::<10>();
    add_crc32(&mut b[..]);
    assert!(check_crc(&b[..]), "what was stamped checks");
    let at = vk::below(7);
    let x = vk::bytes::<4>();
    let mut i = 0;
    while i < 4 {
        b[at + i] ^= x[i];
        i += 1;
    }
    assert!(check_crc(&b[..]) == (x == [0; 4]), "a burst is seen");
    vk::reach!(x != [0; 4], "changed");
}
/// The stamp changes nothing but the last four bytes.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(20))]
pub fn crc_keeps() {
    let b = vk::bytes::<9>();
    let mut c = b;
    add_crc32(&mut c[..]);
    assert!(c[..5] == b[..5], "the contents stay");
    assert!(!check_crc(&b[..4]) && !check_crc(&b[..0]), "too short to check");
    vk::reach!(c != b, "stamped");
}
